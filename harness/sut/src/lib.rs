//! The entry points of templito the checks use, with its generic functions
//! instantiated here so that they are built with instrumentation.
use std::collections::HashMap;
use std::str::FromStr;
pub use templito::func_man::{self, BasicFuncs, FuncAdder, FuncManager, TFunc};
pub use templito::prelude::*;
pub use templito::temp_man::{BasicTemps, NoTemplates, TempManager};
pub use templito::tparam::{TCow, TParam, KV};
pub use templito::{TData, TreeTemplate, WithFuncs};

pub type Exports = HashMap<String, TData>;

pub fn parse(s: &str) -> Result<TreeTemplate, String> {
    TreeTemplate::from_str(s).map_err(|e| e.to_string())
}
pub fn parse_data(s: &str) -> Result<TData, String> {
    TData::from_str(s).map_err(|e| e.to_string())
}
pub fn run_exp(
    t: &TreeTemplate,
    params: &[&dyn TParam],
    tm: &mut BasicTemps,
    fm: &BasicFuncs,
) -> Result<(String, Exports), String> {
    t.run_exp(params, tm, fm).map_err(|e| e.to_string())
}
pub fn run(
    t: &TreeTemplate,
    params: &[&dyn TParam],
    tm: &mut BasicTemps,
    fm: &BasicFuncs,
) -> Result<String, String> {
    t.run(params, tm, fm).map_err(|e| e.to_string())
}
pub fn run_no_temps(
    t: &TreeTemplate,
    params: &[&dyn TParam],
    fm: &BasicFuncs,
) -> Result<(String, Exports), String> {
    t.run_exp(params, &mut NoTemplates, fm).map_err(|e| e.to_string())
}
pub fn front_matter(t: &TreeTemplate, fm: &BasicFuncs) -> Exports {
    t.front_matter(fm)
}
/// Call a registered helper directly with the given values.
pub fn direct(fm: &BasicFuncs, name: &str, args: &[TData]) -> Result<TData, String> {
    let f = fm.get_func(name).ok_or_else(|| format!("NO SUCH HELPER {}", name))?;
    let v: Vec<TCow> = args.iter().map(|d| TCow::Borrowed(d)).collect();
    f(&v).map(|r| r.into_owned()).map_err(|e| e.to_string())
}
