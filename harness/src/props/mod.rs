use crate::engine::*;
use crate::lang::*;
use crate::val::*;
use sut::*;

pub mod total;
pub mod syntax;
pub mod language;
pub mod data;
pub mod numbers;
pub mod lists;
pub mod strings;
pub mod formats;
pub mod files;
pub mod registry;
pub mod structure;
pub mod host;
pub mod threads;

pub fn all() -> Vec<Prop> {
    let mut r = vec![];
    r.extend(total::props());
    r.extend(syntax::props());
    r.extend(language::props());
    r.extend(data::props());
    r.extend(numbers::props());
    r.extend(lists::props());
    r.extend(strings::props());
    r.extend(formats::props());
    r.extend(files::props());
    r.extend(registry::props());
    r.extend(structure::props());
    r.extend(host::props());
    r.extend(threads::props());
    r.sort_by_key(|p| p.id);
    r
}

thread_local! {
    static FM: &'static BasicFuncs = Box::leak(Box::new(func_man::default_func_man()));
}
/// the default helpers
pub fn fm() -> &'static BasicFuncs {
    FM.with(|f| *f)
}
pub fn names(fm: &BasicFuncs) -> Vec<String> {
    let v = std::cell::RefCell::new(vec![]);
    fm.for_each(|k, _| v.borrow_mut().push(k.clone()));
    let mut v = v.into_inner();
    v.sort();
    v
}
pub fn show_args(a: &[V]) -> String {
    a.iter().map(|v| v.canon()).collect::<Vec<_>>().join(" ")
}
/// Call a helper in one of the ways a program can: directly, in an export of a
/// template with the arguments as parameters, or nested in other expressions.
pub fn invoke_on(fm: &BasicFuncs, s: &mut Source, name: &str, args: &[V]) -> Result<V, String> {
    let tds: Vec<TData> = args.iter().map(|v| v.td()).collect();
    let refs: Vec<String> = (0..args.len()).map(|i| format!("${}", i)).collect();
    let text = match s.draw(6) {
        0..=2 => return direct(fm, name, &tds).map(|d| V::from_td(&d)),
        3 => format!("{{{{export r = {} {}}}}}", name, refs.join(" ")),
        4 => {
            // arguments that are literals are written out
            let mut v = vec![];
            for (i, a) in args.iter().enumerate() {
                match a {
                    V::Int(n) if *n >= 0 => v.push(refs[i].clone()),
                    V::Float(_) | V::Bytes(_) | V::List(_) | V::Map(_) | V::Tmpl(_) | V::Date(..) => v.push(refs[i].clone()),
                    a => {
                        let mut p = Printer::new(s, false);
                        v.push(p.lit(a))
                    }
                }
            }
            format!("{{{{export r = {} {}}}}}", name, v.join(" "))
        }
        _ => {
            let mut l = String::from("{{let ");
            for i in 0..args.len() {
                l.push_str(&format!("v{} = ${};", i, i));
            }
            l.push_str(&format!("x = [({} {})]", name, (0..args.len()).map(|i| format!("$v{}", i)).collect::<Vec<_>>().join(" ")));
            l.push_str("}}{{export r = $x.0}}");
            l
        }
    };
    let t = parse(&text).map_err(|e| format!("PARSE of {:?}: {}", text, e))?;
    let ps: Vec<&dyn TParam> = tds.iter().map(|t| t as &dyn TParam).collect();
    let (_, ex) = run_exp(&t, &ps, &mut BasicTemps::new(), fm)?;
    ex.get("r").map(V::from_td).ok_or_else(|| "no export r".to_string())
}
pub fn invoke(s: &mut Source, name: &str, args: &[V]) -> Result<V, String> {
    invoke_on(fm(), s, name, args)
}
pub fn res_canon(r: &Result<V, String>) -> String {
    match r {
        Ok(v) => v.canon(),
        Err(e) => format!("error: {}", e),
    }
}
/// the helper's result must be exactly this (None: must be an error)
pub fn expect(ctx: &mut Ctx, s: &mut Source, sig: &str, name: &'static str, args: &[V], want: Option<V>) -> R {
    ctx.note(format!("{} {}", name, show_args(args)));
    ctx.op(name);
    let got = invoke(s, name, args);
    let ok = match (&want, &got) {
        (Some(w), Ok(g)) => w.same(g),
        (None, Err(_)) => true,
        _ => false,
    };
    crate::ensure!(ok, sig, "{} {}\nexpected: {}\n     got: {}", name, show_args(args), want.map_or("an error".to_string(), |w| w.canon()), res_canon(&got));
    Ok(())
}
