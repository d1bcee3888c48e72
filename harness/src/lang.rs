//! Reference model of the template language: syntax tree, printer with free
//! formatting, generator, and an interpreter written from the language rules.
use crate::engine::{Ctx, Source, R};
use crate::val::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use sut::*;

// ------------------------------------------------------------ syntax
#[derive(Clone, Debug)]
pub enum E {
    Lit(V),
    /// $0.a.1 / $name.a
    Var(Vec<Part>),
    At,
    Call(String, Vec<E>),
    List(Vec<E>),
    Map(Vec<(String, E)>),
}
#[derive(Clone, Debug)]
pub enum Pat {
    Any,
    Val(V),
    List(Vec<Pat>),
    /// None: {key} captures the entry under its own name
    Map(Vec<(String, Option<Pat>)>),
    Cap(String, Option<Box<Pat>>),
    Filter(E),
}
pub type Block = Vec<Item>;
#[derive(Clone, Debug)]
pub enum Item {
    Text(String),
    Exp(E),
    If(Vec<(E, Block)>, Option<Block>),
    For(String, String, E, Block),
    Let(Vec<(String, E)>),
    Export(Vec<(String, E)>),
    AtLet(String, Block),
    AtExport(String, Block),
    Block(String, Vec<E>, Block),
    Define(String, Vec<String>, Rc<Block>),
    Global(String, Vec<String>, Rc<Block>),
    Return(E),
    Switch(E, String, Vec<(Vec<Pat>, Block)>),
    As(E, Pat, Block),
}
pub fn call(n: &str, a: Vec<E>) -> E {
    E::Call(n.to_string(), a)
}
pub fn var(n: &str) -> E {
    E::Var(vec![Part::K(n.to_string())])
}
pub fn lit(v: V) -> E {
    E::Lit(v)
}
pub fn lstr(s: &str) -> E {
    E::Lit(V::s(s))
}

// ------------------------------------------------------------ helpers known to model and code
/// every alias behaves as "rec"; the names begin like keywords on purpose
pub const REC: &[&str] = &["rec", "iffy", "formal", "lettuce", "assert", "returned", "nullify", "trueish", "elseif", "defined", "globally", "exporter", "switcher", "cases", "as_b", "in2", "false0", "jan", "e1", "a_name_of_some_length1", "a_name_of_some_length2"];
pub const TAKE1: &[&str] = &["wrap"];
pub type Log = Rc<RefCell<Vec<String>>>;

pub fn canon_args(a: &[V]) -> String {
    a.iter().map(|v| v.canon()).collect::<Vec<_>>().join(" ")
}
/// The semantics of the helpers used in generated programs.
/// None: unknown name. Some(Err): the helper fails.
fn helper(name: &str, a: &[V], log: &mut Vec<String>) -> Option<Result<V, ()>> {
    if REC.contains(&name) {
        log.push(format!("{}({})", name, canon_args(a)));
        return Some(Ok(a.last().cloned().unwrap_or(V::Null)));
    }
    Some(match name {
        "show" => Ok(V::Str(canon_args(a))),
        "nothing" => {
            log.push(format!("nothing({})", canon_args(a)));
            Ok(V::Null)
        }
        "broken" => {
            log.push(format!("broken({})", canon_args(a)));
            Err(())
        }
        "wrap" => {
            log.push(format!("wrap({})", canon_args(a)));
            Ok(V::Str(format!("<{}>", canon_args(a))))
        }
        "pack" => Ok(V::List(a.to_vec())),
        "same" => Ok(V::Bool(a.windows(2).all(|w| w[0].same(&w[1])))),
        _ => return None,
    })
}
pub const HELPERS: &[&str] = &["show", "nothing", "broken", "wrap", "pack", "same"];
fn helper_td(name: &'static str, log: Log) -> Box<TFunc> {
    Box::new(move |args| {
        // templates keep their identity when they are passed through
        let vs: Vec<V> = args.iter().map(|a| V::from_td(a)).collect();
        let r = helper(name, &vs, &mut log.borrow_mut()).unwrap();
        match r {
            Err(()) => Err(anyhow::anyhow!("broken as asked")),
            Ok(_) if name != "show" && name != "wrap" && name != "same" && name != "nothing" => {
                if name == "pack" {
                    Ok(TCow::Owned(TData::List(args.iter().map(|a| a.clone().into_owned()).collect())))
                } else {
                    Ok(TCow::Owned(args.last().map(|a| a.clone().into_owned()).unwrap_or(TData::Null)))
                }
            }
            Ok(v) => Ok(TCow::Owned(v.td())),
        }
    })
}
pub fn helpers() -> (BasicFuncs, Log) {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut fm = BasicFuncs::new();
    for n in REC.iter().chain(HELPERS) {
        fm.add_func(*n, helper_td(n, log.clone()), "test helper");
    }
    (fm, log)
}

// ------------------------------------------------------------ interpreter
#[derive(Clone)]
pub struct Tpl {
    pub pnames: Vec<String>,
    pub body: Rc<Block>,
}
#[derive(Default)]
pub struct Model {
    pub templates: Vec<Tpl>,
    pub globals: BTreeMap<String, usize>,
    pub log: Vec<String>,
    /// the outcome is not specified (map order, display of maps): discard
    pub unspecified: bool,
    /// globals cannot be stored (front matter)
    pub no_globals: bool,
    pub depth: usize,
    pub steps: usize,
    pub seen: Vec<&'static str>,
}
/// What a loop variable is worth once its loop has run: not specified
const AFTER_LOOP: usize = usize::MAX;
pub struct Frame {
    params: Vec<V>,
    pnames: Vec<String>,
    maps: Vec<BTreeMap<String, V>>,
    pub exports: BTreeMap<String, V>,
    ret: Option<V>,
    /// for every open block: a block helper with parameters has stood in it, so whether
    /// @ is set there is not specified
    at_used: Vec<bool>,
}
impl Frame {
    pub fn new(params: Vec<V>, pnames: Vec<String>) -> Self {
        Frame { params, pnames, maps: vec![BTreeMap::new()], exports: BTreeMap::new(), ret: None, at_used: vec![false] }
    }
    fn lookup(&self, p: &[Part]) -> Option<V> {
        match &p[0] {
            Part::N(n) => self.params.get(*n)?.get(&p[1..]),
            Part::K(k) => {
                for m in self.maps.iter().rev() {
                    if let Some(v) = m.get(k) {
                        return v.get(&p[1..]);
                    }
                }
                let i = self.pnames.iter().position(|n| n == k)?;
                self.params.get(i)?.get(&p[1..])
            }
        }
    }
    /// a loop variable, looked at after the loop it belongs to
    fn leaked(&self, p: &[Part]) -> bool {
        match &p[0] {
            Part::K(k) => matches!(self.maps.iter().rev().find_map(|m| m.get(k)), Some(V::Tmpl(AFTER_LOOP))),
            _ => false,
        }
    }
    fn push(&mut self) {
        self.maps.push(BTreeMap::new());
        self.at_used.push(false);
    }
    fn pop(&mut self) {
        self.maps.pop();
        self.at_used.pop();
    }
    fn set(&mut self, k: &str, v: V) {
        self.maps.last_mut().unwrap().insert(k.to_string(), v);
    }
    fn export(&mut self, k: &str, v: V) {
        self.maps[0].insert(k.to_string(), v.clone());
        self.exports.insert(k.to_string(), v);
    }
}
type Res<T> = Result<T, ()>;
impl Model {
    fn tick(&mut self) -> Res<()> {
        self.steps += 1;
        if self.steps > 20_000 {
            self.unspecified = true;
            return Err(());
        }
        Ok(())
    }
    pub fn eval(&mut self, e: &E, f: &Frame) -> Res<V> {
        self.tick()?;
        match e {
            E::Lit(v) => Ok(v.clone()),
            E::Var(p) => {
                if f.leaked(p) {
                    self.unspecified = true;
                    return Err(());
                }
                f.lookup(p).ok_or(())
            }
            E::At => {
                for (n, m) in f.maps.iter().enumerate().rev() {
                    if let Some(v) = m.get("@") {
                        return Ok(v.clone());
                    }
                    if f.at_used[n] {
                        self.unspecified = true;
                        return Err(());
                    }
                }
                Err(())
            }
            E::List(l) => {
                let mut r = vec![];
                for x in l {
                    r.push(self.eval(x, f)?);
                }
                Ok(V::List(r))
            }
            E::Map(m) => {
                let mut r = BTreeMap::new();
                for (k, x) in m {
                    r.insert(k.clone(), self.eval(x, f)?);
                }
                Ok(V::Map(r))
            }
            E::Call(n, args) if n == "first" => {
                for a in args {
                    if let Ok(v) = self.eval(a, f) {
                        if !matches!(v, V::Null) {
                            return Ok(v);
                        }
                    }
                }
                Ok(V::Null)
            }
            E::Call(n, args) if n == "select" => {
                if args.len() < 3 {
                    return Err(());
                }
                let c = self.eval(&args[0], f)?;
                let i = match c.index() {
                    Some(n) => n.checked_add(1).ok_or(())?,
                    None => match c.truth().ok_or(())? {
                        true => 1,
                        false => 2,
                    },
                };
                match args.get(i) {
                    Some(a) => self.eval(a, f),
                    None => Err(()),
                }
            }
            E::Call(n, args) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a, f)?);
                }
                if n == "run" {
                    return match v.get(0) {
                        Some(V::Tmpl(i)) => {
                            let t = self.templates[*i].clone();
                            self.call_tpl(&t, v[1..].to_vec())
                        }
                        _ => self.call(n, v),
                    };
                }
                self.call(n, v)
            }
        }
    }
    fn call(&mut self, n: &str, v: Vec<V>) -> Res<V> {
        if let Some(r) = helper(n, &v, &mut self.log) {
            return r;
        }
        match self.globals.get(n) {
            Some(i) => {
                let t = self.templates[*i].clone();
                self.call_tpl(&t, v)
            }
            None => Err(()),
        }
    }
    pub fn call_tpl(&mut self, t: &Tpl, params: Vec<V>) -> Res<V> {
        if self.depth > 12 {
            self.unspecified = true;
            return Err(());
        }
        self.seen.push("template-call");
        self.depth += 1;
        let mut f = Frame::new(params, t.pnames.clone());
        let r = self.items(&t.body, &mut f);
        self.depth -= 1;
        let s = r?;
        Ok(f.ret.unwrap_or(V::Str(s)))
    }
    pub fn items(&mut self, b: &[Item], f: &mut Frame) -> Res<String> {
        let mut s = String::new();
        for i in b {
            s.push_str(&self.item(i, f)?);
        }
        Ok(s)
    }
    fn block(&mut self, b: &[Item], f: &mut Frame) -> Res<String> {
        f.push();
        let r = self.items(b, f);
        f.pop();
        r
    }
    fn display(&mut self, v: &V) -> String {
        if !v.displayable() {
            self.unspecified = true;
        }
        v.display()
    }
    pub fn item(&mut self, i: &Item, f: &mut Frame) -> Res<String> {
        self.tick()?;
        let none = Ok(String::new());
        match i {
            Item::Text(t) => Ok(t.clone()),
            Item::Exp(e) => {
                let v = self.eval(e, f)?;
                Ok(self.display(&v))
            }
            Item::If(arms, no) => {
                for (n, (c, b)) in arms.iter().enumerate() {
                    let t = match self.eval(c, f) {
                        Ok(v) => v.truth() == Some(true),
                        Err(()) => {
                            self.seen.push("failing-condition");
                            false
                        }
                    };
                    if t {
                        self.seen.push(if n == 0 { "if-taken" } else { "elif-taken" });
                        return self.block(b, f);
                    }
                }
                match no {
                    Some(b) => {
                        self.seen.push("else-taken");
                        self.block(b, f)
                    }
                    None => none,
                }
            }
            Item::For(k, v, e, b) => {
                let it: Box<dyn Iterator<Item = (V, V)>> = match self.eval(e, f)? {
                    V::List(l) => Box::new(l.into_iter().enumerate().map(|(n, v)| (V::UInt(n), v))),
                    V::UInt(n) => Box::new((0..n).map(|n| (V::UInt(n), V::UInt(n)))),
                    V::Int(n) => Box::new((0..n.max(0)).map(|n| (V::UInt(n as usize), V::Int(n)))),
                    V::Map(m) => {
                        if m.len() > 1 {
                            self.unspecified = true;
                        }
                        Box::new(m.into_iter().map(|(k, v)| (V::Str(k), v)))
                    }
                    _ => return Err(()),
                };
                let mut it = it.peekable();
                let ran = it.peek().is_some();
                if !ran && (f.lookup(&[Part::K(k.clone())]).is_some() || f.lookup(&[Part::K(v.clone())]).is_some()) {
                    self.seen.push("empty-loop-over-outer-name");
                }
                let mut s = String::new();
                for (n, (kk, vv)) in it.enumerate() {
                    if n == 1 {
                        self.seen.push("loop-many");
                    }
                    if n >= 100 {
                        // too long to tell: only loops that end early are compared
                        self.unspecified = true;
                        return Err(());
                    }
                    f.push();
                    f.set(k, kk);
                    f.set(v, vv);
                    let r = self.block(b, f);
                    f.pop();
                    s.push_str(&r?);
                }
                if ran {
                    f.set(k, V::Tmpl(AFTER_LOOP));
                    f.set(v, V::Tmpl(AFTER_LOOP));
                }
                Ok(s)
            }
            Item::Let(l) => {
                for (k, e) in l {
                    let v = self.eval(e, f)?;
                    f.set(k, v);
                }
                none
            }
            Item::Export(l) => {
                for (k, e) in l {
                    let v = self.eval(e, f)?;
                    f.export(k, v);
                }
                self.seen.push("export");
                none
            }
            Item::AtLet(k, b) => {
                let s = self.block(b, f)?;
                f.set(k, V::Str(s));
                none
            }
            Item::AtExport(k, b) => {
                let s = self.block(b, f)?;
                f.export(k, V::Str(s));
                self.seen.push("export");
                none
            }
            Item::Block(n, ps, b) => {
                let s = self.block(b, f)?;
                self.seen.push("block-helper");
                let args = if ps.is_empty() {
                    vec![V::Str(s)]
                } else {
                    f.push();
                    f.set("@", V::Str(s));
                    let mut r = Ok(vec![]);
                    for p in ps {
                        match self.eval(p, f) {
                            Ok(v) => {
                                if let Ok(x) = &mut r {
                                    x.push(v)
                                }
                            }
                            Err(()) => {
                                r = Err(());
                                break;
                            }
                        }
                    }
                    f.pop();
                    *f.at_used.last_mut().unwrap() = true;
                    r?
                };
                // a block names a helper or a template, never a built-in form
                let v = self.call(n, args)?;
                Ok(self.display(&v))
            }
            Item::Define(n, pn, b) => {
                self.templates.push(Tpl { pnames: pn.clone(), body: b.clone() });
                let i = self.templates.len() - 1;
                f.set(n, V::Tmpl(i));
                none
            }
            Item::Global(..) if self.no_globals => none,
            Item::Global(n, pn, b) => {
                self.templates.push(Tpl { pnames: pn.clone(), body: b.clone() });
                self.globals.insert(n.clone(), self.templates.len() - 1);
                none
            }
            Item::Return(e) => {
                let v = self.eval(e, f)?;
                // readable as a variable too, which the generator never does
                f.ret = Some(v);
                self.seen.push("return");
                none
            }
            Item::Switch(e, _, cases) => {
                let v = self.eval(e, f)?;
                for (pats, b) in cases {
                    for (n, p) in pats.iter().enumerate() {
                        f.push();
                        if self.matches(p, &v, f) {
                            self.seen.push(if n == 0 { "case-taken" } else { "alternative-taken" });
                            let r = self.block(b, f);
                            f.pop();
                            return r;
                        }
                        f.pop();
                    }
                }
                self.seen.push("no-case");
                none
            }
            Item::As(e, p, b) => {
                let v = self.eval(e, f)?;
                f.push();
                let r = if self.matches(p, &v, f) {
                    self.seen.push("as-taken");
                    self.block(b, f)
                } else {
                    none
                };
                f.pop();
                r
            }
        }
    }
    pub fn matches(&mut self, p: &Pat, v: &V, f: &mut Frame) -> bool {
        match p {
            Pat::Any => true,
            Pat::Val(x) => veq(x, v),
            Pat::List(ps) => match v {
                V::List(l) => {
                    for (i, q) in ps.iter().enumerate() {
                        match l.get(i) {
                            Some(x) if self.matches(q, x, f) => {}
                            _ => return false,
                        }
                    }
                    true
                }
                _ => false,
            },
            Pat::Map(ps) => match v {
                V::Map(m) => {
                    for (k, q) in ps {
                        match (m.get(k), q) {
                            (None, _) => return false,
                            (Some(x), None) => f.set(k, x.clone()),
                            (Some(x), Some(q)) => {
                                if !self.matches(q, x, f) {
                                    return false;
                                }
                            }
                        }
                    }
                    true
                }
                _ => false,
            },
            Pat::Cap(n, q) => {
                if let Some(q) = q {
                    if !self.matches(q, v, f) {
                        return false;
                    }
                }
                f.set(n, v.clone());
                true
            }
            Pat::Filter(e) => {
                f.push();
                f.set("@", v.clone());
                let r = self.eval(e, f);
                f.pop();
                matches!(r, Ok(V::Bool(true)))
            }
        }
    }
    /// Run a whole program: output, exports (with "return")
    pub fn program(&mut self, b: &[Item], params: Vec<V>) -> Res<(String, BTreeMap<String, V>)> {
        let mut f = Frame::new(params, vec![]);
        let s = self.items(b, &mut f)?;
        let mut ex = f.exports;
        if let Some(r) = f.ret {
            ex.insert("return".into(), r);
        }
        Ok((s, ex))
    }
    /// front_matter: top level exports only, no parameters, no templates, failures skipped
    pub fn front(&mut self, b: &[Item]) -> BTreeMap<String, V> {
        let mut f = Frame::new(vec![], vec![]);
        self.no_globals = true;
        let g = std::mem::take(&mut self.globals);
        for i in b {
            match i {
                Item::Export(l) => {
                    for (k, e) in l {
                        if let Ok(v) = self.eval(e, &f) {
                            f.export(k, v);
                        }
                    }
                }
                Item::AtExport(k, b) => {
                    if let Ok(s) = self.block(b, &mut f) {
                        f.export(k, V::Str(s));
                    }
                }
                _ => {}
            }
        }
        self.no_globals = false;
        self.globals = g;
        f.exports
    }
}

// ------------------------------------------------------------ printer
/// Prints a program; every formatting choice comes from the source, so the
/// same tree has many texts that must all mean the same.
pub struct Printer<'a> {
    pub s: &'a mut Source,
    /// false: plainest formatting
    pub free: bool,
    pub out: String,
    tail_ws: bool,
    after_trim: bool,
    /// may leave out closing tags at the end of the text
    pub open_end: bool,
}
pub fn is_ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map_or(false, |c| c.is_ascii_alphabetic()) && c.all(|c| c.is_ascii_alphanumeric() || c == '_')
}
pub const KEYWORDS: &[&str] = &["else", "if", "return", "elif", "for", "switch", "case", "as", "define", "global", "let", "export", "null", "true", "false"];
impl<'a> Printer<'a> {
    pub fn new(s: &'a mut Source, free: bool) -> Self {
        Printer { s, free, out: String::new(), tail_ws: false, after_trim: false, open_end: false }
    }
    fn flip(&mut self, n: u64, d: u64) -> bool {
        self.free && self.s.chance(n, d)
    }
    /// optional whitespace
    fn ws(&mut self) -> String {
        if self.free {
            (*self.s.pick(&["", "", " ", "  ", "\n", "\t", " \n "])).to_string()
        } else {
            String::new()
        }
    }
    /// needed whitespace
    fn sp(&mut self) -> String {
        if self.free {
            (*self.s.pick(&[" ", " ", "  ", "\n", "\t", "\r\n "])).to_string()
        } else {
            " ".into()
        }
    }
    pub fn name(&mut self, n: &str) -> String {
        if !is_ident(n) || KEYWORDS.contains(&n) || self.flip(1, 8) {
            format!("'{}'", n)
        } else {
            n.to_string()
        }
    }
    pub fn qstr(&mut self, x: &str) -> String {
        if self.free && !x.contains("\"#") && !x.ends_with('"') && self.s.chance(1, 8) {
            return format!("r#\"{}\"#", x);
        }
        let mut r = String::from("\"");
        for c in x.chars() {
            match c {
                '"' => r.push_str("\\\""),
                '\\' => r.push_str("\\\\"),
                '\n' if self.flip(1, 2) => r.push_str("\\n"),
                '\t' if self.flip(1, 2) => r.push_str("\\t"),
                '\r' if self.flip(1, 2) => r.push_str("\\r"),
                '/' if self.flip(1, 2) => r.push_str("\\/"),
                '\u{8}' if self.flip(1, 2) => r.push_str("\\b"),
                '\u{c}' if self.flip(1, 2) => r.push_str("\\f"),
                c if self.flip(1, 12) => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        if self.s.chance(1, 2) {
                            r.push_str(&format!("\\u{:04x}", u));
                        } else {
                            r.push_str(&format!("\\u{:04X}", u));
                        }
                    }
                }
                c => r.push(c),
            }
        }
        r.push('"');
        r
    }
    pub fn lit(&mut self, v: &V) -> String {
        match v {
            V::Null => "null".into(),
            V::Bool(b) => b.to_string(),
            V::UInt(n) => n.to_string(),
            V::Int(n) => {
                assert!(*n < 0, "only negative Int literals exist");
                n.to_string()
            }
            V::Float(f) => {
                let s = format!("{:?}", f);
                s
            }
            V::Str(x) => self.qstr(x),
            V::Date(y, m, d) => {
                if self.flip(1, 3) {
                    let n = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"][*m as usize - 1];
                    format!("{}/{}/{}", d, n, y)
                } else {
                    format!("{}/{}/{}", d, m, y)
                }
            }
            V::List(l) => {
                let e = E::List(l.iter().map(|v| E::Lit(v.clone())).collect());
                self.exp(&e, true)
            }
            V::Map(m) => {
                let e = E::Map(m.iter().map(|(k, v)| (k.clone(), E::Lit(v.clone()))).collect());
                self.exp(&e, true)
            }
            _ => panic!("no literal for {:?}", v),
        }
    }
    pub fn path(&mut self, p: &[Part]) -> String {
        let short = p.len() > 1 && p[0] == Part::N(0) && (self.free && self.s.chance(1, 2));
        let mut r = if short { String::new() } else { "$".to_string() };
        for (i, x) in p.iter().enumerate().skip(if short { 1 } else { 0 }) {
            if i > 0 {
                r.push('.');
            }
            match x {
                Part::N(n) => r.push_str(&n.to_string()),
                Part::K(k) => {
                    let n = self.name(k);
                    r.push_str(&n)
                }
            }
        }
        r
    }
    /// `last`: nothing follows that a bare call could swallow
    pub fn exp(&mut self, e: &E, last: bool) -> String {
        let bare = match e {
            E::Call(..) => last && (!self.free || self.s.chance(2, 3)),
            _ => !self.flip(1, 10),
        };
        if !bare {
            let a = self.ws();
            let x = self.exp_bare(e);
            let b = self.ws();
            return format!("({}{}{})", a, x, b);
        }
        self.exp_bare(e)
    }
    fn exp_bare(&mut self, e: &E) -> String {
        match e {
            E::Lit(v) => self.lit(v),
            E::Var(p) => self.path(p),
            E::At => "@".into(),
            E::Call(n, args) => {
                let mut r = self.name(n);
                for (i, a) in args.iter().enumerate() {
                    r.push_str(&self.sp());
                    let x = self.exp(a, i + 1 == args.len());
                    r.push_str(&x);
                }
                r
            }
            E::List(l) => {
                let mut r = String::from("[");
                r.push_str(&self.ws());
                for (i, x) in l.iter().enumerate() {
                    let comma = !self.free || self.s.chance(2, 3);
                    let end = i + 1 == l.len();
                    let t = self.exp(x, comma || end);
                    r.push_str(&t);
                    if !end {
                        if comma {
                            r.push_str(&self.ws());
                            r.push(',');
                            r.push_str(&self.ws());
                        } else {
                            r.push_str(&self.sp());
                        }
                    }
                }
                r.push_str(&self.ws());
                r.push(']');
                r
            }
            E::Map(m) => {
                let mut r = String::from("{");
                r.push_str(&self.ws());
                for (i, (k, x)) in m.iter().enumerate() {
                    let key = if k.contains('\'') || k.is_empty() || (self.free && self.s.chance(1, 3)) { self.qstr(k) } else { self.name(k) };
                    r.push_str(&key);
                    r.push_str(&self.ws());
                    r.push(':');
                    r.push_str(&self.ws());
                    let t = self.exp(x, true);
                    r.push_str(&t);
                    r.push_str(&self.ws());
                    if i + 1 < m.len() {
                        r.push(',');
                        r.push_str(&self.ws());
                    }
                }
                r.push('}');
                r
            }
        }
    }
    pub fn pat(&mut self, p: &Pat) -> String {
        match p {
            Pat::Any => "_".into(),
            Pat::Val(v) => self.lit(v),
            Pat::List(l) => {
                let mut r = String::from("[");
                r.push_str(&self.ws());
                for (i, q) in l.iter().enumerate() {
                    let t = self.pat(q);
                    r.push_str(&t);
                    if i + 1 < l.len() {
                        let c = if self.flip(1, 3) { self.sp() } else { format!("{},{}", self.ws(), self.ws()) };
                        r.push_str(&c);
                    }
                }
                r.push_str(&self.ws());
                r.push(']');
                r
            }
            Pat::Map(m) => {
                let mut r = String::from("{");
                r.push_str(&self.ws());
                for (i, (k, q)) in m.iter().enumerate() {
                    let n = self.name(k);
                    r.push_str(&n);
                    if let Some(q) = q {
                        r.push_str(&self.ws());
                        r.push(':');
                        r.push_str(&self.ws());
                        let t = self.pat(q);
                        r.push_str(&t);
                    }
                    if i + 1 < m.len() {
                        let c = if self.flip(1, 3) { self.sp() } else { format!("{},{}", self.ws(), self.ws()) };
                        r.push_str(&c);
                    }
                }
                r.push_str(&self.ws());
                r.push('}');
                r
            }
            Pat::Cap(n, q) => {
                let a = self.ws();
                let n = self.name(n);
                let b = self.ws();
                match q {
                    None => format!("<{}{}{}>", a, n, b),
                    Some(q) => {
                        let c = self.ws();
                        let t = self.pat(q);
                        let d = self.ws();
                        format!("<{}{}{}:{}{}{}>", a, n, b, c, t, d)
                    }
                }
            }
            Pat::Filter(e) => {
                let a = self.ws();
                let t = self.exp(e, true);
                let b = self.ws();
                format!("?({}{}{})", a, t, b)
            }
        }
    }
    /// one tag with the given inside
    pub fn tag(&mut self, inside: &str) {
        let ltrim = !self.tail_ws && self.flip(1, 6);
        if ltrim {
            let w = self.ws();
            self.out.push_str(&w);
            self.out.push_str("{{-");
            let w = self.ws();
            self.out.push_str(&w);
        } else {
            self.out.push_str("{{");
            let w = self.ws();
            self.out.push_str(&w);
        }
        if inside.starts_with('-') && self.out.ends_with("{{") {
            self.out.push(' ');
        }
        self.out.push_str(inside);
        let w = self.ws();
        self.out.push_str(&w);
        self.tail_ws = false;
        if self.flip(1, 6) {
            self.out.push_str("-}}");
            let w = self.ws();
            self.out.push_str(&w);
            self.after_trim = true;
        } else {
            // an identifier or number directly before '-' is not possible here
            self.out.push_str("}}");
            self.after_trim = false;
        }
    }
    pub fn raw(&mut self, t: &str) {
        self.out.push_str(t);
        self.tail_ws = false;
        self.after_trim = false;
    }
    pub fn text(&mut self, t: &str) {
        if t.is_empty() {
            return;
        }
        if t.starts_with(|c| " \n\t\r".contains(c)) && self.after_trim {
            self.out.push_str("{{##}}");
        }
        self.after_trim = false;
        let cs: Vec<char> = t.chars().collect();
        for (i, &c) in cs.iter().enumerate() {
            if self.flip(1, 25) {
                let w = self.sp();
                self.out.push('\\');
                self.out.push_str(&w);
                self.out.push('\\');
            }
            let ws = " \n\t\r".contains(c);
            let must = c == '\\' || (c == '{' && !(i + 1 < cs.len() && cs[i + 1] != '{'));
            if must || (c == '{' && !self.free) || (!ws && self.flip(1, 20)) {
                self.out.push('\\');
            }
            self.out.push(c);
            self.tail_ws = ws;
        }
    }
    fn close(&mut self, n: &str, root_last: bool) {
        if root_last && self.open_end {
            return;
        }
        let n = if KEYWORDS.contains(&n) || ["let", "export"].contains(&n) { n.to_string() } else { self.name(n) };
        let t = format!("/{}", n);
        self.tag(&t);
    }
    fn assigns(&mut self, kw: &str, l: &[(String, E)]) {
        let mut t = kw.to_string();
        t.push_str(&self.sp());
        for (i, (k, e)) in l.iter().enumerate() {
            let n = self.name(k);
            t.push_str(&n);
            t.push_str(&self.ws());
            t.push('=');
            t.push_str(&self.ws());
            let newline = self.flip(1, 4);
            let x = self.exp(e, !newline);
            t.push_str(&x);
            let end = i + 1 == l.len();
            if newline {
                t.push('\n');
            } else if !end || self.flip(1, 4) {
                if self.flip(1, 3) {
                    t.push(' ');
                }
                t.push(if self.flip(1, 3) { ',' } else { ';' });
                let w = self.ws();
                t.push_str(&w);
            }
        }
        self.tag(&t);
    }
    pub fn block(&mut self, b: &[Item], root_last: bool) {
        for (i, x) in b.iter().enumerate() {
            self.item(x, root_last && i + 1 == b.len());
        }
    }
    pub fn item(&mut self, i: &Item, rl: bool) {
        if self.flip(1, 15) {
            let c = *self.s.pick(&["##", "# note #", "#}}{{#", "# {{if}} #", "#\n\"'\\#"]);
            self.tag(c);
        }
        match i {
            Item::Text(t) => {
                let t = t.clone();
                self.text(&t)
            }
            Item::Exp(e) => {
                let t = self.exp(e, true);
                self.tag(&t)
            }
            Item::If(arms, no) => {
                for (n, (c, b)) in arms.iter().enumerate() {
                    let t = format!("{}{}{}", if n == 0 { "if" } else { "elif" }, self.sp(), self.exp(c, true));
                    self.tag(&t);
                    self.block(b, false);
                }
                if let Some(b) = no {
                    self.tag("else");
                    self.block(b, rl);
                    self.close("if", rl);
                } else {
                    self.close("if", false);
                }
            }
            Item::For(k, v, e, b) => {
                let t = format!("for{}{}{}{}{}in{}{}", self.sp(), self.name(k), self.sp(), self.name(v), self.sp(), self.sp(), self.exp(e, true));
                self.tag(&t);
                self.block(b, rl);
                self.close("for", rl);
            }
            Item::Let(l) => self.assigns("let", l),
            Item::Export(l) => self.assigns("export", l),
            Item::AtLet(k, b) => {
                let t = format!("@let{}{}", self.sp(), self.name(k));
                self.tag(&t);
                self.block(b, rl);
                self.close("let", rl);
            }
            Item::AtExport(k, b) => {
                let t = format!("@export{}{}", self.sp(), self.name(k));
                self.tag(&t);
                self.block(b, rl);
                self.close("export", rl);
            }
            Item::Block(n, ps, b) => {
                let mut t = format!("@{}", self.name(n));
                for (i, p) in ps.iter().enumerate() {
                    // '\r' is not accepted directly after the block name
                    t.push_str(if i == 0 { " " } else { "" });
                    if i > 0 {
                        t.push_str(&self.sp());
                    }
                    let x = self.exp(p, i + 1 == ps.len());
                    t.push_str(&x);
                }
                self.tag(&t);
                self.block(b, rl);
                self.close(n, rl);
            }
            Item::Define(n, pn, b) | Item::Global(n, pn, b) => {
                let kw = if matches!(i, Item::Define(..)) { "define" } else { "global" };
                let mut t = format!("{}{}{}", kw, self.sp(), self.name(n));
                for p in pn {
                    t.push_str(&self.sp());
                    let x = self.name(p);
                    t.push_str(&x);
                }
                self.tag(&t);
                self.block(b, rl);
                self.close(kw, rl);
            }
            Item::Return(e) => {
                let t = format!("return{}{}", self.sp(), self.exp(e, true));
                self.tag(&t)
            }
            Item::Switch(e, pre, cases) => {
                let t = format!("switch{}{}", self.sp(), self.exp(e, true));
                self.tag(&t);
                self.text(pre);
                if self.flip(1, 5) {
                    self.tag("# first #");
                }
                for (n, (ps, b)) in cases.iter().enumerate() {
                    let mut t = String::from("case");
                    for p in ps {
                        t.push_str(&self.sp());
                        let x = self.pat(p);
                        t.push_str(&x);
                    }
                    self.tag(&t);
                    self.block(b, rl && n + 1 == cases.len());
                }
                self.close("switch", rl);
            }
            Item::As(e, p, b) => {
                let t = format!("as{}{}{}:{}{}", self.sp(), self.exp(e, true), self.ws(), self.ws(), self.pat(p));
                self.tag(&t);
                self.block(b, rl);
                self.close("as", rl);
            }
        }
    }
}
pub fn print(s: &mut Source, b: &[Item], free: bool) -> String {
    let mut p = Printer::new(s, free);
    p.open_end = p.flip(1, 6);
    p.block(b, true);
    p.out
}

// ------------------------------------------------------------ generator
#[derive(Clone, Copy)]
pub struct Weights {
    pub text: u32,
    pub exp: u32,
    pub ifs: u32,
    pub fors: u32,
    pub lets: u32,
    pub export: u32,
    pub atlet: u32,
    pub block: u32,
    pub define: u32,
    pub global: u32,
    pub ret: u32,
    pub switch: u32,
    pub as_: u32,
    /// out of 1000: an unset variable, a failing or unknown helper
    pub faults: u64,
    pub depth: usize,
    pub items: usize,
}
pub const MIXED: Weights = Weights { text: 8, exp: 10, ifs: 4, fors: 4, lets: 6, export: 2, atlet: 2, block: 3, define: 3, global: 2, ret: 1, switch: 4, as_: 2, faults: 6, depth: 4, items: 35 };

pub struct Gen<'a> {
    pub s: &'a mut Source,
    pub w: Weights,
    pub names: Vec<Vec<String>>,
    pub tnames: Vec<Vec<String>>,
    nparams: usize,
    pnames: Vec<String>,
    exported: Vec<String>,
    pub gdefined: usize,
    /// inside the body of a template: globals below this only, no run of parameters with variables
    glimit: usize,
    in_template: bool,
    fresh: usize,
    left: usize,
    at: bool,
    /// further helpers to call; loops over computed numbers are then left out
    pub extra: Vec<String>,
    /// the values of the parameters, for paths into them
    pub pvals: Vec<V>,
    /// templates the template manager holds from the start
    pub stored: Vec<String>,
    /// depth of expressions
    pub edepth: usize,
    /// out of 100: reads of a variable that may or may not be set
    pub peeks: u64,
    /// of these: how many look at @, and how many call a name that only a template in a variable has (12 look at variables)
    pub at_peeks: u32,
    pub name_peeks: u32,
    /// weight of template calls in expressions
    pub tcalls: u32,
    /// templates with more than a few parameter names
    wide: Vec<(String, usize)>,
}
pub const VARS: &[&str] = &["a", "b", "x", "iff", "nullable", "in_", "my v", "truth"];
impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Source, w: Weights, nparams: usize) -> Self {
        let left = s.size(1, w.items);
        Gen { s, w, names: vec![vec![]], tnames: vec![vec![]], nparams, pnames: vec![], exported: vec![], gdefined: 0, glimit: 4, in_template: false, fresh: 0, left, at: false, extra: vec![], pvals: vec![], stored: vec![], edepth: 2, peeks: 2, at_peeks: 1, name_peeks: 2, tcalls: 2, wide: vec![] }
    }
    /// calls no globals and is called by nobody it calls
    pub fn glimit0(&mut self) {
        self.glimit = 0;
        self.in_template = true;
    }
    fn fault(&mut self) -> bool {
        let f = self.w.faults;
        f > 0 && self.s.chance(f, 1000)
    }
    pub fn scalar_lit(&mut self) -> V {
        match self.s.weighted(&[6, 6, 3, 2, 2, 1, 1]) {
            0 => V::UInt(self.s.draw(5) as usize),
            1 => V::Str(gen_string(self.s, 4)),
            2 => V::Bool(self.s.chance(1, 2)),
            3 => V::Int(-1 - self.s.draw(9) as isize),
            4 => V::Float(gen_float(self.s, false)),
            5 => V::Null,
            _ => gen_date(self.s),
        }
    }
    fn known_var(&mut self) -> Option<E> {
        let mut all: Vec<String> = self.names.iter().flatten().cloned().collect();
        all.extend(self.pnames.iter().cloned());
        all.extend(self.exported.iter().cloned());
        if all.is_empty() {
            return None;
        }
        // recent first
        all.reverse();
        let n = self.s.few(all.len() - 1);
        Some(var(&all[n.min(all.len() - 1)]))
    }
    pub fn atom(&mut self) -> E {
        if self.fault() {
            return match self.s.draw(4) {
                0 => var("unset"),
                1 => call("broken", vec![]),
                2 => call("unknown", vec![]),
                _ => self.run_other(),
            };
        }
        if self.s.chance(self.peeks, 100) {
            let n = *self.s.pick(VARS);
            let e = match self.s.weighted(&[12, self.at_peeks, self.name_peeks]) {
                0 => var(n),
                1 => E::At,
                // the name of a variable or of a defined template is no command
                _ if is_ident(n) && self.s.chance(1, 4) => call(n, vec![]),
                _ => call(&format!("t{}", self.s.draw(3)), vec![]),
            };
            return call("first", vec![e, lstr("none")]);
        }
        match self.s.weighted(&[8, 8, if self.nparams > 0 { 3 } else { 0 }, if self.at { 8 } else { 0 }]) {
            0 => E::Lit(self.scalar_lit()),
            1 => match self.known_var() {
                Some(v) => v,
                None => E::Lit(self.scalar_lit()),
            },
            2 => {
                let n = self.s.draw(self.nparams as u64) as usize;
                let mut p = vec![Part::N(n)];
                let mut v = self.pvals.get(n).cloned();
                while let Some(x) = v {
                    v = match &x {
                        V::List(l) if !l.is_empty() && self.s.chance(2, 3) => {
                            let i = self.s.draw(l.len() as u64) as usize;
                            p.push(Part::N(i));
                            Some(l[i].clone())
                        }
                        V::Map(m) if self.s.chance(2, 3) => {
                            let ks: Vec<&String> = m.keys().filter(|k| !k.contains('\'') && !k.is_empty()).collect();
                            if ks.is_empty() {
                                None
                            } else {
                                let k = (*self.s.pick(&ks)).clone();
                                p.push(Part::K(k.clone()));
                                Some(m[&k].clone())
                            }
                        }
                        _ => {
                            if self.w.faults > 0 && self.s.chance(1, 40) {
                                p.push(if self.s.chance(1, 2) { Part::N(self.s.draw(3) as usize) } else { Part::K("a".into()) });
                            }
                            None
                        }
                    };
                }
                if self.in_template && n >= self.pnames.len() {
                    return call("first", vec![E::Var(p), lstr("none")]);
                }
                E::Var(p)
            }
            _ => E::At,
        }
    }
    pub fn exp(&mut self, depth: usize) -> E {
        if depth == 0 {
            return self.atom();
        }
        match self.s.weighted(&[10, 7, 2, 2, 2, 2, self.tcalls, 2]) {
            0 => self.atom(),
            1 => {
                let n = self.s.count_to(0, 3, 40);
                if !self.extra.is_empty() && self.s.chance(1, 2) {
                    let name = self.s.pick(&self.extra).clone();
                    let a = (0..n).map(|_| self.exp(depth - 1)).collect();
                    return call(&name, a);
                }
                let name = if self.s.chance(1, 2) { *self.s.pick(REC) } else { *self.s.pick(&["rec", "wrap", "pack", "show", "same", "nothing"]) };
                let a = (0..n).map(|_| self.exp(depth - 1)).collect();
                call(name, a)
            }
            2 => {
                let n = self.s.count_to(0, 3, 60);
                E::List((0..n).map(|_| self.exp(depth - 1)).collect())
            }
            3 => {
                let n = self.s.count_to(0, 2, 40);
                E::Map(
                    (0..n)
                        .map(|i| {
                            let k = if n > 2 && self.s.chance(3, 4) { format!("k{}", i) } else { (*self.s.pick(&["a", "k", "my key", "null", "0"])).to_string() };
                            (k, self.exp(depth - 1))
                        })
                        .collect(),
                )
            }
            4 => {
                let n = self.s.count_to(0, 3, 30);
                let mut a: Vec<E> = (0..n).map(|_| self.maybe_fails(depth - 1)).collect();
                a.push(self.exp(depth - 1));
                call("first", a)
            }
            5 => {
                let n = self.s.count_to(2, 4, 30);
                let sel = match self.s.draw(3) {
                    0 => lit(V::Bool(self.s.chance(1, 2))),
                    1 => lit(V::UInt(self.s.draw(n as u64) as usize)),
                    _ => self.atom(),
                };
                let mut a = vec![sel];
                for _ in 0..n {
                    a.push(self.maybe_fails(depth - 1));
                }
                call("select", a)
            }
            6 => self.template_call(depth),
            _ => {
                // a path into a literal structure through a variable is covered by known_var;
                // here a path that may or may not exist
                match self.known_var() {
                    Some(E::Var(mut p)) => {
                        p.push(if self.s.chance(1, 2) { Part::N(self.s.draw(3) as usize) } else { Part::K("a".into()) });
                        call("first", vec![E::Var(p), self.atom()])
                    }
                    _ => self.atom(),
                }
            }
        }
    }
    fn maybe_fails(&mut self, d: usize) -> E {
        match self.s.weighted(&[8, 2, 2, 2, 1]) {
            0 => self.exp(d),
            1 => call("broken", vec![self.atom()]),
            2 => call("nothing", vec![]),
            3 => var("unset"),
            _ => self.run_other(),
        }
    }
    /// 'run' of something that is no template: there is no helper of that name
    fn run_other(&mut self) -> E {
        let n = self.s.size(0, 3);
        let mut a = vec![];
        for _ in 0..n {
            let x = match self.s.draw(3) {
                0 => E::Lit(self.scalar_lit()),
                1 => call("rec", vec![E::Lit(self.scalar_lit())]),
                _ => self.known_var().unwrap_or_else(|| call("nothing", vec![])),
            };
            a.push(x);
        }
        call("run", a)
    }
    /// as many arguments as a template with many names has
    fn enough(&mut self, name: &str, n: usize) -> usize {
        match self.wide.iter().rev().find(|(t, _)| t == name) {
            Some((_, k)) if self.s.chance(5, 6) => n.max(*k),
            _ => n,
        }
    }
    fn template_call(&mut self, depth: usize) -> E {
        let t: Vec<String> = self.tnames.iter().flatten().cloned().collect();
        let mut n = self.s.count_to(0, 3, 20);
        let lim = self.glimit.min(4);
        if !self.stored.is_empty() && self.s.chance(1, 2) {
            let name = self.s.pick(&self.stored).clone();
            let a = (0..n).map(|_| self.exp(depth - 1)).collect();
            return call(&name, a);
        }
        if !t.is_empty() && (self.gdefined == 0 || self.s.chance(1, 2)) {
            let name = self.s.pick(&t).clone();
            n = self.enough(&name, n);
            let mut a = vec![var(&name)];
            for _ in 0..n {
                a.push(self.exp(depth - 1));
            }
            return call("run", a);
        }
        if lim > 0 && (self.gdefined > 0 || self.in_template) {
            let g = self.s.draw(lim as u64);
            n = self.enough(&format!("g{}", g), n);
            let a = (0..n).map(|_| self.exp(depth - 1)).collect();
            return call(&format!("g{}", g), a);
        }
        self.atom()
    }
    pub fn pattern(&mut self, depth: usize, caps: &mut Vec<String>) -> Pat {
        let w: [u32; 6] = if depth == 0 { [3, 5, 0, 0, 5, 2] } else { [2, 4, 4, 3, 4, 2] };
        match self.s.weighted(&w) {
            0 => Pat::Any,
            1 => Pat::Val(self.scalar_lit()),
            2 => {
                let n = self.s.count_to(0, 3, 30);
                Pat::List((0..n).map(|_| self.pattern(depth - 1, caps)).collect())
            }
            3 => {
                let n = self.s.size(0, 2);
                Pat::Map(
                    (0..n)
                        .map(|_| {
                            let k = (*self.s.pick(&["a", "k", "my key"])).to_string();
                            if self.s.chance(1, 3) {
                                caps.push(k.clone());
                                (k, None)
                            } else {
                                (k, Some(self.pattern(depth - 1, caps)))
                            }
                        })
                        .collect(),
                )
            }
            4 => {
                let n = (*self.s.pick(VARS)).to_string();
                let q = if self.s.chance(1, 3) { Some(Box::new(self.pattern(depth.saturating_sub(1), caps))) } else { None };
                caps.push(n.clone());
                Pat::Cap(n, q)
            }
            _ => {
                let e = match self.s.draw(5) {
                    0 => {
                        let l = E::Lit(self.scalar_lit());
                        call("same", vec![E::At, l])
                    }
                    1 => match caps.last() {
                        Some(c) => call("same", vec![E::At, var(c)]),
                        None => E::At,
                    },
                    2 => E::At,
                    3 => {
                        let at = self.at;
                        self.at = true;
                        let e = self.exp(1);
                        self.at = at;
                        e
                    }
                    _ => call("same", vec![E::At, E::At]),
                };
                Pat::Filter(e)
            }
        }
    }
    /// A pattern built from a value: it matches, or nearly
    pub fn pattern_for(&mut self, v: &V, caps: &mut Vec<String>) -> Pat {
        if self.s.chance(1, 5) {
            return self.pattern(1, caps);
        }
        let basic = match v {
            V::List(l) => {
                let n = self.s.size(0, l.len());
                let n = if self.s.chance(1, 8) { l.len() + 1 } else { n };
                Pat::List((0..n).map(|i| match l.get(i) { Some(x) => self.pattern_for(x, caps), None => Pat::Any }).collect())
            }
            V::Map(m) => {
                let mut r = vec![];
                for (k, x) in m {
                    if k.contains('\'') || k.is_empty() {
                        continue;
                    }
                    match self.s.draw(4) {
                        0 => {}
                        1 => {
                            caps.push(k.clone());
                            r.push((k.clone(), None))
                        }
                        _ => r.push((k.clone(), Some(self.pattern_for(x, caps)))),
                    }
                }
                if self.s.chance(1, 10) {
                    r.push(("missing".into(), Some(Pat::Any)));
                }
                Pat::Map(r)
            }
            V::Int(n) if *n >= 0 => Pat::Val(V::UInt(*n as usize)),
            V::Float(f) if !f.is_finite() => Pat::Any,
            V::Bytes(_) | V::Tmpl(_) => Pat::Any,
            v => {
                if self.s.chance(1, 5) {
                    let p = perturb(self.s, v);
                    match &p {
                        V::Int(n) if *n >= 0 => Pat::Val(V::UInt(*n as usize)),
                        V::Float(f) if !f.is_finite() => Pat::Any,
                        V::Bytes(_) | V::List(_) | V::Map(_) => Pat::Any,
                        _ => Pat::Val(p),
                    }
                } else {
                    Pat::Val(v.clone())
                }
            }
        };
        match self.s.weighted(&[6, 2, 1]) {
            0 => basic,
            1 => {
                let n = (*self.s.pick(VARS)).to_string();
                let q = if self.s.chance(1, 2) { Some(Box::new(basic)) } else { None };
                caps.push(n.clone());
                Pat::Cap(n, q)
            }
            _ => match literal_of(v) {
                Some(l) => Pat::Filter(call("same", vec![E::At, E::Lit(l)])),
                None => basic,
            },
        }
    }
    fn push(&mut self) {
        self.names.push(vec![]);
        self.tnames.push(vec![]);
    }
    fn pop(&mut self) {
        self.names.pop();
        self.tnames.pop();
    }
    fn declare(&mut self, n: &str) {
        // a variable that hides a template name is not used as a template
        for t in &mut self.tnames {
            t.retain(|x| x != n);
        }
        self.names.last_mut().unwrap().push(n.to_string());
    }
    pub fn block(&mut self, depth: usize) -> Block {
        self.push();
        let b = self.items(depth, 4);
        self.pop();
        b
    }
    pub fn items(&mut self, depth: usize, max: usize) -> Block {
        let n = if self.s.grows() { self.s.size(max + 1, max + 40) } else { self.s.few(max) };
        if n > max {
            self.left += n;
        }
        let mut r = vec![];
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            r.push(self.item(depth));
        }
        r
    }
    fn out_exp(&mut self) -> E {
        let e = self.exp(self.edepth);
        match self.s.weighted(&[5, 2]) {
            0 => call("show", vec![e]),
            _ => e,
        }
    }
    fn loop_over(&mut self) -> E {
        match self.s.weighted(&[4, 3, 2, 3, 1]) {
            0 => {
                let n = self.s.count_to(0, 3, 400);
                E::List((0..n).map(|_| self.exp(1)).collect())
            }
            1 => lit(V::UInt(self.s.count(0, 3))),
            2 => E::Map((0..self.s.size(0, 1)).map(|_| ("a".to_string(), self.exp(1))).collect()),
            3 => {
                let a = self.known_var();
                let b = E::List(vec![self.atom()]);
                match a {
                    // only if it is a list
                    Some(v) if self.extra.is_empty() && self.s.chance(1, 6) => v,
                    Some(v) => call("pack", vec![v, self.atom()]),
                    None => b,
                }
            }
            _ if !self.extra.is_empty() => E::List(vec![self.exp(1)]),
            _ => self.exp(1),
        }
    }
    pub fn item(&mut self, depth: usize) -> Item {
        let w = self.w;
        let d = |x: u32| if depth == 0 { 0 } else { x };
        match self.s.weighted(&[w.text.max(1), w.exp, d(w.ifs), d(w.fors), w.lets, w.export, d(w.atlet), d(w.block), d(w.define), d(w.global), w.ret, d(w.switch), d(w.as_), d(w.atlet.min(w.export))]) {
            0 if self.s.chance(1, 8) => Item::Text((*self.s.pick(&[" ", "\n", "\n\t ", "\r\n", " - ", " x ", "\u{a0}"])).to_string()),
            0 => Item::Text(gen_string(self.s, 8)),
            1 => Item::Exp(self.out_exp()),
            2 => {
                let n = self.s.count_to(1, 3, 20);
                let mut arms = vec![];
                for _ in 0..n {
                    let c = if self.s.chance(1, 4) { self.maybe_fails(1) } else { self.exp(1) };
                    let c = if self.s.chance(1, 3) { call("rec", vec![c]) } else { c };
                    arms.push((c, self.block(depth - 1)));
                }
                let no = if self.s.chance(1, 2) { Some(self.block(depth - 1)) } else { None };
                Item::If(arms, no)
            }
            3 => {
                let e = self.loop_over();
                let i = self.fresh;
                self.fresh += 1;
                let (mut k, mut v) = (format!("k{}", i), format!("v{}", i));
                // the name of an outer variable: seen in the body, back after a loop that never ran
                let reuse = self.s.chance(1, 4);
                if reuse {
                    let all: Vec<String> = self.names.iter().flatten().cloned().collect();
                    let n = if !all.is_empty() && self.s.chance(3, 4) {
                        all[all.len() - 1 - self.s.few(all.len() - 1)].clone()
                    } else {
                        (*self.s.pick(VARS)).to_string()
                    };
                    if self.s.chance(1, 2) {
                        k = n;
                    } else {
                        v = n;
                    }
                }
                let e = if reuse && self.s.chance(1, 2) {
                    match self.s.draw(3) {
                        0 => E::List(vec![]),
                        1 => E::Map(vec![]),
                        _ => lit(V::UInt(0)),
                    }
                } else {
                    e
                };
                self.push();
                self.declare(&k);
                self.declare(&v);
                let b = self.block(depth - 1);
                self.pop();
                let never = match &e {
                    E::List(l) => l.is_empty(),
                    E::Map(m) => m.is_empty(),
                    E::Lit(V::UInt(0)) => true,
                    _ => false,
                };
                if !never {
                    for f in &mut self.names {
                        f.retain(|n| *n != k && *n != v);
                    }
                }
                Item::For(k, v, e, b)
            }
            4 => {
                let n = self.s.count_to(1, 3, 24);
                let mut l = vec![];
                for _ in 0..n {
                    let e = self.exp(self.edepth);
                    let k = if n > 3 && self.s.chance(1, 2) { format!("w{}", self.s.draw(20)) } else { (*self.s.pick(VARS)).to_string() };
                    self.declare(&k);
                    l.push((k, e));
                }
                Item::Let(l)
            }
            5 => {
                let n = self.s.count_to(1, 2, 24);
                let mut l = vec![];
                for _ in 0..n {
                    let e = self.exp(self.edepth);
                    let k = format!("e{}", self.s.draw(if n > 2 { 30 } else { 4 }));
                    self.exported.push(k.clone());
                    l.push((k, e));
                }
                Item::Export(l)
            }
            6 => {
                let b = self.block(depth - 1);
                let k = (*self.s.pick(VARS)).to_string();
                self.declare(&k);
                Item::AtLet(k, b)
            }
            7 => {
                let b = self.block(depth - 1);
                let mut ps = vec![];
                if self.s.chance(1, 2) {
                    let at = self.at;
                    self.at = true;
                    for _ in 0..self.s.count_to(1, 3, 20) {
                        ps.push(self.exp(1));
                    }
                    self.at = at;
                }
                let n = if !self.stored.is_empty() && self.s.chance(1, 3) {
                    self.s.pick(&self.stored).clone()
                } else if self.gdefined > 0 && !self.in_template && self.s.chance(1, 4) {
                    format!("g{}", self.s.draw(4))
                } else {
                    (*self.s.pick(&["wrap", "show", "rec", "nothing", "lettuce", "formal", "as_b", "a_name_of_some_length1"])).to_string()
                };
                Item::Block(n, ps, b)
            }
            8 => {
                let n = format!("t{}", self.s.draw(3));
                let (pn, b) = self.template_body(depth - 1, self.glimit);
                if pn.len() > 3 {
                    self.wide.push((n.clone(), pn.len()));
                }
                self.declare(&n.clone());
                self.names.last_mut().unwrap().pop();
                self.tnames.last_mut().unwrap().push(n.clone());
                Item::Define(n, pn, b)
            }
            9 => {
                let g = self.s.draw(4) as usize;
                let (pn, b) = self.template_body(depth - 1, g.min(self.glimit));
                if pn.len() > 3 {
                    self.wide.push((format!("g{}", g), pn.len()));
                }
                self.gdefined += 1;
                Item::Global(format!("g{}", g), pn, b)
            }
            10 => Item::Return(self.exp(self.edepth)),
            11 => {
                let (e, v) = self.subject();
                let n = self.s.count_to(0, 3, 20);
                let mut cases = vec![];
                for _ in 0..n {
                    let mut pats = vec![];
                    let mut common: Option<Vec<String>> = None;
                    let np = if self.s.grows() { self.s.size(3, 12) } else { 1 + self.s.draw(4) as usize / 3 };
                    for _ in 0..np {
                        let mut caps = vec![];
                        let p = match &v {
                            Some(v) => self.pattern_for(v, &mut caps),
                            None => self.pattern(2, &mut caps),
                        };
                        pats.push(p);
                        common = Some(match common {
                            None => caps,
                            Some(c) => c.into_iter().filter(|x| caps.contains(x)).collect(),
                        });
                    }
                    self.push();
                    for c in common.unwrap_or_default() {
                        self.declare(&c);
                    }
                    let mut b = self.block(depth - 1);
                    if self.s.chance(5, 6) {
                        b.insert(0, Item::Text(format!("case{};", cases.len())));
                    }
                    self.pop();
                    cases.push((pats, b));
                }
                let pre = if self.s.chance(1, 3) { " \n".to_string() } else { String::new() };
                Item::Switch(e, pre, cases)
            }
            12 => {
                let (e, v) = self.subject();
                let mut caps = vec![];
                let p = match &v {
                    Some(v) => self.pattern_for(v, &mut caps),
                    None => self.pattern(2, &mut caps),
                };
                self.push();
                for c in caps {
                    self.declare(&c);
                }
                let mut b = self.block(depth - 1);
                if self.s.chance(5, 6) {
                    b.insert(0, Item::Text("as;".into()));
                }
                self.pop();
                Item::As(e, p, b)
            }
            _ => {
                let b = self.block(depth - 1);
                let k = format!("e{}", self.s.draw(4));
                self.exported.push(k.clone());
                Item::AtExport(k, b)
            }
        }
    }
    /// What a switch looks at: a literal structure whose value is known here, or anything
    fn subject(&mut self) -> (E, Option<V>) {
        if self.s.chance(3, 4) {
            let o = VOpt { map_max: 2, ..LITERAL };
            let v = gen_v(self.s, o);
            if let Some(l) = literal_of(&v) {
                let e = match self.s.draw(3) {
                    0 => call("rec", vec![E::Lit(l.clone())]),
                    _ => E::Lit(l.clone()),
                };
                return (e, Some(l));
            }
        }
        (self.exp(2), None)
    }
    pub fn template_body(&mut self, depth: usize, glimit: usize) -> (Vec<String>, Rc<Block>) {
        let pvals = std::mem::take(&mut self.pvals);
        let r = self.template_body_in(depth, glimit);
        self.pvals = pvals;
        r
    }
    fn template_body_in(&mut self, depth: usize, glimit: usize) -> (Vec<String>, Rc<Block>) {
        let np = self.s.count_to(0, 3, 16);
        let mut pn: Vec<String> = vec![];
        for i in 0..np {
            pn.push(if self.s.chance(1, 3) { (*self.s.pick(VARS)).to_string() } else { format!("p{}", i) });
        }
        // its own world
        let save = (
            std::mem::replace(&mut self.names, vec![vec![]]),
            std::mem::replace(&mut self.tnames, vec![vec![]]),
            self.nparams,
            std::mem::replace(&mut self.pnames, pn.clone()),
            std::mem::take(&mut self.exported),
            self.glimit,
            self.in_template,
            self.at,
        );
        // arguments beyond the named ones are there too, when the call gives them
        if np > 3 {
            // one growth makes the names; the calls follow
            self.left += 6;
        }
        self.nparams = np + if self.s.chance(1, 3) { 1 + self.s.draw(2) as usize } else { 0 };
        self.glimit = glimit;
        self.in_template = true;
        self.at = false;
        let outer: Vec<String> = save.0.iter().flatten().cloned().collect();
        let mut b = self.items(depth, 4);
        if !outer.is_empty() && self.s.chance(1, 6) {
            // a caller's variable must not be visible
            let n = self.s.pick(&outer).clone();
            b.push(Item::Exp(call("show", vec![call("first", vec![var(&n), lstr("hidden")])])));
        }
        self.names = save.0;
        self.tnames = save.1;
        self.nparams = save.2;
        self.pnames = save.3;
        self.exported = save.4;
        self.glimit = save.5;
        self.in_template = save.6;
        self.at = save.7;
        (pn, Rc::new(b))
    }
    pub fn program(&mut self) -> Block {
        let d = self.w.depth;
        let n = if self.s.grows() { self.s.size(10, 80) } else { 1 + self.s.few(9) };
        if n > 10 {
            self.left += n;
        }
        let mut r = vec![];
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            r.push(self.item(d));
        }
        r
    }
}
/// The value as a literal would give it (None: has no literal)
pub fn literal_of(v: &V) -> Option<V> {
    Some(match v {
        V::Int(n) if *n >= 0 => V::UInt(*n as usize),
        V::Float(f) if !f.is_finite() => return None,
        V::Bytes(_) | V::Tmpl(_) => return None,
        V::List(l) => V::List(l.iter().map(literal_of).collect::<Option<_>>()?),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| Some((k.clone(), literal_of(v)?))).collect::<Option<_>>()?),
        v => v.clone(),
    })
}

// ------------------------------------------------------------ differential run
pub struct Outcome {
    pub res: Result<(String, Exports), String>,
    pub log: Vec<String>,
}
pub fn run_real(text: &str, params: &[V], tm: &mut BasicTemps) -> Result<Outcome, String> {
    let t = parse(text)?;
    let (fm, log) = helpers();
    let tds: Vec<TData> = params.iter().map(|v| v.td()).collect();
    let ps: Vec<&dyn TParam> = tds.iter().map(|t| t as &dyn TParam).collect();
    let res = run_exp(&t, &ps, tm, &fm);
    let log = log.borrow().clone();
    Ok(Outcome { res, log })
}
/// Compare one run of the code with the model. Gives false if the case says nothing.
pub fn differential(text: &str, prog: &[Item], params: &[V], ctx: &mut Ctx, sig: &str) -> Result<bool, crate::engine::Fail> {
    differential_on(text, prog, params, &mut Model::default(), &mut BasicTemps::new(), ctx, sig)
}
pub fn differential_on(text: &str, prog: &[Item], params: &[V], m: &mut Model, tm: &mut BasicTemps, ctx: &mut Ctx, sig: &str) -> Result<bool, crate::engine::Fail> {
    m.log.clear();
    m.steps = 0;
    let want = m.program(prog, params.to_vec());
    for c in std::mem::take(&mut m.seen) {
        ctx.class(c);
    }
    if m.unspecified {
        ctx.class("discarded-unspecified");
        return Ok(false);
    }
    ctx.class_if(m.log.len() > 1, "calls-many");
    ctx.op("render");
    let got = match run_real(text, params, tm) {
        Ok(o) => o,
        Err(e) => crate::bail!(format!("{}:parse", sig), "a valid program does not parse: {}", e),
    };
    compare(&want, m, &got, sig)?;
    ctx.class_if(want.is_err(), "fails-as-specified");
    Ok(true)
}
pub fn compare(want: &Result<(String, BTreeMap<String, V>), ()>, m: &Model, got: &Outcome, sig: &str) -> R {
    match (want, &got.res) {
        (Ok((s, ex)), Ok((gs, gex))) => {
            crate::ensure!(s == gs, format!("{}:output", sig), "output differs\nexpected: {:?}\n     got: {:?}", s, gs);
            for (k, v) in ex {
                let g = gex.get(k).map(V::from_td);
                crate::ensure!(g.as_ref().map_or(false, |g| g.same(v)), format!("{}:exports", sig), "export {:?}: expected {} got {:?}", k, v.canon(), g.map(|g| g.canon()));
            }
            for k in gex.keys() {
                let ours = k == "return" || (k.len() == 2 && k.starts_with('e') && k != "e1x");
                if ours && !ex.contains_key(k) {
                    crate::bail!(format!("{}:exports", sig), "{:?} is in the exports but was never exported", k);
                }
            }
        }
        (Err(()), Err(_)) => {}
        (Ok((s, _)), Err(e)) => crate::bail!(format!("{}:fails", sig), "rendering fails: {}\nexpected: {:?}", e, s),
        (Err(()), Ok((gs, _))) => crate::bail!(format!("{}:succeeds", sig), "rendering should fail, got {:?}", gs),
    }
    crate::ensure!(m.log == got.log, format!("{}:calls", sig), "helper calls differ\nexpected: {:?}\n     got: {:?}", m.log, got.log);
    Ok(())
}
