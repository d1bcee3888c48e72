//! C35: tags pair up; what does not fit is refused
use super::*;
use crate::engine::{Ctx, Prop, Source, R};
use crate::lang::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum T {
    Text(String),
    Comment,
    Exp(E),
    Let(String, E),
    Export(String, E),
    Return(E),
    If(E),
    Elif(E),
    Else,
    For(String, String, E),
    Switch(E),
    Case(Vec<Pat>),
    As(E, Pat),
    Define(String),
    Global(String),
    AtLet(String),
    AtExport(String),
    Block(String),
    Close(String),
    /// a tag that is none
    Bad(&'static str),
}
const BAD: &[&str] = &["{{/}}", "{{)}}", "{{1 2}}", "{{$a $b}}", "{{=}}", "{{if true else}}", "{{else 1}}", "{{/if 1}}", "{{for k in 3}}{{]}}", "{{[1}}", "{{show (1}}", "{{as 1}}{{,}}", "{{$a.}}{{;}}"];

enum F {
    Root(Block),
    If(Vec<(E, Block)>, Option<Block>),
    For(String, String, E, Block),
    Switch(E, Vec<(Vec<Pat>, Block)>),
    As(E, Pat, Block),
    Define(String, Block),
    Global(String, Block),
    AtLet(String, Block),
    AtExport(String, Block),
    Block(String, Block),
}
impl F {
    fn closer(&self) -> &str {
        match self {
            F::Root(_) => "",
            F::If(..) => "if",
            F::For(..) => "for",
            F::Switch(..) => "switch",
            F::As(..) => "as",
            F::Define(..) => "define",
            F::Global(..) => "global",
            F::AtLet(..) => "let",
            F::AtExport(..) => "export",
            F::Block(n, _) => n,
        }
    }
    /// where the next item goes
    fn body(&mut self) -> Option<&mut Block> {
        Some(match self {
            F::If(_, Some(no)) => no,
            F::If(arms, None) => &mut arms.last_mut()?.1,
            F::Switch(_, cases) => &mut cases.last_mut()?.1,
            F::Root(b) | F::For(_, _, _, b) | F::As(_, _, b) | F::Define(_, b) | F::Global(_, b) | F::AtLet(_, b) | F::AtExport(_, b) | F::Block(_, b) => b,
        })
    }
    fn item(self) -> Item {
        match self {
            F::Root(_) => unreachable!(),
            F::If(a, n) => Item::If(a, n),
            F::For(k, v, e, b) => Item::For(k, v, e, b),
            F::Switch(e, c) => Item::Switch(e, String::new(), c),
            F::As(e, p, b) => Item::As(e, p, b),
            F::Define(n, b) => Item::Define(n, vec![], Rc::new(b)),
            F::Global(n, b) => Item::Global(n, vec![], Rc::new(b)),
            F::AtLet(n, b) => Item::AtLet(n, b),
            F::AtExport(n, b) => Item::AtExport(n, b),
            F::Block(n, b) => Item::Block(n, vec![], b),
        }
    }
}
/// The program these tags make, or None when they do not fit. Also: was something left open
fn fit(ts: &[T]) -> Option<(Block, bool)> {
    let mut st: Vec<F> = vec![F::Root(vec![])];
    for t in ts {
        let top = st.last_mut()?;
        let open = match t {
            T::Bad(_) => return None,
            T::Comment => continue,
            T::Text(x) => {
                // before the first case there is no place to show it
                if let Some(b) = top.body() {
                    b.push(Item::Text(x.clone()));
                }
                continue;
            }
            T::Exp(e) => {
                top.body()?.push(Item::Exp(e.clone()));
                continue;
            }
            T::Let(k, e) => {
                top.body()?.push(Item::Let(vec![(k.clone(), e.clone())]));
                continue;
            }
            T::Export(k, e) => {
                top.body()?.push(Item::Export(vec![(k.clone(), e.clone())]));
                continue;
            }
            T::Return(e) => {
                top.body()?.push(Item::Return(e.clone()));
                continue;
            }
            T::Else => match top {
                F::If(_, no @ None) => {
                    *no = Some(vec![]);
                    continue;
                }
                _ => return None,
            },
            T::Elif(c) => match top {
                F::If(arms, None) => {
                    arms.push((c.clone(), vec![]));
                    continue;
                }
                _ => return None,
            },
            T::Case(p) => match top {
                F::Switch(_, cases) => {
                    cases.push((p.clone(), vec![]));
                    continue;
                }
                _ => return None,
            },
            T::Close(n) => {
                if matches!(top, F::Root(_)) || top.closer() != n {
                    return None;
                }
                let i = st.pop()?.item();
                st.last_mut()?.body()?.push(i);
                continue;
            }
            T::If(c) => F::If(vec![(c.clone(), vec![])], None),
            T::For(k, v, e) => F::For(k.clone(), v.clone(), e.clone(), vec![]),
            T::Switch(e) => F::Switch(e.clone(), vec![]),
            T::As(e, p) => F::As(e.clone(), p.clone(), vec![]),
            T::Define(n) => F::Define(n.clone(), vec![]),
            T::Global(n) => F::Global(n.clone(), vec![]),
            T::AtLet(n) => F::AtLet(n.clone(), vec![]),
            T::AtExport(n) => F::AtExport(n.clone(), vec![]),
            T::Block(n) => F::Block(n.clone(), vec![]),
        };
        top.body()?;
        st.push(open);
    }
    let left = st.len() > 1;
    // what is open at the end of the text ends there, but an if needs its /if or an else
    while st.len() > 1 {
        let f = st.pop()?;
        if matches!(f, F::If(_, None)) {
            return None;
        }
        st.last_mut()?.body()?.push(f.item());
    }
    match st.pop()? {
        F::Root(b) => Some((b, left)),
        _ => None,
    }
}
struct G<'a> {
    s: &'a mut Source,
    n: usize,
    left: usize,
}
const CLOSERS: &[&str] = &["if", "for", "switch", "as", "define", "global", "let", "export", "wrap", "show", "case", "else", "nosuch", "each", "end", "fi", "elif", "foreach", "template", "a_name_of_some_length1", "a_name_of_some_length2"];
impl<'a> G<'a> {
    fn e(&mut self) -> E {
        match self.s.draw(8) {
            0 => call("first", vec![var("a"), lstr("none")]),
            1 => call("first", vec![var("b"), lstr("none")]),
            2 => call("first", vec![call("run", vec![var("t0")]), lstr("none")]),
            3 => call("first", vec![call("g0", vec![]), lstr("none")]),
            4 => call("first", vec![var("k"), lstr("none")]),
            _ => {
                self.n += 1;
                call("rec", vec![lit(V::UInt(self.n))])
            }
        }
    }
    fn small(&mut self) -> V {
        V::UInt(self.s.draw(3) as usize)
    }
    fn pat(&mut self) -> Pat {
        match self.s.draw(5) {
            0 => Pat::Any,
            1 => Pat::Cap("a".into(), None),
            _ => Pat::Val(self.small()),
        }
    }
    fn text(&mut self) -> T {
        self.n += 1;
        T::Text(format!("t{}{}", self.n, *self.s.pick(&[";", "; ", "\n", "."])))
    }
    fn flat(&mut self) -> T {
        match self.s.weighted(&[6, 5, 2, 1, 1, 1]) {
            0 => self.text(),
            1 => T::Exp(self.e()),
            2 => T::Let((*self.s.pick(&["a", "b"])).into(), self.e()),
            3 => T::Export((*self.s.pick(&["e0", "e1"])).into(), self.e()),
            4 => T::Return(self.e()),
            _ => T::Comment,
        }
    }
    fn cond(&mut self) -> E {
        match self.s.draw(4) {
            0 => lit(V::Bool(true)),
            1 => lit(V::Bool(false)),
            2 => call("rec", vec![lit(V::Bool(self.s.chance(1, 2)))]),
            _ => var("a"),
        }
    }
    fn opener(&mut self) -> T {
        match self.s.draw(9) {
            0 | 1 => T::If(self.cond()),
            2 => T::For("k".into(), "v".into(), lit(self.small())),
            3 => T::Switch(lit(self.small())),
            4 => T::As(lit(self.small()), self.pat()),
            5 => T::Define("t0".into()),
            6 => T::Global("g0".into()),
            7 => {
                if self.s.chance(1, 2) {
                    T::AtLet((*self.s.pick(&["a", "b"])).into())
                } else {
                    T::AtExport((*self.s.pick(&["e0", "e1"])).into())
                }
            }
            _ => T::Block((*self.s.pick(&["wrap", "show", "as_b", "a_name_of_some_length1"])).into()),
        }
    }
    fn body(&mut self, d: usize, out: &mut Vec<T>) {
        for _ in 0..self.s.few(4) {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            if d == 0 || self.s.chance(1, 2) {
                let t = self.flat();
                out.push(t);
                continue;
            }
            let o = self.opener();
            out.push(o.clone());
            let close = match &o {
                T::If(_) => {
                    self.body(d - 1, out);
                    for _ in 0..self.s.few(2) {
                        let c = self.cond();
                        out.push(T::Elif(c));
                        self.body(d - 1, out);
                    }
                    if self.s.chance(1, 2) {
                        out.push(T::Else);
                        self.body(d - 1, out);
                    }
                    "if".to_string()
                }
                T::Switch(_) => {
                    if self.s.chance(1, 3) {
                        let t = if self.s.chance(1, 2) { T::Comment } else { self.text() };
                        out.push(t);
                    }
                    for _ in 0..self.s.count_to(0, 3, 30) {
                        let p = (0..1 + self.s.few(1)).map(|_| self.pat()).collect();
                        out.push(T::Case(p));
                        self.body(d - 1, out);
                    }
                    "switch".into()
                }
                o => {
                    self.body(d - 1, out);
                    match o {
                        T::For(..) => "for".into(),
                        T::As(..) => "as".into(),
                        T::Define(_) => "define".into(),
                        T::Global(_) => "global".into(),
                        T::AtLet(_) => "let".into(),
                        T::AtExport(_) => "export".into(),
                        T::Block(n) => n.clone(),
                        _ => unreachable!(),
                    }
                }
            };
            out.push(T::Close(close));
        }
    }
    fn stray(&mut self) -> T {
        match self.s.weighted(&[8, 6, 6, 10, 4, 4, 2, 1]) {
            0 => T::Else,
            1 => T::Elif(self.cond()),
            2 => T::Case(vec![self.pat()]),
            3 => T::Close((*self.s.pick(CLOSERS)).into()),
            4 => self.opener(),
            5 => self.flat(),
            // a call of a helper there is not
            7 => T::Exp(call(*self.s.pick(&["Else", "ELSE", "If", "elseif", "end", "endif", "Case", "Switch", "default", "break", "continue", "else_", "case2"]), vec![])),
            _ => T::Bad(*self.s.pick(BAD)),
        }
    }
    fn change(&mut self, ts: &mut Vec<T>) {
        let tags: Vec<usize> = (0..ts.len()).filter(|i| !matches!(ts[*i], T::Text(_) | T::Exp(_) | T::Let(..) | T::Export(..) | T::Return(_) | T::Comment)).collect();
        let at = |s: &mut Source, n: usize| s.draw(n as u64) as usize;
        match self.s.draw(7) {
            0 if !tags.is_empty() => {
                let i = tags[at(self.s, tags.len())];
                ts.remove(i);
            }
            1 if !tags.is_empty() => {
                let i = tags[at(self.s, tags.len())];
                let t = ts[i].clone();
                let j = at(self.s, ts.len() + 1);
                ts.insert(j, t);
            }
            2 if tags.len() > 1 => {
                let (i, j) = (tags[at(self.s, tags.len())], tags[at(self.s, tags.len())]);
                ts.swap(i, j);
            }
            3 if !tags.is_empty() => {
                let cl: Vec<usize> = tags.iter().cloned().filter(|i| matches!(ts[*i], T::Close(_))).collect();
                if !cl.is_empty() {
                    let i = cl[at(self.s, cl.len())];
                    ts[i] = match &ts[i] {
                        T::Close(n) if self.s.chance(1, 2) => T::Close(near(self.s, n)),
                        _ => T::Close((*self.s.pick(CLOSERS)).into()),
                    };
                }
            }
            4 => {
                let n = at(self.s, ts.len() + 1);
                ts.truncate(n);
            }
            _ => {
                let t = self.stray();
                let j = at(self.s, ts.len() + 1);
                ts.insert(j, t);
            }
        }
    }
}
/// another name that looks like n
fn near(s: &mut Source, n: &str) -> String {
    let mut c: Vec<char> = n.chars().collect();
    match s.draw(10) {
        0 => n.to_uppercase(),
        1 => {
            c[0] = c[0].to_ascii_uppercase();
            c.into_iter().collect()
        }
        2 if c.len() > 1 => {
            c.pop();
            c.into_iter().collect()
        }
        3 if c.len() > 1 => c.into_iter().rev().collect(),
        4 => format!("{}{}", n, s.pick(&["s", "_", "2", "each", "x"])),
        5 => format!("{}{}", s.pick(&["end", "e", "_", "at"]), n),
        // quoted
        6 => format!("{} ", n),
        7 => format!(" {}", n),
        8 => format!("/{}", n),
        _ => format!("@{}", n),
    }
}
fn show(s: &mut Source, ts: &[T], free: bool) -> String {
    let mut p = Printer::new(s, free);
    for t in ts {
        match t {
            T::Text(x) => p.text(x),
            T::Bad(x) => p.raw(x),
            T::Comment => p.tag("# note #"),
            T::Exp(e) => {
                let x = p.exp(e, true);
                p.tag(&x)
            }
            T::Let(..) | T::Export(..) | T::Return(_) => {
                let i = match t {
                    T::Let(k, e) => Item::Let(vec![(k.clone(), e.clone())]),
                    T::Export(k, e) => Item::Export(vec![(k.clone(), e.clone())]),
                    T::Return(e) => Item::Return(e.clone()),
                    _ => unreachable!(),
                };
                p.item(&i, false)
            }
            T::Else => p.tag("else"),
            T::If(e) | T::Elif(e) | T::Switch(e) => {
                let k = match t {
                    T::If(_) => "if",
                    T::Elif(_) => "elif",
                    _ => "switch",
                };
                let x = p.exp(e, true);
                p.tag(&format!("{} {}", k, x))
            }
            T::For(k, v, e) => {
                let x = p.exp(e, true);
                p.tag(&format!("for {} {} in {}", k, v, x))
            }
            T::Case(l) => {
                let x: Vec<String> = l.iter().map(|q| p.pat(q)).collect();
                p.tag(&format!("case {}", x.join(" ")))
            }
            T::As(e, q) => {
                let x = p.exp(e, true);
                let y = p.pat(q);
                p.tag(&format!("as {} : {}", x, y))
            }
            T::Define(n) => p.tag(&format!("define {}", n)),
            T::Global(n) => p.tag(&format!("global {}", n)),
            T::AtLet(n) => p.tag(&format!("@let {}", n)),
            T::AtExport(n) => p.tag(&format!("@export {}", n)),
            T::Block(n) => p.tag(&format!("@{}", n)),
            T::Close(n) if n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') => p.tag(&format!("/{}", n)),
            T::Close(n) => p.tag(&format!("/'{}'", n)),
        }
    }
    p.out
}
fn c35(s: &mut Source, ctx: &mut Ctx) -> R {
    let mut ts = vec![];
    let changes = s.weighted(&[2, 4, 2, 1]);
    {
        let mut g = G { s, n: 0, left: 24 };
        g.body(4, &mut ts);
        for _ in 0..changes {
            g.change(&mut ts);
        }
    }
    let free = s.chance(1, 2);
    let text = show(s, &ts, free);
    ctx.note(&text);
    ctx.nontrivial = ts.iter().any(|t| !matches!(t, T::Text(_) | T::Exp(_) | T::Let(..) | T::Export(..) | T::Return(_) | T::Comment));
    match fit(&ts) {
        None => {
            ctx.class("refused");
            ctx.class_if(ts.iter().any(|t| matches!(t, T::Bad(_))), "no-tag");
            ctx.op("parse");
            if let Ok(t) = parse(&text) {
                crate::bail!("C35:accepted", "the tags do not fit, but it parses: {}\nas {:?}", text, t);
            }
            Ok(())
        }
        Some((b, left)) => {
            ctx.class(if left { "left-open" } else { "closed" });
            if let Err(e) = parse(&text) {
                crate::bail!("C35:refused", "the tags fit, but it does not parse: {}\n{}", e, text);
            }
            differential(&text, &b, &[], ctx, "C35")?;
            Ok(())
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C35",
        rule: "sequences of up to 24 tags: well-nested ones with up to 3 changes (a tag removed, doubled, moved, renamed, put in, the text cut off), judged by a separate stack recogniser, rendered where they fit; non-trivial: at least one block tag",
        quick: 400_000,
        factor: 25,
        fuel: 100_000_000,
        run: c35,
        pins: vec![],
        assumptions: vec!["tags are whole; only a few broken ones are put in", "text before the first case is not shown"],
    }]
}
