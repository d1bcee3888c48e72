//! C14: the same data in every form a program can pass it
use super::*;
use card_format::{CData, Card};
use std::collections::{BTreeMap, HashMap};

type Look = Box<dyn Fn(&[Part]) -> Option<V>>;
struct Form {
    name: &'static str,
    p: Box<dyn TParam>,
    look: Look,
    /// values to walk for paths
    shape: V,
}
const DATA: VOpt = VOpt { special: false, dates: false, bytes: false, depth: 3, map_max: 4 };
fn of(v: &V) -> Look {
    let v = v.clone();
    Box::new(move |p| v.get(p))
}
fn data(s: &mut Source) -> V {
    // mostly something with parts
    let v = gen_v(s, DATA);
    match v {
        V::List(_) | V::Map(_) => v,
        v if s.chance(1, 4) => v,
        v => {
            let mut m = BTreeMap::new();
            for _ in 0..s.size(1, 3) {
                m.insert((*s.pick(&["a", "b", "my key", "0", "null", "iff", "é"])).to_string(), gen_v(s, VOpt { depth: 2, ..DATA }));
            }
            m.insert("k".into(), v);
            V::Map(m)
        }
    }
}
fn tomlish(v: &V) -> V {
    match v {
        V::Null => V::Bool(true),
        V::UInt(n) => V::Int((*n >> 1) as isize),
        V::List(l) => V::List(l.iter().map(tomlish).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), tomlish(v))).collect()),
        v => v.clone(),
    }
}
fn cardish(v: &V) -> (V, CData) {
    match v {
        V::List(l) => {
            let (a, b): (Vec<V>, Vec<CData>) = l.iter().map(cardish).unzip();
            (V::List(a), CData::L(b))
        }
        V::Map(m) => {
            let mut a = BTreeMap::new();
            let mut b = BTreeMap::new();
            for (k, v) in m {
                let (x, y) = cardish(v);
                a.insert(k.clone(), x);
                b.insert(k.clone(), y);
            }
            (V::Map(a), CData::M(b))
        }
        V::Int(n) => (V::Int(*n), CData::N(*n)),
        V::UInt(n) => (V::Int((*n >> 1) as isize), CData::N((*n >> 1) as isize)),
        v => (V::s(v.display()), CData::S(v.display())),
    }
}
fn simple(s: &mut Source) -> Form {
    let v = data(s);
    match s.draw(12) {
        0 => Form { name: "TData", p: Box::new(v.td()), look: of(&v), shape: v },
        1 => Form { name: "JSON", p: Box::new(v.json().unwrap()), look: of(&v), shape: v },
        2 => {
            let v = tomlish(&v);
            Form { name: "TOML", p: Box::new(v.toml().unwrap()), look: of(&v), shape: v }
        }
        3 => {
            let m = match v {
                V::Map(m) => m,
                v => [("a".to_string(), v)].into_iter().collect(),
            };
            let v = V::Map(m.clone());
            if s.chance(1, 2) {
                Form { name: "HashMap<String,TData>", p: Box::new(hm(&m)), look: of(&v), shape: v }
            } else {
                let h: HashMap<&'static str, TData> = m.iter().map(|(k, v)| (&*Box::leak(k.clone().into_boxed_str()), v.td())).collect();
                Form { name: "HashMap<&str,TData>", p: Box::new(h), look: of(&v), shape: v }
            }
        }
        4 => {
            let n = s.count(0, 4);
            let ks: Vec<String> = (0..n).map(|i| if s.chance(1, 2) { gen_word(s) } else { format!("k{}", i) }).collect();
            match s.draw(3) {
                0 => {
                    let h: HashMap<String, String> = ks.into_iter().map(|k| (k, gen_string(s, 5))).collect();
                    let v = V::Map(h.iter().map(|(k, v)| (k.clone(), V::s(v.clone()))).collect());
                    Form { name: "HashMap<String,String>", p: Box::new(h), look: of(&v), shape: v }
                }
                1 => {
                    let h: HashMap<String, usize> = ks.into_iter().map(|k| (k, gen_uint(s))).collect();
                    let v = V::Map(h.iter().map(|(k, v)| (k.clone(), V::UInt(*v))).collect());
                    Form { name: "HashMap<String,usize>", p: Box::new(h), look: of(&v), shape: v }
                }
                _ => {
                    let h: HashMap<&'static str, &'static str> = ks.into_iter().map(|k| (&*Box::leak(k.into_boxed_str()), *s.pick(WORDS))).collect();
                    let v = V::Map(h.iter().map(|(k, v)| (k.to_string(), V::s(*v))).collect());
                    Form { name: "HashMap<&str,&str>", p: Box::new(h), look: of(&v), shape: v }
                }
            }
        }
        5 => {
            let n = s.count(0, 4);
            let l: Vec<&'static str> = (0..n).map(|_| *s.pick(WORDS)).collect();
            let v = V::List(l.iter().map(|x| V::s(*x)).collect());
            Form { name: "Vec<&str>", p: Box::new(l), look: of(&v), shape: v }
        }
        6 => {
            let t = gen_string(s, 6);
            let v = V::s(t.clone());
            if s.chance(1, 2) {
                Form { name: "String", p: Box::new(t), look: of(&v), shape: v }
            } else {
                let r: &'static str = Box::leak(t.into_boxed_str());
                Form { name: "&str", p: Box::new(r), look: of(&v), shape: v }
            }
        }
        7 => match s.draw(3) {
            0 => {
                let n = gen_uint(s);
                Form { name: "usize", p: Box::new(n), look: of(&V::UInt(n)), shape: V::UInt(n) }
            }
            1 => {
                let n = gen_float(s, false);
                Form { name: "f64", p: Box::new(n), look: of(&V::Float(n)), shape: V::Float(n) }
            }
            _ => {
                let n = s.chance(1, 2);
                Form { name: "bool", p: Box::new(n), look: of(&V::Bool(n)), shape: V::Bool(n) }
            }
        },
        8 => {
            let m = match v {
                V::Map(m) => m,
                v => [("a".to_string(), v)].into_iter().collect(),
            };
            let (v, c) = cardish(&V::Map(m));
            let (mut m, d) = match (v, c) {
                (V::Map(m), CData::M(d)) => (m, d),
                _ => unreachable!(),
            };
            let (num, name) = (gen_uint(s), gen_string(s, 4));
            m.insert("Name".into(), V::s(name.clone()));
            m.insert("Num".into(), V::UInt(num));
            let v = V::Map(m);
            Form { name: "Card", p: Box::new(Card { num, name, data: d }), look: of(&v), shape: v }
        }
        9 => {
            let (v, c) = cardish(&v);
            Form { name: "CData", p: Box::new(c), look: of(&v), shape: v }
        }
        10 => {
            let k = (*s.pick(&["a", "b", "key", "my key"])).to_string();
            let m: BTreeMap<String, V> = [(k.clone(), v.clone())].into_iter().collect();
            let shape = V::Map(m);
            let sh = shape.clone();
            // a pair alone is no value, only what is under its key
            let look: Look = Box::new(move |p| if p.is_empty() { None } else { sh.get(p) });
            if s.chance(1, 2) {
                Form { name: "KV<String,TData>", p: Box::new(KV(k, v.td())), look, shape }
            } else {
                let kr: &'static str = Box::leak(k.into_boxed_str());
                Form { name: "KV<&str,TData>", p: Box::new(KV(kr, v.td())), look, shape }
            }
        }
        _ => {
            let l = Box::leak(Box::new(v.td()));
            let c: TCow<'static> = if s.chance(1, 2) { TCow::Borrowed(l) } else { TCow::Owned(l.clone()) };
            Form { name: "Cow", p: Box::new(c), look: of(&v), shape: v }
        }
    }
}
/// any of the forms, sized
#[derive(Debug)]
struct Box2(Box<dyn TParam>);
impl TParam for Box2 {
    fn get_v<'a>(&'a self, s: &[templito::expr::VarPart]) -> Option<TCow<'a>> {
        self.0.get_v(s)
    }
}
fn form(s: &mut Source) -> Form {
    if s.chance(1, 6) {
        let (a, b) = (simple(s), simple(s));
        let shape = if s.chance(1, 2) { a.shape.clone() } else { b.shape.clone() };
        let a_: &'static Box2 = Box::leak(Box::new(Box2(a.p)));
        let b_: &'static Box2 = Box::leak(Box::new(Box2(b.p)));
        let (la, lb) = (a.look, b.look);
        return Form { name: "pair", p: Box::new((a_, b_)), look: Box::new(move |p| la(p).or_else(|| lb(p))), shape };
    }
    simple(s)
}
fn gen_path(s: &mut Source, v: &V) -> Vec<Part> {
    let mut p = vec![];
    let mut v = v.clone();
    loop {
        let next = match &v {
            V::List(l) if !l.is_empty() && s.chance(3, 4) => {
                let i = s.draw(l.len() as u64) as usize;
                p.push(Part::N(i));
                l[i].clone()
            }
            V::Map(m) if s.chance(3, 4) => {
                let ks: Vec<String> = m.keys().filter(|k| !k.contains('\'') && !k.is_empty()).cloned().collect();
                if ks.is_empty() {
                    break;
                }
                let k = s.pick(&ks).clone();
                p.push(Part::K(k.clone()));
                m[&k].clone()
            }
            _ => break,
        };
        v = next;
    }
    if s.chance(1, 3) {
        // lead it astray
        match s.draw(5) {
            0 => p.push(Part::N(if s.chance(1, 4) { gen_uint(s) } else { s.draw(3) as usize })),
            1 => p.push(Part::K((*s.pick(&["a", "len", "0", "k", "Name", "key"])).to_string())),
            2 => {
                if let Some(x) = p.last_mut() {
                    *x = match x {
                        Part::N(n) => {
                            if s.chance(1, 2) {
                                // past the end, near or by a round number
                                let by = if s.chance(1, 2) { 1 } else { 1 << s.draw(40) };
                                Part::N(*n + by)
                            } else {
                                Part::K(n.to_string())
                            }
                        }
                        Part::K(k) => {
                            match s.draw(6) {
                                0 => Part::K(format!(" {}", k)),
                                1 => Part::K(format!("{} ", k)),
                                2 => Part::K(if k.to_uppercase() == *k { k.to_lowercase() } else { k.to_uppercase() }),
                                3 => Part::N(0),
                                _ => Part::K(format!("{}x", k)),
                            }
                        }
                    }
                }
            }
            3 => {
                if !p.is_empty() {
                    let i = s.draw(p.len() as u64) as usize;
                    p.remove(i);
                }
            }
            _ => {
                let i = s.draw(p.len() as u64 + 1) as usize;
                p.insert(i, Part::N(0));
            }
        }
    }
    p
}
/// same value, where the type of an integer may follow the form
fn alike(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::List(x), V::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| alike(p, q)),
        (V::Map(x), V::Map(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| alike(p, q))),
        (V::Int(_) | V::UInt(_), V::Int(_) | V::UInt(_)) => veq(a, b),
        _ => a.same(b),
    }
}
fn c14(s: &mut Source, ctx: &mut Ctx) -> R {
    let f = form(s);
    let others = s.draw(3) as usize;
    let at = s.draw(others as u64 + 1) as usize;
    let junk = TData::String("elsewhere".into());
    let mut ps: Vec<&dyn TParam> = (0..others).map(|_| &junk as &dyn TParam).collect();
    ps.insert(at, &*f.p);
    ctx.note(format!("{} {:?} as parameter {}", f.name, f.p, at).chars().take(4000).collect::<String>());
    ctx.class(f.name);
    ctx.nontrivial = true;
    for _ in 0..s.size(1, 4) {
        let p = gen_path(s, &f.shape);
        let mut full = vec![Part::N(at)];
        full.extend(p.iter().cloned());
        let how = s.draw(5);
        let whole = (f.look)(&[]);
        // of a pair, the whole is the first; the path is then one into that
        let want = match (how, &whole) {
            (2 | 3, Some(w)) => w.get(&p),
            _ => (f.look)(&p),
        };
        ctx.class(if want.is_some() { "path-found" } else { "path-nowhere" });
        let text = {
            let mut pr = Printer::new(s, true);
            let path = pr.path(&full);
            let mut cut = |pr: &mut Printer, at_whole: &str| -> String {
                // the rest of the path below a variable
                let mut q = vec![Part::K("v".into())];
                q.extend(p.iter().cloned());
                let r = pr.path(&q);
                format!("{{{{let v = {}}}}}{{{{export r = {}}}}}", at_whole, r)
            };
            match how {
                0 | 1 => format!("{{{{export r = {}}}}}", path),
                2 if whole.is_some() => cut(&mut pr, &format!("${}", at)),
                3 if whole.is_some() => {
                    let mut q = vec![Part::K("d".into())];
                    q.extend(p.iter().cloned());
                    let r = pr.path(&q);
                    // through a sub-template: as a parameter with a name, returned
                    format!("{{{{define t c d}}}}{{{{return {}}}}}{{{{/define}}}}{{{{export r = run $t 1 ${}}}}}", r, at)
                }
                4 => format!("{{{{if 1}}}}{{{{let x=[{}]}}}}{{{{export r = $x.0}}}}{{{{/if}}}}", path),
                _ => format!("{{{{export r = {}}}}}", path),
            }
        };
        ctx.note(&text);
        ctx.op("render");
        let t = match parse(&text) {
            Ok(t) => t,
            Err(e) => crate::bail!("C14:parse", "{:?} does not parse: {}", text, e),
        };
        let got = run_exp(&t, &ps, &mut BasicTemps::new(), fm()).and_then(|(_, ex)| ex.get("r").map(V::from_td).ok_or_else(|| "no export".to_string()));
        match (&want, &got) {
            (Some(w), Ok(g)) => crate::ensure!(alike(w, g), format!("C14:{}", f.name), "{}: expected {} got {}", text, w.canon(), g.canon()),
            (None, Err(_)) => {}
            (Some(w), Err(e)) => crate::bail!(format!("C14:{}", f.name), "{}: expected {} got error {}", text, w.canon(), e),
            (None, Ok(g)) => crate::bail!(format!("C14:{}:nowhere", f.name), "{}: the path leads nowhere, got {}", text, g.canon()),
        }
        // what a template makes of it is what it makes of the same value as TData
        if let Some(w) = want {
            if how == 2 || how == 3 {
                continue;
            }
            let mut body = String::from("{{define show x}}{{if $x}}T{{else}}F{{/if}}");
            body.push_str("{{switch $x}}{{case [<a> _]}}list {{cat $a}}{{case {a:<a>}}}map {{len $a}}{{case ?(is_num @)}}num{{case _}}other{{/switch}}");
            body.push_str("{{first (len $x) \"nolen\"}} {{eq $x $x}} {{first (get $x 0) \"noget\"}} {{first (add 1 $x) \"noadd\"}}{{/define}}");
            if w.displayable() {
                body.push_str(&format!("{{{{cat {}}}}}", Printer::new(s, false).path(&full)));
            }
            body.push_str(&format!("{{{{run $show {}}}}}", Printer::new(s, false).path(&full)));
            let shows_map = match &w {
                V::List(l) => l.iter().any(|x| !x.displayable()),
                V::Map(m) => m.values().any(|x| !x.displayable()),
                _ => false,
            };
            if shows_map {
                continue;
            }
            let t = match parse(&body) {
                Ok(t) => t,
                Err(e) => crate::bail!("C14:parse", "{:?} does not parse: {}", body, e),
            };
            let a = run(&t, &ps, &mut BasicTemps::new(), fm());
            let t2 = parse(&body.replace(&format!("{{{{cat {}}}}}", Printer::new(s, false).path(&full)), "{{cat $0}}").replace(&format!("{{{{run $show {}}}}}", Printer::new(s, false).path(&full)), "{{run $show $0}}")).unwrap();
            let wt = w.td();
            let b = run(&t2, &[&wt as &dyn TParam], &mut BasicTemps::new(), fm());
            crate::ensure!(a.is_ok() == b.is_ok() && a.as_ref().ok() == b.as_ref().ok(), format!("C14:{}:render", f.name), "{} renders\n{:?}, the same as TData\n{:?}", body, a, b);
        }
    }
    // conversions
    if f.name == "JSON" || f.name == "TOML" {
        let v = &f.shape;
        let got = if f.name == "JSON" { TData::from_json(v.json().unwrap()) } else { TData::from_toml(v.toml().unwrap()) };
        crate::ensure!(alike(v, &V::from_td(&got)), "C14:conversion", "{} converts to {}", v.canon(), V::from_td(&got).canon());
    }
    Ok(())
}
fn pin_toml_dates(ctx: &mut Ctx) -> R {
    for d in ["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27T00:32:00.5-07:00"] {
        ctx.note(d);
        let v: toml::Value = format!("d = {}", d).parse().unwrap();
        let t = parse("{{$0.d}}").unwrap();
        let g = run(&t, &[&v as &dyn TParam], &mut BasicTemps::new(), fm());
        crate::ensure!(g.as_deref() == Ok(d), "C14:toml-date", "{} renders as {:?}", d, g);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        rule: "nested data in every parameter form (TData, JSON, TOML, maps, lists, plain values, cards, key-value pairs, pairs of parameters), paths that lead somewhere or nowhere, used directly, through variables and as arguments of sub-templates; non-trivial: always",
        quick: 40_000,
        factor: 25,
        fuel: 100_000_000,
        run: c14,
        pins: vec![("toml-dates", pin_toml_dates)],
        assumptions: vec!["JSON, TOML and cards do not tell Int from UInt; integers are compared by value", "maps rendered as text are left out, their order is not specified"],
    }]
}
