//! C05 - C13, C15, C34: the template language against the reference interpreter
use super::*;
use std::collections::BTreeMap;
use std::rc::Rc;

const PV: VOpt = VOpt { map_max: 2, ..ALL };
const NONE: Weights = Weights { text: 1, exp: 1, ifs: 0, fors: 0, lets: 0, export: 0, atlet: 0, block: 0, define: 0, global: 0, ret: 0, switch: 0, as_: 0, faults: 0, depth: 4, items: 30 };

pub fn gen_params(s: &mut Source, max: usize) -> Vec<V> {
    let np = s.count_to(0, max, 30);
    (0..np)
        .map(|_| match s.weighted(&[5, 3]) {
            0 => gen_v(s, PV),
            _ => gen_small(s),
        })
        .collect()
}
fn note_program(ctx: &mut Ctx, text: &str, params: &[V]) {
    ctx.note(format!("{}\n  parameters: {}", text, show_args(params)));
}
pub fn setup(g: &mut Gen, params: &[V]) {
    g.pvals = params.to_vec();
}
/// one program of the given flavour; non-trivial if one of the classes was seen
fn case(s: &mut Source, ctx: &mut Ctx, w: Weights, edepth: usize, peeks: u64, sig: &str, want: &[&str]) -> R {
    let at_peeks = if sig == "C12" { 20 } else { 1 };
    let mut params = gen_params(s, 3);
    let b = {
        let mut g = Gen::new(s, w, params.len());
        setup(&mut g, &params);
        g.edepth = edepth;
        g.peeks = peeks;
        g.at_peeks = at_peeks;
        g.program()
    };
    if s.chance(1, 60) {
        params.pop();
    }
    let text = print(s, &b, true);
    note_program(ctx, &text, &params);
    if differential(&text, &b, &params, ctx, sig)? {
        ctx.nontrivial = ctx.classes.iter().any(|c| want.contains(c));
    }
    Ok(())
}

// ------------------------------------------------------------ C05
fn c05(s: &mut Source, ctx: &mut Ctx) -> R {
    let faults = *s.pick(&[0, 0, 10, 40]);
    let w = Weights { text: 1, exp: 10, lets: 4, block: 1, export: 1, faults, depth: 1, items: 10, ..NONE };
    let d = s.size(2, 4);
    case(s, ctx, w, d, 1, "C05", &["calls-many"])
}

// ------------------------------------------------------------ C06
fn logged(s: &mut Source, e: E) -> E {
    if s.chance(1, 2) {
        call(*s.pick(&["rec", "e1", "nullify"]), vec![e])
    } else {
        e
    }
}
fn lazy(s: &mut Source, depth: usize, params: &mut Vec<V>) -> E {
    let mut arg = |s: &mut Source, params: &mut Vec<V>| -> E {
        match s.weighted(&[6, 3, 2, 1, 1, if depth > 0 { 4 } else { 0 }, 2, 2]) {
            0 => {
                let v = literal_of(&gen_small(s)).unwrap_or(V::Null);
                logged(s, lit(v))
            }
            1 => {
                let e = lit(V::UInt(s.draw(9) as usize));
                let e = logged(s, e);
                call("broken", vec![e])
            }
            2 => call("nothing", vec![lit(V::UInt(s.draw(9) as usize))]),
            3 => var("unset"),
            4 => {
                let e = logged(s, lit(V::Bool(true)));
                call("unknown", vec![e])
            }
            5 => lazy(s, depth - 1, params),
            6 => lit(V::Null),
            _ => {
                let v = gen_v(s, PV);
                params.push(v);
                let e = E::Var(vec![Part::N(params.len() - 1)]);
                logged(s, e)
            }
        }
    };
    match s.draw(2) {
        0 => {
            let n = s.count_to(0, 5, 60);
            // many: only the last ones are worth picking
            let idle = if n > 5 { s.draw(n as u64) as usize } else { 0 };
            let a = (0..n)
                .map(|i| {
                    if i < idle {
                        s.pick(&[lit(V::Null), var("unset"), call("nothing", vec![lit(V::UInt(i))]), call("broken", vec![lit(V::UInt(i))])]).clone()
                    } else {
                        arg(s, params)
                    }
                })
                .collect();
            call("first", a)
        }
        _ => {
            let n = s.count_to(0, 4, 60);
            let sel = match s.weighted(&[5, 6, 3, 2, 2, 1]) {
                0 => lit(V::Bool(s.chance(1, 2))),
                1 => lit(V::UInt(s.draw(n as u64 + 2) as usize)),
                2 => {
                    // the same number as another type
                    params.push(V::Int(s.draw(n as u64 + 2) as isize));
                    E::Var(vec![Part::N(params.len() - 1)])
                }
                3 => {
                    params.push(*Box::new(match s.draw(7) {
                        0 => V::UInt(usize::MAX),
                        1 => V::UInt(usize::MAX - 1),
                        2 => V::Int(isize::MAX),
                        3 => gen_date(s),
                        4 => V::Bytes(vec![1]),
                        5 => V::Float(gen_float(s, false)),
                        _ => V::UInt(1 << 32),
                    }));
                    E::Var(vec![Part::N(params.len() - 1)])
                }
                4 => match gen_small(s) {
                    V::Int(_) => lit(V::Bool(true)),
                    v => lit(v),
                },
                _ => arg(s, params),
            };
            // negative selectors are not specified: only those of lazy arguments may be
            let sel = logged(s, sel);
            let mut a = vec![sel];
            for _ in 0..n {
                a.push(arg(s, params));
            }
            call("select", a)
        }
    }
}
fn c06(s: &mut Source, ctx: &mut Ctx) -> R {
    let mut params = vec![];
    let n = s.size(1, 3);
    let mut b = vec![];
    for _ in 0..n {
        let d = s.size(0, 2);
        let e = lazy(s, d, &mut params);
        b.push(match s.draw(5) {
            0 => Item::Let(vec![("x".into(), e)]),
            1 => Item::If(vec![(e, vec![Item::Text("yes".into())])], Some(vec![Item::Text("no".into())])),
            2 => Item::Exp(call("show", vec![E::List(vec![e])])),
            3 => Item::Export(vec![("e0".into(), e)]),
            _ => Item::Exp(call("show", vec![e])),
        });
    }
    let text = print(s, &b, true);
    note_program(ctx, &text, &params);
    if differential(&text, &b, &params, ctx, "C06")? {
        ctx.nontrivial = true;
    }
    Ok(())
}

// ------------------------------------------------------------ C07 .. C13
fn c07(s: &mut Source, ctx: &mut Ctx) -> R {
    let w = Weights { text: 6, exp: 3, ifs: 14, lets: 3, fors: 1, faults: 20, depth: 4, items: 30, ..NONE };
    case(s, ctx, w, 2, 3, "C07", &["if-taken", "elif-taken", "else-taken"])
}
fn c08(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(1, 4) {
        return c08_map(s, ctx);
    }
    if s.chance(1, 12) {
        return c08_huge(s, ctx);
    }
    if s.chance(1, 30) {
        return c08_list(s, ctx);
    }
    let w = Weights { text: 4, exp: 8, ifs: 2, fors: 12, lets: 6, atlet: 1, faults: 4, depth: 4, items: 30, ..NONE };
    case(s, ctx, w, 2, 12, "C08", &["loop-many"])
}
/// a count of any size, in a loop that ends with an error after a few rounds
fn c08_huge(s: &mut Source, ctx: &mut Ctx) -> R {
    let n = match s.draw(8) {
        0 => V::UInt(usize::MAX - s.draw(3) as usize),
        1 => V::UInt((isize::MAX as usize).wrapping_add(s.draw(3) as usize)),
        2 => V::Int(isize::MAX - s.draw(3) as isize),
        3 => V::UInt(1usize << (20 + s.draw(44))),
        4 => V::Int(1isize << (20 + s.draw(43))),
        5 => V::Int(isize::MIN + s.draw(3) as isize),
        6 => V::UInt((1usize << (20 + s.draw(44))) - 1),
        _ => V::Int(-(s.draw(1000) as isize)),
    };
    let end = s.draw(4) as usize;
    let mut pick = vec![var("v")];
    for i in 0..5 {
        pick.push(if i == end { call("broken", vec![var("k")]) } else { call("rec", vec![var("k"), var("v")]) });
    }
    let mut body = vec![Item::Text("x".into()), Item::Exp(call("select", pick))];
    if s.chance(1, 3) {
        body = vec![Item::If(vec![(lit(V::Bool(true)), body)], None)];
    }
    let given = E::Var(vec![Part::N(0)]);
    let head = match &n {
        V::UInt(_) if s.chance(1, 3) => lit(n.clone()),
        _ if s.chance(1, 2) => var("n"),
        _ => given.clone(),
    };
    let mut b = vec![Item::Let(vec![("n".into(), given)])];
    b.push(Item::For("k".into(), "v".into(), head, body));
    b.push(Item::Exp(call("rec", vec![lit(V::UInt(9))])));
    let text = print(s, &b, true);
    note_program(ctx, &text, &[n.clone()]);
    ctx.class("huge-count");
    if differential(&text, &b, &[n], ctx, "C08")? {
        ctx.nontrivial = true;
    }
    Ok(())
}
/// lists and counts of any length: every round has its index and its item
fn c08_list(s: &mut Source, ctx: &mut Ctx) -> R {
    let n = match s.weighted(&[4, 3, 3, 1]) {
        0 => s.size(0, 40),
        1 => s.size(0, 300),
        2 => (1usize << (4 + s.draw(7))) + s.size(0, 3) - 1,
        _ => s.size(0, 4200),
    };
    let kinds = s.draw(3);
    let (v, items): (V, Vec<V>) = match kinds {
        0 => (V::UInt(n), (0..n).map(V::UInt).collect()),
        1 => (V::Int(n as isize), (0..n).map(|i| V::Int(i as isize)).collect()),
        _ => {
            let pool: Vec<V> = (0..s.size(1, 5)).map(|_| gen_small(s)).collect();
            let l: Vec<V> = (0..n).map(|i| if i % 7 == 3 { V::UInt(i * 31) } else { pool[i % pool.len()].clone() }).collect();
            (V::List(l.clone()), l)
        }
    };
    let text = match s.draw(3) {
        0 => "{{for k v in $0}}\u{1}{{show $k $v}}{{/for}}",
        1 => "{{let n = $0}}{{for k v in $n}}\u{1}{{let w = $v}}{{if true}}{{show $k $w}}{{/if}}{{let k = 1; v = 2}}{{/for}}",
        _ => "{{for k v in $0}}\u{1}{{for i j in [$k]}}{{show $j $v}}{{/for}}{{/for}}",
    };
    ctx.note(format!("{:?} on {} items, kind {}", text, n, kinds));
    ctx.class("any-length");
    ctx.nontrivial = n > 1;
    ctx.op("render");
    let o = run_real(text, &[v], &mut BasicTemps::new());
    let got = match o {
        Ok(Outcome { res: Ok((g, _)), .. }) => g,
        Ok(Outcome { res: Err(e), .. }) | Err(e) => crate::bail!("C08:list", "looping over {} items fails: {}", n, e),
    };
    let got: Vec<&str> = got.split('\u{1}').skip(1).collect();
    crate::ensure!(got.len() == n, "C08:list", "{} items, {} rounds", n, got.len());
    for (i, (g, v)) in got.iter().zip(&items).enumerate() {
        let want = crate::lang::canon_args(&[V::UInt(i), v.clone()]);
        crate::ensure!(*g == want, "C08:list", "of {} items, round {}: expected {:?}, got {:?}", n, i, want, g);
    }
    Ok(())
}
fn c08_map(s: &mut Source, ctx: &mut Ctx) -> R {
    let v = gen_v(s, VOpt { map_max: 6, depth: 2, ..ALL });
    let m = match v {
        V::Map(m) => m,
        v => {
            let mut m = BTreeMap::new();
            for _ in 0..s.count(0, 7) {
                m.insert(gen_string(s, 4), gen_small(s));
            }
            m.insert("v".into(), v);
            m
        }
    };
    // what the body does with k and v
    let inner = s.draw(3);
    let text = match inner {
        0 => "{{for k v in $0}}\u{1}{{show $k}}\u{2}{{show $v}}{{let x = 1}}{{/for}}".to_string(),
        1 => "{{for k v in $0}}\u{1}{{show $k}}\u{2}{{let w = $v}}{{if true}}{{show $w}}{{/if}}{{/for}}".to_string(),
        _ => "{{let k = 1; v = 2; n = $0}}{{for k v in $n}}{{first $x \"\u{1}\"}}{{let x = \"leak\"}}{{rec ( show $k )}}\u{2}{{for kk vv in [$v]}}{{show $vv}}{{/for}}{{/for}}".to_string(),
    };
    ctx.note(format!("{:?} on {}", text, V::Map(m.clone()).canon()));
    ctx.class("map-loop");
    ctx.nontrivial = m.len() > 1;
    ctx.op("render");
    let o = run_real(&text, &[V::Map(m.clone())], &mut BasicTemps::new());
    let got = match o {
        Ok(Outcome { res: Ok((g, _)), .. }) => g,
        Ok(Outcome { res: Err(e), .. }) | Err(e) => crate::bail!("C08:map", "looping over a map fails: {}", e),
    };
    let mut got: Vec<&str> = got.split('\u{1}').skip(1).collect();
    got.sort();
    let mut want: Vec<String> = m.iter().map(|(k, v)| format!("{}\u{2}{}", V::s(k.clone()).canon(), v.canon())).collect();
    want.sort();
    crate::ensure!(got == want, "C08:map", "entries expected (in any order): {:?}\n got: {:?}", want, got);
    Ok(())
}
fn c09(s: &mut Source, ctx: &mut Ctx) -> R {
    let w = Weights { text: 2, exp: 8, ifs: 3, fors: 3, lets: 12, export: 1, atlet: 3, block: 3, define: 1, global: 0, ret: 0, switch: 3, as_: 3, faults: 3, depth: 4, items: 40 };
    case(s, ctx, w, 1, 15, "C09", &["if-taken", "elif-taken", "else-taken", "loop-many", "case-taken", "as-taken", "block-helper", "alternative-taken"])
}
fn c10(s: &mut Source, ctx: &mut Ctx) -> R {
    let w = Weights { text: 2, exp: 6, ifs: 1, fors: 1, lets: 3, switch: 12, as_: 8, faults: 3, depth: 3, items: 25, ..NONE };
    case(s, ctx, w, 1, 12, "C10", &["case-taken", "alternative-taken", "as-taken", "no-case"])
}
/// One value against one pattern derived from it or not, deeper and stranger than programs have
fn c10_direct(s: &mut Source, ctx: &mut Ctx) -> R {
    let v = match s.draw(3) {
        0 => gen_v(s, VOpt { depth: 3, map_max: 3, ..ALL }),
        1 => gen_v(s, VOpt { depth: 3, map_max: 3, ..LITERAL }),
        _ => {
            let n = s.count_to(0, 4, 60);
            V::List((0..n).map(|_| gen_small(s)).collect())
        }
    };
    let n = s.count_to(1, 4, 30);
    let mut cases = vec![];
    let names = ["a", "b", "x", "iff", "nullable", "in_", "my v", "truth", "k", "my key", "name", "c"];
    let see = || -> Vec<Item> { vec![Item::Exp(call("show", names.iter().map(|n| call("first", vec![var(n), lstr("none")])).collect()))] };
    let as_form = s.chance(1, 4);
    for i in 0..n {
        let mut pats = vec![];
        let np = s.count_to(1, 2, 20);
        for _ in 0..np {
            let mut caps = vec![];
            let x = if s.chance(1, 4) { perturb(s, &v) } else { v.clone() };
            let mut g = Gen::new(s, Weights { faults: 10, ..NONE }, 0);
            pats.push(g.pattern_for(&x, &mut caps));
        }
        let mut b = see();
        b.insert(0, Item::Text(format!("case{};", i)));
        cases.push((pats, b));
    }
    let e = E::Var(vec![Part::N(0)]);
    let mut b = vec![Item::Let(vec![("a".into(), lstr("outer")), ("x".into(), lit(V::UInt(1)))])];
    if as_form {
        for (ps, body) in cases {
            for p in ps {
                b.push(Item::As(e.clone(), p, body.clone()));
            }
        }
    } else {
        b.push(Item::Switch(e, String::new(), cases));
    }
    b.extend(see());
    let params = vec![v];
    let text = print(s, &b, true);
    note_program(ctx, &text, &params);
    if differential(&text, &b, &params, ctx, "C10")? {
        ctx.nontrivial = true;
    }
    Ok(())
}
fn c10_both(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(1, 2) {
        c10(s, ctx)
    } else {
        c10_direct(s, ctx)
    }
}
const STORED: &[&str] = &["s0", "s1", "s2"];
/// templates the template manager holds before any run (no parameter names)
fn stored(s: &mut Source, m: &mut Model, tm: &mut BasicTemps, notes: &mut String) -> Result<Vec<String>, Fail> {
    let n = s.size(0, 3);
    let mut r = vec![];
    for i in 0..n {
        // the last may carry the name of a helper: it is never used
        let name = if i == 2 && s.chance(1, 2) { (*s.pick(&["rec", "wrap", "pack", "broken", "broken", "nothing"])).to_string() } else { STORED[i].to_string() };
        let np = s.size(0, 2);
        let b = {
            let mut g = Gen::new(s, Weights { items: 8, depth: 2, define: 0, global: 0, ..MIXED }, np);
            g.glimit0();
            g.program()
        };
        let text = print(s, &b, true);
        notes.push_str(&format!("  stored {}: {}\n", name, text));
        let t = match parse(&text) {
            Ok(t) => t,
            Err(e) => crate::bail!("language:parse", "a valid program does not parse: {}\n{}", e, text),
        };
        tm.insert_t(name.clone(), t);
        if name.starts_with('s') {
            m.templates.push(Tpl { pnames: vec![], body: Rc::new(b) });
            m.globals.insert(name.clone(), m.templates.len() - 1);
            r.push(name);
        }
    }
    Ok(r)
}
fn c11(s: &mut Source, ctx: &mut Ctx) -> R {
    let w = Weights { text: 3, exp: 10, ifs: 2, fors: 2, lets: 4, export: 1, atlet: 1, block: 2, define: 6, global: 5, ret: 3, switch: 1, as_: 1, faults: 4, depth: 4, items: 35 };
    let mut m = Model::default();
    let mut tm = BasicTemps::new();
    let mut notes = String::new();
    let st = stored(s, &mut m, &mut tm, &mut notes)?;
    let runs = s.size(1, 3);
    let mut gd = 0;
    for _ in 0..runs {
        let params = gen_params(s, 2);
        let b = {
            let mut g = Gen::new(s, w, params.len());
            setup(&mut g, &params);
            g.stored = st.clone();
            g.gdefined = gd;
            g.tcalls = 12;
            g.peeks = 6;
            g.name_peeks = 8;
            let b = g.program();
            gd = g.gdefined;
            b
        };
        let text = print(s, &b, true);
        ctx.note(&notes);
        notes.clear();
        note_program(ctx, &text, &params);
        if !differential_on(&text, &b, &params, &mut m, &mut tm, ctx, "C11")? {
            return Ok(());
        }
    }
    ctx.nontrivial = ctx.classes.contains(&"template-call");
    Ok(())
}
fn c12(s: &mut Source, ctx: &mut Ctx) -> R {
    let w = Weights { text: 6, exp: 4, ifs: 1, fors: 2, lets: 2, export: 1, atlet: 6, block: 12, define: 0, global: 1, ret: 0, switch: 1, as_: 1, faults: 4, depth: 4, items: 30 };
    case(s, ctx, w, 1, 8, "C12", &["block-helper"])
}
fn c13(s: &mut Source, ctx: &mut Ctx) -> R {
    let w = Weights { text: 3, exp: 3, ifs: 3, fors: 3, lets: 3, export: 10, atlet: 4, block: 2, define: 1, global: 1, ret: 3, switch: 2, as_: 2, faults: 15, depth: 3, items: 30 };
    let params = gen_params(s, 2);
    let b = {
        let mut g = Gen::new(s, w, params.len());
        setup(&mut g, &params);
        g.program()
    };
    let text = print(s, &b, true);
    note_program(ctx, &text, &params);
    if differential(&text, &b, &params, ctx, "C13")? {
        ctx.nontrivial = ctx.classes.contains(&"export") || ctx.classes.contains(&"return");
    }
    check_front(&text, &b, ctx, "C13:front-matter")?;
    if s.chance(1, 4) {
        let (text, b) = {
            let b = failing_blocks(s, b);
            (print(s, &b, true), b)
        };
        ctx.note(format!("front matter of {}", text));
        ctx.class("failing-block");
        check_front(&text, &b, ctx, "C13:front-matter")?;
    }
    Ok(())
}
/// puts blocks that fail after they set variables at the top of a program, and exports that read those
fn failing_blocks(s: &mut Source, mut b: Vec<Item>) -> Vec<Item> {
    for _ in 0..s.size(1, 2) {
        let names = ["a", "b", "x", "v", "k", "e0", "e1"];
        let n = *s.pick(&names);
        let e = |s: &mut Source| (*s.pick(&["e0", "e1", "e2", "e3"])).to_string();
        let fault = match s.draw(4) {
            0 => Item::Exp(call("broken", vec![])),
            1 => Item::Exp(var("nowhere")),
            2 => Item::Let(vec![(n.into(), lstr("first")), ("z".into(), call("broken", vec![lit(V::UInt(1))]))]),
            _ => Item::AtLet("z".into(), vec![Item::Let(vec![("a".into(), lit(V::UInt(5)))]), Item::Exp(call("broken", vec![]))]),
        };
        let mut inner = vec![];
        if s.chance(1, 2) {
            inner.push(Item::Text("t".into()));
        }
        inner.push(match s.draw(3) {
            0 => Item::AtLet(n.into(), vec![Item::Text("inside".into())]),
            1 => Item::Export(vec![(e(s), lstr("exported"))]),
            _ => Item::Let(vec![(n.into(), lit(V::UInt(s.draw(100) as usize)))]),
        });
        inner.push(match s.draw(6) {
            0 => Item::For("k".into(), "v".into(), lit(V::UInt(2)), vec![fault]),
            1 => Item::If(vec![(lit(V::Bool(true)), vec![Item::Let(vec![("b".into(), lit(V::UInt(7)))]), fault])], None),
            2 => Item::Block("wrap".into(), vec![], vec![Item::Let(vec![("x".into(), lit(V::UInt(8)))]), fault]),
            3 => Item::As(lit(V::UInt(3)), Pat::Cap("v".into(), None), vec![fault]),
            _ => fault,
        });
        let at = s.draw(b.len() as u64 + 1) as usize;
        b.insert(at, Item::AtExport(e(s), inner));
        let to = at + 1 + s.draw((b.len() - at) as u64) as usize;
        let seen = if s.chance(1, 2) { n } else { *s.pick(&names) };
        b.insert(
            to,
            match s.draw(3) {
                0 => Item::AtExport(e(s), vec![Item::Exp(var(seen))]),
                1 => Item::AtExport(e(s), vec![Item::Text("k".into()), Item::Let(vec![("q".into(), lit(V::UInt(1)))]), Item::Exp(var("q"))]),
                _ => Item::Export(vec![(e(s), var(seen))]),
            },
        );
    }
    b
}
fn check_front(text: &str, b: &[Item], ctx: &mut Ctx, sig: &str) -> R {
    let mut m = Model::default();
    let want = m.front(b);
    if m.unspecified {
        return Ok(());
    }
    ctx.op("front_matter");
    let t = match parse(text) {
        Ok(t) => t,
        Err(e) => crate::bail!("C13:parse", "a valid program does not parse: {}", e),
    };
    let (f, _) = helpers();
    let got = front_matter(&t, &f);
    same_front(&want, &got, sig)?;
    ctx.class_if(!want.is_empty(), "front-matter");
    Ok(())
}
fn same_front(want: &BTreeMap<String, V>, got: &Exports, sig: &str) -> R {
    for k in ["e0", "e1", "e2", "e3"] {
        let w = want.get(k).map(|v| v.canon());
        let g = got.get(k).map(|d| V::from_td(d).canon());
        crate::ensure!(w == g, sig, "front matter {}: expected {:?} got {:?}", k, w, g);
    }
    Ok(())
}

// ------------------------------------------------------------ C15
fn c15(s: &mut Source, ctx: &mut Ctx) -> R {
    let w = Weights { items: 16, faults: 12, ..MIXED };
    let (f, log) = helpers();
    let mut m = Model::default();
    let mut tm = BasicTemps::new();
    let mut notes = String::new();
    let st = stored(s, &mut m, &mut tm, &mut notes)?;
    let k = s.size(1, 3);
    let mut progs = vec![];
    for i in 0..k {
        let params = gen_params(s, 2);
        let b = {
            let mut g = Gen::new(s, w, params.len());
            setup(&mut g, &params);
            g.stored = st.clone();
            // calls to globals of other templates, which may or may not be there
            g.gdefined = s_chance(&mut g);
            g.peeks = 5;
            g.name_peeks = 12;
            g.program()
        };
        let text = print(s, &b, true);
        notes.push_str(&format!("T{}: {}\n  parameters: {}\n", i, text, show_args(&params)));
        let t = match parse(&text) {
            Ok(t) => t,
            Err(e) => crate::bail!("language:parse", "a valid program does not parse: {}\n{}", e, text),
        };
        let before = format!("{:?}", t);
        let tds: Vec<TData> = params.iter().map(|v| v.td()).collect();
        progs.push((b, text, t, before, params, tds));
    }
    let n = s.size(2, 8);
    let ops: Vec<(usize, u64)> = (0..n).map(|_| (s.draw(k as u64) as usize, s.draw(6))).collect();
    notes.push_str(&format!("history (template, 0-1 run_exp 2 run 3 of a clone 4 reparsed 5 front_matter): {:?}", ops));
    ctx.note(&notes);
    ctx.nontrivial = true;
    for (step, (i, op)) in ops.iter().enumerate() {
        let (b, text, t, before, params, tds) = &progs[*i];
        let ps: Vec<&dyn TParam> = tds.iter().map(|t| t as &dyn TParam).collect();
        m.log.clear();
        m.steps = 0;
        log.borrow_mut().clear();
        if *op == 5 {
            let want = m.front(b);
            if m.unspecified {
                return Ok(());
            }
            ctx.op("front_matter");
            let got = front_matter(t, &f);
            same_front(&want, &got, "C15:front-matter")?;
        } else {
            let want = m.program(b, params.clone());
            if m.unspecified {
                ctx.class("discarded-unspecified");
                return Ok(());
            }
            ctx.op("render");
            let res = match op {
                2 => run(t, &ps, &mut tm, &f).map(|s| (s, None)),
                3 => run_exp(&t.clone(), &ps, &mut tm, &f).map(|(a, b)| (a, Some(b))),
                4 => match parse(text) {
                    Ok(t) => run_exp(&t, &ps, &mut tm, &f).map(|(a, b)| (a, Some(b))),
                    Err(e) => crate::bail!("C15:reparse", "does not parse again: {}", e),
                },
                _ => run_exp(t, &ps, &mut tm, &f).map(|(a, b)| (a, Some(b))),
            };
            ctx.class(if want.is_ok() { "run-succeeds" } else { "run-fails" });
            let (want, res) = match (want, res) {
                // run gives no exports to compare
                (Ok((w, _)), Ok((g, None))) => (Ok((w, BTreeMap::new())), Ok((g, Exports::new()))),
                (w, r) => (w, r.map(|(a, b)| (a, b.unwrap_or_default()))),
            };
            let o = Outcome { res, log: log.borrow().clone() };
            if let Err(mut e) = compare(&want, &m, &o, "C15") {
                e.msg = format!("step {}: {}", step, e.msg);
                return Err(e);
            }
        }
        let after = format!("{:?}", t);
        crate::ensure!(&after == before, "C15:template-changed", "step {}: the template changed from {} to {}", step, before, after);
        for (d, v) in tds.iter().zip(params) {
            crate::ensure!(V::from_td(d).same(v), "C15:params-changed", "step {}: a parameter changed", step);
        }
    }
    Ok(())
}
fn s_chance(g: &mut Gen) -> usize {
    g.s.draw(2) as usize
}

/// a text and one that is nearly the same
pub fn near(s: &mut Source, x: &str) -> String {
    let mut c: Vec<char> = x.chars().collect();
    match s.draw(9) {
        0 => format!("{} ", x),
        1 => format!(" {}", x),
        2 => x.to_uppercase(),
        3 => c.into_iter().rev().collect(),
        4 if !c.is_empty() => {
            let i = s.draw(c.len() as u64) as usize;
            c[i] = *s.pick(&['a', 'b', '1', '2', '.', ' ', '\n', '-']);
            c.into_iter().collect()
        }
        5 if c.len() > 1 => {
            let i = s.draw(c.len() as u64 - 1) as usize;
            c.swap(i, i + 1);
            c.into_iter().collect()
        }
        6 => format!("{}{}", x, x),
        7 => {
            c.pop();
            c.into_iter().collect()
        }
        _ => format!("{}\n", x),
    }
}
pub fn helper_call(s: &mut Source) -> (&'static str, Vec<V>) {
    let word = |s: &mut Source| -> String {
        let n = s.size(1, 6);
        (0..n).map(|_| *s.pick(&['a', 'b', 'A', '1', ' ', '.', '-', '*'])).collect()
    };
    let nums = |s: &mut Source| -> V {
        let n = s.size(1, 5);
        V::List((0..n).map(|_| V::UInt(s.draw(5) as usize)).collect())
    };
    let recs = |s: &mut Source| -> V {
        let n = s.size(1, 5);
        V::List((0..n).map(|_| V::Map(["a", "b", "ab"].iter().map(|k| (k.to_string(), V::UInt(s.draw(3) as usize))).collect())).collect())
    };
    match s.draw(14) {
        0 => ("regex", vec![V::s(word(s)), V::s((*s.pick(&["a", "b", "a.", "^a", "a$", "[ab]", "b*1", " a"])).to_string())]),
        1 => ("regex", vec![V::s("ab 1ba"), V::s(word(s).replace('*', "+"))]),
        2 => {
            let e = format!("{} $0 {}", s.pick(&["gt", "lt", "eq", "neq", "gte"]), s.draw(5));
            ("filter", vec![nums(s), V::s(e)])
        }
        3 => ("sort_on", vec![recs(s), V::s((*s.pick(&["a", "b", "-a", "-b", "ab"])).to_string())]),
        4 => ("sort_on", vec![recs(s), V::s((*s.pick(&["a", "b", "-a", "-b"])).to_string()), V::s((*s.pick(&["a", "b", "-a", "-b"])).to_string())]),
        5 => ("md", vec![V::s(word(s))]),
        6 => ("table", vec![V::s(format!("|{}|{}|", word(s), word(s)))]),
        7 => ("r_json", vec![V::s(format!("[{}, \"{}\"]", s.draw(30), word(s)))]),
        8 => ("split", vec![V::s(word(s)), V::s((*s.pick(&["a", "b", " ", "1"])).to_string())]),
        9 => ("str_replace", vec![V::s(word(s)), V::s("a"), V::s(word(s))]),
        10 => ("html_esc", vec![V::s(format!("<{}&{}", word(s), word(s)))]),
        11 => ("word_wrap", vec![V::s(word(s)), V::UInt(1 + s.draw(6) as usize)]),
        12 => ("from_base64", vec![V::s(word(s))]),
        _ => ("bin_search", vec![V::List((0..s.size(1, 5)).map(V::UInt).collect()), V::UInt(s.draw(6) as usize)]),
    }
}
/// What a helper gives does not depend on the calls before it: a handful of calls
/// in two orders, each on fresh helpers in a thread of its own
fn c15_helpers(s: &mut Source, ctx: &mut Ctx) -> R {
    let mut calls = vec![helper_call(s)];
    for _ in 0..s.size(1, 5) {
        if s.chance(3, 4) {
            // nearly an earlier one
            let mut c = s.pick(&calls).clone();
            let i = s.draw(c.1.len() as u64) as usize;
            match &c.1[i] {
                V::Str(x) => {
                    let x = x.clone();
                    c.1[i] = V::Str(near(s, &x));
                }
                V::UInt(n) => c.1[i] = V::UInt(n + 1),
                V::List(l) => {
                    let mut l = l.clone();
                    if s.chance(1, 2) {
                        l.reverse();
                    } else {
                        l.pop();
                    }
                    c.1[i] = V::List(l)
                }
                _ => {}
            }
            calls.push(c);
        } else {
            calls.push(helper_call(s));
        }
    }
    for (n, a) in &calls {
        ctx.note(format!("{} {}", n, show_args(a)));
    }
    ctx.class("helper-orders");
    ctx.op("helper history");
    ctx.nontrivial = true;
    let order = |rev: bool| -> Vec<usize> {
        let mut o: Vec<usize> = (0..calls.len()).collect();
        if rev {
            o.reverse();
        }
        // every call twice, the second time in the same order again
        o.iter().chain(o.iter()).copied().collect()
    };
    let mut seen: Vec<Option<Result<V, ()>>> = vec![None; calls.len()];
    for rev in [false, true] {
        let o = order(rev);
        let cs = calls.clone();
        let o2 = o.clone();
        let got = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let fm = func_man::default_func_man();
            o2.into_iter()
                .map(|i| {
                    let tds: Vec<TData> = cs[i].1.iter().map(|v| v.td()).collect();
                    direct(&fm, cs[i].0, &tds).map(|d| V::from_td(&d)).map_err(|_| ())
                })
                .collect::<Vec<_>>()
        });
        let got = match got.map(|h| h.join()) {
            Ok(Ok(g)) => g,
            Ok(Err(_)) => crate::bail!("C15:helper-panics", "a helper panics"),
            Err(_) => return Ok(()),
        };
        for (i, g) in o.into_iter().zip(got) {
            match &seen[i] {
                None => seen[i] = Some(g),
                Some(was) => {
                    let same = match (was, &g) {
                        (Ok(a), Ok(b)) => a.same(b),
                        (Err(()), Err(())) => true,
                        _ => false,
                    };
                    crate::ensure!(same, "C15:helper-history", "{} {} gives {} or {}, depending on the calls before it", calls[i].0, show_args(&calls[i].1), show_res(was), show_res(&g));
                }
            }
        }
    }
    Ok(())
}
fn show_res(r: &Result<V, ()>) -> String {
    match r {
        Ok(v) => v.canon(),
        Err(()) => "an error".into(),
    }
}
fn c15_both(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(1, 4) {
        c15_helpers(s, ctx)
    } else {
        c15(s, ctx)
    }
}

// ------------------------------------------------------------ C34
fn c34(s: &mut Source, ctx: &mut Ctx) -> R {
    let params = gen_params(s, 3);
    let mut m = Model::default();
    let mut tm = BasicTemps::new();
    let mut notes = String::new();
    let st = if s.chance(1, 4) { stored(s, &mut m, &mut tm, &mut notes)? } else { vec![] };
    let b = {
        let items = *g_pick(s, &[20, 40, 80]);
        let mut g = Gen::new(s, Weights { items, ..MIXED }, params.len());
        setup(&mut g, &params);
        g.stored = st.clone();
        g.peeks = 3;
        g.program()
    };
    let plain = print(s, &b, false);
    let free = print(s, &b, true);
    ctx.note(&notes);
    note_program(ctx, &plain, &params);
    ctx.note(format!("also written: {}", free));
    let globals = m.globals.clone();
    let mut tm2 = tm.clone();
    let first = differential_on(&plain, &b, &params, &mut m, &mut tm, ctx, "C34")?;
    if first {
        let mut m2 = Model { templates: m.templates.clone(), globals, ..Model::default() };
        differential_on(&free, &b, &params, &mut m2, &mut tm2, ctx, "C34:free")?;
        ctx.nontrivial = b.len() > 2;
    }
    Ok(())
}
fn g_pick<'a, T>(s: &mut Source, v: &'a [T]) -> &'a T {
    s.pick(v)
}

fn prop(id: &'static str, rule: &'static str, quick: u64, run: RunFn) -> Prop {
    Prop { id, rule, quick, factor: 25, fuel: 400_000_000, run, pins: vec![], assumptions: vec!["rendered maps and bytes, whose text is not specified, are left out of comparisons (such cases are discarded and counted)"] }
}
pub fn props() -> Vec<Prop> {
    vec![
        prop("C05", "expression programs, depth up to 4, in free formatting, with failing and unknown names; every helper call is logged and compared; non-trivial: at least two logged calls", 200_000, c05),
        prop("C06", "nested first/select calls whose arguments are logged, failing, null or unknown, selectors of every type; non-trivial: always", 300_000, c06),
        prop("C07", "if/elif/else chains with conditions of every type, logged and failing ones; non-trivial: a branch is taken", 200_000, c07),
        prop("C08", "loops over lists, numbers, maps and anything else, with probes for leaked variables; non-trivial: a loop of several rounds", 150_000, c08),
        prop("C09", "nests of all blocks with lets and probes of variables; non-trivial: some block is entered", 150_000, c09),
        prop("C10", "switch/as on values with patterns derived from the value (or a changed one), probes of all captures; non-trivial: a switch or as is decided", 150_000, c10_both),
        prop("C11", "define/global/run/return programs, up to 3 on one template manager with stored templates; non-trivial: a template is called", 120_000, c11),
        prop("C12", "block helpers with and without parameters, @let and @export, nested; non-trivial: a block helper runs", 200_000, c12),
        prop("C13", "programs with exports at every level, failing ones too, and their front matter; non-trivial: an export or return is executed", 150_000, c13),
        prop("C15", "histories of 2-8 runs of up to 3 templates (run_exp, run, clones, reparsed, front_matter) on one helper and template manager, and sets of 2-6 helper calls with nearly equal arguments in two orders; non-trivial: always", 80_000, c15_both),
        prop("C34", "programs of up to 80 items over all constructs, each in plain and in free formatting; non-trivial: more than two top level items", 60_000, c34),
    ]
}
