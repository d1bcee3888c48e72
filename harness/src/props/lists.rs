//! C18 sorting and searching, C19 lists and maps
use super::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// exact order of two values, None where it is not laid down (two lists, two maps, NaN);
/// kinds order as their simplest values do
pub fn order(a: &V, b: &V) -> Option<Ordering> {
    if a.is_num() && b.is_num() {
        return num_cmp(a, b);
    }
    match (a, b) {
        (V::Null, V::Null) => Some(Ordering::Equal),
        (V::Bool(x), V::Bool(y)) => Some(x.cmp(y)),
        (V::Str(x), V::Str(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (V::Bytes(x), V::Bytes(y)) => Some(x.cmp(y)),
        (V::Date(y, m, d), V::Date(y2, m2, d2)) => Some((y, m, d).cmp(&(y2, m2, d2))),
        _ => {
            let (x, y) = (rank(a)?, rank(b)?);
            if x == y {
                None
            } else {
                Some(x.cmp(&y))
            }
        }
    }
}
thread_local! {
    static RANKS: Option<Vec<&'static str>> = ranks();
}
fn group(v: &V) -> &'static str {
    if v.is_num() {
        "number"
    } else {
        v.kind()
    }
}
/// the order of kinds, as gt tells it of their simplest values (C17 checks that it is fixed)
fn ranks() -> Option<Vec<&'static str>> {
    let mut v = vec![V::Null, V::Bool(false), V::UInt(0), V::s(""), V::Date(2000, 1, 1), V::Bytes(vec![]), V::List(vec![]), V::Map(BTreeMap::new())];
    v.sort_by(|a, b| match direct(fm(), "gt", &[a.td(), b.td()]) {
        Ok(TData::Bool(true)) => Ordering::Greater,
        _ => Ordering::Less,
    });
    Some(v.iter().map(group).collect())
}
fn rank(v: &V) -> Option<usize> {
    let g = group(v);
    RANKS.with(|r| r.as_ref().and_then(|r| r.iter().position(|x| *x == g)))
}

// ------------------------------------------------------------------ C18
/// pairs up the output with input positions; equal texts keep their order
fn positions(input: &[V], out: &[V]) -> Option<Vec<usize>> {
    if input.len() != out.len() {
        return None;
    }
    let mut left: BTreeMap<String, std::collections::VecDeque<usize>> = BTreeMap::new();
    for (i, v) in input.iter().enumerate() {
        left.entry(v.canon()).or_default().push_back(i);
    }
    out.iter().map(|v| left.get_mut(&v.canon()).and_then(|q| q.pop_front())).collect()
}
/// every pair of the output must be in order, equal ones as in the input
fn check_sorted(sig: &str, show: &str, input: &[V], out: &[V], cmp: &dyn Fn(&V, &V) -> Option<Ordering>) -> R {
    let pos = match positions(input, out) {
        Some(p) => p,
        None => crate::bail!(format!("{}:permutation", sig), "{}\nhas not the elements of\n{}\nbut\n{}", show, show_args(input), show_args(out)),
    };
    for i in 0..out.len() {
        for j in i + 1..out.len() {
            let bad = match cmp(&out[i], &out[j]) {
                Some(Ordering::Greater) => true,
                Some(Ordering::Equal) => pos[i] > pos[j],
                _ => false,
            };
            crate::ensure!(!bad, format!("{}:order", sig), "{}\ngives {}\nwhere {} must not be before {}", show, show_args(out), out[i].canon(), out[j].canon());
        }
    }
    Ok(())
}
fn key_value(s: &mut Source, mode: u64) -> V {
    match mode {
        0 => V::UInt(s.draw(3) as usize),
        1 => V::s(*s.pick(&["a", "b", "", "B", "é", "ab"])),
        2 => match s.draw(4) {
            0 => V::UInt(s.draw(3) as usize),
            1 => V::Int(s.range(-2, 2) as isize),
            2 => V::Float(s.range(-4, 4) as f64 / 2.0),
            _ => V::Float(gen_float(s, true)),
        },
        3 => gen_small(s),
        4 => gen_scalar(s, ALL),
        _ => gen_v(s, ALL),
    }
}
fn length(s: &mut Source) -> usize {
    match s.weighted(&[4, 3, 1]) {
        0 => s.size(0, 6),
        1 => s.size(5, 30),
        _ => s.size(30, 90),
    }
}
const KEYS: &[&str] = &["a", "b", "n", "my key"];
fn entry(s: &mut Source, mode: u64, i: usize) -> V {
    let mut m = BTreeMap::new();
    for k in ["a", "b", "my key"] {
        if s.chance(7, 8) {
            m.insert(k.to_string(), key_value(s, mode));
        }
    }
    if s.chance(3, 4) {
        let mut n = BTreeMap::new();
        n.insert("a".to_string(), key_value(s, mode));
        n.insert("l".to_string(), V::List((0..s.size(1, 3)).map(|_| key_value(s, mode)).collect()));
        m.insert("n".into(), V::Map(n));
    }
    if s.chance(7, 8) {
        // to tell equal ones apart
        m.insert("id".into(), V::UInt(i));
    }
    V::Map(m)
}
type Path = (bool, Vec<Part>);
fn criterion(s: &mut Source, rows: bool) -> Path {
    let down = s.chance(1, 3);
    let p = if rows {
        match s.draw(4) {
            0 => vec![Part::N(0)],
            1 => vec![Part::N(1)],
            2 => vec![Part::N(2), Part::K("a".into())],
            _ => vec![Part::N(3)],
        }
    } else {
        match s.draw(6) {
            0..=2 => vec![Part::K((*s.pick(KEYS)).to_string())],
            3 => vec![Part::K("n".into()), Part::K("a".into())],
            4 => vec![Part::K("n".into()), Part::K("l".into()), Part::N(s.draw(2) as usize)],
            _ => vec![Part::K("b".into())],
        }
    };
    (down, p)
}
fn criterion_text(s: &mut Source, c: &Path) -> String {
    let t = Printer::new(s, false).path(&c.1);
    format!("{}{}", if c.0 { "-" } else { "" }, &t[1..])
}
fn by(cs: &[Path], a: &V, b: &V) -> Option<Ordering> {
    for (down, p) in cs {
        match (a.get(p), b.get(p)) {
            (Some(x), Some(y)) => match order(&x, &y)? {
                Ordering::Equal => {}
                o => return Some(if *down { o.reverse() } else { o }),
            },
            _ => return None,
        }
    }
    Some(Ordering::Equal)
}
fn as_list(r: Result<V, String>, sig: &str, show: &str) -> Result<Vec<V>, Fail> {
    match r {
        Ok(V::List(l)) => Ok(l),
        r => fail(sig, format!("{}\nis not a list but {}", show, res_canon(&r))),
    }
}
fn entries(s: &mut Source, rows: bool) -> Vec<V> {
    let mode = s.draw(6);
    let n = length(s);
    (0..n)
        .map(|i| {
            if s.chance(1, 24) {
                key_value(s, 3)
            } else if rows {
                let mut l: Vec<V> = (0..s.size(2, 3)).map(|_| key_value(s, mode)).collect();
                if s.chance(1, 3) && l.len() > 2 {
                    l[2] = entry(s, mode, i);
                }
                l.push(V::UInt(i));
                V::List(l)
            } else {
                entry(s, mode, i)
            }
        })
        .collect()
}
fn c18(s: &mut Source, ctx: &mut Ctx) -> R {
    match s.weighted(&[12, 6, 12, 1]) {
        0 => c18_sort(s, ctx),
        1 => c18_sort_on(s, ctx),
        2 => c18_search(s, ctx),
        _ => c18_refused(s, ctx),
    }
}
/// without a criterion, or without a list, there is nothing to sort by or to search
fn c18_refused(s: &mut Source, ctx: &mut Ctx) -> R {
    let rows = s.chance(1, 4);
    let list = V::List(entries(s, rows));
    let m = s.draw(6);
    let item = match s.draw(3) {
        0 => key_value(s, m),
        1 => list.clone(),
        _ => entry(s, m, 1000),
    };
    ctx.class("refused");
    ctx.nontrivial = true;
    let f = *s.pick(&["sort_on", "bin_search", "bin_get"]);
    let need = if f == "sort_on" { 1 } else { 2 };
    let args: Vec<V> = if s.chance(1, 2) {
        [list, item].into_iter().take(s.size(0, need)).collect()
    } else {
        let no_list = match key_value(s, m) {
            V::List(_) => V::Null,
            v => v,
        };
        let mut a: Vec<V> = [no_list, item].into_iter().take(need).collect();
        for _ in 0..s.size(1, 2) {
            let c = criterion(s, rows);
            a.push(V::s(criterion_text(s, &c)));
        }
        a
    };
    expect(ctx, s, "C18:refused", f, &args, None)
}
fn c18_sort(s: &mut Source, ctx: &mut Ctx) -> R {
    let mode = s.draw(6);
    let nl = s.count_to(0, 3, 40);
    let mut args: Vec<V> = (0..nl).map(|_| {
        let n = length(s);
        V::List((0..n).map(|_| key_value(s, mode)).collect())
    }).collect();
    if s.chance(1, 10) {
        args.push(key_value(s, mode));
    }
    let all: Vec<V> = args.iter().flat_map(|a| if let V::List(l) = a { l.clone() } else { vec![] }).collect();
    let show = format!("sort {}", show_args(&args));
    ctx.note(&show);
    ctx.op("sort");
    ctx.class("sort");
    ctx.class_if(all.len() > 20, "long");
    ctx.nontrivial = all.len() > 1;
    let out = as_list(invoke(s, "sort", &args), "C18:sort", &show)?;
    check_sorted("C18:sort", &show, &all, &out, &order)
}
fn c18_sort_on(s: &mut Source, ctx: &mut Ctx) -> R {
    let rows = s.chance(1, 4);
    let list = entries(s, rows);
    let cs: Vec<Path> = (0..s.count_to(1, 3, 12)).map(|_| criterion(s, rows)).collect();
    let texts: Vec<V> = cs.iter().map(|c| V::s(criterion_text(s, c))).collect();
    let mut args = vec![V::List(list.clone())];
    args.extend(texts);
    let show = format!("sort_on {}", show_args(&args));
    ctx.note(&show);
    ctx.op("sort_on");
    ctx.class("sort_on");
    ctx.class_if(list.len() > 20, "long");
    ctx.class_if(cs.len() > 1, "several-criteria");
    ctx.class_if(cs.iter().any(|c| c.0), "descending");
    ctx.nontrivial = list.len() > 1;
    let out = as_list(invoke(s, "sort_on", &args), "C18:sort_on", &show)?;
    check_sorted("C18:sort_on", &show, &list, &out, &|a, b| by(&cs, a, b))?;
    // what is not laid down (a path that leads nowhere) still goes one way
    if out.len() <= 7 {
        for i in 0..out.len() {
            for j in i + 1..out.len() {
                if by(&cs, &out[i], &out[j]).is_none() {
                    let mut a = args.clone();
                    a[0] = V::List(vec![out[i].clone(), out[j].clone()]);
                    let td: Vec<TData> = a.iter().map(|v| v.td()).collect();
                    let r = as_list(direct(fm(), "sort_on", &td).map(|d| V::from_td(&d)), "C18:sort_on", &show)?;
                    crate::ensure!(V::List(r.clone()).same(&a[0]), "C18:sort_on:pairs", "{}\ngives {}\nbut the two alone go {}", show, show_args(&out), show_args(&r));
                }
            }
        }
    }
    Ok(())
}
fn c18_search(s: &mut Source, ctx: &mut Ctx) -> R {
    let rows = s.chance(1, 4);
    let mut list = entries(s, rows);
    let cs: Vec<Path> = (0..s.count_to(1, 2, 12)).map(|_| criterion(s, rows)).collect();
    let texts: Vec<V> = cs.iter().map(|c| V::s(criterion_text(s, c))).collect();
    if s.chance(1, 2) {
        // few gaps between neighbours, to miss them
        list.dedup_by(|a, b| by(&cs, a, b) == Some(Ordering::Equal));
    }
    let mut args = vec![V::List(list.clone())];
    args.extend(texts.clone());
    let show = format!("sort_on {}", show_args(&args));
    let sorted = as_list(invoke(s, "sort_on", &args), "C18:sort_on", &show)?;
    let needle = match s.draw(4) {
        0 | 1 if !list.is_empty() => s.pick(&list).clone(),
        2 if !list.is_empty() => {
            let e = s.pick(&list).clone();
            perturb(s, &e)
        }
        _ => {
            let m = s.draw(6);
            if rows {
                V::List((0..4).map(|_| key_value(s, m)).collect())
            } else {
                entry(s, m, 1000)
            }
        }
    };
    let mut a2 = vec![V::List(sorted.clone()), needle.clone()];
    a2.extend(texts.clone());
    let show = format!("on {}", show_args(&a2));
    ctx.note(&show);
    ctx.class("search");
    ctx.class_if(list.len() > 20, "long");
    ctx.op("bin_search");
    ctx.nontrivial = !sorted.is_empty();
    // entries that compare equal: sorting the two leaves them as they are, either way round
    let mut same = vec![];
    for (i, e) in sorted.iter().enumerate() {
        let eq = match by(&cs, e, &needle) {
            Some(o) => o == Ordering::Equal,
            None => {
                let ask = |x: &V, y: &V| -> bool {
                    let mut v = vec![V::List(vec![x.clone(), y.clone()]).td()];
                    v.extend(texts.iter().map(|t| t.td()));
                    matches!(direct(fm(), "sort_on", &v), Ok(r) if V::from_td(&r).same(&V::List(vec![x.clone(), y.clone()])))
                };
                ask(e, &needle) && ask(&needle, e)
            }
        };
        if eq {
            same.push(i);
        }
    }
    ctx.class(if same.is_empty() { "absent" } else { "present" });
    let at = invoke(s, "bin_search", &a2);
    let got = invoke(s, "bin_get", &a2);
    match (&at, same.is_empty()) {
        (Ok(V::Null), true) => {}
        (Ok(V::UInt(i)), false) if same.contains(i) => {}
        _ => crate::bail!("C18:bin_search", "bin_search {}\ngives {}, equal are those at {:?}", show, res_canon(&at), same),
    }
    match (&got, same.is_empty()) {
        (Ok(V::Null), true) => {}
        (Ok(g), false) if same.iter().any(|i| sorted[*i].same(g)) => {}
        _ => crate::bail!("C18:bin_get", "bin_get {}\ngives {}, equal are those at {:?}", show, res_canon(&got), same),
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
const SMALL: VOpt = VOpt { special: false, dates: true, bytes: true, depth: 1, map_max: 3 };
fn item(s: &mut Source) -> V {
    match s.draw(3) {
        0 | 1 => gen_small(s),
        _ => gen_v(s, SMALL),
    }
}
fn a_list(s: &mut Source, max: usize) -> V {
    let n = s.count(0, max);
    V::List((0..n).map(|_| item(s)).collect())
}
fn pos(s: &mut Source, len: usize) -> V {
    match s.weighted(&[10, 3, 2, 1]) {
        0 => {
            let n = s.draw(len as u64 + 2) as usize;
            if s.chance(1, 4) {
                V::Int(n as isize)
            } else {
                V::UInt(n)
            }
        }
        1 => V::UInt(gen_uint(s)),
        2 => V::Int(gen_int(s)),
        _ => gen_small(s),
    }
}
/// The helpers by their definitions: Ok(Some) the value, Ok(None) an error, Err: not laid down
fn define(f: &str, a: &[V]) -> Result<Option<V>, ()> {
    Ok(match f {
        "list" => Some(V::List(a.to_vec())),
        "append" => Some(V::List(
            a.iter()
                .flat_map(|v| match v {
                    V::List(l) => l.clone(),
                    v => vec![v.clone()],
                })
                .collect(),
        )),
        "len" => Some(V::UInt(
            a.iter()
                .map(|v| match v {
                    V::List(l) => l.len(),
                    V::Map(m) => m.len(),
                    V::Str(s) => s.len(),
                    _ => 1,
                })
                .sum(),
        )),
        "groups" => match a {
            [n, V::List(l), ..] => match n.index() {
                Some(n) => {
                    let n = n.max(1);
                    let mut r = vec![];
                    let mut cur = vec![];
                    for v in l {
                        cur.push(v.clone());
                        if cur.len() == n {
                            r.push(V::List(std::mem::take(&mut cur)));
                        }
                    }
                    if !cur.is_empty() {
                        r.push(V::List(cur));
                    }
                    Some(V::List(r))
                }
                None => None,
            },
            _ => None,
        },
        "slice" => {
            if a.len() > 3 {
                return Err(());
            }
            let (x, i) = match a {
                [x, i, ..] => (x, i),
                _ => return Ok(None),
            };
            let i = match i.index() {
                Some(i) => i,
                None => return Ok(None),
            };
            let j = match a.get(2) {
                None => None,
                Some(j) => Some(j.index().ok_or(())?),
            };
            match x {
                V::List(l) => {
                    let j = j.unwrap_or(l.len());
                    if i <= j && j <= l.len() {
                        Some(V::List(l[i..j].to_vec()))
                    } else {
                        None
                    }
                }
                V::Str(t) => {
                    let j = j.unwrap_or(t.len());
                    if i <= j && j <= t.len() && t.is_char_boundary(i) && t.is_char_boundary(j) {
                        Some(V::s(&t[i..j]))
                    } else {
                        None
                    }
                }
                _ => None,
            }
        }
        "get" => match a {
            [V::List(l), V::UInt(n)] => Some(l.get(*n).cloned().unwrap_or(V::Null)),
            [V::List(l), V::Int(n)] => Some(if *n < 0 { V::Null } else { l.get(*n as usize).cloned().unwrap_or(V::Null) }),
            [V::Map(m), V::Str(k)] => Some(m.get(k).cloned().unwrap_or(V::Null)),
            [V::Str(t), n @ (V::UInt(_) | V::Int(_))] => match n.index() {
                Some(n) if n < t.len() && t.is_char_boundary(n) => Some(V::s(t[n..].chars().next().unwrap())),
                _ => None,
            },
            _ => None,
        },
        "index_of" => match a {
            [n, V::List(l), ..] => Some(l.iter().position(|v| veq(v, n)).map_or(V::Null, V::UInt)),
            [_, _, ..] => return Err(()),
            _ => None,
        },
        "map" => {
            if a.len() % 2 == 1 {
                return Err(());
            }
            let mut m = BTreeMap::new();
            for p in a.chunks(2) {
                match &p[0] {
                    V::Str(k) => m.insert(k.clone(), p[1].clone()),
                    _ => return Ok(None),
                };
            }
            Some(V::Map(m))
        }
        _ => return Err(()),
    })
}
const LISTY: &[&str] = &["list", "append", "len", "groups", "slice", "get", "index_of", "map"];
fn helper_args(s: &mut Source, f: &str) -> Vec<V> {
    let wrong = s.chance(1, 12);
    let mut a = match f {
        "list" => (0..s.count(0, 4)).map(|_| item(s)).collect(),
        "append" => (0..s.count(0, 4)).map(|_| if s.chance(2, 3) { a_list(s, 4) } else { item(s) }).collect(),
        "len" => (0..s.count(0, 3))
            .map(|_| match s.draw(4) {
                0 => a_list(s, 12),
                1 => V::s(gen_string(s, 6)),
                2 => gen_v(s, SMALL),
                _ => item(s),
            })
            .collect(),
        "groups" => {
            let l = a_list(s, 14);
            let n = if let V::List(l) = &l { l.len().max(5) } else { 5 };
            vec![pos(s, n), l]
        }
        "slice" => {
            let x = if s.chance(3, 4) { a_list(s, 8) } else { V::s(gen_string(s, 8)) };
            let n = match &x {
                V::List(l) => l.len(),
                V::Str(t) => t.len(),
                _ => 0,
            };
            let mut v = vec![x, pos(s, n)];
            if s.chance(2, 3) {
                v.push(pos(s, n));
            }
            v
        }
        "get" => match s.draw(4) {
            0 | 1 => {
                let l = a_list(s, 6);
                let n = if let V::List(l) = &l { l.len().max(6) } else { 6 };
                vec![l, pos(s, n)]
            }
            2 => {
                let t = gen_string(s, 6);
                let n = t.len();
                vec![V::s(t), pos(s, n)]
            }
            _ => {
                let m: BTreeMap<String, V> = (0..s.count(0, 4)).map(|_| ((*s.pick(WORDS)).to_string(), item(s))).collect();
                let k = match m.keys().nth(s.draw(5) as usize) {
                    Some(k) => k.clone(),
                    None => (*s.pick(WORDS)).to_string(),
                };
                vec![V::Map(m), V::s(k)]
            }
        },
        "index_of" => {
            let l = a_list(s, 8);
            let n = match &l {
                V::List(l) if !l.is_empty() && s.chance(2, 3) => {
                    let e = s.pick(l).clone();
                    if s.chance(1, 3) {
                        perturb(s, &e)
                    } else {
                        e
                    }
                }
                _ => item(s),
            };
            vec![n, l]
        }
        _ => (0..s.count(0, 4))
            .flat_map(|_| {
                let k = if s.chance(2, 3) { (*s.pick(&["a", "b", "c", ""])).to_string() } else { gen_string(s, 4) };
                vec![V::s(k), item(s)]
            })
            .collect::<Vec<_>>(),
    };
    if wrong {
        match s.draw(3) {
            0 => {
                a.pop();
            }
            1 if !a.is_empty() => {
                let i = s.draw(a.len() as u64) as usize;
                a[i] = item(s);
            }
            _ => a.reverse(),
        }
    }
    a
}
fn c19(s: &mut Source, ctx: &mut Ctx) -> R {
    match s.weighted(&[6, 3, 3]) {
        0 => c19_one(s, ctx),
        1 => c19_filter(s, ctx),
        _ => c19_nested(s, ctx),
    }
}
fn c19_one(s: &mut Source, ctx: &mut Ctx) -> R {
    let f = *s.pick(LISTY);
    let a = helper_args(s, f);
    let want = match define(f, &a) {
        Ok(w) => w,
        Err(()) => return Ok(()),
    };
    ctx.class(f);
    ctx.nontrivial = want.is_some() && !a.is_empty();
    ctx.class_if(want.is_none(), "error");
    expect(ctx, s, &format!("C19:{}", f), f, &a, want)
}
/// an expression over $0 and what it holds for; None where it fails
type Pred = Box<dyn Fn(&V) -> Option<V>>;
fn pred(s: &mut Source, depth: usize, sample: &V) -> (String, Pred) {
    let some = |s: &mut Source| if s.chance(1, 2) { sample.clone() } else { gen_small(s) };
    if depth > 0 && s.chance(1, 3) {
        let (t1, p1) = pred(s, depth - 1, sample);
        let (t2, p2) = pred(s, depth - 1, sample);
        return match s.draw(4) {
            0 => (format!("and ({}) ({})", t1, t2), Box::new(move |v| Some(V::Bool(p1(v)?.truth() == Some(true)).clone()).and_then(|a| p2(v).map(|b| V::Bool(a.truth() == Some(true) && b.truth() == Some(true)))))),
            1 => (format!("or ({}) ({})", t1, t2), Box::new(move |v| {
                let (a, b) = (p1(v)?, p2(v)?);
                Some(V::Bool(a.truth() == Some(true) || b.truth() == Some(true)))
            })),
            2 => (format!("nand ({})", t1), Box::new(move |v| Some(V::Bool(p1(v)?.truth() != Some(true))))),
            _ => (format!("first ({}) ({})", t1, t2), Box::new(move |v| {
                for p in [&p1, &p2] {
                    match p(v) {
                        None | Some(V::Null) => {}
                        Some(x) => return Some(x),
                    }
                }
                Some(V::Null)
            })),
        };
    }
    let lit_of = |s: &mut Source, v: &V| literal_of(v).map(|v| Printer::new(s, false).lit(&v)).unwrap_or("1".into());
    let lit_val = |v: &V| literal_of(v).unwrap_or(V::UInt(1));
    match s.draw(10) {
        0 => ("$0".into(), Box::new(|v| Some(v.clone()))),
        1 => {
            let x = lit_val(&some(s));
            (format!("eq $0 {}", lit_of(s, &x)), Box::new(move |v| Some(V::Bool(veq(v, &x)))))
        }
        2 => {
            let x = V::UInt(s.draw(4) as usize);
            (format!("gt $0 {}", lit_of(s, &x)), Box::new(move |v| order(v, &x).map(|o| V::Bool(o == Ordering::Greater))))
        }
        3 => ("is_num $0".into(), Box::new(|v| Some(V::Bool(v.is_num())))),
        4 => ("$0.a".into(), Box::new(|v| v.get(&[Part::K("a".into())]))),
        5 => (".0".into(), Box::new(|v| v.get(&[Part::N(0)]))),
        6 => ("eq (type_of $0) \"string\"".into(), Box::new(|v| Some(V::Bool(matches!(v, V::Str(_)))))),
        7 => (s.pick(&["$1", "nosuch $0", "$x", "add $0 \"x\"", "file \"/etc/passwd\"", "$"]).to_string(), Box::new(|_| None)),
        _ => {
            let x = s.pick(&[V::UInt(1), V::Bool(true), V::s("x"), V::List(vec![V::UInt(0)]), V::UInt(0), V::Bool(false), V::Null, V::s(""), V::List(vec![])]).clone();
            (lit_of(s, &x), Box::new(move |_| Some(x.clone())))
        }
    }
}
fn c19_filter(s: &mut Source, ctx: &mut Ctx) -> R {
    let l = match a_list(s, 10) {
        V::List(l) => l,
        _ => unreachable!(),
    };
    // templates and NaN have no place here
    let sample = if l.is_empty() { V::UInt(1) } else { s.pick(&l).clone() };
    let (text, p) = pred(s, 2, &sample);
    let kept: Vec<V> = l.iter().filter(|v| p(v).and_then(|r| r.truth()) == Some(true)).cloned().collect();
    ctx.class("filter");
    ctx.class_if(!kept.is_empty() && kept.len() < l.len(), "filter-some");
    ctx.nontrivial = l.len() > 1;
    // gt of a list is not laid down, but gt of these two and a number is
    expect(ctx, s, "C19:filter", "filter", &[V::List(l), V::s(text)], Some(V::List(kept)))
}
/// helpers inside helpers, as a program writes them
fn tree(s: &mut Source, depth: usize, ps: &mut Vec<V>) -> (String, Result<Option<V>, ()>) {
    if depth == 0 || s.chance(1, 5) {
        let v = match s.draw(3) {
            0 => a_list(s, 6),
            1 => V::List((0..s.count(0, 6)).map(|i| V::UInt(i)).collect()),
            _ => item(s),
        };
        ps.push(v.clone());
        return (format!("${}", ps.len() - 1), Ok(Some(v)));
    }
    let f = *s.pick(&["append", "slice", "groups", "list", "get", "len", "append", "slice", "index_of"]);
    let mut texts = vec![];
    let mut vals = vec![];
    let n = match f {
        "append" | "list" => s.count_to(0, 3, 20),
        "len" => 1,
        "slice" => s.size(2, 3),
        _ => 2,
    };
    for i in 0..n {
        let number = (f == "slice" && i > 0) || (f == "groups" && i == 0) || (f == "get" && i == 1);
        let (t, v) = if number && s.chance(9, 10) {
            let k = s.draw(4) as usize;
            (k.to_string(), Ok(Some(V::UInt(k))))
        } else {
            tree(s, depth - 1, ps)
        };
        texts.push(if t.contains(' ') { format!("({})", t) } else { t });
        vals.push(v);
    }
    let text = format!("{} {}", f, texts.join(" "));
    let mut args = vec![];
    for v in vals {
        match v {
            Ok(Some(v)) => args.push(v),
            r => return (text, r),
        }
    }
    (text, define(f, &args))
}
fn c19_nested(s: &mut Source, ctx: &mut Ctx) -> R {
    let mut ps = vec![];
    let (text, want) = tree(s, 3, &mut ps);
    let want = match want {
        Ok(w) => w,
        Err(()) => return Ok(()),
    };
    let text = format!("{{{{export r = {}}}}}", text);
    ctx.note(format!("{} with {}", text, show_args(&ps)));
    ctx.class("nested");
    ctx.nontrivial = want.is_some();
    ctx.op("nested");
    let t = parse(&text).map_err(|e| Fail { sig: "C19:parse".into(), msg: format!("{}: {}", text, e) })?;
    let td: Vec<TData> = ps.iter().map(|v| v.td()).collect();
    let pr: Vec<&dyn TParam> = td.iter().map(|t| t as &dyn TParam).collect();
    let got = run_exp(&t, &pr, &mut BasicTemps::new(), fm()).and_then(|(_, ex)| ex.get("r").map(V::from_td).ok_or("no export".into()));
    let ok = match (&want, &got) {
        (Some(w), Ok(g)) => w.same(g),
        (None, Err(_)) => true,
        _ => false,
    };
    crate::ensure!(ok, "C19:nested", "{} with {}\nexpected: {}\n     got: {}", text, show_args(&ps), want.map_or("an error".into(), |w| w.canon()), res_canon(&got));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "lists of up to 90 values or records, many with equal keys, sorted and searched by up to three paths, all pairs of the result checked against exact order and original position; non-trivial: two or more elements (search: one)",
            quick: 80_000,
            factor: 40,
            fuel: 20_000_000,
            run: c18,
            pins: vec![],
            assumptions: vec!["where two entries lists or maps, NaN, or a missing key decide, the order is not laid down; the result must then agree with sorting the two alone"],
        },
        Prop {
            id: "C19",
            rule: "arguments for each helper, mostly valid, positions inside, at and beyond the ends, filter expressions that hold, fail or do not hold, and helpers nested in helpers, against their sequence definitions; non-trivial: a value is expected",
            quick: 600_000,
            factor: 40,
            fuel: 20_000_000,
            run: c19,
            pins: vec![],
            assumptions: vec!["positions in strings count bytes, as len does", "map with an odd number of arguments, index_of in something that is no list, and slice with an end that is no position are left out"],
        },
    ]
}
