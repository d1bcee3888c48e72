//! C16 arithmetic, C17 comparison and logic, C29 rand
use super::*;
use std::cmp::Ordering;

// ------------------------------------------------------------------ C16
#[derive(Clone, Copy, PartialEq, Debug)]
enum N {
    /// an integer and whether the code keeps it unsigned
    I(i128, bool),
    F(f64),
}
fn num(v: &V) -> Option<N> {
    Some(match v {
        V::UInt(n) => N::I(*n as i128, true),
        V::Int(n) => N::I(*n as i128, false),
        V::Float(f) => N::F(*f),
        _ => return None,
    })
}
const IMIN: i128 = isize::MIN as i128;
const IMAX: i128 = isize::MAX as i128;
const UMAX: i128 = usize::MAX as i128;
enum Step {
    /// must be this
    Must(N),
    Error,
}
fn float_op(op: &str, a: f64, b: f64) -> f64 {
    match op {
        "add" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        "div" => a / b,
        "mod" => a % b,
        "min" => {
            if a.is_nan() || b < a {
                b
            } else {
                a
            }
        }
        _ => {
            if a.is_nan() || b > a {
                b
            } else {
                a
            }
        }
    }
}
fn step(op: &str, a: N, b: N) -> Step {
    let f = |n: N| match n {
        N::I(n, _) => n as f64,
        N::F(f) => f,
    };
    let (x, xu, y, yu) = match (a, b) {
        (N::I(x, xu), N::I(y, yu)) => (x, xu, y, yu),
        _ => return Step::Must(N::F(float_op(op, f(a), f(b)))),
    };
    let r = match op {
        "add" => Some(x + y),
        "sub" => Some(x - y),
        "mul" => x.checked_mul(y),
        "div" if y == 0 => return Step::Error,
        "mod" if y == 0 => return Step::Error,
        "div" => Some(x / y),
        "mod" => Some(x % y),
        "min" => Some(x.min(y)),
        _ => Some(x.max(y)),
    };
    let r = match r {
        Some(r) if (IMIN..=UMAX).contains(&r) => r,
        _ => return Step::Error,
    };
    if xu && yu {
        // stays unsigned unless it is below zero
        return Step::Must(N::I(r, r >= 0));
    }
    Step::Must(N::I(r, r > IMAX))
}
const OPS: &[&str] = &["add", "sub", "mul", "div", "mod", "min", "max"];
pub fn gen_num(s: &mut Source) -> V {
    match s.weighted(&[6, 6, 3]) {
        0 => V::UInt(gen_uint(s)),
        1 => V::Int(gen_int(s)),
        _ => V::Float(gen_float(s, true)),
    }
}
fn c16(s: &mut Source, ctx: &mut Ctx) -> R {
    let op = *s.pick(OPS);
    let n = match s.weighted(&[1, 3, 8, 5, 2]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => s.count(4, 7),
    };
    let mut args: Vec<V> = vec![];
    // runs of one type reach further than mixed ones
    let mode = if n > 7 { 4 + s.draw(2) } else { s.draw(4) };
    for _ in 0..n {
        let v = match mode {
            // many stay small, to the end
            4 => match s.draw(8) {
                0 => V::UInt(s.draw(9) as usize),
                1 => V::Int(s.range(-3, 3) as isize),
                _ => V::UInt(1),
            },
            5 => match s.draw(8) {
                0 => V::Float(gen_float(s, false)),
                1 => V::Float(1.5),
                2 => V::Int(-1),
                3 => V::UInt(2),
                _ => V::Float(1.0),
            },
            0 => gen_num(s),
            1 => V::UInt(gen_uint(s)),
            2 => V::Int(gen_int(s)),
            _ => match s.draw(3) {
                // near the last one or what limits it
                0 if !args.is_empty() => match args.last().unwrap() {
                    V::UInt(n) => V::UInt((usize::MAX - n).wrapping_add(s.draw(3) as usize)),
                    V::Int(n) => V::Int(isize::MAX.wrapping_sub(*n).wrapping_add(s.draw(3) as isize)),
                    v => v.clone(),
                },
                1 if !args.is_empty() => match args.last().unwrap() {
                    V::UInt(n) => V::UInt((usize::MAX / (*n).max(1)).wrapping_add(s.draw(3) as usize)),
                    V::Int(n) if *n != 0 && *n != -1 => V::Int((isize::MIN / n).wrapping_add(s.draw(3) as isize)),
                    v => perturb(s, v),
                },
                _ => gen_num(s),
            },
        };
        args.push(v);
    }
    if n > 1 && s.chance(1, 12) {
        let i = s.draw(n as u64) as usize;
        args[i] = gen_v(s, VOpt { special: false, ..ALL });
    }
    ctx.note(format!("{} {}", op, show_args(&args)));
    ctx.op(op);
    let got = invoke(s, op, &args);
    let nums: Option<Vec<N>> = args.iter().map(num).collect();
    let mixed = args.iter().any(|a| matches!(a, V::UInt(_))) && args.iter().any(|a| matches!(a, V::Int(_)));
    let want: Option<N> = match nums {
        None if n < 2 => return Ok(()),
        None => {
            ctx.class("non-number");
            None
        }
        Some(v) if v.is_empty() => None,
        Some(v) if v.len() == 1 && op == "sub" => match v[0] {
            N::F(f) => Some(N::F(-f)),
            N::I(n, _) if -n >= IMIN && -n <= UMAX => Some(N::I(-n, false)),
            _ => None,
        },
        Some(v) => {
            let mut acc = Some(v[0]);
            for b in &v[1..] {
                match step(op, acc.unwrap(), *b) {
                    Step::Must(r) => acc = Some(r),
                    Step::Error => {
                        acc = None;
                        break;
                    }
                }
            }
            acc
        }
    };
    ctx.nontrivial = n > 1;
    ctx.class(match (&want, mixed) {
        (None, _) => "error",
        (Some(N::F(_)), _) => "float",
        (Some(_), true) => "signed-and-unsigned",
        (Some(N::I(n, _)), _) if *n > IMAX => "beyond-signed",
        (Some(N::I(n, _)), _) if *n < 0 => "negative",
        _ => "exact",
    });
    let ok = match (&want, &got) {
        (None, Err(_)) => true,
        (Some(_), Err(_)) => false,
        (Some(N::I(w, _)), Ok(V::UInt(g))) => *w == *g as i128,
        (Some(N::I(w, _)), Ok(V::Int(g))) => *w == *g as i128,
        (Some(N::F(w)), Ok(V::Float(g))) => w.to_bits() == g.to_bits() || w == g || (w.is_nan() && g.is_nan()),
        _ => false,
    };
    crate::ensure!(ok, format!("C16:{}", op), "{} {}\nexpected: {}\n     got: {}", op, show_args(&args), want.map_or("an error".to_string(), |w| format!("{:?}", w)), res_canon(&got));
    Ok(())
}

// ------------------------------------------------------------------ C17
/// order of two values, None where it is not laid down
fn vcmp(a: &V, b: &V) -> Option<Option<Ordering>> {
    if a.is_num() && b.is_num() {
        return Some(num_cmp(a, b));
    }
    Some(Some(match (a, b) {
        (V::Null, V::Null) => Ordering::Equal,
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::Str(x), V::Str(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::Bytes(x), V::Bytes(y)) => x.cmp(y),
        (V::Date(y, m, d), V::Date(y2, m2, d2)) => (y, m, d).cmp(&(y2, m2, d2)),
        _ => return None,
    }))
}
fn class_of(v: &V) -> &'static str {
    if v.is_num() {
        "number"
    } else {
        v.kind()
    }
}
/// the simplest value of each kind
fn base_of(v: &V) -> V {
    match v {
        V::UInt(_) | V::Int(_) | V::Float(_) => V::UInt(0),
        V::Null => V::Null,
        V::Bool(_) => V::Bool(false),
        V::Str(_) => V::s(""),
        V::Date(..) => V::Date(2000, 1, 1),
        V::Bytes(_) => V::Bytes(vec![]),
        V::List(_) => V::List(vec![]),
        V::Map(_) => V::Map(Default::default()),
        V::Tmpl(_) => V::Tmpl(0),
    }
}
fn ask(s: &mut Source, f: &'static str, a: &[V]) -> Result<bool, Fail> {
    match invoke(s, f, a) {
        Ok(V::Bool(b)) => Ok(b),
        r => fail(format!("C17:{}", f), format!("{} {} is not a bool but {}", f, show_args(a), res_canon(&r))),
    }
}
fn any(s: &mut Source) -> V {
    match s.weighted(&[10, 10, 10, 1, 1]) {
        0 => gen_small(s),
        1 => gen_num(s),
        2 => gen_v(s, ALL),
        3 => V::Tmpl(0),
        _ => wide_date(s),
    }
}
/// dates far from today too
fn wide_date(s: &mut Source) -> V {
    let y = match s.draw(4) {
        0 => s.range(-9999, 0),
        1 => s.range(9990, 10010),
        2 => s.range(10000, 262000),
        _ => s.range(-262000, 9999),
    };
    V::Date(y as i32, s.range(1, 12) as u32, s.range(1, 28) as u32)
}
fn related(s: &mut Source, v: &V) -> V {
    if matches!(v, V::Date(..)) && s.chance(1, 3) {
        return wide_date(s);
    }
    match s.draw(4) {
        0 => v.clone(),
        1 | 2 => perturb(s, v),
        _ => any(s),
    }
}
fn c17(s: &mut Source, ctx: &mut Ctx) -> R {
    match s.weighted(&[5, 6, 3, 2]) {
        0 => c17_pair(s, ctx),
        1 => c17_many(s, ctx),
        2 => c17_logic(s, ctx),
        _ => c17_types(s, ctx),
    }
}
fn c17_pair(s: &mut Source, ctx: &mut Ctx) -> R {
    let a = any(s);
    let b = related(s, &a);
    let c = related(s, &b);
    ctx.note(format!("a={}\nb={}\nc={}", a.canon(), b.canon(), c.canon()));
    ctx.class("relations");
    ctx.nontrivial = class_of(&a) == class_of(&b);
    ctx.class_if(a.is_num() && b.is_num() && a.kind() != b.kind(), "numbers-of-different-types");
    ctx.op("compare");
    let p = |s: &mut Source, x: &V, y: &V| -> Result<[bool; 6], Fail> {
        let v = [x.clone(), y.clone()];
        let mut r = [false; 6];
        for (i, f) in ["eq", "neq", "gt", "lt", "gte", "lte"].iter().enumerate() {
            r[i] = ask(s, f, &v)?;
        }
        Ok(r)
    };
    let ab = p(s, &a, &b)?;
    let ba = p(s, &b, &a)?;
    let show = format!("a={} b={} c={}\n[eq neq gt lt gte lte] a b: {:?}, b a: {:?}", a.canon(), b.canon(), c.canon(), ab, ba);
    crate::ensure!(ab[0] == veq(&a, &b), "C17:eq", "eq should be {}: {}", veq(&a, &b), show);
    crate::ensure!(ab[0] == ba[0], "C17:symmetry", "eq is not symmetric: {}", show);
    crate::ensure!(ab[1] != ab[0] && ba[1] != ba[0], "C17:neq", "neq is not the opposite of eq: {}", show);
    crate::ensure!(ab[2] == ba[3] && ab[3] == ba[2] && ab[4] == ba[5] && ab[5] == ba[4], "C17:mirror", "order is not mirrored: {}", show);
    crate::ensure!(!(ab[2] && ab[3]), "C17:order", "both greater and less: {}", show);
    if ab[0] {
        crate::ensure!(!ab[2] && !ab[3] && ab[4] && ab[5], "C17:order-eq", "order disagrees with equality: {}", show);
    }
    crate::ensure!((!ab[2] || ab[4]) && (!ab[3] || ab[5]), "C17:order", "gt without gte or lt without lte: {}", show);
    if let Some(o) = vcmp(&a, &b) {
        let w = [o == Some(Ordering::Greater), o == Some(Ordering::Less), matches!(o, Some(Ordering::Greater | Ordering::Equal)), matches!(o, Some(Ordering::Less | Ordering::Equal))];
        crate::ensure!(ab[2..] == w, "C17:value-order", "expected gt lt gte lte {:?}: {}", w, show);
    }
    if class_of(&a) != class_of(&b) {
        // of different kinds: the same way round as the simplest of each kind
        let base = p(s, &base_of(&a), &base_of(&b))?;
        crate::ensure!(!ab[0] && (ab[2] != ab[3]) && ab == base, "C17:kind-order", "kinds are not in a fixed order ({:?} for {} and {}): {}", base, base_of(&a).canon(), base_of(&b).canon(), show);
    }
    // transitivity
    let bc = p(s, &b, &c)?;
    let ac = p(s, &a, &c)?;
    let show = format!("{}, b c: {:?}, a c: {:?}", show, bc, ac);
    crate::ensure!(!(ab[2] && bc[2]) || ac[2], "C17:transitive", "gt is not transitive: {}", show);
    crate::ensure!(!(ab[3] && bc[3]) || ac[3], "C17:transitive", "lt is not transitive: {}", show);
    crate::ensure!(!(ab[0] && bc[0]) || ac[0], "C17:transitive", "eq is not transitive: {}", show);
    crate::ensure!(!(ab[0] && (bc[2] || bc[3])) || (ac[2], ac[3]) == (bc[2], bc[3]), "C17:transitive", "equal values order differently: {}", show);
    crate::ensure!(ask(s, "eq", &[a.clone(), a.clone()])? == !a.has_nan(), "C17:reflexive", "eq with itself: {}", show);
    Ok(())
}
fn c17_many(s: &mut Source, ctx: &mut Ctx) -> R {
    let f = *s.pick(&["eq", "neq", "eq_any", "gt", "gte", "lt", "lte"]);
    let n = s.count(0, 4);
    let mut args: Vec<V> = vec![];
    // many: one anywhere that may decide
    let one = if n > 4 { Some(s.draw(n as u64) as usize) } else { None };
    for i in 0..n {
        let v = if i == 0 {
            any(s)
        } else {
            match f {
                "eq" if one.map_or_else(|| s.chance(1, 2), |o| o != i) => args[0].clone(),
                "neq" | "eq_any" if one == Some(i) => args[0].clone(),
                "gt" | "gte" | "lt" | "lte" if one.map_or_else(|| s.chance(1, 2), |o| o != i) => {
                    // towards the side where it holds
                    match (&args[0], f) {
                        (V::UInt(n), "gt" | "gte") => V::UInt(n.saturating_sub(s.draw(3) as usize)),
                        (V::UInt(n), _) => V::UInt(n.saturating_add(s.draw(3) as usize)),
                        (V::Str(x), "lt" | "lte") => V::s(format!("{}{}", x, gen_word(s))),
                        (v, _) => related(s, &v.clone()),
                    }
                }
                _ => {
                    let i = s.draw(args.len() as u64) as usize;
                    related(s, &args[i].clone())
                }
            }
        };
        args.push(v);
    }
    ctx.note(format!("{} {}", f, show_args(&args)));
    ctx.class(if n == 0 { "no-arguments" } else { "comparison" });
    ctx.nontrivial = n > 1;
    ctx.op("compare");
    if n == 0 {
        return expect(ctx, s, "C17:no-arguments", f, &args, None);
    }
    let rest = &args[1..];
    let a = &args[0];
    let mut all = |h: &dyn Fn(Ordering) -> bool| -> Option<bool> {
        let mut r = true;
        for b in rest {
            let one = match vcmp(a, b) {
                Some(o) => o.map_or(false, |o| h(o)),
                // not laid down here: what the same helper says of the two alone
                None => ask(s, f, &[a.clone(), b.clone()]).ok()?,
            };
            r &= one;
        }
        Some(r)
    };
    let want = match f {
        "eq" => Some(rest.iter().all(|b| veq(a, b))),
        "neq" => Some(!rest.iter().any(|b| veq(a, b))),
        "eq_any" => Some(rest.iter().any(|b| veq(a, b))),
        "gt" => all(&|o| o == Ordering::Greater),
        "gte" => all(&|o| o != Ordering::Less),
        "lt" => all(&|o| o == Ordering::Less),
        _ => all(&|o| o != Ordering::Greater),
    };
    ctx.class_if(want == Some(true) && n > 1, "holds");
    expect(ctx, s, &format!("C17:{}", f), f, &args, want.map(V::Bool))
}
fn c17_logic(s: &mut Source, ctx: &mut Ctx) -> R {
    let f = *s.pick(&["and", "or", "nand", "nor"]);
    let n = s.count(0, 4);
    let side = s.draw(3);
    let one = if n > 4 { Some(s.draw(n as u64) as usize) } else { None };
    let args: Vec<V> = (0..n)
        .map(|i| match side {
            0 => any(s),
            1 if one.map_or_else(|| s.chance(4, 5), |o| o != i) => s.pick(&[V::Bool(true), V::UInt(3), V::Int(-1), V::Float(0.5), V::s("a"), V::s(" "), V::List(vec![V::Null])]).clone(),
            2 if one.map_or_else(|| s.chance(4, 5), |o| o != i) => s.pick(&[V::Bool(false), V::Null, V::UInt(0), V::Int(0), V::Float(0.0), V::s(""), V::List(vec![]), V::Map(Default::default())]).clone(),
            _ => any(s),
        })
        .collect();
    ctx.note(format!("{} {}", f, show_args(&args)));
    ctx.class("logic");
    ctx.nontrivial = n > 1;
    let t: Vec<bool> = args.iter().map(|a| a.truth() == Some(true)).collect();
    let want = match f {
        "and" => t.iter().all(|b| *b),
        "nand" => !t.iter().all(|b| *b),
        "or" => t.iter().any(|b| *b),
        _ => !t.iter().any(|b| *b),
    };
    expect(ctx, s, &format!("C17:{}", f), f, &args, Some(V::Bool(want)))
}
fn c17_types(s: &mut Source, ctx: &mut Ctx) -> R {
    let v = any(s);
    ctx.class("types");
    ctx.nontrivial = true;
    match s.draw(4) {
        0 => expect(ctx, s, "C17:is_null", "is_null", &[v.clone()], Some(V::Bool(matches!(v, V::Null)))),
        1 => expect(ctx, s, "C17:is_num", "is_num", &[v.clone()], Some(V::Bool(v.is_num()))),
        2 => expect(ctx, s, "C17:type_of", "type_of", &[v.clone()], Some(V::s(v.kind()))),
        _ => {
            let w = *s.pick(&["null", "bool", "uint", "int", "float", "string", "date", "bytes", "list", "map", "template", "Int", ""]);
            let w = if s.chance(1, 2) { v.kind() } else { w };
            expect(ctx, s, "C17:type_of", "type_of", &[v.clone(), V::s(w)], Some(V::Bool(w == v.kind())))
        }
    }
}

// ------------------------------------------------------------------ C29
fn draws(s: &mut Source, args: &[V], n: usize) -> Result<Vec<V>, Fail> {
    let td: Vec<TData> = args.iter().map(|v| v.td()).collect();
    let via = s.draw(3);
    let text = match via {
        0 => None,
        1 => Some(format!("{{{{export r = rand {}}}}}", (0..args.len()).map(|i| format!("${} ", i)).collect::<String>())),
        _ => Some(format!("{{{{for k v in 3}}}}{{{{export r = [(rand {})]}}}}{{{{/for}}}}", (0..args.len()).map(|i| format!("${} ", i)).collect::<String>())),
    };
    let t = match &text {
        Some(t) => Some(parse(t).map_err(|e| Fail { sig: "C29:parse".into(), msg: format!("{} does not parse: {}", t, e) })?),
        None => None,
    };
    let ps: Vec<&dyn TParam> = td.iter().map(|t| t as &dyn TParam).collect();
    let mut r = vec![];
    for _ in 0..n {
        let g = match &t {
            None => direct(fm(), "rand", &td).map(|d| V::from_td(&d)),
            Some(t) => run_exp(t, &ps, &mut BasicTemps::new(), fm()).and_then(|(_, ex)| ex.get("r").map(V::from_td).ok_or("no export".into())).map(|v| match v {
                V::List(l) if via == 2 && l.len() == 1 => l[0].clone(),
                v => v,
            }),
        };
        match g {
            Ok(v) => r.push(v),
            Err(e) => return fail("C29:error", format!("rand {}: {}", show_args(args), e)),
        }
    }
    Ok(r)
}
fn int_of(v: &V) -> i128 {
    match v {
        V::UInt(n) => *n as i128,
        V::Int(n) => *n as i128,
        _ => 0,
    }
}
fn c29(s: &mut Source, ctx: &mut Ctx) -> R {
    ctx.op("rand");
    ctx.nontrivial = true;
    match s.draw(7) {
        0 => {
            ctx.class("plain");
            ctx.note("rand");
            let v = draws(s, &[], 60)?;
            let mut top = false;
            let mut low = false;
            for x in &v {
                match x {
                    V::Float(f) if (0.0..1.0).contains(f) => {
                        top |= *f >= 0.5;
                        low |= *f < 0.5;
                    }
                    x => crate::bail!("C29:plain", "rand gave {}", x.canon()),
                }
            }
            crate::ensure!(top && low, "C29:plain-spread", "60 calls of rand, all in one half: {:?}", v);
            Ok(())
        }
        1 | 2 => {
            // integers below n, or between bounds
            let signed = s.chance(1, 2);
            let mk = |n: i128| if signed { V::Int(n as isize) } else { V::UInt(n as usize) };
            let (lim_lo, lim_hi) = if signed { (IMIN, IMAX) } else { (0, UMAX) };
            let one = s.chance(1, 2);
            let lo = if one { 0 } else if signed { gen_int(s) as i128 } else { gen_uint(s) as i128 };
            let small = s.chance(3, 4);
            let n = if small { s.range(1, 12) as i128 } else { (gen_uint(s) as i128).max(1) };
            let hi = (lo + n).min(lim_hi);
            if hi <= lo || lo < lim_lo {
                return Ok(());
            }
            let n = hi - lo;
            let args = if one { vec![mk(hi)] } else { vec![mk(lo), mk(hi)] };
            ctx.note(format!("rand {}", show_args(&args)));
            ctx.class(if small { "small-range" } else { "range" });
            let calls = if n <= 12 { 100 + 40 * n as usize } else { 70 };
            let v = draws(s, &args, calls)?;
            for x in &v {
                let ok = matches!((x, signed), (V::Int(_), true) | (V::UInt(_), false)) && int_of(x) >= lo && int_of(x) < hi;
                crate::ensure!(ok, "C29:range", "rand {} gave {}", show_args(&args), x.canon());
            }
            if n <= 12 {
                for w in lo..hi {
                    crate::ensure!(v.iter().any(|x| int_of(x) == w), "C29:missing", "rand {} never gave {} in {} calls", show_args(&args), w, v.len());
                }
            } else {
                let mid = lo + n / 2;
                crate::ensure!(v.iter().any(|x| int_of(x) < mid) && v.iter().any(|x| int_of(x) >= mid), "C29:spread", "rand {}: {} calls, all in one half", show_args(&args), v.len());
            }
            Ok(())
        }
        3 => {
            let one = s.chance(1, 2);
            let f = |s: &mut Source| {
                let f = gen_float(s, false);
                if f.abs() < 1e-300 || f.abs() > 1e290 {
                    2.5
                } else {
                    f
                }
            };
            let (lo, hi) = if one { (0.0, f(s).abs()) } else { (f(s), f(s)) };
            let (lo, hi) = if lo <= hi { (lo, hi) } else { (hi, lo) };
            if lo == hi {
                return Ok(());
            }
            let args = if one { vec![V::Float(hi)] } else { vec![V::Float(lo), V::Float(hi)] };
            ctx.note(format!("rand {}", show_args(&args)));
            ctx.class("float-range");
            let v = draws(s, &args, 70)?;
            let mid = lo / 2.0 + hi / 2.0;
            let wide = (hi - lo) > 1e-6 * hi.abs().max(lo.abs());
            let (mut a, mut b) = (false, false);
            for x in &v {
                match x {
                    V::Float(f) if *f >= lo && *f < hi => {
                        a |= *f <= mid;
                        b |= *f >= mid;
                    }
                    x => crate::bail!("C29:float-range", "rand {} gave {}", show_args(&args), x.canon()),
                }
            }
            crate::ensure!(!wide || (a && b), "C29:spread", "rand {}: all in one half", show_args(&args));
            Ok(())
        }
        4 | 5 => {
            let n = s.count(1, 8);
            // all different
            let l: Vec<V> = (0..n).map(|i| match s.draw(4) {
                0 => V::UInt(i),
                1 => V::s(format!("e{}", i)),
                2 => V::List(vec![V::UInt(i), any(s)]),
                _ => V::Float(i as f64 + 0.5),
            }).collect();
            let args = vec![V::List(l.clone())];
            ctx.note(format!("rand {}", show_args(&args)));
            ctx.class("list");
            let v = draws(s, &args, 100 + 40 * n)?;
            let came: std::collections::BTreeMap<String, &V> = v.iter().map(|x| (x.canon(), x)).collect();
            for x in came.values() {
                crate::ensure!(l.iter().any(|e| e.same(x)), "C29:element", "rand {} gave {}", show_args(&args), x.canon());
            }
            for e in &l {
                crate::ensure!(came.values().any(|x| x.same(e)), "C29:missing", "rand {} never gave {} in {} calls", show_args(&args), e.canon(), v.len());
            }
            Ok(())
        }
        _ => {
            let args = match s.draw(6) {
                0 => vec![V::List(vec![])],
                1 => vec![V::UInt(0)],
                2 => vec![V::Int(-(gen_uint(s) as isize).saturating_abs())],
                3 => {
                    let a = gen_uint(s);
                    vec![V::UInt(a), V::UInt(a.saturating_sub(s.draw(5) as usize))]
                }
                4 => {
                    let a = gen_int(s);
                    vec![V::Int(a), V::Int(a.saturating_sub(s.draw(5) as isize))]
                }
                _ => {
                    let a = gen_float(s, false);
                    vec![V::Float(a), V::Float(if s.chance(1, 2) { a } else { a - 1.0 - a.abs() })]
                }
            };
            ctx.class("empty");
            expect(ctx, s, "C29:empty", "rand", &args, None)
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "0 to 7 arguments of all number types, near the limits of their types and of each other, sometimes a non-number, against exact 128 bit arithmetic; non-trivial: two or more arguments",
            quick: 1_500_000,
            factor: 40,
            fuel: 20_000_000,
            run: c16,
            pins: vec![],
            assumptions: vec!["with a signed and an unsigned operand, a value outside the signed range may be an error", "a single non-number (add \"a\") is not combined with anything and is left out"],
        },
        Prop {
            id: "C17",
            rule: "pairs and triples of related values checked for the laws of equality and order and against exact comparison, argument lists for each comparison and logic helper; non-trivial: two values of one kind, or two or more arguments",
            quick: 200_000,
            factor: 40,
            fuel: 20_000_000,
            run: c17,
            pins: vec![],
            assumptions: vec!["which of two unequal lists or two unequal maps is greater is not laid down"],
        },
        Prop {
            id: "C29",
            rule: "numbers, bounds and lists of every size, 60 to 580 draws each, with every value of a small range expected to appear; non-trivial: always",
            quick: 50_000,
            factor: 25,
            fuel: 100_000_000,
            run: c29,
            pins: vec![],
            assumptions: vec!["a value of a range of at most 12 fails to appear in the draws with probability below 1e-15 each", "what a float of zero or below gives is not laid down", "bounds of different types are not laid down"],
        },
    ]
}
