//! C36: what a host program reads from data is what templates make of it
use super::*;
use std::cmp::Ordering;

/// the nearest float, by way of its decimal text
fn nearest(v: &V) -> Option<f64> {
    match v {
        V::UInt(n) => n.to_string().parse().ok(),
        V::Int(n) => n.to_string().parse().ok(),
        V::Float(f) => Some(*f),
        _ => None,
    }
}
fn json_of(v: &V) -> Option<serde_json::Value> {
    use serde_json::Value as J;
    Some(match v {
        V::Date(..) => J::String(v.display()),
        V::Bytes(b) => J::Array(b.iter().map(|x| J::from(*x as u64)).collect()),
        V::Float(f) if !f.is_finite() => J::Null,
        V::List(l) => J::Array(l.iter().map(json_of).collect::<Option<_>>()?),
        V::Map(m) => {
            let mut r = serde_json::Map::new();
            for (k, v) in m {
                r.insert(k.clone(), json_of(v)?);
            }
            J::Object(r)
        }
        v => v.json()?,
    })
}
fn jsony(v: &V) -> bool {
    match v {
        V::Date(..) | V::Bytes(_) | V::Tmpl(_) => false,
        V::Float(f) => f.is_finite(),
        V::List(l) => l.iter().all(jsony),
        V::Map(m) => m.values().all(jsony),
        _ => true,
    }
}
/// the same but for the types of integers, and of floats that JSON writes like integers
fn as_json(v: &V) -> V {
    match v {
        V::Int(n) if *n >= 0 => V::UInt(*n as usize),
        V::List(l) => V::List(l.iter().map(as_json).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), as_json(v))).collect()),
        v => v.clone(),
    }
}
fn shown(text: &str, ps: &[&dyn TParam]) -> Result<String, String> {
    let t = parse(text)?;
    run(&t, ps, &mut BasicTemps::new(), fm())
}
fn c36(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(1, 12) {
        return loading(s, ctx);
    }
    let v = if s.chance(1, 30) { V::Tmpl(0) } else { gen_v(s, ALL) };
    let given = v.td();
    ctx.note(v.canon());
    ctx.class(v.kind());
    ctx.nontrivial = true;
    // the data as it comes out of a template
    let how = s.draw(4);
    let text = match how {
        0 => "{{export r = $0}}",
        1 => "{{let x = $0}}{{if 1}}{{export r = $x}}{{/if}}",
        2 => "{{define t a}}{{return $a}}{{/define}}{{export r = run $t $0}}",
        _ => "",
    };
    let td = if text.is_empty() {
        given.clone()
    } else {
        ctx.op("run_exp");
        let t = parse(text).map_err(|e| Fail { sig: "C36:parse".into(), msg: e })?;
        let r = run_exp(&t, &[&given as &dyn TParam], &mut BasicTemps::new(), fm());
        match r {
            Ok((_, mut ex)) => match ex.remove("r") {
                Some(d) => d,
                None => crate::bail!("C36:export", "{} with {} exports no r", text, v.canon()),
            },
            Err(e) => crate::bail!("C36:export", "{} with {} fails: {}", text, v.canon(), e),
        }
    };
    crate::ensure!(V::from_td(&td).same(&v), "C36:export", "{} exported as {}", v.canon(), V::from_td(&td).canon());

    ctx.op("accessors");
    crate::ensure!(td.as_bool() == v.truth(), "C36:as_bool", "{}: as_bool gives {:?}", v.canon(), td.as_bool());
    let branch = shown("{{if $0}}T{{else}}F{{/if}}", &[&td]);
    let want = if v.truth() == Some(true) { "T" } else { "F" };
    crate::ensure!(branch.as_deref() == Ok(want), "C36:if", "{}: as_bool {:?}, but an if gives {:?}", v.canon(), td.as_bool(), branch);
    crate::ensure!(td.as_usize() == v.index(), "C36:as_usize", "{}: as_usize gives {:?}", v.canon(), td.as_usize());
    let f = td.as_float();
    crate::ensure!(
        f.map(|f| if f.is_nan() { "NaN".to_string() } else { format!("{:?}", f) }) == nearest(&v).map(|f| if f.is_nan() { "NaN".to_string() } else { format!("{:?}", f) }),
        "C36:as_float",
        "{}: as_float gives {:?}, expected {:?}",
        v.canon(),
        f,
        nearest(&v)
    );
    let st = if let V::Str(x) = &v { Some(x.as_str()) } else { None };
    crate::ensure!(td.as_str() == st, "C36:as_str", "{}: as_str gives {:?}", v.canon(), td.as_str());

    // entries of maps
    let mut keys: Vec<String> = vec!["a".into(), "no such".into(), String::new()];
    if let V::Map(m) = &v {
        keys.extend(m.keys().cloned());
    }
    for k in &keys {
        let e = if let V::Map(m) = &v { m.get(k) } else { None };
        let st = if let Some(V::Str(x)) = e { Some(x.as_str()) } else { None };
        crate::ensure!(td.get_key_str(k) == st, "C36:get_key_str", "{} {:?}: get_key_str gives {:?}", v.canon(), k, td.get_key_str(k));
        let got = td.get_key_string(k);
        crate::ensure!(got.is_some() == e.is_some(), "C36:get_key_string", "{} {:?}: get_key_string gives {:?}", v.canon(), k, got);
        if let (Some(e), Some(g)) = (e, &got) {
            ctx.class("entry");
            if e.displayable() {
                crate::ensure!(*g == e.display(), "C36:get_key_string", "{} {:?}: get_key_string gives {:?}, expected {:?}", v.canon(), k, g, e.display());
            }
            // a path with that key shows the same
            if !k.is_empty() && !k.contains('\'') && e.displayable() {
                let t = format!("{{{{$0.'{}'}}}}", k);
                let r = shown(&t, &[&td]);
                crate::ensure!(r.as_ref().ok() == Some(g), "C36:path", "{} {:?}: get_key_string gives {:?}, but {} renders {:?}", v.canon(), k, g, t, r);
            }
        }
    }

    // text
    if v.displayable() && !matches!(v, V::Tmpl(_)) {
        ctx.op("display");
        let d = td.to_string();
        crate::ensure!(d == v.display(), "C36:display", "{} is displayed as {:?}, expected {:?}", v.canon(), d, v.display());
        let r = shown("{{cat $0}}", &[&td]);
        crate::ensure!(r.as_ref().ok() == Some(&d), "C36:display", "{} is displayed as {:?}, but a template renders {:?}", v.canon(), d, r);
    }

    // JSON
    if !matches!(v, V::Tmpl(_)) {
        ctx.op("serialize");
        let got = serde_json::to_value(&td);
        let text = serde_json::to_string(&td);
        let want = json_of(&v);
        if let Some(w) = &want {
            crate::ensure!(got.as_ref().ok() == Some(w), "C36:serialize", "{} is serialised as {:?}, expected {}", v.canon(), got, w);
            let text = match text {
                Ok(t) => t,
                Err(e) => crate::bail!("C36:serialize", "{} is not serialised: {}", v.canon(), e),
            };
            let back: Result<serde_json::Value, _> = serde_json::from_str(&text);
            crate::ensure!(back.is_ok(), "C36:serialize", "{} is serialised as {:?}, which is not JSON", v.canon(), text);
            let r = shown("{{w_json $0}}", &[&td]).ok().and_then(|r| serde_json::from_str::<serde_json::Value>(&r).ok());
            crate::ensure!(r == back.ok(), "C36:w_json", "{} is serialised as {:?}, but w_json gives {:?}", v.canon(), text, r);
            if jsony(&v) {
                ctx.op("from_str");
                let r = TData::from_str(&text).map(|d| V::from_td(&d)).map_err(|e| e.to_string());
                crate::ensure!(matches!(&r, Ok(g) if as_json(g).same(&as_json(&v))), "C36:from_str", "{} is serialised as {:?}, which is read as {:?}", v.canon(), text, r.map(|g| g.canon()));
                let r = TData::from_json(w.clone());
                crate::ensure!(as_json(&V::from_td(&r)).same(&as_json(&v)), "C36:from_json", "{} as JSON is read as {}", v.canon(), V::from_td(&r).canon());
            }
        }
    }
    if let V::UInt(_) | V::Str(_) | V::Bool(_) | V::Null | V::Date(..) = &v {
        // a literal is the same for the host as in a template
        let printable = !matches!(v, V::Date(y, ..) if !(0..=9999).contains(&y));
        if printable {
            let t = Printer::new(s, true).lit(&v);
            let r = TData::from_str(&t).map(|d| V::from_td(&d)).map_err(|e| e.to_string());
            crate::ensure!(matches!(&r, Ok(g) if g.same(&v)), "C36:literal", "{} is read by from_str as {:?}, expected {}", t, r.map(|g| g.canon()), v.canon());
        }
    }

    // comparison
    let w = match s.draw(3) {
        0 => v.clone(),
        1 => perturb(s, &v),
        _ => gen_v(s, ALL),
    };
    let wd = w.td();
    if !v.has_nan() && !w.has_nan() {
        ctx.op("compare");
        ctx.class(if veq(&v, &w) { "equal" } else { "different" });
        crate::ensure!((td == wd) == veq(&v, &w), "C36:eq", "{} == {}: {}", v.canon(), w.canon(), td == wd);
        let r = shown("{{eq $0 $1}}", &[&td, &wd]);
        crate::ensure!(r.as_deref() == Ok(if td == wd { "true" } else { "false" }), "C36:eq", "{} == {} is {}, but eq gives {:?}", v.canon(), w.canon(), td == wd, r);
        let c = td.partial_cmp(&wd);
        for (n, t, want) in [("lt", "{{lt $0 $1}}", c == Some(Ordering::Less)), ("gt", "{{gt $0 $1}}", c == Some(Ordering::Greater))] {
            let r = shown(t, &[&td, &wd]);
            crate::ensure!(r.as_deref() == Ok(if want { "true" } else { "false" }), "C36:order", "{} against {} is {:?}, but {} gives {:?}", v.canon(), w.canon(), c, n, r);
        }
        if v.is_num() && w.is_num() {
            crate::ensure!(c == num_cmp(&v, &w), "C36:order", "{} against {} is {:?}", v.canon(), w.canon(), c);
        }
    }

    // conversions
    ctx.op("convert");
    match &v {
        V::Str(x) => {
            crate::ensure!(V::from_td(&TData::from(x.as_str())).same(&v), "C36:convert", "from &str {:?}", x);
            crate::ensure!(V::from_td(&TData::from(x.clone())).same(&v), "C36:convert", "from String {:?}", x);
        }
        V::UInt(n) => crate::ensure!(V::from_td(&TData::from(*n)).same(&v), "C36:convert", "from usize {:?}", n),
        V::List(l) => {
            let strs: Vec<String> = l.iter().map(|x| x.display()).collect();
            let refs: Vec<&str> = strs.iter().map(|x| x.as_str()).collect();
            let want = V::List(strs.iter().map(V::s).collect());
            let a = V::from_td(&TData::from(&refs[..]));
            let b = V::from_td(&TData::from(&strs[..]));
            crate::ensure!(a.same(&want) && b.same(&want), "C36:convert", "from {:?}: {} and {}", strs, a.canon(), b.canon());
        }
        _ => {}
    }
    Ok(())
}
/// a template in a file
fn loading(s: &mut Source, ctx: &mut Ctx) -> R {
    let w = Weights { text: 8, exp: 6, ifs: 3, fors: 2, lets: 3, export: 3, atlet: 1, block: 1, define: 2, global: 0, ret: 1, switch: 1, as_: 1, faults: 3, depth: 3, items: 12 };
    let params = vec![gen_v(s, ALL)];
    let b = {
        let mut g = Gen::new(s, w, 1);
        g.pvals = params.clone();
        g.program()
    };
    let mut text = print(s, &b, true);
    match s.draw(6) {
        0 => text.insert(0, '\u{feff}'),
        1 => text.push_str("{{if"),
        2 => text = text.replace('\n', "\r\n"),
        _ => {}
    }
    ctx.note(format!("load {:?}", text));
    ctx.class("load");
    ctx.nontrivial = true;
    ctx.op("load");
    let file = format!("{}/{}", ctx.scratch, s.pick(&["t.ito", "a b", "é.txt", ".hidden"]));
    let mut bytes = text.clone().into_bytes();
    let bad = s.chance(1, 12);
    if bad {
        let at = s.draw(bytes.len() as u64 + 1) as usize;
        bytes.insert(at, 0xff);
    }
    std::fs::write(&file, &bytes).expect("a file in the scratch folder");
    let got = TreeTemplate::load(&file);
    std::fs::remove_file(&file).ok();
    let gone = TreeTemplate::load(&file);
    crate::ensure!(gone.is_err(), "C36:load-nothing", "a file that does not exist is loaded");
    crate::ensure!(TreeTemplate::load(&ctx.scratch).is_err(), "C36:load-nothing", "a folder is loaded");
    if bad {
        crate::ensure!(got.is_err(), "C36:load-invalid", "a file that is not UTF-8 is loaded");
        return Ok(());
    }
    let want = parse(&text);
    crate::ensure!(got.is_ok() == want.is_ok(), "C36:load", "from_str {:?}, load {:?}", want.as_ref().err(), got.as_ref().err().map(|e| e.to_string()));
    if let (Ok(a), Ok(b)) = (got, want) {
        crate::ensure!(a == b && format!("{:?}", a) == format!("{:?}", b), "C36:load", "loaded {:?}\nparsed {:?}", a, b);
        ctx.class("loaded");
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C36",
        rule: "values of all kinds read through the accessors, as text, as JSON, from text, compared and converted by the host, each against the reference and against what a template makes of the same value; programs loaded from files against the same text parsed; non-trivial: always",
        quick: 200_000,
        factor: 25,
        fuel: 100_000_000,
        run: c36,
        pins: vec![],
        assumptions: vec!["maps, bytes and templates as text are left out, it is not specified", "integers are compared by value after JSON", "comparisons with NaN are left to C17"],
    }]
}
