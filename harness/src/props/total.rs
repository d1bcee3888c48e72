//! C01, C02: totality
use super::*;
use serde_json::json;

// ------------------------------------------------------------ texts
const TOK: &[&str] = &[
    "{{", "}}", "{{-", "-}}", "if ", "else", "elif ", "for ", "k v in ", "let ", "x=", "export ", "@let ", "@export ", "@md", "@md ", "/if", "/for", "/md", "/let", "/switch", "switch ", "case ", "as ", "define ", "global ", "return ", "#", "##", "[", "]", "(", ")", "{", "}", "<", ">", "?(", "$", "$0", ".a", ".0", "@", ":", ",", ";", "=", "\n", "\r\n", " ", "\t", "\"abc\"", "\"", "'", "'a b'", "r#\"", "\"#", "\\", "\\u", "d83d", "\\udc1f", "null", "true", "false", "0", "1", "-1", "1.5", "1e5", "1.e-3", "-0.0", "1_000", "1/2/2000", "3/jan/2001", "31/31/31", "1/1/-5", "99999999999999999999", "18446744073709551615", "-9223372036854775808", "1e999", "_", "|", "*", "-", "--", "abc", "a", "é", "🐟", "\u{0}", "\u{feff}", "run ", "first ", "select ", "cat ", "nope ",
];
fn soup(s: &mut Source, max: usize) -> String {
    let n = s.size(0, max);
    (0..n)
        .map(|_| match s.weighted(&[8, 1]) {
            0 => s.pick(TOK).to_string(),
            _ => gen_char(s).to_string(),
        })
        .collect()
}
pub fn program_text(s: &mut Source, items: usize) -> String {
    let b = {
        let mut g = Gen::new(s, Weights { items, ..MIXED }, 2);
        g.program()
    };
    print(s, &b, true)
}
/// a few random edits of a text
pub fn edits(s: &mut Source, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..s.size(1, 4) {
        let i = s.draw(c.len() as u64 + 1) as usize;
        match s.draw(6) {
            0 => {
                let n = s.size(1, 6).min(c.len() - i);
                c.drain(i..i + n);
            }
            1 => {
                let t: Vec<char> = s.pick(TOK).chars().collect();
                c.splice(i..i, t);
            }
            2 => {
                let g = gen_char(s);
                if i < c.len() {
                    c[i] = g
                } else {
                    c.push(g)
                }
            }
            3 => c.truncate(i),
            4 => {
                let n = s.size(1, 20).min(c.len() - i);
                let part: Vec<char> = c[i..i + n].to_vec();
                let j = s.draw(c.len() as u64 + 1) as usize;
                c.splice(j..j, part);
            }
            _ => {
                let j = s.draw(c.len() as u64 + 1) as usize;
                if i < c.len() && j < c.len() {
                    c.swap(i, j);
                }
            }
        }
    }
    c.into_iter().collect()
}
/// Openers of nested parts, per stretch between tag openers. Unclosed nested
/// parts cost the parser twice the work per level (a known finding), so texts
/// with many of them are thinned out by construction.
pub fn openers(t: &str) -> usize {
    t.split("{{").map(|p| p.chars().filter(|c| "([{<".contains(*c)).count()).max().unwrap_or(0)
}
pub fn cap(t: &str, max: usize) -> String {
    let mut n = 0;
    let mut r = String::new();
    let mut it = t.chars().peekable();
    let mut closed = true;
    while let Some(c) = it.next() {
        if c == '{' && it.peek() == Some(&'{') {
            it.next();
            r.push_str("{{");
            if closed {
                n = 0;
                closed = false;
            }
            continue;
        }
        if c == '}' && it.peek() == Some(&'}') {
            closed = true;
        }
        if "([{<".contains(c) {
            n += 1;
            if n > max {
                r.push('.');
                continue;
            }
        }
        r.push(c);
    }
    r
}
const CAP: usize = 7;

pub fn gen_json_text(s: &mut Source, v: &serde_json::Value) -> String {
    // any layout a JSON writer may choose
    fn ws(s: &mut Source) -> &'static str {
        *s.pick(&["", "", "", " ", "\n", "\t", "\r\n  "])
    }
    match v {
        serde_json::Value::Array(a) => {
            let mut r = String::from("[");
            r.push_str(ws(s));
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    r.push_str(ws(s));
                    r.push(',');
                    r.push_str(ws(s));
                }
                r.push_str(&gen_json_text(s, x));
            }
            r.push_str(ws(s));
            r.push(']');
            r
        }
        serde_json::Value::Object(a) => {
            let mut r = String::from("{");
            r.push_str(ws(s));
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 {
                    r.push_str(ws(s));
                    r.push(',');
                    r.push_str(ws(s));
                }
                r.push_str(&json_string(s, k));
                r.push_str(ws(s));
                r.push(':');
                r.push_str(ws(s));
                r.push_str(&gen_json_text(s, x));
            }
            r.push_str(ws(s));
            r.push('}');
            r
        }
        serde_json::Value::String(x) => json_string(s, x),
        v => v.to_string(),
    }
}
pub fn json_string(s: &mut Source, x: &str) -> String {
    let mut r = String::from("\"");
    for c in x.chars() {
        match c {
            '"' | '\\' => {
                r.push('\\');
                r.push(c)
            }
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            '\r' => r.push_str("\\r"),
            '\u{8}' => r.push_str("\\b"),
            '\u{c}' => r.push_str("\\f"),
            '/' if s.chance(1, 2) => r.push_str("\\/"),
            c if (c as u32) < 0x20 || s.chance(1, 10) => {
                let mut b = [0u16; 2];
                let up = s.chance(1, 2);
                for u in c.encode_utf16(&mut b) {
                    if up {
                        r.push_str(&format!("\\u{:04X}", u))
                    } else {
                        r.push_str(&format!("\\u{:04x}", u))
                    }
                }
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
pub fn gen_table_text(s: &mut Source) -> String {
    let n = s.count_to(0, 5, 80);
    let mut r = String::new();
    for _ in 0..n {
        r.push_str(s.pick::<&str>(&["", "", "*", "-", "*-", " ", "-*"]));
        let m = s.count_to(0, 4, 60);
        for _ in 0..m {
            r.push('|');
            r.push_str(&gen_string(s, 4).replace(|c| c == '|' || c == '\n', "x"));
        }
        r.push_str(s.pick::<&str>(&["|\n", "|", "\n", "|  \n\n", ""]));
    }
    r
}
pub fn gen_card_text(s: &mut Source) -> String {
    let n = s.count_to(0, 3, 60);
    let mut r = String::new();
    for _ in 0..n {
        r.push_str(&format!("{}{}\n", s.pick::<&str>(&["", "3 ", "0*", "12*", " 2 "]), gen_word(s)));
        for _ in 0..s.size(0, 3) {
            r.push_str(s.pick::<&str>(&["    :", ":", "  "]));
            r.push_str(&gen_word(s));
            r.push_str(s.pick::<&str>(&[":", " ", ""]));
            let t = match s.draw(5) {
                0 => gen_word(s),
                1 => format!("{}", gen_int(s)),
                2 => "[a,b,3]".into(),
                3 => "{a:1,b:c}".into(),
                _ => format!("\"{}\"", gen_word(s)),
            };
            r.push_str(&t);
            r.push('\n');
        }
    }
    r
}
pub fn gen_expr_text(s: &mut Source) -> String {
    let e = {
        let mut g = Gen::new(s, MIXED, 1);
        let d = g.s.size(0, 2);
        g.exp(d)
    };
    let mut p = Printer::new(s, true);
    p.exp(&e, true)
}

fn c01(s: &mut Source, ctx: &mut Ctx) -> R {
    let kind = s.weighted(&[10, 5, 3, 3, 2, 3, 2, 3]);
    let base = match kind {
        0 => program_text(s, 12),
        1 => soup(s, 20),
        2 => {
            let mut p = String::new();
            let v = gen_v(s, LITERAL);
            if let Some(l) = literal_of(&v) {
                p = Printer::new(s, true).lit(&l);
            }
            p
        }
        3 => {
            let v = gen_v(s, JSONY).json().unwrap_or(json!([1]));
            gen_json_text(s, &v)
        }
        4 => gen_table_text(s),
        5 => gen_card_text(s),
        6 => {
            let n = s.size(1, 3);
            format!("{}{}", s.pick(&["", "-", "--", " "]), (0..n).map(|_| s.pick(&["a", "0", "name", "'my key'", "99999999999999999999", ""]).to_string()).collect::<Vec<_>>().join("."))
        }
        _ => gen_expr_text(s),
    };
    let mutate = s.chance(2, 3);
    let t = if mutate { edits(s, &base) } else { base };
    let t = cap(&t, CAP);
    ctx.note(format!("{:?}", t));
    ctx.class(["template", "soup", "literal", "json", "table", "card", "comparator", "expression"][kind]);
    ctx.class_if(mutate, "edited");
    let nested = openers(&t) > CAP || t.chars().filter(|c| "([{<".contains(*c)).count() > 60;
    let opname = |a: &'static str| if nested { "parse-nested" } else { a };
    ctx.nontrivial = t.len() > 1;
    // every reader gets every text
    ctx.op(opname("parse-template"));
    let a = parse(&t);
    let one = covrt::steps();
    let b = parse(&t);
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            ctx.class("parses");
            crate::ensure!(format!("{:?}", x) == format!("{:?}", y), "parse:differs", "parsing twice gives different templates");
        }
        (Err(x), Err(y)) => crate::ensure!(x == y, "parse:differs", "parsing twice gives different errors:\n{}\n{}", x, y),
        _ => crate::bail!("parse:differs", "parsing twice gives once a template and once an error"),
    }
    if a.is_ok() && t.len() > 0 && t.len() < 400 && !nested && one < 400_000 && s.chance(1, 4) {
        // work grows with the text, not faster
        ctx.class("scaling");
        ctx.op("parse-repeated");
        let t4 = t.repeat(4);
        let t32 = t.repeat(32);
        let s0 = covrt::steps();
        let _ = parse(&t4);
        let s1 = covrt::steps();
        let _ = parse(&t32);
        let s2 = covrt::steps();
        let (w4, w32) = (s1 - s0, s2 - s1);
        crate::ensure!(w32 <= 24 * w4 + 50_000, "parse:superlinear", "a text 8 times as long takes {} times the work ({} and {} steps)", w32 / w4.max(1), w4, w32);
    }
    ctx.op(opname("parse-data"));
    let x = parse_data(&t);
    let y = parse_data(&t);
    crate::ensure!(x.as_ref().map(|d| V::from_td(d).canon()) == y.as_ref().map(|d| V::from_td(d).canon()), "parse:differs", "reading data twice gives different results");
    let td = [TData::String(t.clone())];
    for name in ["r_json", "r_card", "table"] {
        ctx.op(opname(match name {
            "r_json" => "parse-r_json",
            "r_card" => "parse-r_card",
            _ => "parse-table",
        }));
        let x = direct(fm(), name, &td).map(|d| V::from_td(&d).canon());
        let y = direct(fm(), name, &td).map(|d| V::from_td(&d).canon());
        crate::ensure!(x == y, "parse:differs", "{} twice gives different results", name);
    }
    let list = TData::List(vec![TData::UInt(2), TData::UInt(1), TData::Map([("a".to_string(), TData::Null)].into_iter().collect())]);
    ctx.op(opname("parse-comparator"));
    let _ = direct(fm(), "sort_on", &[list.clone(), td[0].clone()]);
    // filter expressions may loop in calls, but only over what the text spells out
    ctx.op(opname("parse-filter"));
    let _ = direct(fm(), "filter", &[list, td[0].clone()]);
    Ok(())
}
fn pin_nested(ctx: &mut Ctx) -> R {
    let t = format!("{{{{a {}", "[a ".repeat(40));
    ctx.note(&t);
    ctx.op("parse-nested");
    let _ = parse(&t);
    Ok(())
}
fn deep(ctx: &mut Ctx, op: &'static str, t: String, f: fn(&str)) -> R {
    ctx.note(&t[..100.min(t.len())]);
    ctx.op(op);
    covrt::disarm();
    // as much stack as the main thread of a program has
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || f(&t)).unwrap().join().ok();
    Ok(())
}
fn pin_deep_parens(ctx: &mut Ctx) -> R {
    deep(ctx, "parse-deep-parens", format!("{{{{{}1{}}}}}", "(".repeat(100_000), ")".repeat(100_000)), |t| {
        let _ = parse(t);
    })
}
fn pin_deep_data(ctx: &mut Ctx) -> R {
    deep(ctx, "parse-deep-data", format!("{}1{}", "[".repeat(100_000), "]".repeat(100_000)), |t| {
        let _ = parse_data(t);
    })
}
fn pin_deep_if(ctx: &mut Ctx) -> R {
    deep(ctx, "parse-deep-if", "{{if 1}}".repeat(100_000), |t| {
        let _ = parse(t);
    })
}
/// nesting within the bound is no problem, with a small stack
fn pin_moderate(ctx: &mut Ctx) -> R {
    ctx.op("parse-moderately-deep");
    let texts = [
        format!("{{{{{}1{}}}}}", "(".repeat(40), ")".repeat(40)),
        format!("{{{{{}1{}}}}}", "[".repeat(40), "]".repeat(40)),
        format!("{}x{}", "{{if 1}}".repeat(40), "{{/if}}".repeat(40)),
        format!("{{{{{}1{}}}}}", "{a:".repeat(40), "}".repeat(40)),
    ];
    for t in texts.iter() {
        ctx.note(t);
        let t2 = t.clone();
        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || parse(&t2).map(|_| ())).unwrap().join().unwrap();
        crate::ensure!(r.is_ok(), "parse:moderate-depth", "does not parse: {:?}", r);
    }
    Ok(())
}

// ------------------------------------------------------------ C02
/// a value that is interesting for some helper
pub fn wild(s: &mut Source) -> TData {
    match s.weighted(&[12, 2, 2, 2, 1, 1, 1, 1, 1, 1]) {
        0 => gen_v(s, ALL).td(),
        1 => TData::String((*s.pick(&["a*", "(", "[a-z]+", "^$", "(?i)x", "\\d", "a{2,}", "-a", "a.b", "-a.0", "0", "name", "eq $0 1", "$0", "lt .a 3", "a/b.c", "/", "..", "/x/../y.tar.gz", ".hid", "a.", "x/", "px", "%", "red"])).to_string()),
        2 => TData::String(gen_string(s, 12)),
        3 => {
            let n = s.count_to(0, 5, 120);
            TData::List((0..n).map(|_| gen_small(s).td()).collect())
        }
        4 => {
            let t = program_text(s, 4);
            parse(&t).map(TData::Template).unwrap_or(TData::Null)
        }
        5 => TData::String(gen_table_text(s)),
        6 => TData::String(gen_card_text(s)),
        7 => {
            let v = gen_v(s, JSONY).json().unwrap_or(json!(null));
            TData::String(gen_json_text(s, &v))
        }
        8 => TData::String(gen_md(s)),
        _ => TData::UInt(s.draw(12) as usize),
    }
}
pub fn gen_md(s: &mut Source) -> String {
    let n = s.count_to(0, 12, 250);
    (0..n)
        .map(|_| {
            (*s.pick(&["*", "**", "_", "`", "```", "~~~", "#", "## ", "\n", "\n\n", " ", "    ", "\t", "> ", "- ", "* ", "1. ", "[", "]", "(", ")", "<", ">", "![", "](", "http://a.b", "a", "b c", "\\", "&amp;", "&", "<b>", "</b>", "|", "|-|", "---", "===", "[^1]", "[^1]: ", "- [ ] ", "- [x] ", "~~", "<!--", "-->", "é", "\"", "'", "[a]: /u"])).to_string()
        })
        .collect()
}
/// what helpers that look at their arguments' types take: Number, Whole number, List, String,
/// Map, Path, Comparator, regular eXpression, Expression, Base64, Any
const TAKES: &[(&str, &[&str])] = &[
    ("groups", &["WL"]),
    ("slice", &["LW", "LWW", "SW", "SWW"]),
    ("get", &["LW", "SW", "MS"]),
    ("word_wrap", &["SW"]),
    ("str_replace_n", &["SSS", "SSSW"]),
    ("str_replace", &["SSS"]),
    ("str_contains", &["SSS"]),
    ("string_from_ints", &["W", "WWW"]),
    ("rand", &["N", "NN", "L"]),
    ("sort", &["L", "LL"]),
    ("sort_on", &["LC", "LCC"]),
    ("bin_search", &["LAC", "LACC"]),
    ("bin_get", &["LAC", "LACC"]),
    ("filter", &["LE"]),
    ("index_of", &["AL"]),
    ("append", &["LL", "AL"]),
    ("len", &["L", "S", "M"]),
    ("add", &["NN", "NNN"]),
    ("sub", &["N", "NN", "NNN"]),
    ("mul", &["NN", "NNN"]),
    ("div", &["NN", "NNN"]),
    ("mod", &["NN", "NNN"]),
    ("min", &["NN", "NNN"]),
    ("max", &["NN", "NNN"]),
    ("lt", &["NN"]),
    ("eq", &["NN"]),
    ("split", &["S", "SS"]),
    ("table", &["S", "SS"]),
    ("regex", &["SX"]),
    ("join_with", &["SL"]),
    ("with_ext", &["PS"]),
    ("parent", &["P", "PP"]),
    ("join", &["P", "PP"]),
    ("bread_crumbs", &["P", "PP"]),
    ("base_name", &["P"]),
    ("base_name_sure", &["P"]),
    ("stem", &["P"]),
    ("full_stem", &["P", "PP"]),
    ("map", &["SA", "SASA"]),
    ("as_base64", &["S"]),
    ("from_base64", &["B"]),
];
fn taken(s: &mut Source, k: char) -> TData {
    let whole = |s: &mut Source| -> TData {
        match s.weighted(&[6, 4, 3]) {
            0 => TData::UInt(s.draw(9) as usize),
            1 => TData::UInt(*s.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 3, 1 << 32, (1 << 32) - 1, 1 << 31, 0xd800, 0xdfff, 0x10ffff, 0x110000, 65536])),
            _ => TData::Int(*s.pick(&[0, 1, 2, 3, -1, -2, isize::MIN, isize::MIN + 1, isize::MAX, isize::MAX - 1, 1 << 32, -(1 << 32)])),
        }
    };
    match k {
        'W' => whole(s),
        'N' => match s.draw(3) {
            0 => whole(s),
            1 => super::numbers::gen_num(s).td(),
            _ => TData::Float(*s.pick(&[0.0, -0.0, 1.0, -1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e19, -1e19])),
        },
        'L' => {
            let n = s.count_to(0, 6, 120);
            let of = s.draw(4);
            TData::List(
                (0..n)
                    .map(|_| match of {
                        0 => super::numbers::gen_num(s).td(),
                        1 => TData::Map(["a", "b", "name"].iter().filter_map(|k| if s.chance(2, 3) { Some((k.to_string(), gen_small(s).td())) } else { None }).collect()),
                        2 => TData::String(gen_string(s, 4)),
                        _ => wild(s),
                    })
                    .collect(),
            )
        }
        'M' => TData::Map([("a".to_string(), gen_small(s).td()), (String::new(), gen_small(s).td())].into_iter().collect()),
        'S' => TData::String(gen_string(s, 12)),
        'P' => TData::String((0..s.size(0, 5)).map(|_| *s.pick(&["/", ".", "..", "a", "b.c", ".h", " ", "é", "x.tar.gz", "//", "\\"])).collect()),
        'C' => TData::String((*s.pick(&["a", "-a", "a.b", "0", "-0", "a.0.b", "name", "-", "", "'a b'"])).to_string()),
        'X' => TData::String((0..s.size(0, 4)).map(|_| *s.pick(&["a", "(", ")", "*", "+?", "[a-z]", "\\d", "{2,}", "|", "^", "$", "(?i)", ".", "é", "\\b", "[^"])).collect()),
        'E' => TData::String((*s.pick(&["true", "$0", "lt .a 3", "eq $0.b 1", "$5", "$", ".", "nosuch", "run $0", "filter [1] \"true\"", "first .a .b", "select .a 1 2", "div 1 $0", "slice $0 2", "@"])).to_string()),
        'B' => TData::String((0..s.size(0, 6)).map(|_| *s.pick(&["A", "Zm9v", "=", "==", "+/", "-_", "\n", "é", "AAAA"])).collect()),
        _ => wild(s),
    }
}
fn c02(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(2, 3) {
        let (name, args): (String, Vec<TData>) = if s.chance(1, 3) {
            let (name, takes) = s.pick(TAKES);
            let mut args: Vec<TData> = s.pick(takes).chars().map(|k| taken(s, k)).collect();
            // one missing, or one too many
            match s.draw(12) {
                0 => {
                    args.pop();
                }
                1 => args.push(wild(s)),
                _ => {}
            }
            ctx.class("fitting arguments");
            (name.to_string(), args)
        } else {
            let ns = names(fm());
            let name = s.pick(&ns).clone();
            // exhaustive over names, so no names of ours are needed
            let n = s.weighted(&[2, 5, 8, 6, 3, 2]);
            (name, (0..n).map(|_| wild(s)).collect())
        };
        let n = args.len();
        let canon: Vec<V> = args.iter().map(V::from_td).collect();
        ctx.note(format!("{} {}", name, show_args(&canon)));
        let op: &'static str = Box::leak(format!("helper:{}", name).into_boxed_str());
        ctx.op(op);
        let skip = name == "filter" && args.get(1).map_or(false, |a| openers(&a.to_string()) > 6);
        if skip {
            return Ok(());
        }
        let r = direct(fm(), &name, &args);
        ctx.class(if r.is_ok() { "helper-result" } else { "helper-error" });
        ctx.nontrivial = n > 0;
        return Ok(());
    }
    // whole programs over the default helpers and ones that fail
    let ns = names(fm());
    let (b, nparams) = {
        let np = s.size(0, 3);
        let mut g = Gen::new(s, Weights { items: 20, faults: 30, ..MIXED }, np);
        g.extra = ns.clone();
        (g.program(), np)
    };
    let text = print(s, &b, true);
    let params: Vec<TData> = (0..nparams).map(|_| wild(s)).collect();
    // parameters may be missing
    let given = if s.chance(1, 6) { s.draw(nparams as u64 + 1) as usize } else { nparams };
    ctx.note(format!("{}\n params {}", text, show_args(&params.iter().map(V::from_td).collect::<Vec<_>>())));
    ctx.op("parse");
    let t = match parse(&text) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    ctx.op("render");
    let (mut all, _log) = helpers();
    {
        // the default helpers on top of ours
        let taken = std::mem::replace(&mut all, BasicFuncs::new());
        all = taken.with_defaults();
    }
    let ps: Vec<&dyn TParam> = params.iter().take(given).map(|t| t as &dyn TParam).collect();
    let r = run_exp(&t, &ps, &mut BasicTemps::new(), &all);
    ctx.class(if r.is_ok() { "render-result" } else { "render-error" });
    ctx.nontrivial = true;
    ctx.op("front_matter");
    let _ = front_matter(&t, &all);
    ctx.op("run");
    let _ = run(&t, &ps, &mut BasicTemps::new(), &all);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "texts are printed programs, literals, JSON, tables, cards, comparators, expressions, token soups and random edits of them; each text goes through every reader twice; non-trivial: longer than one character",
            quick: 60_000,
            factor: 25,
            fuel: 120_000_000,
            run: c01,
            pins: vec![("nested-unclosed", pin_nested), ("deep-parens", pin_deep_parens), ("deep-data", pin_deep_data), ("deep-if", pin_deep_if), ("moderate-depth", pin_moderate)],
            assumptions: vec!["termination is decided by a budget of executed branches (120 million per text, the largest seen is reported), not by a clock", "at most 7 openers of nested parts per tag (known finding: unclosed nesting takes exponential time)"],
        },
        Prop {
            id: "C02",
            rule: "every default helper with 0-5 arguments of all types, and generated programs over all default helpers with failing parts; non-trivial: at least one argument",
            quick: 240_000,
            factor: 25,
            fuel: 100_000_000,
            run: c02,
            pins: vec![],
            assumptions: vec!["loops over numbers stay small by construction: looping n times is what the language asks for"],
        },
    ]
}
