//! C03: text outside tags; C04: literals
use super::*;

// ------------------------------------------------------------ C03
#[derive(Debug)]
enum N {
    Plain(String),
    Ws(String),
    Brace,
    EscWs(String, bool),
    EscCh(char),
    /// inside, output
    Tag(String, String),
    /// open inside, close inside, how often the body shows
    Block(String, String, usize, Vec<N>),
    /// condition, yes part, no part
    Else(bool, Vec<N>, Vec<N>),
    /// cases (pattern, shows, body), preceded by text that is ignored
    Switch(Vec<N>, Vec<(String, bool, Vec<N>)>),
    /// {{@let x}}..{{/let}}{{$x}}
    AtLet(Vec<N>),
}
fn plain_char(s: &mut Source) -> char {
    loop {
        let c = gen_char(s);
        if !" \n\t\r{\\".contains(c) {
            return c;
        }
        if s.rec.len() >= MAX_CHOICES {
            return 'a';
        }
        // a finite choice of last resort
        if s.chance(1, 3) {
            return *s.pick(&['}', '-', '#', '@', 'z', '"', '\u{a0}', '\u{c}', '\u{b}', '🐟', '\u{0}']);
        }
    }
}
fn gen_ws(s: &mut Source) -> String {
    let n = s.count(1, 4);
    (0..n).map(|_| *s.pick(&[' ', '\n', '\t', '\r'])).collect()
}
fn comment_body(s: &mut Source) -> String {
    let n = s.count(0, 3);
    (0..n).map(|_| (*s.pick(&["a", " ", "{{", "}}", "\n", "-", "\\", "\"", "{{if 1}}", "é", "'", "-}}", "{{-"])).to_string()).collect()
}
fn nodes(s: &mut Source, depth: usize, left: &mut usize, max: usize) -> Vec<N> {
    let n = s.count_to(0, max, 150);
    if n > max {
        *left += n;
    }
    let mut r: Vec<N> = vec![];
    for _ in 0..n {
        if *left == 0 {
            break;
        }
        *left -= 1;
        let d = |x: u32| if depth == 0 { 0 } else { x };
        let x = match s.weighted(&[8, 9, 2, 4, 4, 5, 3, 2, d(3), d(2), d(2), d(2), d(2), d(1)]) {
            0 => {
                let n = s.count(1, 4);
                N::Plain((0..n).map(|_| plain_char(s)).collect())
            }
            1 => N::Ws(gen_ws(s)),
            2 => N::Brace,
            3 => N::EscWs(gen_ws(s), s.chance(1, 2)),
            4 => N::EscCh(match s.draw(4) {
                0 => '{',
                1 => '\\',
                2 => '}',
                _ => loop {
                    let c = gen_char(s);
                    if !" \n\t\r".contains(c) {
                        break c;
                    }
                    if s.rec.len() >= MAX_CHOICES {
                        break '{';
                    }
                },
            }),
            5 => {
                let (a, b) = match s.draw(5) {
                    0 => ("5".to_string(), "5".to_string()),
                    1 => ("\" y \"".into(), " y ".into()),
                    2 => ("-5".into(), "-5".into()),
                    3 => ("$0".into(), "\n{{p}} ".into()),
                    _ => ("cat 1 \"-}}\"".into(), "1-}}".into()),
                };
                N::Tag(a, b)
            }
            6 => N::Tag(format!("#{}#", comment_body(s)), String::new()),
            7 => N::Tag((*s.pick(&["let q = 1", "export z = \" t \"", "let q = 2;"])).to_string(), String::new()),
            8 => {
                let b = nodes(s, depth - 1, left, 4);
                let n = s.draw(4) as usize;
                N::Block(format!("for k v in {}", n), "/for".into(), n, b)
            }
            9 => {
                let b = nodes(s, depth - 1, left, 4);
                let t = s.chance(1, 2);
                N::Block(format!("if {}", t), "/if".into(), t as usize, b)
            }
            10 => {
                let a = nodes(s, depth - 1, left, 4);
                let b = nodes(s, depth - 1, left, 4);
                N::Else(s.chance(1, 2), a, b)
            }
            11 => match s.draw(3) {
                0 => N::Block("@cat".into(), "/cat".into(), 1, nodes(s, depth - 1, left, 4)),
                1 => N::Block("as 1: 1".into(), "/as".into(), 1, nodes(s, depth - 1, left, 4)),
                _ => N::Block("define t".into(), "/define".into(), 0, nodes(s, depth - 1, left, 4)),
            },
            12 => N::AtLet(nodes(s, depth - 1, left, 4)),
            _ => {
                let pre = {
                    let n = s.size(0, 2);
                    (0..n)
                        .map(|i| match (i, s.draw(3)) {
                            (0, 0) => N::Ws(gen_ws(s)),
                            (0, 1) => N::Plain("ignored".into()),
                            _ => N::Tag("# c #".into(), String::new()),
                        })
                        .collect()
                };
                let hit = s.draw(3) as usize;
                let k = s.size(1, 3);
                let mut cs = vec![];
                for i in 0..k {
                    let b = nodes(s, depth - 1, left, 3);
                    cs.push(((if i == hit { "7" } else { "8" }).to_string(), i == hit, b));
                }
                N::Switch(pre, cs)
            }
        };
        match (r.last(), &x) {
            (Some(N::Ws(_)), N::Ws(_)) => continue,
            _ => r.push(x),
        }
    }
    r
}
/// one stretch of the text, in order
#[derive(Debug, Clone)]
enum L {
    Ws(String),
    Text(String, String),
    EscWs(String, bool),
    Brace,
    Tag { l: bool, r: bool, inside: String, out: String },
}
struct Lin<'a> {
    v: Vec<L>,
    s: &'a mut Source,
}
/// what the output is made of
enum O {
    One(usize),
    Rep(usize, Vec<O>),
}
impl<'a> Lin<'a> {
    fn tag(&mut self, inside: &str, out: &str) -> O {
        let (l, r) = (self.s.chance(1, 3), self.s.chance(1, 3));
        self.v.push(L::Tag { l, r, inside: inside.to_string(), out: out.to_string() });
        O::One(self.v.len() - 1)
    }
    fn push(&mut self, l: L) -> O {
        self.v.push(l);
        O::One(self.v.len() - 1)
    }
    fn go(&mut self, ns: &[N]) -> Vec<O> {
        let mut r = vec![];
        for n in ns {
            match n {
                N::Plain(t) => r.push(self.push(L::Text(t.clone(), t.clone()))),
                N::Ws(t) => r.push(self.push(L::Ws(t.clone()))),
                N::Brace => r.push(self.push(L::Brace)),
                N::EscWs(t, c) => r.push(self.push(L::EscWs(t.clone(), *c))),
                N::EscCh(c) => r.push(self.push(L::Text(format!("\\{}", c), c.to_string()))),
                N::Tag(i, o) => r.push(self.tag(i, o)),
                N::Block(o, c, k, b) => {
                    self.tag(o, "");
                    let b = self.go(b);
                    self.tag(c, "");
                    r.push(O::Rep(*k, b));
                }
                N::Else(y, a, b) => {
                    self.tag(&format!("if {}", y), "");
                    let a = self.go(a);
                    self.tag("else", "");
                    let b = self.go(b);
                    self.tag("/if", "");
                    r.push(O::Rep(*y as usize, a));
                    r.push(O::Rep(!*y as usize, b));
                }
                N::AtLet(b) => {
                    self.tag("@let x", "");
                    let b = self.go(b);
                    self.tag("/let", "");
                    self.tag("$x", "");
                    r.push(O::Rep(1, b));
                }
                N::Switch(pre, cs) => {
                    self.tag("switch 7", "");
                    self.go(pre);
                    for (p, y, b) in cs {
                        self.tag(&format!("case {}", p), "");
                        let b = self.go(b);
                        r.push(O::Rep(*y as usize, b));
                    }
                    self.tag("/switch", "");
                }
            }
        }
        r
    }
}
fn render(o: &[O], outs: &[String], res: &mut String) {
    for x in o {
        match x {
            O::One(i) => res.push_str(&outs[*i]),
            O::Rep(n, b) => (0..*n).for_each(|_| render(b, outs, res)),
        }
    }
}
fn c03(s: &mut Source, ctx: &mut Ctx) -> R {
    let mut left = s.size(1, 30);
    let ns = nodes(s, 3, &mut left, 12);
    let mut lin = Lin { v: vec![], s };
    let tree = lin.go(&ns);
    let v = lin.v;
    let mut text = String::new();
    let mut outs: Vec<String> = vec![];
    let mut prev_trim = false; // the last stretch was a tag that trims to its right
    let (mut trims, mut escs) = (0, 0);
    for i in 0..v.len() {
        let next = v.get(i + 1);
        let next_l = matches!(next, Some(L::Tag { l: true, .. }));
        let mut trim_after = false;
        match &v[i] {
            L::Ws(t) => {
                // two runs in a row only across stretches of different blocks: they touch
                text.push_str(t);
                // look past further whitespace in both directions
                let mut j = i + 1;
                while matches!(v.get(j), Some(L::Ws(_))) {
                    j += 1;
                }
                let right = matches!(v.get(j), Some(L::Tag { l: true, .. }));
                let cut = prev_trim || right;
                if cut {
                    trims += 1;
                }
                outs.push(if cut { String::new() } else { t.clone() });
                trim_after = prev_trim;
            }
            L::Text(t, o) => {
                text.push_str(t);
                outs.push(o.clone());
            }
            L::Brace => {
                let alone = !matches!(next, Some(L::Tag { .. }) | Some(L::Brace)) || (next_l && false);
                text.push_str(if alone { "{" } else { "\\{" });
                outs.push("{".into());
            }
            L::EscWs(t, closing) => {
                escs += 1;
                let must = match next {
                    Some(L::Ws(_)) | Some(L::EscWs(..)) => true,
                    Some(L::Text(t, _)) => t.starts_with('\\'),
                    Some(L::Brace) => true,
                    None => true,
                    _ => false,
                };
                text.push('\\');
                text.push_str(t);
                if *closing || must {
                    text.push('\\');
                }
                outs.push(String::new());
            }
            L::Tag { l, r, inside, out } => {
                text.push_str("{{");
                if *l {
                    text.push('-');
                }
                let w = *s.pick(&["", " ", "\n\t", "  "]);
                text.push_str(w);
                if inside.starts_with('-') && w.is_empty() && !*l {
                    text.push(' ');
                }
                text.push_str(inside);
                text.push_str(s.pick::<&str>(&["", " ", "\n"]));
                text.push_str(if *r { "-}}" } else { "}}" });
                outs.push(out.clone());
                trim_after = *r;
            }
        }
        prev_trim = trim_after;
    }
    let end = !text.is_empty() && s.chance(1, 10) && !matches!(v.last(), Some(L::EscWs(..)));
    if end {
        text.push('\\');
    }
    let mut want = String::new();
    render(&tree, &outs, &mut want);
    ctx.note(format!("{:?}", text));
    ctx.class_if(trims > 0, "whitespace-trimmed");
    ctx.class_if(escs > 0, "whitespace-escaped");
    ctx.class_if(end, "final-backslash");
    ctx.nontrivial = v.len() > 1;
    ctx.op("parse");
    let t = match parse(&text) {
        Ok(t) => t,
        Err(e) => crate::bail!("C03:parse", "a valid text does not parse: {}", e),
    };
    ctx.op("render");
    let p = "\n{{p}} ";
    match run(&t, &[&p as &dyn TParam], &mut BasicTemps::new(), fm()) {
        Ok(g) => crate::ensure!(g == want, "C03:output", "expected: {:?}\n     got: {:?}", want, g),
        Err(e) => crate::bail!("C03:fails", "rendering fails: {}\nexpected {:?}", e, want),
    }
    Ok(())
}

// ------------------------------------------------------------ C04
fn digits(s: &mut Source, n: &str) -> String {
    // leading zeros and separators mean nothing
    let mut r = String::new();
    if s.chance(1, 6) {
        r.push_str(s.pick::<&str>(&["0", "00", "000000000000000000000000"]));
    }
    for (i, c) in n.chars().enumerate() {
        if (i > 0 || !r.is_empty()) && s.chance(1, 8) {
            r.push('_');
        }
        r.push(c);
    }
    if s.chance(1, 30) {
        r.push('_');
    }
    r
}
fn float_text(s: &mut Source) -> (String, f64) {
    let t = match s.draw(5) {
        0 => {
            let f = gen_float(s, false);
            format!("{:?}", f)
        }
        1 => {
            let f = gen_float(s, false);
            format!("{:e}", f)
        }
        2 => {
            // many digits: the nearest value must be found
            let mut t = String::new();
            for _ in 0..s.size(1, 25) {
                t.push((b'0' + s.draw(10) as u8) as char);
            }
            t.push('.');
            for _ in 0..s.size(0, 25) {
                t.push((b'0' + s.draw(10) as u8) as char);
            }
            t
        }
        3 => {
            // close to the middle between two floats
            let f = gen_float(s, false).abs();
            let g = f64::from_bits(f.to_bits() + 1);
            if f > 1e-5 && f < 1e15 {
                let m = format!("{:.60}", f);
                let n = format!("{:.60}", g);
                if s.chance(1, 2) { m } else { n }
            } else {
                format!("{:.3}", f)
            }
        }
        _ => {
            let n = s.draw(1000);
            format!("{}{}{}", n, s.pick(&[".", ".0", ".25", ""]), s.pick(&["e1", "E1", "e+2", "e-3", "E-0", "e007", "e20", "e-320"]))
        }
    };
    let neg = s.chance(1, 3) && !t.starts_with('-');
    let t = if neg { format!("-{}", t) } else { t };
    let t = if t.contains('.') || t.contains('e') || t.contains('E') { t } else { format!("{}.0", t) };
    // underscores in the digits before the exponent
    let mut o = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut exp = false;
    for i in 0..cs.len() {
        exp |= "eE".contains(cs[i]);
        o.push(cs[i]);
        if !exp && cs[i].is_ascii_digit() && i + 1 < cs.len() && cs[i + 1].is_ascii_digit() && s.chance(1, 40) {
            o.push('_');
        }
    }
    let f: f64 = t.parse().unwrap();
    if f.is_finite() {
        (o, f)
    } else {
        ("1.5".into(), 1.5)
    }
}
/// a literal with what it denotes; `data`: as TData::from_str reads it (map keys are strings)
fn spelled(s: &mut Source, depth: usize, data: bool) -> (String, V) {
    match s.weighted(&[6, 4, 5, 3, 2, 3, 6, if depth > 0 { 4 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
        0 => {
            let n = gen_uint(s);
            (digits(s, &n.to_string()), V::UInt(n))
        }
        1 => {
            let n = gen_int(s);
            let n = if n > 0 { -n } else { n };
            (format!("-{}", digits(s, &n.unsigned_abs().to_string())), V::Int(n))
        }
        2 => {
            let (t, f) = float_text(s);
            (t, V::Float(f))
        }
        3 => {
            let b = s.chance(1, 2);
            (b.to_string(), V::Bool(b))
        }
        4 => ("null".into(), V::Null),
        5 => {
            let d = gen_date(s);
            let (y, m, dd) = match d {
                V::Date(y, m, d) => (y, m, d),
                _ => unreachable!(),
            };
            let y = if s.chance(1, 10) { if m == 2 && dd == 29 { y } else { -y } } else { y };
            let ds = if s.chance(1, 3) { format!("{:02}", dd) } else { dd.to_string() };
            let ms = match s.draw(3) {
                0 => m.to_string(),
                1 => format!("{:02}", m),
                _ => ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"][m as usize - 1].to_string(),
            };
            let ys = if s.chance(1, 5) && y >= 0 { format!("0{}", y) } else { y.to_string() };
            (format!("{}/{}/{}", ds, ms, ys), V::Date(y, m, dd))
        }
        6 => {
            let t = gen_string(s, 8);
            let mut p = Printer::new(s, true);
            (p.qstr(&t), V::Str(t))
        }
        7 => {
            let n = s.count_to(0, 4, 150);
            let mut r = String::from("[");
            r.push_str(ws0(s));
            let mut v = vec![];
            for i in 0..n {
                let (t, x) = spelled(s, depth - 1, data);
                r.push_str(&t);
                v.push(x);
                if i + 1 < n {
                    if s.chance(2, 3) {
                        r.push_str(ws0(s));
                        r.push(',');
                        r.push_str(ws0(s));
                    } else {
                        r.push_str(s.pick::<&str>(&[" ", "\n", "\t  "]));
                    }
                }
            }
            r.push_str(ws0(s));
            r.push(']');
            (r, V::List(v))
        }
        _ => {
            let n = s.count_to(0, 3, 100);
            let mut r = String::from("{");
            r.push_str(ws0(s));
            let mut m = std::collections::BTreeMap::new();
            for i in 0..n {
                let mut k = gen_string(s, 4);
                if !data && s.chance(1, 2) {
                    k = gen_word(s);
                }
                while m.contains_key(&k) {
                    k.push('x');
                }
                let kt = {
                    let q = data || !is_ident(&k) || KEYWORDS.contains(&k.as_str()) || s.chance(1, 3);
                    let mut p = Printer::new(s, true);
                    if q { p.qstr(&k) } else { k.clone() }
                };
                r.push_str(&kt);
                r.push_str(ws0(s));
                r.push(':');
                r.push_str(ws0(s));
                let (t, x) = spelled(s, depth - 1, data);
                r.push_str(&t);
                m.insert(k, x);
                r.push_str(ws0(s));
                if i + 1 < n {
                    r.push(',');
                    r.push_str(ws0(s));
                }
            }
            r.push('}');
            (r, V::Map(m))
        }
    }
}
fn ws0(s: &mut Source) -> &'static str {
    *s.pick(&["", "", " ", "\n", "\t", "\r\n"])
}
/// a number or date that does not exist
fn impossible(s: &mut Source) -> String {
    match s.draw(7) {
        0 => {
            // above u64::MAX
            let n = u64::MAX as u128 + 1 + if s.chance(1, 2) { s.draw(5) as u128 } else { s.u64() as u128 * s.u64() as u128 };
            digits(s, &n.to_string())
        }
        1 => {
            let n = i64::MAX as u128 + 2 + if s.chance(1, 2) { s.draw(5) as u128 } else { s.u64() as u128 * 3 };
            format!("-{}", digits(s, &n.to_string()))
        }
        2 => {
            let (d, m) = *s.pick(&[(31, 4), (31, 6), (31, 9), (31, 11), (30, 2), (31, 2), (0, 1), (32, 1), (32, 12)]);
            let ms = if s.chance(1, 2) { m.to_string() } else { ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"][m - 1].to_string() };
            format!("{}/{}/{}", d, ms, s.range(1, 3000))
        }
        3 => format!("29/2/{}", s.pick(&[1900, 2001, 2023, 2100, 1, 1999])),
        4 => format!("{}/{}/2000", s.range(1, 28), s.pick(&["0", "13", "14", "99", "4294967297", "18446744073709551615"])),
        5 => format!("{}/{}/2000", s.pick(&["4294967297", "4294967306", "18446744073709551615", "100"]), s.range(1, 12)),
        _ => format!("1/1/{}", s.pick(&["4294969296", "-4294965296", "99999999999", "9223372036854775807", "262144", "8589936592"])),
    }
}
fn one_export(text: &str, params: &[&dyn TParam]) -> Result<V, String> {
    let t = parse(text)?;
    let (_, ex) = run_exp(&t, params, &mut BasicTemps::new(), fm())?;
    ex.get("r").map(V::from_td).ok_or_else(|| "no export".to_string())
}
fn c04(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(1, 6) {
        let t = impossible(s);
        let w = match s.draw(7) {
            0 => format!("{{{{ {}}}}}", t),
            1 => format!("{{{{export r = {}}}}}", t),
            2 => format!("{{{{let r = [1, {}, 2]}}}}", t),
            3 => format!("{{{{let r = {{a: {}}}}}}}", t),
            4 => format!("{{{{if {}}}}}x{{{{/if}}}}", t),
            5 => format!("[{}]", t),
            _ => format!("{{\"a\": {}}}", t),
        };
        ctx.note(format!("must be refused: {}", w));
        ctx.class("out-of-range");
        ctx.nontrivial = true;
        if w.starts_with("{{") {
            let r = parse(&w).and_then(|t| run_exp(&t, &[], &mut BasicTemps::new(), fm()));
            if let Ok((o, ex)) = r {
                crate::bail!("C04:out-of-range", "accepted, renders {:?}, exports {:?}", o, ex);
            }
        } else {
            let r = parse_data(&w).map(|d| V::from_td(&d));
            crate::ensure!(r.is_err(), "C04:out-of-range", "TData::from_str gives {}", res_canon(&r));
            let r = direct(fm(), "r_json", &[TData::String(w.clone())]).map(|d| V::from_td(&d));
            crate::ensure!(r.is_err(), "C04:out-of-range", "r_json gives {}", res_canon(&r));
        }
        return Ok(());
    }
    let data = s.chance(2, 5);
    let d = s.size(0, 3);
    let (t, v) = spelled(s, d, data);
    ctx.note(format!("{} = {}", t, v.canon()));
    ctx.class(v.kind());
    ctx.nontrivial = t.len() > 1;
    let (how, got) = if data {
        match s.draw(3) {
            0 => ("TData::from_str", parse_data(&t).map(|d| V::from_td(&d))),
            1 => ("r_json", direct(fm(), "r_json", &[TData::String(t.clone())]).map(|d| V::from_td(&d))),
            _ => ("r_json in a template", one_export("{{export r = r_json $0}}", &[&t as &dyn TParam])),
        }
    } else {
        let sp = s.pick::<&str>(&["", " ", "\n"]).to_string();
        match s.draw(6) {
            0 => ("export", one_export(&format!("{{{{export r = {}{}}}}}", t, sp), &[])),
            1 => ("let", one_export(&format!("{{{{let q = {}{};export r={}$q}}}}", t, sp, sp).replace(";export", "}}{{export"), &[])),
            2 => ("list", one_export(&format!("{{{{let l = [9{} {},{}7]}}}}{{{{export r=$l.1}}}}", sp, t, sp), &[])),
            3 => ("map", one_export(&format!("{{{{let l = {{a:{}{},b:1}}}}}}{{{{export r=$l.a}}}}", sp, t), &[])),
            4 => ("argument", one_export(&format!("{{{{export r= select 1 7 ({}{}{}) 8}}}}", sp, t, sp), &[])),
            _ => {
                let at = s.chance(1, 2);
                ("argument", one_export(&format!("{{{{export r= select {} {} {}{}}}}}", if at { 0 } else { 1 }, if at { &t } else { "\"x\"" }, if at { "0" } else { &t }, sp), &[]))
            }
        }
    };
    match &got {
        Ok(g) => crate::ensure!(g.same(&v), format!("C04:{}", v.kind()), "{} reads {} as {}, expected {}", how, t, g.canon(), v.canon()),
        Err(e) => crate::bail!(format!("C04:{}-refused", v.kind()), "{} refuses {}: {}", how, t, e),
    }
    // as a pattern it matches just that value
    if !data && !matches!(v, V::List(_) | V::Map(_)) && s.chance(1, 3) {
        ctx.class("pattern");
        let p = perturb(s, &v);
        for x in [&v, &p] {
            let td = x.td();
            let o = parse(&format!("{{{{as $0: {}}}}}Y{{{{/as}}}}", t)).and_then(|t| run(&t, &[&td as &dyn TParam], &mut BasicTemps::new(), fm()));
            let want = if veq(x, &v) { "Y" } else { "" };
            crate::ensure!(o.as_deref() == Ok(want), "C04:pattern", "pattern {} on {}: expected {:?} got {:?}", t, x.canon(), want, o);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "texts printed from lists of whitespace runs, plain stretches, braces, escapes and tags of all kinds (nested blocks, comments), each tag with or without trim marks; non-trivial: more than one piece",
            quick: 400_000,
            factor: 25,
            fuel: 20_000_000,
            run: c03,
            pins: vec![],
            assumptions: vec![],
        },
        Prop {
            id: "C04",
            rule: "literals of every type in every spelling, nested to depth 3, read in templates, by TData::from_str and by r_json; 1 in 6 is a number or date out of range; non-trivial: longer than one character",
            quick: 800_000,
            factor: 25,
            fuel: 20_000_000,
            run: c04,
            pins: vec![],
            assumptions: vec!["floats beyond the finite range (1e999) are not generated"],
        },
    ]
}
