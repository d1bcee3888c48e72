//! C22 JSON, C23 base64 and cards, C28 tables, C33 markdown
use super::total::{gen_json_text, json_string};
use super::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ C22
/// A reader of JSON after RFC 8259, integers kept exact.
struct Json<'a> {
    t: &'a [u8],
    i: usize,
}
impl<'a> Json<'a> {
    fn read(t: &'a str) -> Result<V, String> {
        let mut j = Json { t: t.as_bytes(), i: 0 };
        let v = j.value()?;
        j.ws();
        if j.i != t.len() {
            return Err(format!("more text at {}", j.i));
        }
        Ok(v)
    }
    fn ws(&mut self) {
        while self.i < self.t.len() && b" \t\r\n".contains(&self.t[self.i]) {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.t.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, w: &str) -> bool {
        if self.t[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn value(&mut self) -> Result<V, String> {
        self.ws();
        match self.peek() {
            b'n' if self.eat("null") => Ok(V::Null),
            b't' if self.eat("true") => Ok(V::Bool(true)),
            b'f' if self.eat("false") => Ok(V::Bool(false)),
            b'"' => Ok(V::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut l = vec![];
                self.ws();
                if self.eat("]") {
                    return Ok(V::List(l));
                }
                loop {
                    l.push(self.value()?);
                    self.ws();
                    if self.eat("]") {
                        return Ok(V::List(l));
                    }
                    if !self.eat(",") {
                        return Err(format!("no , or ] at {}", self.i));
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if self.eat("}") {
                    return Ok(V::Map(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(":") {
                        return Err(format!("no : at {}", self.i));
                    }
                    let v = self.value()?;
                    if m.insert(k, v).is_some() {
                        return Err("a key twice".into());
                    }
                    self.ws();
                    if self.eat("}") {
                        return Ok(V::Map(m));
                    }
                    if !self.eat(",") {
                        return Err(format!("no , or }} at {}", self.i));
                    }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => Err(format!("no value at {}", self.i)),
        }
    }
    fn number(&mut self) -> Result<V, String> {
        let st = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        let d = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if self.i == d || (self.t[d] == b'0' && self.i > d + 1) {
            return Err(format!("bad number at {}", st));
        }
        let mut float = false;
        if self.peek() == b'.' {
            float = true;
            self.i += 1;
            let f = self.i;
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
            if self.i == f {
                return Err(format!("bad fraction at {}", st));
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            float = true;
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            let f = self.i;
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
            if self.i == f {
                return Err(format!("bad exponent at {}", st));
            }
        }
        let t = std::str::from_utf8(&self.t[st..self.i]).unwrap();
        if !float {
            if let Ok(n) = t.parse::<usize>() {
                return Ok(V::UInt(n));
            }
            if let Ok(n) = t.parse::<isize>() {
                return Ok(V::Int(n));
            }
        }
        t.parse().map(V::Float).map_err(|_| "number".into())
    }
    fn string(&mut self) -> Result<String, String> {
        if !self.eat("\"") {
            return Err(format!("no string at {}", self.i));
        }
        let mut r: Vec<u8> = vec![];
        loop {
            let c = self.peek();
            if self.i >= self.t.len() {
                return Err("no end of string".into());
            }
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(r).map_err(|_| "utf8".into()),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    let ch = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex()?;
                            if (0xd800..0xdc00).contains(&a) {
                                if !self.eat("\\u") {
                                    return Err("half a pair".into());
                                }
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return Err("half a pair".into());
                                }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).ok_or("pair")?
                            } else {
                                char::from_u32(a).ok_or("code point")?
                            }
                        }
                        _ => return Err(format!("escape {:?}", e as char)),
                    };
                    let mut b = [0; 4];
                    r.extend(ch.encode_utf8(&mut b).bytes());
                }
                c if c < 0x20 => return Err("raw control character".into()),
                c => r.push(c),
            }
        }
    }
    fn hex(&mut self) -> Result<u32, String> {
        let h = self.t.get(self.i..self.i + 4).ok_or("4 hex digits")?;
        self.i += 4;
        if !h.iter().all(|b| b.is_ascii_hexdigit()) {
            return Err("4 hex digits".into());
        }
        u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).map_err(|_| "hex".into())
    }
}
/// what JSON makes of a value
fn as_json(v: &V) -> V {
    match v {
        V::Date(..) => V::s(v.display()),
        V::Bytes(b) => V::List(b.iter().map(|x| V::UInt(*x as usize)).collect()),
        V::List(l) => V::List(l.iter().map(as_json).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), as_json(v))).collect()),
        V::Int(n) if *n >= 0 => V::UInt(*n as usize),
        V::Tmpl(_) => V::Null,
        v => v.clone(),
    }
}
/// numbers by value, an integer and a float apart
fn json_same(a: &V, b: &V) -> bool {
    as_json(a).same(&as_json(b))
}
fn doc(s: &mut Source) -> V {
    let mut v = gen_v(s, VOpt { special: false, depth: 3, ..ALL });
    if s.chance(1, 4) {
        // many in a row
        let n = s.count(2, 30);
        v = V::List((0..n).map(|_| gen_v(s, VOpt { special: false, depth: 1, ..ALL })).collect());
    }
    v
}
/// JSON text with numbers in any spelling; the value follows from reading it
fn spelled(s: &mut Source, depth: usize) -> String {
    let ws = |s: &mut Source| *s.pick(&["", "", "", " ", "\n", "\t", "\r\n  "]);
    let mut r = String::from(ws(s));
    match s.weighted(&[4, 3, 2, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
        0 => {
            if s.chance(1, 3) {
                r.push('-');
            }
            match s.draw(4) {
                0 => r.push_str(&gen_uint(s).to_string()),
                _ => r.push_str(&s.draw(1000).to_string()),
            }
            if r.trim().len() > 19 {
                r.truncate(18);
            }
            if s.chance(1, 3) {
                r.push('.');
                for _ in 0..s.count_to(1, 6, 40) {
                    r.push((b'0' + s.draw(10) as u8) as char);
                }
            }
            if s.chance(1, 4) {
                r.push(*s.pick(&['e', 'E']));
                r.push_str(*s.pick(&["", "+", "-"]));
                r.push_str(&s.draw(40).to_string());
            }
        }
        1 => {
            let t = gen_string(s, 6);
            r.push_str(&json_string(s, &t));
        }
        2 => r.push_str(*s.pick(&["null", "true", "false", "[]", "{}"])),
        3 => {
            r.push('[');
            let n = s.count(0, 4);
            for i in 0..n {
                if i > 0 {
                    r.push(',');
                }
                r.push_str(&spelled(s, depth - 1));
            }
            r.push_str(ws(s));
            r.push(']');
        }
        _ => {
            r.push('{');
            let n = s.count(0, 4);
            for i in 0..n {
                if i > 0 {
                    r.push(',');
                }
                r.push_str(ws(s));
                let k = if i < 10 { format!("{}{}", gen_string(s, 3).trim_end_matches(|c: char| c.is_ascii_digit()), i) } else { format!("{}_{}", gen_string(s, 3), i) };
                r.push_str(&json_string(s, &k));
                r.push_str(ws(s));
                r.push(':');
                r.push_str(&spelled(s, depth - 1));
            }
            r.push_str(ws(s));
            r.push('}');
        }
    }
    r.push_str(ws(s));
    r
}
fn c22(s: &mut Source, ctx: &mut Ctx) -> R {
    match s.draw(8) {
        0..=2 => {
            let a: Vec<V> = match s.draw(5) {
                0 => (0..s.count_to(0, 4, 40)).map(|_| doc(s)).collect(),
                _ => vec![doc(s)],
            };
            ctx.note(format!("w_json {}", show_args(&a)));
            ctx.class("write");
            ctx.op("w_json");
            ctx.nontrivial = !a.is_empty();
            let want = if a.len() == 1 { a[0].clone() } else { V::List(a.clone()) };
            let text = match invoke(s, "w_json", &a) {
                Ok(V::Str(t)) => t,
                r => crate::bail!("C22:write", "w_json {} gives {}", show_args(&a), res_canon(&r)),
            };
            match Json::read(&text) {
                Ok(v) => crate::ensure!(json_same(&v, &want), "C22:write", "w_json {}\nwrites {}\nwhich is {}", show_args(&a), text, v.canon()),
                Err(e) => crate::bail!("C22:write", "w_json {}\nwrites {}\nno JSON: {}", show_args(&a), text, e),
            }
            ctx.op("r_json");
            let back = invoke(s, "r_json", &[V::s(text.clone())]);
            match &back {
                Ok(v) => crate::ensure!(json_same(v, &want), "C22:round-trip", "w_json {}\nwrites {}\nr_json reads {}", show_args(&a), text, v.canon()),
                Err(e) => crate::bail!("C22:round-trip", "w_json {}\nwrites {}\nr_json: {}", show_args(&a), text, e),
            }
            Ok(())
        }
        3..=6 => {
            let text = if s.chance(1, 3) {
                let v = gen_v(s, JSONY);
                match v.json() {
                    Some(j) => gen_json_text(s, &j),
                    None => return Ok(()),
                }
            } else {
                spelled(s, 3)
            };
            let want = match Json::read(&text) {
                Ok(v) => v,
                Err(e) => crate::bail!("C22:harness", "own reader refuses {:?}: {}", text, e),
            };
            let inf = |v: &V| format!("{}", v.canon()).contains("finf") || v.canon().contains("f-inf");
            if inf(&want) {
                return Ok(());
            }
            ctx.note(format!("r_json {:?}", text));
            ctx.class("read");
            ctx.op("r_json");
            ctx.nontrivial = text.len() > 4;
            let got = invoke(s, "r_json", &[V::s(text.clone())]);
            // -0 is an integer in one reader, a float in the other
            let ok = match &got {
                Ok(v) => json_same(v, &want) || veq_deep(v, &want),
                Err(_) => false,
            };
            crate::ensure!(ok, "C22:read", "r_json {:?}\nexpected {}\n     got {}", text, want.canon(), res_canon(&got));
            Ok(())
        }
        _ => {
            let v = gen_v(s, ALL);
            if matches!(v, V::Str(_)) {
                return Ok(());
            }
            ctx.class("no-string");
            expect(ctx, s, "C22:no-string", "r_json", &[v], None)
        }
    }
}
/// same, where -0, -0.0 and 0 are told apart by no reader in common
fn veq_deep(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::List(x), V::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq_deep(p, q)),
        (V::Map(x), V::Map(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| veq_deep(p, q))),
        (V::UInt(0) | V::Int(0), V::Float(f)) | (V::Float(f), V::UInt(0) | V::Int(0)) => *f == 0.0,
        _ => json_same(a, b),
    }
}

// ------------------------------------------------------------------ C23
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(b: &[u8]) -> String {
    let mut r = String::new();
    let mut bits = 0u32;
    let mut n = 0;
    for x in b {
        bits = bits << 8 | *x as u32;
        n += 8;
        while n >= 6 {
            n -= 6;
            r.push(B64[(bits >> n & 63) as usize] as char);
        }
    }
    if n > 0 {
        r.push(B64[(bits << (6 - n) & 63) as usize] as char);
    }
    while r.len() % 4 != 0 {
        r.push('=');
    }
    r
}
fn bytes(s: &mut Source) -> Vec<u8> {
    let n = match s.draw(4) {
        0 => s.size(0, 4),
        1 => s.count_to(0, 60, 20_000),
        _ => s.size(0, 12),
    };
    let mode = s.draw(3);
    (0..n)
        .map(|_| match mode {
            0 => s.draw(256) as u8,
            1 => *s.pick(&[0, 255, 0xfb, 0xf0, 62, 63]),
            _ => b'a' + s.draw(26) as u8,
        })
        .collect()
}
fn c23(s: &mut Source, ctx: &mut Ctx) -> R {
    match s.draw(7) {
        0..=2 => {
            ctx.class("base64");
            let (v, b) = if s.chance(1, 2) {
                let t = gen_string(s, 12);
                (V::s(t.clone()), t.into_bytes())
            } else {
                let b = bytes(s);
                (V::Bytes(b.clone()), b)
            };
            ctx.nontrivial = !b.is_empty();
            let t = b64(&b);
            expect(ctx, s, "C23:as_base64", "as_base64", &[v], Some(V::s(t.clone())))?;
            let tv = if s.chance(1, 4) { V::Bytes(t.into_bytes()) } else { V::s(t) };
            expect(ctx, s, "C23:from_base64", "from_base64", &[tv], Some(V::Bytes(b)))
        }
        3 => {
            ctx.class("not-base64");
            ctx.nontrivial = true;
            let t = b64(&bytes(s));
            let mut c: Vec<char> = t.chars().collect();
            let bad = match s.draw(6) {
                4 => {
                    // the letters of the other base64 alphabets
                    let u: String = t.chars().map(|c| match c { '+' => '-', '/' => '_', c => c }).collect();
                    if u == t {
                        V::s(format!("{}{}", t.replace('=', "A"), *s.pick(&["-_-_", "a-bc", "ab_d", "____", "a.b,", "-A=="])))
                    } else {
                        V::s(u)
                    }
                }
                5 if !c.is_empty() => {
                    // one character that does not belong there, in place of another
                    let i = s.draw(c.len() as u64) as usize;
                    c[i] = *s.pick(&['!', ' ', '\n', '-', '_', '.', '@', '\0', '~', ',', '\r', '\t', '\u{7f}']);
                    V::s(c.into_iter().collect::<String>())
                }
                0 => {
                    let i = s.draw(c.len() as u64 + 1) as usize;
                    c.insert(i, *s.pick(&['!', ' ', '\n', '-', '_', '.', 'é', '@', '\0', '~']));
                    V::s(c.into_iter().collect::<String>())
                }
                1 => {
                    // one character over
                    let core: String = t.trim_end_matches('=').to_string();
                    let mut core: Vec<char> = core.chars().collect();
                    core.truncate(core.len() / 4 * 4);
                    core.push('A');
                    V::s(core.into_iter().collect::<String>())
                }
                2 => {
                    // padding in front or in the middle of more
                    V::s(format!("{}{}", *s.pick(&["=", "==", "QQ==QQ==", "Q=Q="]), t))
                }
                _ => s.pick(&[V::UInt(5), V::Null, V::List(vec![]), V::Float(1.0)]).clone(),
            };
            if let V::Str(t) = &bad {
                if t.starts_with('=') && t.trim_matches('=').is_empty() && t.len() % 4 == 0 {
                    return Ok(());
                }
            } else {
                expect(ctx, s, "C23:as_base64", "as_base64", &[bad.clone()], None)?;
            }
            expect(ctx, s, "C23:from_base64", "from_base64", &[bad], None)
        }
        _ => c23_cards(s, ctx),
    }
}
fn card_word(s: &mut Source) -> String {
    if s.chance(1, 6) {
        (*s.pick(&["a1", "é", "Über", "def", "a'b", "x/y", "a&b", "a=b", "a\"b", "a$b", "a#b"])).to_string()
    } else {
        gen_word(s)
    }
}
fn card_string(s: &mut Source, t: &str) -> String {
    let plain = t.chars().next().map_or(false, |c| c.is_alphabetic()) && !t.chars().any(|c| ",.*:;-[]{}()@ \n\t\r\"$#".contains(c));
    if plain && s.chance(1, 2) {
        t.to_string()
    } else {
        format!("\"{}\"", t)
    }
}
fn card_text(s: &mut Source) -> String {
    if s.chance(1, 2) {
        card_word(s).replace('"', "'")
    } else {
        gen_string(s, 5).replace('"', "'")
    }
}
/// a value and its text
fn card_value(s: &mut Source, depth: usize) -> (V, String) {
    match s.weighted(&[4, 3, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => {
            let t = card_text(s);
            let x = card_string(s, &t);
            (V::s(t), x)
        }
        1 => {
            let n = if s.chance(3, 4) { s.range(-300, 300) as isize } else { (gen_uint(s) >> 1) as isize };
            (V::Int(n), n.to_string())
        }
        2 => {
            let mut l = vec![];
            let mut t = String::from("[");
            for i in 0..s.count_to(0, 4, 80) {
                let (v, x) = card_value(s, depth - 1);
                if i > 0 {
                    t.push_str(*s.pick(&[",", ", ", " ", "\n", ",\n  "]));
                }
                t.push_str(&x);
                l.push(v);
            }
            t.push(']');
            (V::List(l), t)
        }
        _ => {
            let mut m = BTreeMap::new();
            let mut t = String::from("{");
            for i in 0..s.count_to(0, 3, 80) {
                let k = format!("{}{}", gen_word(s).trim_end_matches(|c: char| c.is_ascii_digit()), i);
                let (v, x) = card_value(s, depth - 1);
                if i > 0 {
                    t.push_str(*s.pick(&[",", ", ", "\n", " "]));
                }
                t.push_str(&format!("{}{}{}", k, *s.pick(&[":", ": "]), x));
                m.insert(k, v);
            }
            t.push('}');
            (V::Map(m), t)
        }
    }
}
fn c23_cards(s: &mut Source, ctx: &mut Ctx) -> R {
    let mut text = String::new();
    let mut want = vec![];
    let n = s.count_to(0, 5, 80);
    let params: Vec<String> = (0..s.count_to(0, 3, 20)).map(|i| format!("p{}", i)).collect();
    if !params.is_empty() {
        text.push_str(&format!("@param {}\n", params.join(" ")));
    }
    let mut defaults: BTreeMap<String, V> = BTreeMap::new();
    if s.chance(1, 4) {
        text.push_str("@def :\n");
        for i in 0..s.count_to(1, 2, 30) {
            let (v, x) = card_value(s, 1);
            text.push_str(&format!("  .d{}: {}\n", i, x));
            defaults.insert(format!("d{}", i), v);
        }
    }
    for _ in 0..n {
        let name = card_text(s);
        let num = if s.chance(1, 2) { Some(s.draw(50) as usize) } else { None };
        if s.chance(1, 5) {
            text.push_str("# a comment: [1\n");
        }
        if let Some(k) = num {
            text.push_str(&format!("{}{}", k, *s.pick(&["*", " * "])));
        }
        text.push_str(&card_string(s, &name));
        let mut m = BTreeMap::new();
        for p in params.iter().take(s.size(0, params.len())) {
            let (v, x) = card_value(s, 1);
            text.push(' ');
            text.push_str(&x);
            m.insert(p.clone(), v);
        }
        text.push_str(*s.pick(&[":\n", "\n", " :\n\n", "  \n"]));
        for i in 0..s.count_to(0, 4, 60) {
            let k = if s.chance(1, 8) { format!("d{}", s.draw(2)) } else { format!("{}{}", gen_word(s), i) };
            if m.contains_key(&k) {
                continue;
            }
            let (v, x) = card_value(s, 2);
            text.push_str(&format!("{}.{}{}{}\n", *s.pick(&["", "  ", "\t"]), k, *s.pick(&[":", ": ", " : "]), x));
            m.insert(k, v);
        }
        for (k, v) in &defaults {
            m.entry(k.clone()).or_insert_with(|| v.clone());
        }
        m.insert("Name".into(), V::s(name));
        m.insert("Num".into(), V::UInt(num.unwrap_or(1)));
        want.push(V::Map(m));
    }
    ctx.class("cards");
    ctx.class_if(n > 1, "several-cards");
    ctx.nontrivial = n > 0;
    expect(ctx, s, "C23:r_card", "r_card", &[V::s(text)], Some(V::List(want)))
}

// ------------------------------------------------------------------ C28
fn cell(s: &mut Source) -> String {
    let t = match s.draw(6) {
        0 => String::new(),
        1 => (*s.pick(&["*", "-", " * x", "-1", "a  b", "é", "1.5", "&amp;", "a\tb"])).to_string(),
        2 => gen_string(s, 5),
        _ => gen_word(s),
    };
    t.replace(['|', '\n', '<', '>'], "x")
}
fn squeeze(t: &str) -> String {
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// the rows of an html table: (cell tag, text)
fn html_rows(t: &str) -> Option<(String, Vec<Vec<(String, String)>>)> {
    let rest = t.trim().strip_prefix("<table")?;
    let (at, mut rest) = rest.split_once('>')?;
    let mut rows = vec![];
    loop {
        rest = rest.trim_start();
        if let Some(r) = rest.strip_prefix("</table>") {
            return if r.is_empty() { Some((at.trim().to_string(), rows)) } else { None };
        }
        rest = rest.strip_prefix("<tr>")?;
        let mut row = vec![];
        loop {
            rest = rest.trim_start();
            if let Some(r) = rest.strip_prefix("</tr>") {
                rest = r;
                break;
            }
            let tag = if rest.starts_with("<td>") { "td" } else if rest.starts_with("<th>") { "th" } else { return None };
            let (c, r) = rest[4..].split_once(&format!("</{}>", tag))?;
            if c.contains('<') {
                return None;
            }
            row.push((tag.to_string(), c.to_string()));
            rest = r;
        }
        rows.push(row);
    }
}
fn c28(s: &mut Source, ctx: &mut Ctx) -> R {
    struct Row {
        head: bool,
        continued: bool,
        cells: Vec<String>,
    }
    // a line of fewer than two cells gives no row, and ends the one before
    fn short(s: &mut Source) -> String {
        match s.draw(6) {
            0 => String::new(),
            1 => (*s.pick(&[" ", "\t", "|", "||", "| |", "x", "x|y"])).to_string(),
            2 => format!("|{}|", gen_word(s)),
            3 => format!("{}|", gen_word(s)),
            4 => format!("*| {} |", gen_word(s)),
            _ => gen_string(s, 6).replace(['|', '\n', '\r'], "x").replace(['*', '-'], "+"),
        }
    }
    let n = s.count_to(0, 7, 150);
    let mut rows: Vec<Row> = (0..n)
        .map(|_| Row { head: s.chance(1, 4), continued: s.chance(1, 3), cells: (0..s.count_to(2, 5, 80)).map(|_| cell(s)).collect() })
        .collect();
    let mut text = String::new();
    let gaps = s.chance(1, 3);
    let mut any_short = false;
    for (i, r) in rows.iter_mut().enumerate() {
        if gaps && s.chance(1, 3) {
            for _ in 0..s.count_to(1, 2, 40) {
                text.push_str(&short(s));
                text.push('\n');
            }
            r.continued = false;
            any_short = true;
        } else if gaps && s.chance(1, 4) {
            // marked as continuing, with too few cells to do so: the row goes on after it
            text.push_str(&match s.draw(3) {
                0 => "-\n".to_string(),
                1 => format!("-| {} |\n", gen_word(s)),
                _ => format!("-{}\n", gen_word(s)),
            });
            any_short = true;
        }
        if r.head {
            text.push('*');
        }
        if r.continued {
            text.push('-');
        }
        for c in &r.cells {
            text.push('|');
            let pad = |s: &mut Source| *s.pick(&["", "", " ", "  ", "\t"]);
            text.push_str(pad(s));
            text.push_str(c);
            text.push_str(pad(s));
        }
        text.push('|');
        if i + 1 < n || s.chance(1, 2) {
            text.push_str(*s.pick(&["\n", "\n", "  \n", "\r\n", "\n"]));
            if i + 1 == n && gaps && s.chance(1, 2) {
                text.push_str(&short(s));
                if s.chance(1, 2) {
                    text.push('\n');
                }
                any_short = true;
            }
        }
    }
    // what it should be
    let mut want: Vec<(bool, Vec<Vec<String>>)> = vec![];
    for (i, r) in rows.iter().enumerate() {
        let cells: Vec<String> = r.cells.iter().map(|c| c.trim().to_string()).collect();
        if r.continued && i > 0 {
            let last = want.last_mut().unwrap();
            for (k, c) in cells.into_iter().enumerate() {
                if k < last.1.len() {
                    last.1[k].push(c);
                } else {
                    last.1.push(vec![c]);
                }
            }
            last.0 |= r.head;
        } else {
            want.push((r.head, cells.into_iter().map(|c| vec![c]).collect()));
        }
    }
    let mut a = vec![V::s(text.clone())];
    let at = match s.draw(4) {
        0 => {
            let t = *s.pick(&["class=\"x y\"", "id='t'", "border=1", ""]);
            a.push(V::s(t));
            t.to_string()
        }
        1 => {
            a.push(V::UInt(4));
            "4".into()
        }
        _ => String::new(),
    };
    ctx.note(format!("table {}", show_args(&a)));
    ctx.op("table");
    ctx.nontrivial = n > 0;
    ctx.class(if rows.iter().skip(1).any(|r| r.continued) { "continued" } else { "plain" });
    ctx.class_if(rows.iter().any(|r| r.head), "header");
    ctx.class_if(any_short, "short-lines");
    let got = if s.chance(1, 4) {
        let t = format!("{{{{@table{}}}}}{{{{$0}}}}{{{{/table}}}}", if a.len() > 1 { " @ $1" } else { "" });
        ctx.class("block");
        let t = parse(&t).map_err(|e| Fail { sig: "C28:parse".into(), msg: e })?;
        let td: Vec<TData> = a.iter().map(|v| v.td()).collect();
        let ps: Vec<&dyn TParam> = td.iter().map(|t| t as &dyn TParam).collect();
        run(&t, &ps, &mut BasicTemps::new(), fm())
    } else {
        invoke(s, "table", &a).map(|v| v.display())
    };
    let got = match got {
        Ok(t) => t,
        Err(e) => crate::bail!("C28:error", "table {}: {}", show_args(&a), e),
    };
    let (gat, grows) = match html_rows(&got) {
        Some(x) => x,
        None => crate::bail!("C28:html", "table {}\nis no table of rows and cells: {:?}", show_args(&a), got),
    };
    let show = format!("table {}\ngives {}", show_args(&a), got);
    crate::ensure!(gat == at.trim(), "C28:attributes", "{}\nattributes {:?}, expected {:?}", show, gat, at);
    crate::ensure!(grows.len() == want.len(), "C28:rows", "{}\n{} rows, expected {}", show, grows.len(), want.len());
    for (g, (head, w)) in grows.iter().zip(&want) {
        crate::ensure!(g.len() == w.len(), "C28:cells", "{}\na row of {} cells, expected {:?}", show, g.len(), w);
        for ((tag, text), w) in g.iter().zip(w) {
            crate::ensure!((tag == "th") == *head, "C28:header", "{}\n<{}> in a row that is {}a header", show, tag, if *head { "" } else { "not " });
            if w.len() == 1 {
                crate::ensure!(text == &w[0] || text.trim() == w[0] && g.len() > 0 && rows.iter().any(|r| r.continued), "C28:text", "{}\ncell {:?}, expected {:?}", show, text, w[0]);
            } else {
                crate::ensure!(squeeze(text) == squeeze(&w.join(" ")), "C28:text", "{}\ncell {:?}, expected the texts {:?}", show, text, w);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C33
enum Inl {
    Text(String),
    /// written as, meaning
    Esc(String, String),
    Em(Vec<Inl>),
    Strong(Vec<Inl>),
    Code(String),
    Link(Vec<Inl>, String, Option<String>),
    Image(String, String),
    Strike(Vec<Inl>),
    /// written as, meaning as marked html
    Raw(String, String),
    Hard,
    Soft,
}
enum Block {
    Para(Vec<Inl>),
    Head(usize, Vec<Inl>, bool),
    Fence(String, Vec<String>),
    Indented(Vec<String>),
    Bullets(Vec<(Vec<Inl>, Vec<Vec<Inl>>)>),
    Numbers(usize, Vec<Vec<Inl>>),
    Tasks(Vec<(bool, Vec<Inl>)>),
    /// alignment and head of each column, rows
    Table(Vec<(u8, Vec<Inl>)>, Vec<Vec<Vec<Inl>>>),
    /// written as, meaning as marked html
    Html(Vec<String>, String),
    Quote(Vec<Block>),
    Rule,
}
fn md_word(s: &mut Source) -> String {
    match s.draw(8) {
        0 => (*s.pick(&["é", "名前", "🐟", "x1", "a,", "end.", "what?", "(so)", "it's", "say:", "1st", "50%", "a;b", "half/half", "e=mc2"])).to_string(),
        _ => gen_word(s),
    }
}
fn md_text(s: &mut Source, first: bool) -> String {
    let n = s.count_to(1, 4, 120);
    let mut r = if first { gen_word(s) } else { md_word(s) };
    for _ in 1..n {
        r.push(' ');
        r.push_str(&md_word(s));
    }
    r
}
/// inlines with plain text at the end, so that no two runs of markers touch
fn ended(s: &mut Source, depth: usize) -> Vec<Inl> {
    let mut v = inlines(s, depth, false);
    v.push(Inl::Text(gen_word(s)));
    v
}
fn inlines(s: &mut Source, depth: usize, breaks: bool) -> Vec<Inl> {
    let n = s.count_to(1, 4, 60);
    let mut v = vec![Inl::Text(md_text(s, true))];
    for i in 1..n {
        let x = match s.weighted(&[5, 3, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }, 2, if depth > 1 { 2 } else { 0 }, 1, if breaks { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }, 1]) {
            0 => Inl::Text(md_text(s, false)),
            1 => {
                let (a, b) = *s.pick(&[("\\*", "*"), ("\\_", "_"), ("a < b", "a < b"), ("AT&T", "AT&T"), ("&amp;", "&"), ("\"q\"", "\"q\""), ("a > b", "a > b"), ("\\`", "`"), ("\\[x\\]", "[x]"), ("\\<b\\>", "<b>"), ("2 * 3", "2 * 3"), ("snake_case_word", "snake_case_word"), ("\\\\", "\\"), ("&lt;", "<"), ("&#35;", "#"), ("& so", "& so")]);
                Inl::Esc(a.to_string(), b.to_string())
            }
            2 => Inl::Em(ended(s, depth - 1)),
            3 => Inl::Strong(ended(s, depth - 1)),
            4 => Inl::Code((*s.pick(&["x", "a < b", "a && b", "*x*", "\"q\"", "fn main()", "a  b", "&amp;", "\\n", "_"])).to_string()),
            5 => {
                let t = if s.chance(1, 3) { Some((*s.pick(&["title", "a & b", "it is"])).to_string()) } else { None };
                Inl::Link(inlines(s, 0, false), (*s.pick(&["/a", "http://x.y/z?a=1", "b.html", "#top", "/a/b_c"])).to_string(), t)
            }
            6 => Inl::Image(gen_word(s), "/i.png".into()),
            8 => Inl::Strike(ended(s, 0)),
            9 => {
                let (a, b) = *s.pick(&[
                    ("<b>x</b>", "\u{1}b\u{2}x\u{1}/b\u{2}"),
                    ("<i class=\"k\">x</i>", "\u{1}i class=\"k\"\u{2}x\u{1}/i\u{2}"),
                    ("<u>*x*</u>", "\u{1}u\u{2}\u{1}em\u{2}x\u{1}/em\u{2}\u{1}/u\u{2}"),
                    ("<http://x.y/z>", "\u{1}a href=\"http://x.y/z\"\u{2}http://x.y/z\u{1}/a\u{2}"),
                    ("<me@x.org>", "\u{1}a href=\"mailto:me@x.org\"\u{2}me@x.org\u{1}/a\u{2}"),
                ]);
                Inl::Raw(a.to_string(), b.to_string())
            }
            _ => {
                if i + 1 < n {
                    v.push(if s.chance(1, 2) { Inl::Hard } else { Inl::Soft });
                }
                Inl::Text(md_text(s, true))
            }
        };
        v.push(x);
    }
    v
}
fn md_inl(s: &mut Source, v: &[Inl]) -> String {
    let mut r = String::new();
    for x in v {
        let glue = !r.is_empty() && !r.ends_with('\n') && !matches!(x, Inl::Hard | Inl::Soft);
        if glue {
            r.push(' ');
        }
        match x {
            Inl::Text(t) => r.push_str(t),
            Inl::Esc(a, _) => r.push_str(a),
            Inl::Em(v) => {
                let m = *s.pick(&["*", "_"]);
                let t = md_inl(s, v);
                r.push_str(&format!("{}{}{}", m, t, m))
            }
            Inl::Strong(v) => {
                let m = *s.pick(&["**", "__"]);
                let t = md_inl(s, v);
                r.push_str(&format!("{}{}{}", m, t, m))
            }
            Inl::Strike(v) => {
                let t = md_inl(s, v);
                r.push_str(&format!("~~{}~~", t))
            }
            Inl::Raw(a, _) => r.push_str(a),
            Inl::Code(t) => r.push_str(&format!("`{}`", t)),
            Inl::Link(v, u, t) => {
                let x = md_inl(s, v);
                r.push_str(&format!("[{}]({}{})", x, u, t.as_ref().map_or(String::new(), |t| format!(" \"{}\"", t))))
            }
            Inl::Image(a, u) => r.push_str(&format!("![{}]({})", a, u)),
            Inl::Hard => r.push_str(if s.chance(1, 2) { "  \n" } else { "\\\n" }),
            Inl::Soft => r.push('\n'),
        }
    }
    r
}
/// what the html should be, with \u{1} and \u{2} around tags instead of < and >
fn html_inl(v: &[Inl]) -> String {
    let mut r = String::new();
    for x in v {
        if !r.is_empty() && !r.ends_with('\n') && !matches!(x, Inl::Hard | Inl::Soft) {
            r.push(' ');
        }
        match x {
            Inl::Text(t) | Inl::Esc(_, t) => r.push_str(t),
            Inl::Em(v) => r.push_str(&format!("\u{1}em\u{2}{}\u{1}/em\u{2}", html_inl(v))),
            Inl::Strong(v) => r.push_str(&format!("\u{1}strong\u{2}{}\u{1}/strong\u{2}", html_inl(v))),
            Inl::Strike(v) => r.push_str(&format!("\u{1}del\u{2}{}\u{1}/del\u{2}", html_inl(v))),
            Inl::Raw(_, b) => r.push_str(b),
            Inl::Code(t) => r.push_str(&format!("\u{1}code\u{2}{}\u{1}/code\u{2}", t)),
            Inl::Link(v, u, t) => r.push_str(&format!("\u{1}a href={:?}{}\u{2}{}\u{1}/a\u{2}", u, t.as_ref().map_or(String::new(), |t| format!(" title={:?}", t)), html_inl(v))),
            Inl::Image(a, u) => r.push_str(&format!("\u{1}img src={:?} alt={:?} /\u{2}", u, a)),
            Inl::Hard => r.push_str("\u{1}br /\u{2}\n"),
            Inl::Soft => r.push('\n'),
        }
    }
    r
}
fn code_line(s: &mut Source) -> String {
    (*s.pick(&["let x = 1;", "a < b && c", "*not em*", "# no heading", "  indented", "\"q\"", "- no list", "a  b", "<b>", "&amp;"])).to_string()
}
fn md_cell(s: &mut Source) -> Vec<Inl> {
    let mut v = vec![Inl::Text(md_text(s, true))];
    match s.draw(5) {
        0 => v.push(Inl::Em(vec![Inl::Text(gen_word(s))])),
        1 => v.push(Inl::Strong(vec![Inl::Text(gen_word(s))])),
        2 => v.push(Inl::Code(gen_word(s))),
        3 => v.push(Inl::Esc("AT&T".into(), "AT&T".into())),
        _ => {}
    }
    v
}
fn blocks(s: &mut Source, depth: usize) -> Vec<Block> {
    let n = s.count_to(1, if depth > 1 { 5 } else { 2 }, 80);
    let mut v: Vec<Block> = vec![];
    for _ in 0..n {
        let last_list = matches!(v.last(), Some(Block::Bullets(_) | Block::Numbers(..) | Block::Tasks(_)));
        let last_code = matches!(v.last(), Some(Block::Indented(_)));
        let li = if last_list { 0 } else { 1 };
        let b = match s.weighted(&[6, 4, 3, if last_list || last_code { 0 } else { 2 }, 3 * li, 2 * li, if depth > 0 { 2 } else { 0 }, 2, 2 * li, 2, 1]) {
            0 => Block::Para(inlines(s, 2, true)),
            1 => Block::Head(s.size(1, 6), inlines(s, 1, false), s.chance(1, 4)),
            2 => Block::Fence((*s.pick(&["", "rust", "c"])).to_string(), (0..s.count_to(0, 3, 60)).map(|_| code_line(s)).collect()),
            3 => Block::Indented((0..s.count_to(1, 3, 60)).map(|_| code_line(s)).collect()),
            4 => Block::Bullets((0..s.count_to(1, 4, 60)).map(|_| (inlines(s, 1, false), if s.chance(1, 4) { (0..s.size(1, 2)).map(|_| inlines(s, 0, false)).collect() } else { vec![] })).collect()),
            5 => Block::Numbers(if s.chance(1, 2) { 1 } else { s.size(0, 40) }, (0..s.count_to(1, 4, 60)).map(|_| inlines(s, 1, false)).collect()),
            6 => Block::Quote(blocks(s, depth - 1)),
            8 => Block::Tasks((0..s.count_to(1, 4, 60)).map(|_| (s.chance(1, 2), inlines(s, 1, false))).collect()),
            9 => {
                let head: Vec<(u8, Vec<Inl>)> = (0..s.count_to(1, 4, 40)).map(|_| (s.draw(4) as u8, md_cell(s))).collect();
                let rows = (0..s.count_to(1, 4, 60)).map(|_| (0..head.len()).map(|_| md_cell(s)).collect()).collect();
                Block::Table(head, rows)
            }
            10 => {
                let w = gen_word(s);
                let (a, b) = match s.draw(3) {
                    0 => (vec!["<div>".to_string(), format!("*{}*", w), "</div>".into()], format!("\u{1}div\u{2}\n*{}*\n\u{1}/div\u{2}", w)),
                    1 => (vec![format!("<section>{} _x_</section>", w)], format!("\u{1}section\u{2}{} _x_\u{1}/section\u{2}", w)),
                    _ => (vec!["<div id=\"a\">".to_string(), String::new(), format!("*{}*", w), String::new(), "</div>".into()], format!("\u{1}div id=\"a\"\u{2}\n\u{1}p\u{2}\u{1}em\u{2}{}\u{1}/em\u{2}\u{1}/p\u{2}\n\u{1}/div\u{2}", w)),
                };
                Block::Html(a, b)
            }
            _ => Block::Rule,
        };
        v.push(b);
    }
    v
}
fn md_blocks(s: &mut Source, v: &[Block]) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            r.push(String::new());
            if s.chance(1, 8) {
                r.push(String::new());
            }
        }
        match b {
            Block::Para(x) => r.extend(md_inl(s, x).split('\n').map(|x| x.to_string())),
            Block::Head(n, x, set) => {
                let t = md_inl(s, x);
                if *set && *n <= 2 {
                    r.push(t);
                    r.push((if *n == 1 { "=" } else { "-" }).repeat(s.size(3, 8)));
                } else {
                    let close = if s.chance(1, 5) { " ##" } else { "" };
                    r.push(format!("{} {}{}", "#".repeat(*n), t, close));
                }
            }
            Block::Fence(l, c) => {
                let f = *s.pick(&["```", "~~~", "````"]);
                r.push(format!("{}{}", f, l));
                r.extend(c.iter().cloned());
                r.push(f.to_string());
            }
            Block::Indented(c) => r.extend(c.iter().map(|l| format!("    {}", l))),
            Block::Bullets(items) => {
                let m = *s.pick(&["-", "*", "+"]);
                for (x, sub) in items {
                    let t = md_inl(s, x);
                    r.push(format!("{} {}", m, t));
                    for y in sub {
                        let t = md_inl(s, y);
                        r.push(format!("  - {}", t));
                    }
                }
            }
            Block::Numbers(n, items) => {
                for (i, x) in items.iter().enumerate() {
                    let t = md_inl(s, x);
                    r.push(format!("{}. {}", n + i, t));
                }
            }
            Block::Tasks(items) => {
                let m = *s.pick(&["-", "*", "+"]);
                for (c, x) in items {
                    let t = md_inl(s, x);
                    r.push(format!("{} [{}] {}", m, if *c { "x" } else { " " }, t));
                }
            }
            Block::Table(head, rows) => {
                let outer = head.len() == 1 || s.chance(1, 2);
                let line = |c: Vec<String>| if outer { format!("| {} |", c.join(" | ")) } else { c.join(" | ") };
                let h = head.iter().map(|(_, x)| md_inl(s, x)).collect();
                r.push(line(h));
                r.push(line(head.iter().map(|(a, _)| ["---", ":---", ":--:", "---:"][*a as usize].to_string()).collect()));
                for x in rows {
                    let c = x.iter().map(|x| md_inl(s, x)).collect();
                    r.push(line(c));
                }
            }
            Block::Html(a, _) => r.extend(a.iter().cloned()),
            Block::Quote(v) => {
                for l in md_blocks(s, v) {
                    r.push(if l.is_empty() { ">".into() } else { format!("> {}", l) });
                }
            }
            Block::Rule => r.push((*s.pick(&["***", "---", "- - -", "___", "*****"])).to_string()),
        }
    }
    r
}
fn ends_indented(v: &[Block]) -> bool {
    match v.last() {
        Some(Block::Indented(_)) => true,
        Some(Block::Quote(q)) => ends_indented(q),
        _ => false,
    }
}
fn html_blocks(v: &[Block]) -> String {
    let mut r = String::new();
    let t = |n: &str, x: &str| format!("\u{1}{}\u{2}{}\u{1}/{}\u{2}", n, x, n);
    for b in v {
        r.push_str(&match b {
            Block::Para(x) => t("p", &html_inl(x)),
            Block::Head(n, x, _) => t(&format!("h{}", n), &html_inl(x)),
            Block::Fence(l, c) => {
                let c: String = c.iter().map(|l| format!("{}\n", l)).collect();
                format!("\u{1}pre\u{2}\u{1}code{}\u{2}{}\u{1}/code\u{2}\u{1}/pre\u{2}", if l.is_empty() { String::new() } else { format!(" class=\"language-{}\"", l) }, c)
            }
            Block::Indented(c) => {
                let c: String = c.iter().map(|l| format!("{}\n", l)).collect();
                format!("\u{1}pre\u{2}\u{1}code\u{2}{}\u{1}/code\u{2}\u{1}/pre\u{2}", c)
            }
            Block::Bullets(items) => t(
                "ul",
                &items
                    .iter()
                    .map(|(x, sub)| {
                        let mut h = html_inl(x);
                        if !sub.is_empty() {
                            h.push_str(&t("ul", &sub.iter().map(|y| t("li", &html_inl(y))).collect::<String>()));
                        }
                        t("li", &h)
                    })
                    .collect::<String>(),
            ),
            Block::Numbers(n, items) => {
                let l = items.iter().map(|x| t("li", &html_inl(x))).collect::<String>();
                if *n == 1 {
                    t("ol", &l)
                } else {
                    format!("\u{1}ol start=\"{}\"\u{2}{}\u{1}/ol\u{2}", n, l)
                }
            }
            Block::Tasks(items) => t(
                "ul",
                &items.iter().map(|(c, x)| t("li", &format!("\u{1}input disabled=\"\" type=\"checkbox\"{}\u{2}{}", if *c { " checked=\"\"" } else { "" }, html_inl(x)))).collect::<String>(),
            ),
            Block::Table(head, rows) => {
                let c = |n: &str, a: u8, x: &Vec<Inl>| format!("\u{1}{}{}\u{2}{}\u{1}/{}\u{2}", n, ["", " align=\"left\"", " align=\"center\"", " align=\"right\""][a as usize], html_inl(x), n);
                let h: String = head.iter().map(|(a, x)| c("th", *a, x)).collect();
                let b: String = rows.iter().map(|l| t("tr", &l.iter().zip(head).map(|(x, (a, _))| c("td", *a, x)).collect::<String>())).collect();
                t("table", &format!("{}{}", t("thead", &t("tr", &h)), if rows.is_empty() { String::new() } else { t("tbody", &b) }))
            }
            Block::Html(_, h) => h.clone(),
            Block::Quote(v) => t("blockquote", &html_blocks(v)),
            Block::Rule => "\u{1}hr /\u{2}".into(),
        });
    }
    r
}
/// tags and decoded texts; None if it is not well-formed
fn html_tokens(h: &str, marked: bool) -> Option<Vec<String>> {
    const BLOCKS: &[&str] = &["p", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "ul", "ol", "li", "blockquote", "hr", "table", "thead", "tbody", "tr", "th", "td", "input", "div", "section"];
    let (open, close) = if marked { ('\u{1}', '\u{2}') } else { ('<', '>') };
    let mut toks: Vec<(bool, String)> = vec![];
    let mut rest = h;
    while !rest.is_empty() {
        if rest.starts_with(open) {
            let e = rest.find(close)?;
            let t = &rest[1..e];
            let t = t.trim_end_matches('/').trim().to_string();
            toks.push((true, if rest.starts_with(&format!("{}/", open)) { t } else { t }));
            rest = &rest[e + 1..];
        } else {
            let e = rest.find(open).unwrap_or(rest.len());
            let t = &rest[..e];
            if !marked && t.contains('>') {
                return None;
            }
            let t = if marked {
                t.to_string()
            } else {
                let mut r = String::new();
                let mut x = t;
                while let Some(i) = x.find('&') {
                    r.push_str(&x[..i]);
                    x = &x[i..];
                    let j = x.find(';')?;
                    r.push(match &x[1..j] {
                        "amp" => '&',
                        "lt" => '<',
                        "gt" => '>',
                        "quot" => '"',
                        "#39" | "#x27" | "apos" => '\'',
                        _ => return None,
                    });
                    x = &x[j + 1..];
                }
                r.push_str(x);
                r
            };
            toks.push((false, t));
            rest = &rest[e..];
        }
    }
    let block = |t: &(bool, String)| t.0 && BLOCKS.contains(&t.1.trim_start_matches('/').split(' ').next().unwrap());
    let mut r = vec![];
    let mut pre = false;
    for i in 0..toks.len() {
        let (tag, t) = &toks[i];
        if *tag {
            if t == "pre" {
                pre = true;
            }
            if t == "/pre" {
                pre = false;
            }
            let t = t.replace("&amp;", "&").replace("&quot;", "'");
            r.push(format!("<{}>", t));
            continue;
        }
        let mut t: &str = t;
        if !pre {
            if i == 0 || block(&toks[i - 1]) || toks[i - 1].1 == "br" {
                t = t.trim_start();
            }
            if i + 1 == toks.len() || block(&toks[i + 1]) {
                t = t.trim_end();
            }
        }
        if !t.is_empty() {
            r.push(t.to_string());
        }
    }
    Some(r)
}
fn c33(s: &mut Source, ctx: &mut Ctx) -> R {
    let n = match s.draw(6) {
        0 => s.count_to(0, 3, 30),
        _ => 1,
    };
    let mut args = vec![];
    let mut want = String::new();
    for _ in 0..n {
        let d = blocks(s, 2);
        let mut t = md_blocks(s, &d).join("\n");
        // an indented code block keeps the end of its last line only if it has one
        if s.chance(1, 2) || ends_indented(&d) {
            t.push('\n');
        }
        for b in &d {
            ctx.class(match b {
                Block::Para(_) => "paragraph",
                Block::Head(..) => "heading",
                Block::Fence(..) | Block::Indented(_) => "code",
                Block::Bullets(_) | Block::Numbers(..) => "list",
                Block::Tasks(_) => "task-list",
                Block::Table(..) => "table",
                Block::Html(..) => "html",
                Block::Quote(_) => "quote",
                Block::Rule => "rule",
            });
        }
        want.push_str(&html_blocks(&d));
        args.push(V::s(t));
    }
    ctx.note(format!("md {}", show_args(&args)));
    ctx.nontrivial = n > 0;
    ctx.op("md");
    let got = match invoke(s, "md", &args) {
        Ok(V::Str(t)) => t,
        r => crate::bail!("C33:result", "md {} gives {}", show_args(&args), res_canon(&r)),
    };
    let w = html_tokens(&want, true).unwrap_or_default();
    let g = html_tokens(&got, false);
    crate::ensure!(
        g.as_ref() == Some(&w),
        "C33:html",
        "md {}\ngives {}\nread as {:?}\nexpected {:?}",
        args.iter().map(|a| a.display()).collect::<Vec<_>>().join("\n-----\n"),
        got,
        g,
        w
    );
    // each argument alone, one after another
    if n > 1 {
        let mut all = String::new();
        for a in &args {
            if let Ok(V::Str(t)) = invoke(s, "md", &[a.clone()]) {
                all.push_str(&t);
            }
        }
        crate::ensure!(all == got, "C33:arguments", "md {}\ngives {:?}\nbut one by one {:?}", show_args(&args), got, all);
    }
    // as a block
    if n == 1 && s.chance(1, 3) {
        ctx.class("block");
        let body = match s.draw(3) {
            0 => "{{@md}}{{$0}}{{/md}}".to_string(),
            1 => "{{@md @}}{{$0}}{{/md}}".to_string(),
            _ => "{{let x = $0}}{{@md}}{{if 1}}{{$x}}{{/if}}{{/md}}".to_string(),
        };
        let t = parse(&body).map_err(|e| Fail { sig: "C33:parse".into(), msg: e })?;
        let r = run(&t, &[&args[0].td() as &dyn TParam], &mut BasicTemps::new(), fm());
        crate::ensure!(r.as_ref().ok() == Some(&got), "C33:block", "{} with {:?}\ngives {:?}\nthe helper {:?}", body, args[0].display(), r, got);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            rule: "values of all kinds written and read by an independent JSON reader and by r_json, JSON texts in any layout and spelling read by both; non-trivial: any write, or a text of more than four characters",
            quick: 350_000,
            factor: 40,
            fuel: 20_000_000,
            run: c22,
            pins: vec![],
            assumptions: vec!["infinities and NaN have no JSON", "no key twice in one object", "0, -0 and -0.0 count as the same number"],
        },
        Prop {
            id: "C23",
            rule: "strings and bytes of all lengths against an independent encoder, broken texts, and generated cards printed in card notation; non-trivial: something to encode, or at least one card",
            quick: 600_000,
            factor: 40,
            fuel: 20_000_000,
            run: c23,
            pins: vec![],
            assumptions: vec!["unpadded base64 and stray padding bits are left out"],
        },
        Prop {
            id: "C28",
            rule: "up to seven rows of two to five cells, headers and continuations, printed with free padding, the html read back; non-trivial: at least one row",
            quick: 450_000,
            factor: 40,
            fuel: 20_000_000,
            run: c28,
            pins: vec![],
            assumptions: vec!["cells of several texts are compared with runs of whitespace as one", "cells without < and >"],
        },
        Prop {
            id: "C33",
            rule: "documents of paragraphs, headings, code, lists, quotes and rules with emphasis, code, links, images, breaks and escapes, printed as markdown in varying notation, against the html of their structure; non-trivial: at least one document",
            quick: 250_000,
            factor: 40,
            fuel: 20_000_000,
            run: c33,
            pins: vec![],
            assumptions: vec!["html is compared as tags and decoded texts, without layout between blocks", "tight lists, no raw html, none of the extensions"],
        },
    ]
}
