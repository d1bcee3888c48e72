//! The reference value type, independent of templito's own comparisons.
use crate::engine::Source;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use templito::TData;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    UInt(usize),
    Int(isize),
    Float(f64),
    Str(String),
    Date(i32, u32, u32),
    Bytes(Vec<u8>),
    List(Vec<V>),
    Map(BTreeMap<String, V>),
    /// a template; the index means nothing outside one model run
    Tmpl(usize),
}
use V::*;

impl V {
    pub fn s(x: impl Into<String>) -> V {
        Str(x.into())
    }
    pub fn td(&self) -> TData {
        match self {
            Null => TData::Null,
            Bool(b) => TData::Bool(*b),
            UInt(n) => TData::UInt(*n),
            Int(n) => TData::Int(*n),
            Float(f) => TData::Float(*f),
            Str(s) => TData::String(s.clone()),
            Date(y, m, d) => TData::Date(chrono::NaiveDate::from_ymd_opt(*y, *m, *d).unwrap()),
            Bytes(b) => TData::Bytes(b.clone()),
            List(l) => TData::List(l.iter().map(|v| v.td()).collect()),
            Map(m) => TData::Map(m.iter().map(|(k, v)| (k.clone(), v.td())).collect()),
            Tmpl(_) => TData::Template(templito::TreeTemplate { pnames: vec![], v: vec![] }),
        }
    }
    pub fn from_td(d: &TData) -> V {
        use chrono::Datelike;
        match d {
            TData::Null => Null,
            TData::Bool(b) => Bool(*b),
            TData::UInt(n) => UInt(*n),
            TData::Int(n) => Int(*n),
            TData::Float(f) => Float(*f),
            TData::String(s) => Str(s.clone()),
            TData::Date(d) => Date(d.year(), d.month(), d.day()),
            TData::Bytes(b) => Bytes(b.clone()),
            TData::List(l) => List(l.iter().map(V::from_td).collect()),
            TData::Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), V::from_td(v))).collect()),
            TData::Template(_) => Tmpl(0),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Null => "null",
            Bool(_) => "bool",
            UInt(_) => "uint",
            Int(_) => "int",
            Float(_) => "float",
            Str(_) => "string",
            Date(..) => "date",
            Bytes(_) => "bytes",
            List(_) => "list",
            Map(_) => "map",
            Tmpl(_) => "template",
        }
    }
    /// a canonical text that tells all values and types apart
    pub fn canon(&self) -> String {
        match self {
            Null => "null".into(),
            Bool(b) => format!("{}", b),
            UInt(n) => format!("u{}", n),
            Int(n) => format!("i{}", n),
            Float(f) => {
                if f.is_nan() {
                    "fNaN".into()
                } else {
                    format!("f{:?}", f)
                }
            }
            Str(s) => format!("{:?}", s),
            Date(y, m, d) => format!("d{}-{}-{}", y, m, d),
            Bytes(b) => format!("b{:?}", b),
            List(l) => format!("[{}]", l.iter().map(|v| v.canon()).collect::<Vec<_>>().join(", ")),
            Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{:?}: {}", k, v.canon())).collect::<Vec<_>>().join(", ")),
            Tmpl(_) => "TEMPLATE".into(),
        }
    }
    /// same value and type (NaN is the same as NaN, 0.0 and -0.0 differ)
    pub fn same(&self, o: &V) -> bool {
        self.canon() == o.canon()
    }
    pub fn display(&self) -> String {
        match self {
            Null => "NULL".into(),
            Bool(b) => if *b { "true" } else { "false" }.into(),
            UInt(n) => n.to_string(),
            Int(n) => n.to_string(),
            Float(f) => format!("{}", f),
            Str(s) => s.clone(),
            Date(y, m, d) => format!("{:02}/{:02}/{}", d, m, fmt_year(*y)),
            Bytes(b) => format!("b\"{:?}\"", b),
            List(l) => format!("[{}]", l.iter().map(|v| v.display()).collect::<Vec<_>>().join(",")),
            Map(_) => "MAP".into(),
            Tmpl(_) => "TEMPLATE".into(),
        }
    }
    /// display is specified (no map, no bytes inside)
    pub fn displayable(&self) -> bool {
        match self {
            Map(_) | Bytes(_) => false,
            List(l) => l.iter().all(|v| v.displayable()),
            _ => true,
        }
    }
    pub fn truth(&self) -> Option<bool> {
        match self {
            Null => Some(false),
            Bool(b) => Some(*b),
            UInt(n) => Some(*n != 0),
            Int(n) => Some(*n != 0),
            Float(f) => Some(*f != 0.0),
            Str(s) => Some(!s.is_empty()),
            List(l) => Some(!l.is_empty()),
            Map(m) => Some(!m.is_empty()),
            _ => None,
        }
    }
    pub fn index(&self) -> Option<usize> {
        match self {
            UInt(n) => Some(*n),
            Int(n) if *n >= 0 => Some(*n as usize),
            _ => None,
        }
    }
    pub fn get(&self, path: &[Part]) -> Option<V> {
        if path.is_empty() {
            return Some(self.clone());
        }
        match (self, &path[0]) {
            (List(l), Part::N(n)) => l.get(*n)?.get(&path[1..]),
            (Map(m), Part::K(k)) => m.get(k)?.get(&path[1..]),
            _ => None,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            List(l) => 1 + l.iter().map(|v| v.depth()).max().unwrap_or(0),
            Map(m) => 1 + m.values().map(|v| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn is_num(&self) -> bool {
        matches!(self, UInt(_) | Int(_) | Float(_))
    }
    pub fn has_nan(&self) -> bool {
        match self {
            Float(f) => f.is_nan(),
            List(l) => l.iter().any(|v| v.has_nan()),
            Map(m) => m.values().any(|v| v.has_nan()),
            _ => false,
        }
    }
    pub fn json(&self) -> Option<serde_json::Value> {
        use serde_json::Value as J;
        Some(match self {
            Null => J::Null,
            Bool(b) => J::Bool(*b),
            UInt(n) => J::from(*n as u64),
            Int(n) => J::from(*n as i64),
            Float(f) => J::Number(serde_json::Number::from_f64(*f)?),
            Str(s) => J::String(s.clone()),
            List(l) => J::Array(l.iter().map(|v| v.json()).collect::<Option<_>>()?),
            Map(m) => {
                let mut r = serde_json::Map::new();
                for (k, v) in m {
                    r.insert(k.clone(), v.json()?);
                }
                J::Object(r)
            }
            _ => return None,
        })
    }
    pub fn toml(&self) -> Option<toml::Value> {
        Some(match self {
            Bool(b) => toml::Value::Boolean(*b),
            Int(n) => toml::Value::Integer(*n as i64),
            Float(f) => toml::Value::Float(*f),
            Str(s) => toml::Value::String(s.clone()),
            List(l) => toml::Value::Array(l.iter().map(|v| v.toml()).collect::<Option<_>>()?),
            Map(m) => {
                let mut r = toml::map::Map::new();
                for (k, v) in m {
                    r.insert(k.clone(), v.toml()?);
                }
                toml::Value::Table(r)
            }
            _ => return None,
        })
    }
}
fn fmt_year(y: i32) -> String {
    if (0..=9999).contains(&y) {
        format!("{:04}", y)
    } else {
        format!("{:+05}", y)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    N(usize),
    K(String),
}

/// Exact comparison of two numbers, None if a NaN is involved.
pub fn num_cmp(a: &V, b: &V) -> Option<Ordering> {
    fn int(v: &V) -> Option<i128> {
        match v {
            UInt(n) => Some(*n as i128),
            Int(n) => Some(*n as i128),
            _ => None,
        }
    }
    match (int(a), int(b)) {
        (Some(x), Some(y)) => Some(x.cmp(&y)),
        (Some(x), None) => match b {
            Float(f) => cmp_int_float(x, *f),
            _ => None,
        },
        (None, Some(y)) => match a {
            Float(f) => cmp_int_float(y, *f).map(|o| o.reverse()),
            _ => None,
        },
        _ => match (a, b) {
            (Float(x), Float(y)) => x.partial_cmp(y),
            _ => None,
        },
    }
}
/// by bisection on exact integers, not by any float conversion of the integer
fn cmp_int_float(n: i128, f: f64) -> Option<Ordering> {
    if f.is_nan() {
        return None;
    }
    if f >= 1e30 {
        return Some(Ordering::Less);
    }
    if f <= -1e30 {
        return Some(Ordering::Greater);
    }
    // decode the float exactly: f = m * 2^e
    let bits = f.to_bits();
    let neg = bits >> 63 == 1;
    let ex = ((bits >> 52) & 0x7ff) as i32;
    let mut m = (bits & ((1u64 << 52) - 1)) as i128;
    let e = if ex == 0 { -1074 } else { m |= 1 << 52; ex - 1075 };
    let m = if neg { -m } else { m };
    if e >= 0 {
        Some(n.cmp(&(m << e))) // |f|<1e30 < 2^100
    } else if e > -60 {
        // compare n * 2^-e with m
        let s = -e;
        // n is at most 2^64, s at most 59: fits in i128
        Some((n << s).cmp(&m))
    } else {
        // |f| < 1 (m < 2^53, e <= -60)
        Some(if n != 0 { n.cmp(&0) } else { 0.cmp(&m) })
    }
}

/// Equality as the language defines it
pub fn veq(a: &V, b: &V) -> bool {
    if a.is_num() && b.is_num() {
        return num_cmp(a, b) == Some(Ordering::Equal);
    }
    match (a, b) {
        (Null, Null) | (Tmpl(_), Tmpl(_)) => true,
        (Bool(x), Bool(y)) => x == y,
        (Str(x), Str(y)) => x == y,
        (Date(..), Date(..)) => a.canon() == b.canon(),
        (Bytes(x), Bytes(y)) => x == y,
        (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq(p, q)),
        (Map(x), Map(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| veq(p, q))),
        _ => false,
    }
}

// ------------------------------------------------------------ generators
pub const WORDS: &[&str] = &["a", "b", "x", "abc", "fish", "dog", "cat", "Zed", "über", "名", "e\u{301}", "🐟", "a b", "", " ", "0", "-1", "true", "null", "NULL", "{{", "}}", "\\", "\"", "'", "<", "&", "a,b", "\n", "/", "..", "|", "*"];
pub fn gen_char(s: &mut Source) -> char {
    match s.weighted(&[30, 10, 10, 6, 4, 3, 2, 1]) {
        0 => (b'a' + s.draw(26) as u8) as char,
        1 => *s.pick(&[' ', '\t', '\n', '\r']),
        2 => *s.pick(&['{', '}', '\\', '"', '\'', '<', '>', '&', '/', '|', '#', '@', '$', '.', ',', ';', ':', '-', '*', '=', '(', ')', '[', ']', '?', '_', '%']),
        3 => (b'0' + s.draw(10) as u8) as char,
        4 => (b'A' + s.draw(26) as u8) as char,
        5 => *s.pick(&['é', 'ß', 'λ', '名', '🐟', '\u{301}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{3000}', '\u{85}']),
        6 if s.chance(1, 3) => *s.pick(&['\u{8}', '\u{c}']),
        6 => char::from_u32(s.draw(0x20) as u32).unwrap(),
        _ => {
            let n = s.draw(0x110000) as u32;
            char::from_u32(n).unwrap_or('\u{fffd}')
        }
    }
}
pub fn gen_string(s: &mut Source, max: usize) -> String {
    let grown = s.grows();
    let t = match s.weighted(&[5, 5, 1]) {
        0 => {
            let n = s.size(0, max.min(3));
            (0..n).map(|_| s.pick(WORDS).to_string()).collect()
        }
        1 => {
            let n = s.size(0, max);
            (0..n).map(|_| gen_char(s)).collect()
        }
        _ => {
            let c = gen_char(s);
            let n = s.size(0, max * 2);
            (0..n).map(|_| c).collect::<String>()
        }
    };
    if !grown {
        return t;
    }
    // a long text: mixed all along, or one piece over and over and a different end
    if s.chance(1, 3) {
        let n = s.size(max, 300);
        (0..n).map(|_| gen_char(s)).collect()
    } else {
        let times = {
            let top = *s.pick(&[20, 300, 3000]);
            s.size(1, top)
        };
        let times = times.min(20_000 / t.len().max(1));
        let end = gen_char(s);
        format!("{}{}{}", t.repeat(times), end, s.pick(WORDS))
    }
}
pub fn gen_word(s: &mut Source) -> String {
    let n = s.count_to(1, 5, 60);
    (0..n).map(|_| (b'a' + s.draw(26) as u8) as char).collect()
}
pub fn gen_uint(s: &mut Source) -> usize {
    match s.weighted(&[10, 4, 3, 2, 2]) {
        0 => s.draw(10) as usize,
        1 => s.draw(1000) as usize,
        2 => {
            let k = s.draw(64) as u32;
            let d = s.range(-2, 2);
            (1u64 << k).wrapping_add(d as u64) as usize
        }
        3 => (u64::MAX - s.draw(4)) as usize,
        _ => s.u64() as usize,
    }
}
pub fn gen_int(s: &mut Source) -> isize {
    match s.weighted(&[10, 4, 3, 2, 2]) {
        0 => {
            let n = s.draw(10) as isize;
            if s.chance(1, 2) {
                -n
            } else {
                n
            }
        }
        1 => s.range(-1000, 1000) as isize,
        2 => {
            let k = s.draw(63) as u32;
            let d = s.range(-2, 2) as isize;
            let p = (1i64 << k) as isize;
            if s.chance(1, 2) {
                p.wrapping_neg().wrapping_add(d)
            } else {
                p.wrapping_add(d)
            }
        }
        3 => {
            let d = s.draw(4) as isize;
            if s.chance(1, 2) {
                isize::MIN + d
            } else {
                isize::MAX - d
            }
        }
        _ => s.u64() as isize,
    }
}
pub fn gen_float(s: &mut Source, special: bool) -> f64 {
    match s.weighted(&[8, 6, 4, 3, if special { 2 } else { 0 }]) {
        0 => {
            let n = s.range(0, 20) as f64 / 4.0;
            if s.chance(1, 3) {
                -n
            } else {
                n
            }
        }
        1 => s.range(-100000, 100000) as f64 / 1000.0,
        2 => {
            // around integers that floats cannot tell apart
            let k = s.range(50, 66);
            let f = 2f64.powi(k as i32);
            let f = if s.chance(1, 2) { -f } else { f };
            let d = s.draw(5);
            f64::from_bits(f.to_bits().wrapping_add(d).wrapping_sub(2))
        }
        3 => {
            let f = f64::from_bits(s.u64());
            if f.is_finite() {
                f
            } else {
                1.5
            }
        }
        _ => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]),
    }
}
pub fn gen_date(s: &mut Source) -> V {
    let y = match s.weighted(&[6, 2]) {
        0 => s.range(1990, 2030) as i32,
        _ => s.range(1, 9999) as i32,
    };
    let m = s.range(1, 12) as u32;
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let dm = match m {
        2 => 28 + leap as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    let d = s.range(1, dm) as u32;
    Date(y, m, d)
}
#[derive(Clone, Copy)]
pub struct VOpt {
    pub special: bool,
    pub dates: bool,
    pub bytes: bool,
    pub depth: usize,
    pub map_max: usize,
}
pub const ALL: VOpt = VOpt { special: true, dates: true, bytes: true, depth: 2, map_max: 3 };
pub const LITERAL: VOpt = VOpt { special: false, dates: true, bytes: false, depth: 2, map_max: 3 };
pub const JSONY: VOpt = VOpt { special: false, dates: false, bytes: false, depth: 3, map_max: 3 };
pub fn gen_scalar(s: &mut Source, o: VOpt) -> V {
    match s.weighted(&[6, 6, 5, 4, 4, 2, if o.dates { 2 } else { 0 }, if o.bytes { 1 } else { 0 }]) {
        0 => UInt(gen_uint(s)),
        1 => Str(gen_string(s, 6)),
        2 => Int(gen_int(s)),
        3 => Float(gen_float(s, o.special)),
        4 => Bool(s.chance(1, 2)),
        5 => Null,
        6 => gen_date(s),
        _ => {
            let n = s.count(0, 6);
            Bytes((0..n).map(|_| s.draw(256) as u8).collect())
        }
    }
}
pub fn gen_v(s: &mut Source, o: VOpt) -> V {
    if o.depth == 0 {
        return gen_scalar(s, o);
    }
    if o.depth > 1 && s.grows() {
        // one in another in another
        let mut v = gen_scalar(s, o);
        for _ in 0..s.size(3, 40) {
            v = match s.draw(4) {
                0 => List(vec![gen_scalar(s, o), v]),
                1 => List(vec![v]),
                _ if o.map_max == 0 => List(vec![v]),
                2 => Map([("a".to_string(), v), ("b".to_string(), gen_scalar(s, o))].into_iter().collect()),
                _ => Map([("k".to_string(), v)].into_iter().collect()),
            };
        }
        return v;
    }
    let d = VOpt { depth: o.depth - 1, ..o };
    match s.weighted(&[12, 3, 3]) {
        0 => gen_scalar(s, o),
        1 => {
            let n = s.count_to(0, 4, 150);
            List((0..n).map(|_| gen_v(s, d)).collect())
        }
        _ => {
            let n = if o.map_max == 0 { 0 } else { s.count_to(0, o.map_max, 60) };
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = if s.chance(1, 3) { gen_string(s, 4) } else { (*s.pick(&["a", "b", "c", "k", "name", "0"])).to_string() };
                m.insert(k, gen_v(s, d));
            }
            Map(m)
        }
    }
}
/// A value from a small pool, so that equal values are frequent
pub fn gen_small(s: &mut Source) -> V {
    match s.weighted(&[8, 8, 4, 4, 3, 2, 1]) {
        0 => UInt(s.draw(4) as usize),
        1 => Str((*s.pick(&["a", "b", "", "ab"])).to_string()),
        2 => Int(s.range(-2, 3) as isize),
        3 => Bool(s.chance(1, 2)),
        4 => Float(*s.pick(&[0.0, 1.0, 1.5, -1.0])),
        5 => Null,
        _ => gen_date(s),
    }
}
/// A small variation of a value, or the value itself
pub fn perturb(s: &mut Source, v: &V) -> V {
    match v {
        UInt(n) => match s.draw(6) {
            0 => UInt(*n),
            1 => Int(*n as isize),
            2 => Float(*n as f64),
            3 => UInt(n.wrapping_add(1)),
            4 => UInt(n.wrapping_sub(1)),
            _ => Str(n.to_string()),
        },
        Int(n) => match s.draw(6) {
            0 => Int(*n),
            1 => UInt(*n as usize),
            2 => Float(*n as f64),
            3 => Int(n.wrapping_add(1)),
            4 => Int(n.wrapping_neg()),
            _ => Str(n.to_string()),
        },
        Float(f) => match s.draw(6) {
            0 => Float(*f),
            1 => Int(*f as isize),
            2 => UInt(*f as usize),
            3 => Float(-*f),
            4 => Float(f64::from_bits(f.to_bits().wrapping_add(1))),
            _ => Str(format!("{}", f)),
        },
        Str(x) => match s.draw(7) {
            5 | 6 => {
                // another character, or one more or less, anywhere
                let mut c: Vec<char> = x.chars().collect();
                let i = s.draw(c.len() as u64 + 1) as usize;
                match s.draw(3) {
                    0 if i < c.len() => {
                        c.remove(i);
                    }
                    1 if i < c.len() => c[i] = char::from_u32((c[i] as u32) ^ 1).unwrap_or('a'),
                    _ => c.insert(i, 'b'),
                }
                Str(c.into_iter().collect())
            }
            0 => Str(x.clone()),
            1 => Str(format!("{}a", x)),
            2 => Str(x.chars().skip(1).collect()),
            3 => Str(x.to_uppercase()),
            _ => Bytes(x.as_bytes().to_vec()),
        },
        Bool(b) => match s.draw(4) {
            0 => Bool(*b),
            1 => Bool(!*b),
            2 => UInt(*b as usize),
            _ => Str(format!("{}", b)),
        },
        List(l) => {
            let mut l = l.clone();
            match s.draw(5) {
                0 => {}
                1 => {
                    l.pop();
                }
                2 => l.push(Null),
                3 if !l.is_empty() => {
                    let i = s.draw(l.len() as u64) as usize;
                    l[i] = perturb(s, &l[i].clone());
                }
                _ => l.reverse(),
            }
            List(l)
        }
        Map(m) => {
            let mut m = m.clone();
            let keys: Vec<String> = m.keys().cloned().collect();
            match s.draw(4) {
                0 => {}
                1 if !keys.is_empty() => {
                    m.remove(s.pick(&keys));
                }
                2 if !keys.is_empty() => {
                    let k = s.pick(&keys).clone();
                    let nv = perturb(s, &m[&k]);
                    m.insert(k, nv);
                }
                _ => {
                    m.insert("zz".into(), Null);
                }
            }
            Map(m)
        }
        Date(y, m, d) => match s.draw(3) {
            0 => Date(*y, *m, *d),
            1 => Date(*y, *m, if *d > 1 { *d - 1 } else { 2 }),
            _ => Str(v.display()),
        },
        Bytes(b) => {
            let mut b = b.clone();
            let i = s.draw(b.len() as u64 + 1) as usize;
            match s.draw(5) {
                0 => {}
                1 if i < b.len() => {
                    b.remove(i);
                }
                2 if i < b.len() => b[i] = b[i].wrapping_add(*s.pick(&[1, 255, 128])),
                3 => b.insert(i, s.draw(256) as u8),
                _ => b.push(0),
            }
            Bytes(b)
        }
        Null => {
            if s.chance(1, 2) {
                Str("NULL".into())
            } else {
                Null
            }
        }
        Tmpl(n) => Tmpl(*n),
    }
}
pub fn hm(v: &BTreeMap<String, V>) -> HashMap<String, TData> {
    v.iter().map(|(k, v)| (k.clone(), v.td())).collect()
}
