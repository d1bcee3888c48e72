//! C20 strings, C21 escaping and svg attributes, C24 paths, C32 word_wrap
use super::*;
use std::collections::BTreeSet;

/// a value with a specified display
fn shown(s: &mut Source) -> V {
    match s.draw(6) {
        0 => {
            let v = gen_v(s, VOpt { bytes: false, ..ALL });
            if v.displayable() {
                v
            } else {
                V::List(vec![gen_small(s), gen_small(s)])
            }
        }
        1 => gen_small(s),
        _ => V::s(gen_string(s, 8)),
    }
}
/// text made of pieces of a needle, so that it occurs often
fn around(s: &mut Source, needle: &str) -> String {
    let mut r = String::new();
    for _ in 0..s.count(0, 6) {
        match s.draw(4) {
            0 | 1 => r.push_str(needle),
            2 => {
                let n = needle.chars().count();
                let k = s.draw(n as u64 + 1) as usize;
                r.extend(needle.chars().take(k));
            }
            _ => r.push_str(&gen_string(s, 3)),
        }
    }
    r
}
fn needle(s: &mut Source) -> String {
    let t = match s.draw(5) {
        0 => (*s.pick(&["aa", "aba", "ab", ".", "a.b", "\n", ",", ", ", "é", "🐟", "$1", "\\", "[", "  "])).to_string(),
        1 => gen_word(s),
        2 => gen_char(s).to_string(),
        _ => gen_string(s, 4),
    };
    if t.is_empty() {
        ",".into()
    } else {
        t.chars().take(400).collect()
    }
}
fn at(t: &[char], n: &[char], i: usize) -> bool {
    i + n.len() <= t.len() && t[i..i + n.len()] == *n
}
fn pieces(t: &str, n: &str) -> Vec<String> {
    let (t, n): (Vec<char>, Vec<char>) = (t.chars().collect(), n.chars().collect());
    let mut r = vec![String::new()];
    let mut i = 0;
    while i < t.len() {
        if at(&t, &n, i) {
            r.push(String::new());
            i += n.len();
        } else {
            r.last_mut().unwrap().push(t[i]);
            i += 1;
        }
    }
    r
}
fn replaced(t: &str, n: &str, by: &str, max: usize) -> String {
    let (t, n): (Vec<char>, Vec<char>) = (t.chars().collect(), n.chars().collect());
    let mut r = String::new();
    let (mut i, mut k) = (0, 0);
    while i < t.len() {
        if k < max && at(&t, &n, i) {
            r.push_str(by);
            i += n.len();
            k += 1;
        } else {
            r.push(t[i]);
            i += 1;
        }
    }
    r
}
fn c20(s: &mut Source, ctx: &mut Ctx) -> R {
    match s.draw(9) {
        0 => {
            ctx.class("cat");
            let a: Vec<V> = (0..s.count(0, 5)).map(|_| shown(s)).collect();
            ctx.nontrivial = a.len() > 1;
            let w = a.iter().map(|v| v.display()).collect::<String>();
            expect(ctx, s, "C20:cat", "cat", &a, Some(V::s(w)))
        }
        1 => {
            ctx.class("split");
            ctx.nontrivial = true;
            let n = needle(s);
            let t = around(s, &n);
            let parts: Vec<V> = pieces(&t, &n).into_iter().map(V::s).collect();
            if s.chance(1, 6) {
                let parts = pieces(&t, "\n").into_iter().map(V::s).collect();
                return expect(ctx, s, "C20:split", "split", &[V::s(t)], Some(V::List(parts)));
            }
            expect(ctx, s, "C20:split", "split", &[V::s(t.clone()), V::s(n.clone())], Some(V::List(parts.clone())))?;
            expect(ctx, s, "C20:join_with", "join_with", &[V::s(n), V::List(parts)], Some(V::s(t)))
        }
        2 => {
            // also with the empty separator: what is split comes back
            ctx.class("split-join");
            let n = if s.chance(1, 3) { String::new() } else { needle(s) };
            let t = around(s, &n);
            ctx.note(format!("split {:?} {:?}", t, n));
            ctx.nontrivial = t.contains(&n);
            ctx.op("split");
            let tpl = parse("{{export r = join_with $1 (split $0 $1)}}").map_err(|e| Fail { sig: "C20:parse".into(), msg: e })?;
            let (a, b) = (TData::String(t.clone()), TData::String(n.clone()));
            let r = run_exp(&tpl, &[&a, &b], &mut BasicTemps::new(), fm());
            let r = r.map(|(_, ex)| ex.get("r").map(V::from_td));
            crate::ensure!(matches!(&r, Ok(Some(V::Str(g))) if *g == t), "C20:split-join", "splitting {:?} on {:?} and joining gives {:?}", t, n, r);
            Ok(())
        }
        3 => {
            ctx.class("join_with");
            let sep = shown(s);
            let l: Vec<V> = (0..s.count(0, 5)).map(|_| shown(s)).collect();
            ctx.nontrivial = l.len() > 1;
            let w = l.iter().map(|v| v.display()).collect::<Vec<_>>().join(&sep.display());
            if s.chance(1, 10) {
                return expect(ctx, s, "C20:join_with", "join_with", &[sep, V::s("x")], None);
            }
            expect(ctx, s, "C20:join_with", "join_with", &[sep, V::List(l)], Some(V::s(w)))
        }
        4 => {
            ctx.class("str_contains");
            let n = needle(s);
            let t = if s.chance(1, 6) { shown(s) } else { V::s(around(s, &n)) };
            let mut a = vec![t.clone()];
            let many = s.count(0, 3);
            // many: the last ones decide
            let rare = many > 3 && s.chance(2, 3);
            for i in 0..many {
                if rare && i + 2 < many {
                    a.push(V::s(format!("\u{1}{}", i)));
                    continue;
                }
                a.push(match s.draw(4) {
                    0 => V::s(n.clone()),
                    1 => V::s(needle(s)),
                    2 => {
                        // something in it, or nearly
                        let d: Vec<char> = t.display().chars().collect();
                        let i = s.draw(d.len() as u64 + 1) as usize;
                        let k = s.draw(4) as usize;
                        let mut x: String = d[i..(i + k).min(d.len())].iter().collect();
                        if s.chance(1, 4) {
                            x.push('q');
                        }
                        V::s(x)
                    }
                    _ => shown(s),
                });
            }
            ctx.nontrivial = a.len() > 1;
            let tc: Vec<char> = t.display().chars().collect();
            let want = if a.len() < 2 {
                None
            } else {
                Some(V::Bool(a[1..].iter().any(|n| {
                    let n: Vec<char> = n.display().chars().collect();
                    (0..=tc.len()).any(|i| at(&tc, &n, i))
                })))
            };
            expect(ctx, s, "C20:str_contains", "str_contains", &a, want)
        }
        5 => {
            let n = needle(s);
            let t = around(s, &n);
            let by = match s.draw(4) {
                0 => n.clone() + "x",
                1 => String::new(),
                2 => (*s.pick(&["$0", "$1", "\\0", "&"])).to_string(),
                _ => gen_string(s, 4),
            };
            ctx.nontrivial = t.contains(&n);
            if s.chance(1, 2) {
                ctx.class("str_replace");
                let mut a = vec![V::s(t.clone()), V::s(n.clone()), V::s(by.clone())];
                if s.chance(1, 12) {
                    a.pop();
                    return expect(ctx, s, "C20:str_replace", "str_replace", &a, None);
                }
                expect(ctx, s, "C20:str_replace", "str_replace", &a, Some(V::s(replaced(&t, &n, &by, usize::MAX))))
            } else {
                ctx.class("str_replace_n");
                let mut a = vec![V::s(t.clone()), V::s(n.clone()), V::s(by.clone())];
                let k = match s.draw(5) {
                    0 => 1,
                    k => {
                        let v = match k {
                            1 => V::UInt(gen_uint(s)),
                            2 => V::UInt(s.draw(6) as usize),
                            3 => V::Int(s.draw(6) as isize),
                            _ => V::UInt(s.draw(400) as usize),
                        };
                        a.push(v.clone());
                        v.index().unwrap()
                    }
                };
                expect(ctx, s, "C20:str_replace_n", "str_replace_n", &a, Some(V::s(replaced(&t, &n, &by, k))))
            }
        }
        6 => {
            ctx.class("string_from_ints");
            let a: Vec<V> = (0..s.count(0, 6))
                .map(|_| match s.draw(4) {
                    0 => V::UInt(gen_char(s) as usize),
                    1 => V::Int(gen_char(s) as isize),
                    2 => V::UInt(gen_uint(s)),
                    _ => V::UInt(*s.pick(&[0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000])),
                })
                .collect();
            ctx.nontrivial = !a.is_empty();
            let w: String = a.iter().filter_map(|v| v.index().and_then(|n| if n < 0x110000 { char::from_u32(n as u32) } else { None })).collect();
            expect(ctx, s, "C20:string_from_ints", "string_from_ints", &a, Some(V::s(w)))
        }
        7 => c20_regex(s, ctx),
        _ => {
            // the same display everywhere
            ctx.class("display");
            ctx.nontrivial = true;
            let v = shown(s);
            let d = v.display();
            ctx.note(v.canon());
            ctx.op("display");
            let t = parse("{{$0}}|{{cat $0}}|{{str_replace $0 \"\u{1}\" \"\"}}|{{join_with \"\" [$0]}}|{{for k v in [$0]}}{{$v}}{{/for}}|{{@cat}}{{$0}}{{/cat}}|{{let x = $0}}{{$x}}").map_err(|e| Fail { sig: "C20:parse".into(), msg: e })?;
            let td = v.td();
            let got = run(&t, &[&td], &mut BasicTemps::new(), fm());
            let r = d.replace('\u{1}', "");
            let want = format!("{d}|{d}|{r}|{d}|{d}|{d}|{d}");
            crate::ensure!(got.as_ref().ok() == Some(&want), "C20:display", "{} displays as {:?}\nexpected {:?}", v.canon(), got, want);
            expect(ctx, s, "C20:str_contains", "str_contains", &[v.clone(), V::s(d)], Some(V::Bool(true)))
        }
    }
}
// a regular expression and what it means
const MANY: usize = usize::MAX;
enum Re {
    Ch(char),
    Dot,
    Set(bool, Vec<(char, char)>),
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, usize, bool),
    Start,
    End,
}
fn gen_re(s: &mut Source, depth: usize) -> Re {
    let w = if depth == 0 { 0 } else { 1 };
    match s.weighted(&[10, 2, 3, 4 * w, 3 * w, 4 * w, 1, 1]) {
        0 => Re::Ch(*s.pick(&['a', 'b', 'c', 'é', ' ', '.', '1', '\n', 'A', '🐟'])),
        1 => Re::Dot,
        2 => {
            let n = s.size(1, 2);
            Re::Set(s.chance(1, 3), (0..n).map(|_| *s.pick(&[('a', 'b'), ('a', 'a'), ('0', '9'), ('c', 'c'), ('A', 'Z'), ('a', 'z')])).collect())
        }
        3 => Re::Seq((0..s.count_to(0, 4, 30)).map(|_| gen_re(s, depth - 1)).collect()),
        4 => Re::Alt((0..s.count_to(2, 3, 20)).map(|_| gen_re(s, depth - 1)).collect()),
        5 => {
            let x = Box::new(gen_re(s, depth - 1));
            let (a, b) = *s.pick(&[(0, MANY), (1, MANY), (0, 1), (2, 2), (1, 3)]);
            Re::Rep(x, a, b, s.chance(1, 4))
        }
        6 => Re::Start,
        _ => Re::End,
    }
}
fn re_text(r: &Re) -> String {
    let atom = |r: &Re| match r {
        Re::Ch(_) | Re::Dot | Re::Set(..) => re_text(r),
        _ => format!("({})", re_text(r)),
    };
    match r {
        Re::Ch('.') => "\\.".into(),
        Re::Ch('\n') => "\\n".into(),
        Re::Ch(c) => c.to_string(),
        Re::Dot => ".".into(),
        Re::Set(n, v) => format!("[{}{}]", if *n { "^" } else { "" }, v.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{}-{}", a, b) }).collect::<String>()),
        Re::Seq(v) => v.iter().map(|x| match x {
            Re::Alt(_) => format!("({})", re_text(x)),
            x => re_text(x),
        }).collect(),
        Re::Alt(v) => v.iter().map(|x| atom(x)).collect::<Vec<_>>().join("|"),
        Re::Rep(x, a, b, lazy) => format!("{}{}{}", atom(x), match (*a, *b) {
            (0, MANY) => "*".to_string(),
            (1, MANY) => "+".to_string(),
            (0, 1) => "?".to_string(),
            (a, b) if a == b => format!("{{{}}}", a),
            (a, b) => format!("{{{},{}}}", a, b),
        }, if *lazy { "?" } else { "" }),
        Re::Start => "^".into(),
        Re::End => "$".into(),
    }
}
fn re_ends(r: &Re, t: &[char], from: &BTreeSet<usize>) -> BTreeSet<usize> {
    let one = |f: &dyn Fn(char) -> bool| from.iter().filter(|i| **i < t.len() && f(t[**i])).map(|i| i + 1).collect();
    match r {
        Re::Ch(c) => one(&|x| x == *c),
        Re::Dot => one(&|x| x != '\n'),
        Re::Set(n, v) => one(&|x| v.iter().any(|(a, b)| *a <= x && x <= *b) != *n),
        Re::Seq(v) => v.iter().fold(from.clone(), |f, x| re_ends(x, t, &f)),
        Re::Alt(v) => v.iter().flat_map(|x| re_ends(x, t, from)).collect(),
        Re::Start => from.iter().filter(|i| **i == 0).cloned().collect(),
        Re::End => from.iter().filter(|i| **i == t.len()).cloned().collect(),
        Re::Rep(x, a, b, _) => {
            let mut cur = from.clone();
            let mut all = if *a == 0 { from.clone() } else { BTreeSet::new() };
            for k in 1..=*b {
                cur = re_ends(x, t, &cur);
                if k >= *a {
                    let n = all.len();
                    all.extend(cur.iter());
                    if all.len() == n && k > *a {
                        break;
                    }
                }
                if cur.is_empty() {
                    break;
                }
            }
            all
        }
    }
}
fn re_sample(s: &mut Source, r: &Re, out: &mut String) {
    match r {
        Re::Ch(c) => out.push(*c),
        Re::Dot => out.push(gen_char(s)),
        Re::Set(_, v) => out.push(v[0].0),
        Re::Seq(v) => v.iter().for_each(|x| re_sample(s, x, out)),
        Re::Alt(v) => {
            let i = s.draw(v.len() as u64) as usize;
            re_sample(s, &v[i], out)
        }
        Re::Rep(x, a, b, _) => {
            let n = s.size(*a, (*b).min(a + 2));
            for _ in 0..n {
                re_sample(s, x, out);
            }
        }
        _ => {}
    }
}
fn c20_regex(s: &mut Source, ctx: &mut Ctx) -> R {
    ctx.class("regex");
    ctx.nontrivial = true;
    if s.chance(1, 12) {
        let bad = *s.pick(&["(", "[", "a)", "*", "a{", "[z-a]", "\\", "(?P<", "+a"]);
        let bad = if bad == "a{" { "a{1" } else { bad };
        return expect(ctx, s, "C20:regex", "regex", &[V::s("a"), V::s(bad)], None);
    }
    let r = gen_re(s, 3);
    let mut t = String::new();
    if s.chance(1, 3) {
        t.push_str(&gen_string(s, 2));
    }
    match s.draw(3) {
        0 => (0..s.size(0, 5)).for_each(|_| t.push(*s.pick(&['a', 'b', 'c', '1', '\n', 'A', 'é']))),
        _ => re_sample(s, &r, &mut t),
    }
    if s.chance(1, 3) {
        t.push(*s.pick(&['a', '\n', 'z']));
    }
    let t: String = t.chars().take(200).collect();
    let tc: Vec<char> = t.chars().collect();
    let m = !re_ends(&r, &tc, &(0..=tc.len()).collect()).is_empty();
    ctx.class(if m { "regex-match" } else { "regex-none" });
    expect(ctx, s, "C20:regex", "regex", &[V::s(t), V::s(re_text(&r))], Some(V::Bool(m)))
}

// ------------------------------------------------------------------ C21
fn unescape(t: &str) -> Result<String, String> {
    let mut r = String::new();
    let mut rest = t;
    while let Some(c) = rest.chars().next() {
        match c {
            '<' | '>' | '"' | '\'' => return Err(format!("raw {:?}", c)),
            '&' => {
                let end = rest.find(';').ok_or("bare &")?;
                let e = &rest[1..end];
                let c = match e {
                    "amp" => '&',
                    "lt" => '<',
                    "gt" => '>',
                    "quot" => '"',
                    "apos" => '\'',
                    _ => {
                        let n = if let Some(h) = e.strip_prefix("#x").or(e.strip_prefix("#X")) {
                            u32::from_str_radix(h, 16).ok()
                        } else if let Some(d) = e.strip_prefix('#') {
                            d.parse().ok()
                        } else {
                            None
                        };
                        n.and_then(char::from_u32).ok_or(format!("bare & before {:?}", e))?
                    }
                };
                r.push(c);
                rest = &rest[end + 1..];
            }
            c => {
                r.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
    }
    Ok(r)
}
fn esc_text(s: &mut Source) -> V {
    match s.draw(5) {
        0 => shown(s),
        1 => V::s((0..s.count(0, 4)).map(|_| *s.pick(&["&amp;", "&lt;", "&#39;", "&", "&;", "amp;", "<b>", "</b>", "\"'", "<!--", "]]>", "&#x26;", "&&"])).collect::<String>()),
        _ => V::s((0..s.count(0, 8)).map(|_| if s.chance(1, 2) { *s.pick(&['<', '>', '&', '"', '\'', ';', '#']) } else { gen_char(s) }).collect::<String>()),
    }
}
fn attrs(t: &str) -> Option<Vec<(String, String)>> {
    let mut r = vec![];
    let mut t = t.trim();
    while !t.is_empty() {
        let (n, rest) = t.split_once("=\"")?;
        let (v, rest) = rest.split_once('"')?;
        if n.is_empty() || n.chars().any(|c| !(c.is_ascii_alphanumeric() || c == '-')) || !(rest.is_empty() || rest.starts_with(' ')) {
            return None;
        }
        r.push((n.to_string(), v.to_string()));
        t = rest.trim_start();
    }
    Some(r)
}
fn c21(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(3, 5) {
        let f = *s.pick(&["html_esc", "xml_esc"]);
        let a: Vec<V> = (0..s.count(0, 3)).map(|_| esc_text(s)).collect();
        let want: String = a.iter().map(|v| v.display()).collect();
        ctx.note(format!("{} {}", f, show_args(&a)));
        ctx.class(f);
        ctx.op(f);
        ctx.nontrivial = want.contains(|c| "<>&\"'".contains(c));
        let got = if s.chance(1, 4) && a.len() == 1 {
            // as a block
            let t = parse(&format!("{{{{@{f}}}}}{{{{$0}}}}{{{{/{f}}}}}")).map_err(|e| Fail { sig: "C21:parse".into(), msg: e })?;
            run(&t, &[&a[0].td() as &dyn TParam], &mut BasicTemps::new(), fm()).map(V::s)
        } else {
            invoke(s, f, &a)
        };
        match &got {
            Ok(V::Str(g)) => match unescape(g) {
                Ok(back) => crate::ensure!(back == want, format!("C21:{}", f), "{} {}\ngives {:?}\nwhich reads back as {:?}", f, show_args(&a), g, back),
                Err(e) => crate::bail!(format!("C21:{}", f), "{} {}\ngives {:?}\nwith {}", f, show_args(&a), g, e),
            },
            _ => crate::bail!(format!("C21:{}", f), "{} {}\ngives {}", f, show_args(&a), res_canon(&got)),
        }
        return Ok(());
    }
    let (f, names, united, unit_at): (&'static str, &[&str], usize, usize) = match s.draw(6) {
        0 => ("xy", &["x", "y"], 0, 2),
        1 => ("xywh", &["x", "y", "width", "height"], 0, 4),
        2 => ("cxyrr", &["cx", "cy", "rx", "ry"], 0, 4),
        3 => ("xy12", &["x", "y", "x2", "y2"], 0, 4),
        4 => ("fl_stk", &["fill", "stroke", "stroke-width"], 2, 3),
        _ => ("font", &["font-size", "font-family"], 0, 2),
    };
    let need = if f == "font" { 1 } else { names.len() };
    let least = if s.chance(1, 6) { 0 } else { need };
    let n = s.size(least, unit_at + 1);
    let a: Vec<V> = (0..n)
        .map(|i| {
            let v = match s.draw(5) {
                0 => shown(s),
                1 => V::Float(gen_float(s, false)),
                2 => V::Int(s.range(-500, 500) as isize),
                3 if i == unit_at => V::s(*s.pick(&["mm", "px", "%", "em", ""])),
                3 => V::s(*s.pick(&["red", "#fa0", "none", "Deja Vu", ""])),
                _ => V::UInt(s.draw(300) as usize),
            };
            let d = v.display();
            if d.contains('"') {
                V::s(d.replace('"', "'"))
            } else {
                v
            }
        })
        .collect();
    ctx.class(f);
    ctx.nontrivial = true;
    ctx.op(f);
    ctx.note(format!("{} {}", f, show_args(&a)));
    let got = invoke(s, f, &a);
    if n < need {
        crate::ensure!(got.is_err(), format!("C21:{}:missing", f), "{} {}\ngives {}", f, show_args(&a), res_canon(&got));
        return Ok(());
    }
    let unit = a.get(unit_at).map_or(String::new(), |v| v.display());
    let want: Vec<(String, String)> = names.iter().enumerate().filter(|(i, _)| *i < n).map(|(i, k)| {
        let u = match f {
            "fl_stk" => i == 2,
            "font" => i == 0,
            _ => i >= united,
        };
        (k.to_string(), a[i].display() + if u { &unit } else { "" })
    }).collect();
    match &got {
        Ok(V::Str(g)) if attrs(g).as_ref() == Some(&want) => Ok(()),
        _ => crate::bail!(format!("C21:{}", f), "{} {}\ngives {}\nexpected {:?}", f, show_args(&a), res_canon(&got), want),
    }
}

// ------------------------------------------------------------------ C24
/// absolute or not, and the components
fn comps(p: &str) -> (bool, Vec<String>) {
    let abs = p.starts_with('/');
    let mut v: Vec<String> = vec![];
    for (i, c) in p.split('/').enumerate() {
        if c.is_empty() || (c == "." && (i > 0 || abs)) {
            continue;
        }
        v.push(c.to_string());
    }
    (abs, v)
}
fn put(abs: bool, v: &[String]) -> String {
    format!("{}{}", if abs { "/" } else { "" }, v.join("/"))
}
/// nothing to normalise
fn clean(p: &str) -> bool {
    let (a, v) = comps(p);
    put(a, &v) == p
}
fn joined(a: &[V]) -> String {
    let mut r = String::new();
    for v in a {
        let d = v.display();
        if d.starts_with('/') {
            r = d;
        } else {
            if !r.is_empty() && !r.ends_with('/') {
                r.push('/');
            }
            r.push_str(&d);
        }
    }
    r
}
fn split_name(n: &str) -> (String, Option<String>) {
    match n.rfind('.') {
        Some(i) if i > 0 => (n[..i].to_string(), Some(n[i + 1..].to_string())),
        _ => (n.to_string(), None),
    }
}
fn path_name(s: &mut Source) -> String {
    match s.draw(8) {
        0 | 1 => (*s.pick(&["a", "b", "c", "dir"])).to_string(),
        2 => format!("{}.{}", gen_word(s), s.pick(&["txt", "md", "tar.gz", "", "é"])),
        3 => (*s.pick(&[".hid", ".hid.txt", "a.", "..x", "a..b", "...", "-", "~", "名.🐟", "a b.c d", "\\"])).to_string(),
        4 => (*s.pick(&["..", ".", "", ".."])).to_string(),
        _ => {
            let t: String = gen_string(s, 4).replace(['/', '\0'], "_");
            t
        }
    }
}
fn path_piece(s: &mut Source) -> V {
    if s.chance(1, 14) {
        return s.pick(&[V::UInt(1), V::Float(1.5), V::Int(-2), V::Bool(true), V::Date(2020, 1, 2)]).clone();
    }
    let n = s.count_to(0, 4, 60);
    let mut t = String::new();
    if s.chance(1, 5) {
        t.push('/');
    }
    for i in 0..n {
        if i > 0 {
            t.push_str(if s.chance(1, 10) { "//" } else { "/" });
        }
        t.push_str(&path_name(s));
    }
    if s.chance(1, 8) {
        t.push('/');
    }
    V::s(t)
}
fn same_path(want: (bool, &[String]), got: &str, exact: bool) -> bool {
    let (a, v) = comps(got);
    a == want.0 && v == want.1 && (!exact || put(want.0, want.1) == got)
}
fn c24(s: &mut Source, ctx: &mut Ctx) -> R {
    let f = *s.pick(&["join", "parent", "base_name", "base_name_sure", "stem", "full_stem", "with_ext", "bread_crumbs"]);
    let n = s.count_to(if f == "with_ext" { 1 } else { 0 }, 3, 40);
    let mut a: Vec<V> = (0..n).map(|_| path_piece(s)).collect();
    if f == "with_ext" {
        a.truncate(1);
    }
    let p = joined(&a);
    let (abs, v) = comps(&p);
    let exact = clean(&p);
    let name = v.last().filter(|n| *n != ".." && *n != ".").cloned();
    if name.as_ref().map_or(false, |n| matches!(&*split_name(n).0, "." | "..")) {
        // what is left of the name is no name
        return Ok(());
    }
    ctx.class(f);
    ctx.class_if(exact, "clean");
    ctx.class_if(name.is_none(), "no-name");
    ctx.nontrivial = !v.is_empty();
    ctx.op(f);
    let sig = format!("C24:{}", f);
    let bad = |got: &Result<V, String>, want: String, a: &[V]| -> R { fail(sig.clone(), format!("{} {}\nexpected: {}\n     got: {}", f, show_args(a), want, res_canon(got))) };
    let as_path = |got: &Result<V, String>| match got {
        Ok(V::Str(g)) => Some(g.clone()),
        _ => None,
    };
    match f {
        "join" => expect(ctx, s, &sig, f, &a, Some(V::s(p))),
        "base_name" => expect(ctx, s, &sig, f, &a, name.map(V::s)),
        "base_name_sure" => expect(ctx, s, &sig, f, &a, Some(V::s(name.unwrap_or_default()))),
        "stem" => expect(ctx, s, &sig, f, &a, name.map(|n| V::s(split_name(&n).0))),
        "full_stem" => match name {
            None => expect(ctx, s, &sig, f, &a, None),
            Some(n) => {
                ctx.note(format!("{} {}", f, show_args(&a)));
                let mut w = v.clone();
                *w.last_mut().unwrap() = split_name(&n).0;
                let got = invoke(s, f, &a);
                match as_path(&got) {
                    Some(g) if same_path((abs, &w), &g, exact) => Ok(()),
                    _ => bad(&got, put(abs, &w), &a),
                }
            }
        },
        "with_ext" => {
            let ext = match s.draw(6) {
                0 => String::new(),
                1 => (*s.pick(&["a/b", "/", "x/"])).to_string(),
                2 => gen_string(s, 3),
                _ => (*s.pick(&["md", "tar.gz", "é", "x y"])).to_string(),
            };
            let ext = ext.replace('\0', "_");
            a.push(V::s(ext.clone()));
            if ext.contains('/') {
                return expect(ctx, s, &sig, f, &a, None);
            }
            ctx.note(format!("{} {}", f, show_args(&a)));
            let mut w = v.clone();
            if let Some(n) = name {
                let st = split_name(&n).0;
                *w.last_mut().unwrap() = if ext.is_empty() { st } else { format!("{}.{}", st, ext) };
            }
            let got = invoke(s, f, &a);
            match as_path(&got) {
                Some(g) if same_path((abs, &w), &g, exact) => Ok(()),
                _ => bad(&got, put(abs, &w), &a),
            }
        }
        "parent" => {
            ctx.note(format!("{} {}", f, show_args(&a)));
            let got = invoke(s, f, &a);
            let w = &v[..v.len().saturating_sub(1)];
            // the root and nothing have no parent
            let wabs = abs && !v.is_empty();
            match as_path(&got) {
                Some(g) if same_path((wabs, w), &g, exact) => Ok(()),
                _ => bad(&got, put(wabs, w), &a),
            }
        }
        _ => {
            ctx.note(format!("{} {}", f, show_args(&a)));
            let got = invoke(s, f, &a);
            let want: Vec<String> = (0..=v.len()).map(|i| put(abs, &v[..i])).collect();
            let ok = match &got {
                Ok(V::List(l)) => {
                    l.len() == want.len()
                        && l.iter().enumerate().all(|(i, g)| match g {
                            V::Str(g) => same_path((abs, &v[..i]), g, exact),
                            _ => false,
                        })
                        && l.last().map_or(false, |g| g.same(&V::s(p.clone())))
                }
                _ => false,
            };
            if ok {
                Ok(())
            } else {
                bad(&got, format!("{:?}", want), &a)
            }
        }
    }
}

// ------------------------------------------------------------------ C32
fn wrap_text(s: &mut Source) -> String {
    let mut t = String::new();
    for _ in 0..s.count(0, 14) {
        match s.draw(12) {
            0..=5 => (0..s.count(1, 9)).for_each(|_| {
                let c = if s.chance(1, 6) { *s.pick(&['é', '名', '🐟', '-', '.', '\u{301}', '\u{a0}', '\u{3000}', '\u{200b}']) } else { (b'a' + s.draw(26) as u8) as char };
                t.push(c)
            }),
            6 => t.push('\n'),
            7 => t.push_str(*s.pick(&["\t", "  ", " \n", "\n ", "\r\n", "\n\n", "\t \t", "\r"])),
            8 => t.push_str(&gen_string(s, 5)),
            _ => {}
        }
        if s.chance(3, 4) {
            t.push(' ');
        }
    }
    t
}
fn c32(s: &mut Source, ctx: &mut Ctx) -> R {
    let v = if s.chance(1, 12) { shown(s) } else { V::s(wrap_text(s)) };
    let width = match s.draw(6) {
        0 => s.size(1, 4),
        1 => s.size(30, 100),
        2 => match s.draw(3) {
            0 => s.size(100, 700),
            1 => s.size(700, 5000),
            _ => gen_uint(s).max(1),
        },
        _ => s.size(4, 14),
    };
    let wv = if s.chance(1, 4) && width <= isize::MAX as usize { V::Int(width as isize) } else { V::UInt(width) };
    let a = [v.clone(), wv];
    let text: Vec<char> = v.display().chars().collect();
    ctx.note(format!("word_wrap {}", show_args(&a)));
    ctx.op("word_wrap");
    let blank = |c: char| c == ' ' || c == '\t' || c == '\n' || c == '\r';
    let got = invoke(s, "word_wrap", &a);
    let lines: Vec<Vec<char>> = match &got {
        Ok(V::List(l)) if l.iter().all(|x| matches!(x, V::Str(_))) => l.iter().map(|x| x.display().chars().collect()).collect(),
        _ => crate::bail!("C32:result", "word_wrap {}\ngives {}", show_args(&a), res_canon(&got)),
    };
    let show = format!("word_wrap {}\ngives {}", show_args(&a), res_canon(&got));
    ctx.nontrivial = lines.len() > 1;
    ctx.class(match lines.len() {
        0 | 1 => "one-line",
        2..=4 => "few-lines",
        _ => "many-lines",
    });
    for l in &lines {
        crate::ensure!(l.len() <= width, "C32:width", "{}\nwith a line longer than {}: {:?}", show, width, l.iter().collect::<String>());
        if let (Some(x), Some(y)) = (l.first(), l.last()) {
            crate::ensure!(!blank(*x) && !blank(*y), "C32:blanks", "{}\nwith blanks at the end of a line", show);
        }
    }
    // single blanks and line breaks between words: what would still fit is not put on a new line
    let plain = !text.first().map_or(true, |c| blank(*c)) && !text.iter().any(|c| *c == '\t' || *c == '\r') && !text.windows(2).any(|w| blank(w[0]) && blank(w[1]));
    // where the non-blank characters are in the text
    let solid: Vec<usize> = (0..text.len()).filter(|i| !blank(text[*i])).collect();
    let mut k = 0; // solid characters used up
    for (n, l) in lines.iter().enumerate() {
        let from = k;
        for c in l.iter().filter(|c| !blank(**c)) {
            crate::ensure!(k < solid.len() && text[solid[k]] == *c, "C32:lost", "{}\nline {} does not hold the characters of the text in order", show, n);
            k += 1;
        }
        if k > from {
            // a piece of the text, with no line break inside
            let piece = &text[solid[from]..=solid[k - 1]];
            crate::ensure!(!piece.contains(&'\n'), "C32:line-break", "{}\nline {} runs over a line break", show, n);
            crate::ensure!(piece == &l[..], "C32:piece", "{}\nline {} is no piece of the text", show, n);
        }
        if plain && k > from && from > 0 && !text[solid[from - 1]..solid[from]].contains(&'\n') {
            let last = lines[n - 1].len();
            let cut = solid[from] == solid[from - 1] + 1;
            let word = (solid[from]..text.len()).take_while(|i| !blank(text[*i])).count();
            ctx.class("broken-where-full");
            crate::ensure!(if cut { last + 1 >= width } else { last + 1 + word >= width }, "C32:early", "{}\nline {} would have had room on the line before", show, n);
        }
        if k > from && from > 0 {
            // the break before this line: inside a word?
            let (x, y) = (solid[from - 1], solid[from]);
            let sep = |c: char| c == ' ' || c == '\t' || c == '\n';
            if !text[x..=y].iter().any(|c| sep(*c)) {
                let start = (0..=x).rev().find(|i| sep(text[*i])).map_or(0, |i| i + 1);
                let end = (y..text.len()).find(|i| sep(text[*i])).unwrap_or(text.len());
                ctx.class("word-cut");
                crate::ensure!(end - start >= width, "C32:cut", "{}\ncuts {:?} before line {}", show, text[start..end].iter().collect::<String>(), n);
            }
        }
    }
    crate::ensure!(k == solid.len(), "C32:lost", "{}\nlost {:?}", show, text[solid[k]..].iter().collect::<String>());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "texts built around their separators and needles, values of all displayable kinds, regular expressions with their own matcher, against naive definitions; non-trivial: the needle occurs, or more than one argument",
            quick: 700_000,
            factor: 40,
            fuel: 20_000_000,
            run: c20,
            pins: vec![],
            assumptions: vec!["replacing the empty string is left out", "numbers that are no code points are skipped by string_from_ints"],
        },
        Prop {
            id: "C21",
            rule: "texts full of special characters and entities, decoded by an independent reader; svg helpers with every number of arguments, parsed as attributes; non-trivial: something to escape, or any svg call",
            quick: 1_000_000,
            factor: 40,
            fuel: 20_000_000,
            run: c21,
            pins: vec![],
            assumptions: vec!["svg values are free of double quotes (xml_esc is there for others)"],
        },
        Prop {
            id: "C24",
            rule: "paths with dots, hidden names, empty and climbing parts, in up to three pieces, against component lists; non-trivial: at least one component",
            quick: 1_200_000,
            factor: 40,
            fuel: 20_000_000,
            run: c24,
            pins: vec![],
            assumptions: vec!["paths with doubled slashes, '.' parts or a closing slash are compared by components", "unix paths"],
        },
        Prop {
            id: "C32",
            rule: "texts of words of all lengths, blanks and line breaks, widths 1 to 100; non-trivial: more than one line",
            quick: 900_000,
            factor: 40,
            fuel: 20_000_000,
            run: c32,
            pins: vec![],
            assumptions: vec!["a word ends at a space, tab or line break", "width 0 is left out"],
        },
    ]
}
