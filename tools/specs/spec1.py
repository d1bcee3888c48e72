T='src/funcs/table.rs'; TP='src/template.rs'; PE='src/parse/expr.rs'; PT='src/parse/template.rs'; EX='src/expr.rs'
S('s01a','C01',[(T,"            if r_len <= 3{","            if r_len < 1{")],
'''fn main() {
    // a line of text without bars is no row; reading it must not panic
    let r = render("{{table $0}}", &[&"| a | b |\\nplain text\\n"]);
    assert!(r.is_ok(), "{:?}", r);
    let r = render("{{table $0}}", &[&"a"]);
    assert!(r.is_ok(), "{:?}", r);
}''',"table notation with a line that holds no bar at all","The guard that skips rows with too few bars is off, so slicing row[1..0] panics")
S('s02a','C02',[('src/funcs/lists.rs',"                s.get(start..e).e_str(\"slice out of range\")?.to_string(),","                s[start..e.min(s.len())].to_string(),")],
'''fn main() {
    let r = render("{{slice $0 0 1}}", &[&"\\u{e9}t\\u{e9}"]);
    assert!(r.is_err(), "{:?}", r);
    let r = render("{{slice \\"abc\\" 9 12}}", &[]);
    assert!(r.is_err(), "{:?}", r);
}''',"slice of a string at a byte that is no character boundary, or past its end","slice panics instead of giving an error")
S('s02b','C02',[('src/funcs/strings.rs',"""    let n = l[1]
        .as_usize()""","""    let n = l[1]
        .as_usize()
        .map(|n| n - 1)"""),('src/funcs/strings.rs',"        if count >= len {","        if count > len {")],
'''fn main() {
    let r = render("{{word_wrap $0 0}}", &[&"some text"]);
    println!("{:?}", r);
    let r = render("{{word_wrap $0 5}}", &[&"some text"]);
    assert!(r.is_ok());
}''',"word_wrap with a width of 0","the width is taken minus one, which overflows for 0 (a panic in a debug build)")
S('s03a','C03',[(PT,'''        ("\\\\",WN.plus(),maybe("\\\\")).map(|_|String::new()),''','''        ("\\\\"," \\n\\t".plus(),maybe("\\\\")).map(|_|String::new()),''')],
'''fn main() {
    gives("a\\\\\\r\\n b", &[], "ab");
    gives("a\\\\\\n b", &[], "ab");
    gives("a\\\\ \\r\\n\\\\b", &[], "ab");
}''',"a backslash before a line break of the CR LF kind","a backslash does not remove carriage returns")
S('s03b','C03',[(PT,"""        not(" \\n\\t\\r{\\\\").plus(),""","""        not(" \\n\\t{\\\\").plus(),"""),(PT,"""        WN.plus(),
        not""","""        " \\n\\t".plus(),
        not""")],
'''fn main() {
    gives("a\\r\\n{{- 1}}", &[], "a1");
    gives("a\\r\\nb", &[], "a\\r\\nb");
}''',"carriage returns before a {{- tag","a \\\\r counts as text, so {{- leaves it")
S('s04a','C04',[(PE,"""        "\\"\\\\/".one(),""","""        "\\"\\\\".one(),""")],
'''fn main() {
    assert_eq!(TData::from_str(r#""a\\/b""#).unwrap(), TData::String("a/b".to_string()));
}''',"a string with the escape \\\\/","a string literal with \\\\/ is rejected")
S('s04b','C04',[(PE,"""        'b'.asv('\\u{08}'),
        'f'.asv('\\u{0C}'),""","""        'b'.asv('\\u{08}'),
        'f'.asv('\\u{0B}'),""")],
'''fn main() {
    assert_eq!(TData::from_str(r#""\\f""#).unwrap(), TData::String("\\u{c}".to_string()));
}''',"the escape \\\\f","\\\\f denotes a vertical tab")
S('s04c','C04',[(PE,"""        "sep".asv(9),
        "oct".asv(10),""","""        "oct".asv(10),
        "sep".asv(9),"""),(PE,"""        "jun".asv(6),
        "jul".asv(7),""","""        "jun".asv(6),
        "jul".asv(6),""")],
'''fn main() {
    for (n, s) in ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"].iter().enumerate() {
        assert_eq!(TData::from_str(&format!("3/{}/2001", s)).unwrap().to_string(), format!("03/{:02}/2001", n + 1));
    }
}''',"a date with the month given as jul","jul denotes June")
S('s05a','C05',[(EX,"""    let mut v = Vec::new();
    for p in args {
        let pval = p.run(scope, tm, fm)?;
        v.push(pval);
    }
    run_values""","""    let mut v = Vec::with_capacity(args.len());
    for p in args.iter().rev() {
        let pval = p.run(scope, tm, fm)?;
        v.push(pval);
    }
    v.reverse();
    run_values""")],
'''use std::sync::{Arc, Mutex};
fn main() {
    let log = Arc::new(Mutex::new(String::new()));
    let l = log.clone();
    let fm = default_func_man().with_f("note", Box::new(move |a| { l.lock().unwrap().push_str(&a[0].to_string()); Ok(a[0].clone()) }), "");
    let t = TreeTemplate::from_str("{{cat (note 1) (note 2) (note 3)}}").unwrap();
    assert_eq!(t.run(&[], &mut NoTemplates, &fm).unwrap(), "123");
    assert_eq!(*log.lock().unwrap(), "123");
}''',"arguments with a side effect (or a call that fails after one)","arguments are evaluated from right to left")
S('s05b','C05',[(EX,"""                for (k, v) in m {
                    let r = v.run(scope, tm, fm)?;
                    res.insert(k.clone(), r.into_owned());""","""                for (k, v) in m {
                    let r = v.run(scope, tm, fm)?;
                    res.entry(k.clone()).or_insert(r.into_owned());""")],
'''fn main() {
    gives("{{let m = {a:1,b:2,a:3}}}{{$m.a}}", &[], "3");
}''',"a map expression that names a key twice","the first value of a repeated key wins instead of the last")
S('s06a','C06',[(EX,"""        for p in args {
            if let Ok(res) = p.run(scope, tm, fm) {
                if""","""        let all: Vec<_> = args.iter().map(|p| p.run(scope, tm, fm)).collect();
        for p in all {
            if let Ok(res) = p {
                if""")],
'''use std::sync::{Arc, Mutex};
fn main() {
    let log = Arc::new(Mutex::new(String::new()));
    let l = log.clone();
    let fm = default_func_man().with_f("note", Box::new(move |a| { l.lock().unwrap().push_str(&a[0].to_string()); Ok(a[0].clone()) }), "");
    let t = TreeTemplate::from_str("{{first $no (note 1) (note 2)}}").unwrap();
    assert_eq!(t.run(&[], &mut NoTemplates, &fm).unwrap(), "1");
    assert_eq!(*log.lock().unwrap(), "1");
}''',"a later argument of first with a side effect","first evaluates all of its arguments")
S('s06b','C06',[(EX,"""            2 - (b as usize)
        } else {
            return e""","""            1 + (!b as usize)
        } else if let Some(f) = bval.as_float() {
            1 + f as usize
        } else {
            return e"""),(EX,"""        } else if let Some(b) = bval.as_bool() {""","""        } else if let Some(b) = bval.as_float().is_none().then(|| bval.as_bool()).flatten() {""")],
'''fn main() {
    gives("{{select -1 10 20 30}}", &[], "10");
    gives("{{select 0.0 10 20 30}}", &[], "20");
    gives("{{select true 10 20 30}}", &[], "10");
}''',"select with a float or a negative number","a float selector counts as an index instead of by its truth value")
S('s07a','C07',[('src/tdata.rs',"            TData::Float(f) => Some(*f != 0.),","            TData::Float(f) => Some(*f > 0.),")],
'''fn main() {
    gives("{{if -0.5}}y{{else}}n{{/if}}", &[], "y");
    gives("{{if 0.5}}y{{else}}n{{/if}}", &[], "y");
}''',"a negative float as condition","negative floats do not hold")
S('s07b','C07',[(TP,"                let pres = cond.run(&scope, tm, fm).unwrap_or(TCow::Owned(TData::Null));","""                let pres = match cond {
                    Expr::Var(_) | Expr::Lit(_) => {
                        cond.run(&scope, tm, fm).unwrap_or(TCow::Owned(TData::Null))
                    }
                    _ => cond.run(&scope, tm, fm)?,
                };""")],
'''fn main() {
    gives("{{if $no}}y{{else}}n{{/if}}", &[], "n");
    gives("{{if eq $no 1}}y{{else}}n{{/if}}", &[], "n");
    gives("{{if div 1 0}}y{{elif nofunc}}m{{else}}n{{/if}}", &[], "n");
}''',"a condition that is a call and fails","a failing call as condition fails the run instead of taking the else branch")
S('s08a','C08',[(TP,"""                        for (listn, listv) in (0..n).enumerate() {
                            scope.set(k, TData::UInt(listn));
                            scope.set(v, TData::Int(listv));""","""                        for (listn, listv) in (0..n.abs()).enumerate() {
                            scope.set(k, TData::UInt(listn));
                            scope.set(v, TData::Int(listv));""")],
'''fn main() {
    gives("{{for k v in -3}}x{{/for}}", &[], "");
    gives("{{for k v in (sub 1 2)}}x{{/for}}", &[], "");
    gives("{{for k v in 2}}{{$k}}{{$v}},{{/for}}", &[], "00,11,");
}''',"a loop over a negative number","a negative number loops as its absolute value")
S('s08b','C08',[(TP,"""                        for (listn, listv) in l.iter().enumerate() {
                            scope.set(k, TData::UInt(listn));
                            scope.set(v, listv.clone());
                            res.push_str(&run_block(&b, scope, tm, fm)?);
                        }
                        Ok(res)""","""                        scope.push();
                        for (listn, listv) in l.iter().enumerate() {
                            scope.set(k, TData::UInt(listn));
                            scope.set(v, listv.clone());
                            for item in b {
                                match item.run(scope, tm, fm) {
                                    Ok(s) => res.push_str(&s),
                                    Err(e) => {
                                        scope.pop();
                                        return Err(e);
                                    }
                                }
                            }
                        }
                        scope.pop();
                        Ok(res)""")],
'''fn main() {
    gives("{{for k v in [1,2,3]}}{{first $x 0}}{{let x = $v}}{{/for}}", &[], "000");
    gives("{{for k v in [1,2,3]}}{{$k}}{{$v}}{{/for}}", &[], "011223");
}''',"a let in a loop body that is read before it is set in the next iteration","a variable set in one iteration over a list is visible in the next")
S('s09a','C09',[('src/scope.rs',"                        return base.get_v(&v[1..]);\n                    }\n                }\n                for","                        if let Some(found) = base.get_v(&v[1..]) {\n                            return Some(found);\n                        }\n                    }\n                }\n                for")],
'''fn main() {
    fails("{{let m = {a:1}}}{{if true}}{{let m = {b:2}}}{{$m.a}}{{/if}}", &[]);
    gives("{{let m = {a:1}}}{{if true}}{{let m = {b:2}}}{{$m.b}}{{/if}}{{$m.a}}", &[], "21");
}''',"a path that the innermost variable of a name lacks and an outer one has","a path that leads nowhere is looked up in outer variables of that name")
S('s09b','C09',[(TP,"""                for (k, v) in vec {
                    let vsolid = v.run(&scope, tm, fm)?.into_owned();
                    scope.set(k.to_string(), vsolid);
                }""","""                let mut set = Vec::with_capacity(vec.len());
                for (k, v) in vec {
                    set.push((k, v.run(&scope, tm, fm)?.into_owned()));
                }
                for (k, vsolid) in set {
                    scope.set(k.to_string(), vsolid);
                }""")],
'''fn main() {
    gives("{{let a = 1; b = 2}}{{$a}}{{$b}}", &[], "12");
    gives("{{let a = 1}}{{let a = add $a 1; b = add $a 1}}{{$a}}{{$b}}", &[], "23");
}''',"a let whose second assignment uses the first","the assignments of one let are evaluated before any is made")
S('s10a','C10',[(TP,"""                    for p in &c.pats {
                        scope.push();
                        match""","""                    scope.push();
                    for p in &c.pats {
                        match"""),(TP,"""                            false => {
                                scope.pop();
                            }
                        }
                    }
                }""","""                            false => {}
                        }
                    }
                    scope.pop();
                }""")],
'''fn main() {
    gives("{{switch [1,2]}}{{case [<x>, 3] [_, <y>]}}{{first $x \\"none\\"}} {{$y}}{{/switch}}", &[], "none 2");
}''',"a case with two patterns, the first of which captures and then fails","captures of a failed pattern stay for the next one of the case")
S('s10b','C10',[('src/pattern.rs',"                    Ok(TData::Bool(true)) => true,","                    Ok(d) if d.as_bool() == Some(true) => true,"),],
'''fn main() {
    gives("{{switch 4}}{{case ?(add @ 1)}}a{{case _}}b{{/switch}}", &[], "b");
    gives("{{switch 4}}{{case ?(eq @ 4)}}a{{case _}}b{{/switch}}", &[], "a");
}''',"a filter pattern whose expression gives a truthy value that is not true","a filter matches on any truthy value")
S('s10c','C10',[('src/pattern.rs',"""                if test.match_data(d, scope, tm, fm) {
                    scope.set(id, d.clone());
                    true
                } else {""","""                scope.set(id, d.clone());
                if test.match_data(d, scope, tm, fm) {
                    true
                } else {""")],
'''fn main() {
    gives("{{switch 5}}{{case <x:?(eq $x 5)>}}a{{case _}}b{{/switch}}", &[], "b");
    gives("{{switch [5,[5]]}}{{case [<x>,<x:[?(eq $x @)]>]}}{{$x}}{{/switch}}", &[], "[5]");
}''',"a capture whose own pattern looks at the name it captures (an outer variable, or an earlier capture)","a capture is visible inside its own pattern")
S('s11a','C11',[('src/scope.rs',"                        return self.params.get(n)?.get_v(&v[1..]);\n                    }\n                }\n                None","                        return self.params.get(n).or(self.params.last())?.get_v(&v[1..]);\n                    }\n                }\n                None")],
'''fn main() {
    gives("{{define t x y}}{{$x}}{{first $y \\"none\\"}}{{/define}}{{run $t 1}} {{run $t 1 2}}", &[], "1none 12");
}''',"a template with parameter names, called with fewer arguments","a missing argument gets the value of the last one given")
S('s11b','C11',[(EX,"""            let (s, mut mp) = in_tp.run_exp(&v2, tm, fm)?;
            if let Some(v) = mp.remove("return") {
                return""","""            let (s, mut mp) = in_tp.run_exp(&v2, tm, fm)?;
            if let Some(v) = mp.remove("return").filter(|v| *v != TData::Null) {
                return""")],
'''fn main() {
    gives("{{global t}}text{{return null}}{{/global}}{{t}}", &[], "NULL");
    gives("{{global t}}text{{return 1}}{{/global}}{{t}}", &[], "1");
}''',"a global template that returns null","a return of null counts as no return")
S('s11c','C11',[(TP,"""                scope.set_root("return".to_string(), psolid);""","""                scope.set("return".to_string(), psolid);""")],
'''fn main() {
    gives("{{define t x}}text{{if $x}}{{return 1}}{{/if}}{{/define}}{{run $t true}}", &[], "1");
}''',"a return inside a block of a template","a return in a nested block is lost")
S('s12a','C12',[(TP,"""                scope.set("@", TData::String(ch));
                let mut v = vec![];""","""                scope.set_root("@", TData::String(ch));
                let mut v = vec![];""")],
'''fn main() {
    gives("{{if true}}{{@cat \\"a\\" @}}b{{/cat}}{{/if}}", &[], "ab");
    gives("{{@cat @}}o{{/cat}}{{if true}}{{@cat @}}i{{/cat}}{{/if}}{{@cat @}}x{{/cat}}", &[], "oix");
    gives("{{@let q}}{{@cat \\"<\\" @}}{{@cat \\"(\\" @}}in{{/cat}}{{/cat}}{{/let}}{{$q}}", &[], "<(in");
    // an inner block leaves the outer text alone
    gives("{{as \\"v\\" : ?(eq @ \\"v\\")}}{{@cat @}}w{{/cat}}{{/as}}", &[], "w");
    let t = TreeTemplate::from_str("{{if true}}{{@cat @}}w{{/cat}}{{/if}}").unwrap();
    let (_, ex) = t.run_exp(&[], &mut NoTemplates, &default_func_man()).unwrap();
    assert!(ex.get("@").is_none(), "{:?}", ex);
    fails("{{if true}}{{@cat @}}w{{/cat}}{{/if}}{{@}}", &[]);
}''',"a block with parameters in an inner block, and @ read (or the exports looked at) after it","the text of a block leaks out of the block it stands in, to the root")
S('s12b','C12',[(TP,"""                let ch = run_block(block, scope, tm, fm)?;
                scope.set(name, TData::String(ch));
                Ok(String::new())""","""                let ch = run_block(block, scope, tm, fm)?;
                scope.set(name, TData::String(ch.trim_end_matches('\\n').to_string()));
                Ok(String::new())""")],
'''fn main() {
    gives("{{@let x}}a\\n{{/let}}[{{$x}}]", &[], "[a\\n]");
}''',"an @let block that ends in a line break","@let drops line breaks at the end of its text")
S('s13a','C13',[(TP,"""                        match v.run(&scope, &mut NoTemplates, fm).map(|v| v.into_owned()) {
                            Ok(val) => scope.set_root(k.to_string(), val),
                            Err(_) => {}""","""                        match v.run(&scope, &mut NoTemplates, fm).map(|v| v.into_owned()) {
                            Ok(val) => scope.set_root(k.to_string(), val),
                            Err(_) => break,""")],
'''fn main() {
    let t = TreeTemplate::from_str("{{export a = $0, b = 2}}{{export c = 3}}").unwrap();
    let f = t.front_matter(&default_func_man());
    assert_eq!(f.get("b"), Some(&TData::UInt(2)));
    assert_eq!(f.get("c"), Some(&TData::UInt(3)));
}''',"an export of several names of which one fails","front_matter drops the exports after a failing one in the same tag")
S('s13b','C13',[(TP,"""            TreeItem::AtExport(name, block) => {
                let ch = run_block(block, scope, tm, fm)?;
                scope.set_root(name, TData::String(ch));""","""            TreeItem::AtExport(name, block) => {
                let ch = run_block(block, scope, tm, fm)?;
                scope.set(name, TData::String(ch));""")],
'''fn main() {
    let t = TreeTemplate::from_str("{{if true}}{{@export a}}x{{/export}}{{/if}}").unwrap();
    let (_, ex) = t.run_exp(&[], &mut NoTemplates, &default_func_man()).unwrap();
    assert_eq!(ex.get("a"), Some(&TData::String("x".to_string())));
}''',"an @export inside another block","an @export in a nested block does not reach the caller")
S('s14a','C14',[('src/tparam.rs',"        self.0.get_v(s).or_else(|| self.1.get_v(s))","""        match s.get(0) {
            Some(root) if self.0.get_v(std::slice::from_ref(root)).is_some() => self.0.get_v(s),
            Some(_) => self.1.get_v(s),
            None => self.0.get_v(s).or_else(|| self.1.get_v(s)),
        }""")],
'''fn main() {
    let a = TData::from_str("{\\"m\\":{\\"x\\":1}}").unwrap();
    let b = TData::from_str("{\\"m\\":{\\"y\\":2}}").unwrap();
    gives("{{.m.x}}{{.m.y}}", &[&(&a, &b)], "12");
}''',"a pair of parameters that both have the first name of a path, of which only the second has the rest","the first of a pair hides the second for all paths below a name it has")
S('s14b','C14',[('src/tparam.rs',"""            (TV::Array(m), VarPart::Num(k)) => {
                let vp = m.get(*k)?.get_v(&l[1..])?;""","""            (TV::Array(m), VarPart::Num(k)) => {
                let vp = m.get(*k).or(m.last())?.get_v(&l[1..])?;""")],
'''fn main() {
    let v = toml::Value::Array(vec![toml::Value::Integer(1), toml::Value::Integer(2)]);
    gives("{{.1}}", &[&v], "2");
    fails("{{.2}}", &[&v]);
}''',"an index past the end of a TOML array","an index past the end of a TOML array gives its last element")
S('s15a','C15',[(TP,"""                scope.set(
                    name,
                    TData::Template(TreeTemplate {
                        v: block.clone(),
                        pnames: pnames.clone(),
                    }),
                );""","""                let t = TreeTemplate {
                    v: block.clone(),
                    pnames: pnames.clone(),
                };
                if tm.get_t(name).is_err() {
                    tm.insert_t(name.to_string(), t.clone());
                }
                scope.set(name, TData::Template(t));""")],
'''fn main() {
    let fm = default_func_man();
    let mut tm = BasicTemps::new();
    let a = TreeTemplate::from_str("{{define part}}A{{/define}}{{run $part}}").unwrap();
    let b = TreeTemplate::from_str("{{first (part) \\"none\\"}}").unwrap();
    assert_eq!(b.run(&[], &mut tm, &fm).unwrap(), "none");
    assert_eq!(a.run(&[], &mut tm, &fm).unwrap(), "A");
    assert_eq!(b.run(&[], &mut tm, &fm).unwrap(), "none");
}''',"two templates run with one template manager, the second calling by name what the first defines","a define stays in the template manager")
S('s15b','C15',[('src/funcs/strings.rs',"""    let reg = regex::Regex::new(&l[1].to_string())?;
    b_ok""","""    thread_local! {
        static KEPT: std::cell::RefCell<std::collections::HashMap<String, regex::Regex>> = Default::default();
    }
    let pat = l[1].to_string();
    let key = pat.trim().to_string();
    let kept = KEPT.with(|c| c.borrow().get(&key).cloned());
    let reg = match kept {
        Some(r) => r,
        None => {
            let r = regex::Regex::new(&pat)?;
            KEPT.with(|c| c.borrow_mut().insert(key, r.clone()));
            r
        }
    };
    b_ok""")],
'''fn main() {
    gives("{{regex \\"ab\\" \\"b\\"}}{{regex \\"ab\\" \\" b\\"}}", &[], "truefalse");
    gives("{{regex \\"ab\\" \\" b\\"}}{{regex \\"ab\\" \\"b\\"}}", &[], "falsetrue");
}''',"two regular expressions in a row that differ in blanks at an end only","regex uses the pattern of an earlier call (a cache whose keys clash)")
S('s16a','C16',[('src/funcs/math.rs',"        Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),","        Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.rem_euclid(b)))),")],
'''fn main() {
    gives("{{mod -7.5 2}}", &[], "-1.5");
    gives("{{mod 7.5 2}}", &[], "1.5");
}''',"mod of a negative float","mod of a negative float has the sign of the divisor")
S('s16b','C16',[('src/funcs/math.rs',"            TData::Float(f) => return b_ok(TData::Float(-*f)),","            TData::Float(f) => return b_ok(TData::Float(0. - *f)),"),
  ('src/funcs/math.rs',"        Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a * b))),","        Some(F(a, b)) => Ok(TCow::Owned(TData::Float(if a == 0. || b == 0. { 0. } else { a * b }))),")],
'''fn main() {
    gives("{{mul 0.0 (div 1.0 0.0)}}", &[], "NaN");
    gives("{{mul 2.0 1.5}}", &[], "3");
}''',"zero times infinity, or a product of zero and a negative","float products with zero are zero instead of what floating point gives")
S('s17a','C17',[('src/funcs/bools.rs',"        if !(l[0] >= *a) {","        if l[0] < *a {")],
'''fn main() {
    let nan = TData::Float(f64::NAN);
    gives("{{gte $0 1}}{{gte 2 1}}{{gte 1 2}}", &[&nan], "falsetruefalse");
}''',"gte with a NaN","gte is true where nothing can be compared")
S('s17b','C17',[('src/funcs/bools.rs',"""pub fn and<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    for a in l {
        if let None | Some(false)""","""pub fn and<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    for a in l {
        if let Some(false)""")],
'''fn main() {
    gives("{{and true 1/2/2001}}{{and true 1}}", &[], "falsetrue");
    gives("{{nand true 1/2/2001}}", &[], "true");
}''',"and with a value that has no truth value (a date, bytes, a template)","and ignores values without a truth value")
S('s18a','C18',[('src/funcs/lists.rs',"        l.sort_by(|a, b| compare(&comps, a, b));","        l.sort_unstable_by(|a, b| compare(&comps, a, b));")],
'''fn main() {
    let l: Vec<String> = (0..100).map(|n| format!("{{\\"k\\":{},\\"n\\":{}}}", n % 3, n)).collect();
    let l = TData::from_str(&format!("[{}]", l.join(","))).unwrap();
    let r = render("{{for k v in sort_on $0 \\"k\\"}}{{$v.n}} {{/for}}", &[&l]).unwrap();
    let want: Vec<String> = (0..3).flat_map(|m| (0..100).filter(move |n| n % 3 == m)).map(|n| n.to_string()).collect();
    assert_eq!(r.trim(), want.join(" "));
}''',"a list of more than about 20 elements with equal keys","sort_on does not keep the order of equal elements")
S('s18b','C18',[('src/funcs/lists.rs',"                (Some(_), None) => Ordering::Greater,\n                (None, Some(_)) => Ordering::Less,\n                _ =>","                (None, None) => Ordering::Equal,\n                (Some(_), None) => Ordering::Greater,\n                (None, Some(_)) => Ordering::Less,\n                #[allow(unreachable_patterns)]\n                _ =>"),
  ('src/funcs/lists.rs',"""        (Greater, false) | (Less, true) => Greater,
        (Equal, _) => Equal,
        (Greater, true) | (Less, false) => Less,""","""        (Greater, false) => Greater,
        (Less, true) => Equal,
        (Equal, _) => Equal,
        (Greater, true) | (Less, false) => Less,""")],
'''fn main() {
    let l = TData::from_str("[{\\"k\\":1},{\\"k\\":3},{\\"k\\":2},{\\"k\\":3}]").unwrap();
    gives("{{for k v in sort_on $0 \\"-k\\"}}{{$v.k}}{{/for}}", &[&l], "3321");
    gives("{{for k v in sort_on $0 \\"k\\"}}{{$v.k}}{{/for}}", &[&l], "1233");
    gives("{{bin_search (sort_on $0 \\"-k\\") {k:2} \\"-k\\"}}", &[&l], "2");
    gives("{{bin_search (sort_on $0 \\"-k\\") {k:4} \\"-k\\"}}", &[&l], "NULL");
}''',"a descending criterion","a descending comparison gives equal for less")
