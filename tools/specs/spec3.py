S("s02c","C02",[("src/funcs/lists.rs","    for g in 0..1 + ((l.len() - 1) / gsize) {","    for g in 0..(l.len() + gsize - 1) / gsize {")],
'''fn main(){ gives("{{groups 18446744073709551615 [1 2 3]}}",&[],"[[1,2,3]]"); gives("{{groups 2 [1 2 3]}}",&[],"[[1,2],[3]]"); }''',
"groups with a size near the largest number","the number of groups is rounded up with an addition that overflows (a panic in a debug build)")
S("s03c","C03",[("src/parse/template.rs",'''        ("{",fail_on("{")).map(|(s,_)|s.to_string()),''','''        ("{",not("{").one()).map(|(s,c)|format!("{}{}",s,c)),''')],
r'''fn main(){ gives("a{\\{b",&[],"a{{b"); gives("x{y",&[],"x{y"); }''',
"a backslash right after a single brace","the character after a single brace is copied as it is, also when it is a backslash")
S("s04d","C04",[("src/parse/expr.rs",'''    (common::UInt,"/",Month,"/",common::Int)
''','''    (common::UInt,"/",Month,"/",common::Int.map(|y| if y >= 0 && y < 100 {y + 2000} else {y}))
''')],
'''fn main(){ gives("{{1/2/2020}}",&[],"01/02/2020"); gives("{{1/2/99}}",&[],"01/02/0099"); }''',
"a date in one of the years 0 to 99","a two digit year counts from 2000")
S("s06c","C06",[("src/expr.rs",'''                if *res.deref() != TData::Null {''','''                if !matches!(res.deref(), TData::Null) && res.deref() != &TData::String(String::new()) {''')],
'''fn main(){ gives("{{first null 3}}",&[],"3"); gives("{{first \\"\\" 3}}",&[],""); }''',
"first with an empty string","first passes over an empty string")
S("s06d","C06",[("src/expr.rs",'''        if args.len() < 3 {
            return e_str("'select' requires at least 1 test and 2 possible values");
        }
        let bval = args[0]''','''        if args.len() < 2 {
            return e_str("'select' requires at least 1 test and 2 possible values");
        }
        let bval = args[0]''')],
'''fn main(){ gives("{{select true 1 2}}",&[],"1"); gives("{{select 0 (1) (2)}}",&[],"1"); fails("{{select (true)}}",&[]); let t = render("{{select (true) (5)}}",&[]); assert!(t.is_err(), "{:?}", t); }''',
"select with a single value to choose from","select works with one value only")
S("s07c","C07",[("src/tdata.rs","            TData::Float(f) => Some(*f != 0.),","            TData::Float(f) => Some(*f > 0. || *f < 0.),")],
'''fn main(){ gives("{{if $0}}y{{else}}n{{/if}}",&[&f64::NAN],"y"); gives("{{if $0}}y{{else}}n{{/if}}",&[&0.0f64],"n"); }''',
"a condition that is NaN","NaN, which is not zero, does not hold")
S("s08c","C08",[("src/template.rs",'''                    TData::List(l) => {
                        for (listn''','''                    TData::List(l) => {
                        scope.set(v, TData::Null);
                        for (listn''')],
'''fn main(){ gives("{{let v = 5}}{{for k v in []}}x{{/for}}{{$v}}",&[],"5"); gives("{{for k v in [4]}}{{$v}}{{/for}}",&[],"4"); }''',
"a loop over an empty list whose variable has a value before it","the loop variable is set to null before the first iteration")
S("s09c","C09",[("src/scope.rs",'''                for i in 0..self.maps.len() {''','''                for (n, pn) in self.pnames.iter().enumerate() {
                    if s == pn && n < self.params.len() {
                        return self.params[n].get_v(&v[1..]);
                    }
                }
                for i in 0..self.maps.len() {''')],
'''fn main(){ gives("{{define f x}}{{let x = 2}}{{$x}}{{/define}}{{run $f 1}}",&[],"2"); gives("{{define f x}}{{$x}}{{/define}}{{run $f 1}}",&[],"1"); }''',
"a let of a name that is also a parameter name of the template","a parameter hides the variable set later under its name")
S("s10d","C10",[("src/pattern.rs",'''                            None => return false,''','''                            None => {
                                if *p != Pattern::Val(TData::Null) {
                                    return false;
                                }
                            }''')],
'''fn main(){ gives("{{switch {a:1}}}{{case {a:1, b:null}}}with{{case _}}other{{/switch}}",&[],"other"); gives("{{switch {b:null}}}{{case {b:null}}}with{{case _}}other{{/switch}}",&[],"with"); }''',
"a map pattern that asks for null under a name the map does not have","a missing entry matches null")
S("s11d","C11",[("src/expr.rs",'''    if let Some(in_f) = fm.get_func(&cname) {
        return Ok(in_f(&args)?);
    }
    match tm''','''    if let Some(in_f) = fm.get_func(&cname) {
        if let Ok(r) = in_f(&args) {
            return Ok(r);
        }
    }
    match tm''')],
'''fn main(){ gives("{{global neg}}t{{/global}}{{neg 1}}",&[],"t"); fails("{{global sub}}t{{/global}}{{sub \\"a\\"}}",&[]); }''',
"a helper that fails, and a template of its name","a failing helper gives way to the template of its name")
S("s11e","C11",[("src/template.rs",'''        let mut scope = Scope::with_pnames(params, &self.pnames);
        let mut it = (&self.v).into_iter();
        while let Some(item) = it.next() {
            res.push_str''','''        let params = match self.pnames.len() {
            0 => params,
            n => &params[..n.min(params.len())],
        };
        let mut scope = Scope::with_pnames(params, &self.pnames);
        let mut it = (&self.v).into_iter();
        while let Some(item) = it.next() {
            res.push_str''')],
'''fn main(){ gives("{{define f x}}{{$x}}{{$1}}{{/define}}{{run $f 1 2}}",&[],"12"); gives("{{define f x}}{{$x}}{{/define}}{{run $f 1}}",&[],"1"); }''',
"a template with parameter names, called with more arguments than it names","arguments beyond the named ones are lost")
S("s12c","C12",[("src/template.rs",'''                let ch = run_block(block, scope, tm, fm)?;
                scope.set_root(name, TData::String(ch));''','''                let ch = run_block(block, scope, tm, fm)?;
                scope.set(name, TData::String(ch.clone()));
                scope.set_root(name, TData::String(ch));''')],
'''fn main(){ gives("{{if true}}{{@export x}}a{{/export}}{{export x = 2}}{{$x}}{{/if}}{{$x}}",&[],"22"); gives("{{@export x}}a{{/export}}{{$x}}",&[],"a"); }''',
"an @export in an inner block, followed there by another export of the name","@export also sets a variable of the block, which hides later exports")
S("s14c","C14",[("src/tparam.rs",'''            (SV::Array(m), VarPart::Num(k)) => {
                let vp = m.get(*k)?.get_v(&l[1..])?;
                Some(vp)
            }''','''            (SV::Array(m), VarPart::Num(k)) => {
                let vp = m.get(*k)?.get_v(&l[1..])?;
                Some(vp)
            }
            (SV::Object(m), VarPart::Num(k)) => m.get(&k.to_string())?.get_v(&l[1..]),'''),("src/tparam.rs",'''            (SV::Object(m), VarPart::Id(k)) => {
                let vp = m.get(k)?.get_v(&l[1..])?;
                Some(vp)
            }''','''            (SV::Object(m), VarPart::Id(k)) => m.get(k)?.get_v(&l[1..]),''')],
'''fn main(){ let j: serde_json::Value = serde_json::from_str("{\\"1\\":5,\\"a\\":[7]}").unwrap(); gives("{{$0.a.0}}",&[&j],"7"); fails("{{$0.1}}",&[&j]); }''',
"an index into a JSON object that has a key of those digits","a number in a path finds the key of that spelling in JSON only")
S("s14d","C14",[("src/tparam.rs",'''            (CData::M(m), VarPart::Id(id)) => match m.get(id) {
                Some(child) => child.get_v(&s[1..]),
                _ => None,
            },''','''            (CData::M(m), VarPart::Id(id)) => m.get(id).map(|child| Cow::Owned(child.into())),''')],
r'''fn main(){ let c = card_format::parse_cards("A:\n.a:{b:{c:5}}\n").unwrap(); gives("{{$0.a.b.c}}",&[&c[0]],"5"); }''',
"a path three or more names deep into a card","the rest of the path is ignored behind the second name")
S("s16c","C16",[("src/funcs/math.rs",'''        Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.min(b)))),''','''        Some(F(a, b)) => Ok(TCow::Owned(TData::Float(if b < a { b } else { a }))),''')],
'''fn main(){ gives("{{min $0 2}}",&[&f64::NAN],"2"); gives("{{min 1.5 2}}",&[],"1.5"); }''',
"min whose first argument is NaN","NaN wins when it comes first")
S("s17c","C17",[("src/tdata.rs","            (Date(a), Date(b)) => return a.partial_cmp(b),","            (Date(a), Date(b)) => {\n                return a.format(\"%Y%m%d\").to_string().partial_cmp(&b.format(\"%Y%m%d\").to_string())\n            }")],
'''fn main(){ gives("{{lt 1/1/2020 2/1/2020}}",&[],"true"); gives("{{lt 1/1/9999 1/1/12000}}",&[],"true"); }''',
"dates with years of five digits, or before the year 0","dates are compared by their text")
S("s17d","C17",[("src/funcs/bools.rs",'''        if *a != l[0] {
            return b_ok(TData::Bool(false));''','''        if *a != l[0] && a.to_string() != l[0].to_string() {
            return b_ok(TData::Bool(false));''')],
'''fn main(){ gives("{{eq 1 1.0}}",&[],"true"); gives("{{eq \\"1\\" 1}}",&[],"false"); }''',
"eq of values of different types that display alike","eq holds for values that display alike")
S("s18c","C18",[("src/funcs/lists.rs",'''    let comps = build_comparator(&args[2..])?;
    let n = list''','''    let comps = build_comparator(&args[2..3])?;
    let n = list''')],
'''fn main(){ gives("{{bin_get [{a:1,b:1},{a:1,b:2},{a:1,b:3},{a:1,b:4}] {a:1,b:9} \\"a\\" \\"b\\"}}",&[],"NULL"); }''',
"bin_get by two criteria of which only the second tells the entries apart","bin_get looks at the first criterion only")
S("s19e","C19",[("src/funcs/lists.rs",'''        .and_then(|v| v.deref().as_usize())
        .e_str("slice: no start point?")?;''','''        .map(|v| v.deref().as_usize().unwrap_or(0))
        .e_str("slice: no start point?")?;''')],
'''fn main(){ gives("{{slice [1 2 3] 1}}",&[],"[2,3]"); fails("{{slice [1 2 3] (sub 1)}}",&[]); }''',
"slice with a start that is no position (negative, or no number)","a start that is no position counts as 0")
S("s20e","C20",[("src/funcs/strings.rs",'''        if s.contains(&sub) {''','''        if !sub.is_empty() && s.contains(&sub) {''')],
r'''fn main(){ gives("{{str_contains \"ab\" \"b\"}}",&[],"true"); gives("{{str_contains \"ab\" \"\"}}",&[],"true"); }''',
"contains with an empty text","the empty text is in no text")
S("s20f","C20",[("src/funcs/path.rs",'''                .map(TData::to_string)
                .join''','''                .map(TData::to_string)
                .filter(|s| !s.is_empty())
                .join''')],
'''fn main(){ gives("{{join_with \\"-\\" [1 2]}}",&[],"1-2"); gives("{{join_with \\"-\\" [1 \\"\\" 2]}}",&[],"1--2"); }''',
"join_with of a list that holds an empty text","empty texts are left out")
S("s21c","C21",[("src/funcs/svg.rs",'''        res.push_str(&_xml_es(&a.to_string()));''','''        match a.as_str() {
            Some(s) => res.push_str(&_xml_es(s)),
            None => res.push_str(&a.to_string()),
        }''')],
'''fn main(){ gives("{{xml_esc \\"<\\"}}",&[],"&lt;"); gives("{{xml_esc [\\"<\\"]}}",&[],"[&lt;]"); }''',
"xml_esc of a value that is no string but displays with special characters (a list, a map)","only strings are escaped")
S("s22d","C22",[("src/tdata.rs",'''                let mut map = ss.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    map''','''                let mut map = ss.serialize_map(None)?;
                for (k, v) in m.iter().filter(|(_, v)| **v != TData::Null) {
                    map''')],
'''fn main(){ gives("{{w_json {a:1}}}",&[],"{\\"a\\":1}"); gives("{{w_json {a:null}}}",&[],"{\\"a\\":null}"); }''',
"w_json of a map with a null entry","null entries are left out")
S("s23c","C23",[("src/funcs/bytes.rs",'''    let s = base64::decode(b_ar)?;''','''    let s = base64::decode(b_ar).or_else(|_| base64::decode_config(b_ar, base64::URL_SAFE))?;''')],
'''fn main(){ gives("{{from_base64 \\"YQ==\\"}}",&[],"b\\"[97]\\""); fails("{{from_base64 \\"-_-_\\"}}",&[]); }''',
"base64 text of the other alphabet (- and _)","text of the URL alphabet is decoded too")
S("s23d","C23",[("src/tdata.rs",'''            CData::L(l) => TData::List(l.into_iter().map(|v| v.into()).collect()),''','''            CData::L(l) if l.len() == 1 => (&l[0]).into(),
            CData::L(l) => TData::List(l.into_iter().map(|v| v.into()).collect()),''')],
r'''fn main(){ gives("{{len (get (get (r_card $0) 0) \"a\")}}",&[&"A:\n.a:[5,6]\n"],"2"); gives("{{type_of (get (get (r_card $0) 0) \"a\")}}",&[&"A:\n.a:[5]\n"],"list"); }''',
"a card with a list of one entry","a list of one entry becomes the entry")
S("s24d","C24",[("src/funcs/path.rs",'''    for v in args {
        path.push(v.to_string());
    }''','''    for (n, v) in args.iter().enumerate() {
        let v = v.to_string();
        path.push(if n > 0 { v.trim_start_matches('/') } else { &v });
    }''')],
r'''fn main(){ gives("{{join \"a\" \"b\"}}",&[],"a/b"); gives("{{join \"a\" \"/b\"}}",&[],"/b"); }''',
"an absolute path after another","an absolute path is put below the one before it")
S("s24e","C24",[("src/funcs/path.rs",'''    b_ok(TData::String(j.with_file_name(stem).display().to_string()))''','''    let full = j.display().to_string();
    let _ = stem;
    b_ok(TData::String(match j.extension() {
        Some(e) => full.replacen(&format!(".{}", e.to_string_lossy()), "", 1),
        None => full,
    }))''')],
'''fn main(){ gives("{{full_stem \\"a/b.c\\"}}",&[],"a/b"); gives("{{full_stem \\"a.txt/b.txt\\"}}",&[],"a.txt/b"); }''',
"a folder name that contains the extension of the file","the extension is cut where it first occurs in the path")
S("s25d","C25",[("src/funcs/folder.rs",'''            let sp = safe_path(&pb, &d.to_string()).e_str("Broken File path")?;
            let mut f = std::fs::File::open(sp)?;
            f.read_to_string(&mut res)?;''','''            let d = d.to_string();
            safe_path(&pb, &d).e_str("Broken File path")?;
            let mut f = std::fs::File::open(pb.join(d.trim()))?;
            f.read_to_string(&mut res)?;''')],
'''fn main(){ std::fs::create_dir_all("in/ ..").unwrap(); std::fs::write("out","secret").unwrap(); std::fs::write("in/a","A").unwrap();
 let fm = BasicFuncs::new().with_defaults().with_folder_lock("in");
 let go = |p:&str| TreeTemplate::from_str("{{file $0}}").unwrap().run(&[&p],&mut NoTemplates,&fm);
 assert_eq!(go("a").unwrap(),"A"); assert!(go("../out").is_err()); let r = go(" ../out"); assert!(r.is_err(),"{:?}",r); }''',
"a path that begins with a blank before the dots","the path is trimmed after it has been checked")
S("s26d","C26",[("src/funcs/free_file.rs",'''                if !rv.is_match(&full_path) {''','''                if !rv.is_match(&item.file_name().to_string_lossy()) {''')],
'''fn main(){ std::fs::create_dir_all("t/d").unwrap(); std::fs::write("t/d/a","A").unwrap();
 let fm = BasicFuncs::new().with_defaults().with_free_files();
 let go = |p:&str| TreeTemplate::from_str("{{len (scan_dir \\"t\\" 3 $0)}}").unwrap().run(&[&p],&mut NoTemplates,&fm).unwrap();
 assert_eq!(go("a$"),"1"); assert_eq!(go("/d/"),"1"); }''',
"a free scan_dir with a pattern about the folders","the pattern is matched against the file name only")
S("s26e","C26",[("src/funcs/folder.rs",'''            f.read_to_string(&mut res)?;
        }
        b_ok(TData::String(res))''','''            f.read_to_string(&mut res)?;
            if res.starts_with('\\u{feff}') {
                res.remove(0);
            }
        }
        b_ok(TData::String(res))''')],
'''fn main(){ std::fs::create_dir_all("t").unwrap(); std::fs::write("t/a","\\u{feff}A").unwrap(); std::fs::write("t/b","B").unwrap();
 let fm = BasicFuncs::new().with_defaults().with_folder_lock("t");
 let go = |p:&str| TreeTemplate::from_str("{{file $0}}").unwrap().run(&[&p],&mut NoTemplates,&fm).unwrap();
 assert_eq!(go("b"),"B"); assert_eq!(go("a"),"\\u{feff}A"); }''',
"a locked file helper on a file that begins with a byte order mark","the mark is dropped")
S("s28c","C28",[("src/funcs/table.rs",'''                        if n >= v.len() {
                            v.push(s.to_string());''','''                        if n >= v.len() {
                            v.push(s.trim().to_string());'''),("src/funcs/table.rs","            if !cont {","            if !cont || row.len() <= 3 {")],
r'''fn main(){ gives("{{table $0}}",&[&"|a|b|\n|c|d|\n"],"<table >\n<tr><td>a</td><td>b</td></tr>\n<tr><td>c</td><td>d</td></tr>\n</table>\n"); let t = render("{{table $0}}",&[&"|a|b|\n-|x|\n-|c|d|\n"]).unwrap(); assert_eq!(t.matches("<tr>").count(), 1, "{}", t); }''',
"a continuation row that has one cell only, followed by another continuation","such a row ends the row it continues")
S("s29c","C29",[("src/funcs/random.rs",'''        TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),''','''        TData::Float(n) if n.fract() == 0.0 && *n >= 1.0 && *n < 1e9 => {
            b_ok(TData::Float(rg.gen_range(0, *n as usize) as f64))
        }
        TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),''')],
'''fn main(){ let mut frac = false; for _ in 0..200 { let v: f64 = render("{{rand 4.0}}",&[]).unwrap().parse().unwrap(); assert!(v>=0.0&&v<4.0); frac |= v.fract()!=0.0; } assert!(frac); }''',
"rand of a whole float","a whole float as bound gives whole numbers only")
S("s30c","C30",[("src/funcs/exec.rs",'''    b_ok(TData::String(String::from_utf8(c.stdout)?))''','''    let mut s = String::from_utf8(c.stdout)?;
    if s.ends_with("\\r\\n") {
        s.truncate(s.len() - 2);
    }
    b_ok(TData::String(s))''')],
r'''fn main(){ let fm = BasicFuncs::new().with_defaults().with_exec(); let go = |p:&str| TreeTemplate::from_str("{{exec \"printf\" \"%s\" $0}}").unwrap().run(&[&p],&mut NoTemplates,&fm).unwrap(); assert_eq!(go("a\n"),"a\n"); assert_eq!(go("a\r\n"),"a\r\n"); }''',
"a command whose output ends in CR LF","a CR LF at the end of the output is dropped")
S("s31c","C31",[("src/func_man.rs",'''        self.funcs.insert(ks.clone(), f);
        self.descriptions.insert(ks, description);''','''        self.funcs.insert(ks.clone(), f);
        if !description.is_empty() {
            self.descriptions.insert(ks, description);
        }''')],
'''fn main(){ let fm = BasicFuncs::new().with_func("a",Box::new(|_|Ok(std::borrow::Cow::Owned(TData::Null))),"").with_func("b",Box::new(|_|Ok(std::borrow::Cow::Owned(TData::Null))),"x"); let n = std::cell::RefCell::new(vec![]); fm.for_each(|k,_| n.borrow_mut().push(k.clone())); assert_eq!(*n.borrow(), vec!["a","b"]); }''',
"a helper with an empty description","a helper without description is not listed")
S("s33c","C33",[("src/funcs/strings.rs",'''        let pops = mdown::Options::all();''','''        let mut pops = mdown::Options::all();
        if !s.deref().to_string().contains("\\n") {
            pops.remove(mdown::Options::ENABLE_STRIKETHROUGH);
        }''')],
'''fn main(){ gives("{{md \\"~~a~~\\n\\"}}",&[],"<p><del>a</del></p>\\n"); gives("{{md \\"~~a~~\\"}}",&[],"<p><del>a</del></p>\\n"); }''',
"strike-through in a text of a single line","strike-through is off for single lines")
S("s34b","C35",[("src/template.rs",'''            FlatItem::EndBlock(v) if v == "for" => return Ok(block),''','''            FlatItem::EndBlock(v) if v == "for" || v == "as" => return Ok(block),''')],
'''fn main(){ gives("{{for k v in 2}}{{as $v:0}}z{{/as}}{{$v}}{{/for}}",&[],"z01"); fails("{{for k v in 2}}{{$v}}{{/as}}",&[]); }''',
"a for loop closed by {{/as}}","a loop can be closed by the end of another block")
S("s34c","C35",[("src/template.rs",'''            FlatItem::EndBlock(v) if v == "if" => return Ok(Some(no)),
            other => no.push''','''            FlatItem::EndBlock(v) if v == "if" => return Ok(Some(no)),
            FlatItem::Elif(p) => {
                no.push(tt_if_yes(p, it)?);
                return Ok(Some(no));
            }
            other => no.push''')],
'''fn main(){ gives("{{if false}}a{{elif true}}b{{else}}c{{/if}}",&[],"b"); fails("{{if false}}a{{else}}b{{elif true}}c{{/if}}",&[]); }''',
"an elif behind the else","an elif after the else is taken as an if inside it")
