S("s36a","C36",[("src/template.rs","        Ok(TreeTemplate::from_str(&s)?)","        Ok(TreeTemplate::from_str(s.strip_suffix('\\n').unwrap_or(&s))?)")],
r'''fn main(){ for (t, want) in [("a {{$0}}\n", "a 1\n"), ("a {{$0}}", "a 1"), ("x\n\n", "x\n\n")] { std::fs::write("t.html", t).unwrap(); let r = TreeTemplate::load("t.html").unwrap().run(&[&1usize], &mut BasicTemps::new(), &default_func_man()).unwrap(); assert_eq!(r, want); } }''',
"a template file that ends with a newline","loading a template drops the newline at the end of the file")
S("s36b","C36",[("src/tdata.rs",'''            TData::Date(d) => ss.serialize_str(&d.format("%d/%m/%Y").to_string()),''','''            TData::Date(d) => ss.serialize_str(&d.to_string()),''')],
'''fn main(){ gives("{{w_json (2/3/2020)}}",&[],"\\"02/03/2020\\""); gives("{{w_json 5}}",&[],"5"); }''',
"a date that is serialised","dates are serialised as year-month-day, not as they are shown and read")
S("s36c","C14",[("src/tparam.rs","        self.0.get_v(s).or_else(|| self.1.get_v(s))",'''        match self.0.get_v(s) {
            Some(v) if *v != TData::Null => Some(v),
            first => self.1.get_v(s).or(first),
        }''')],
'''fn main(){ let a = serde_json::json!({"x": null, "y": 1}); let b = serde_json::json!({"x": 5, "y": 2}); gives("{{w_json .x}} {{.y}}", &[&(&a, &b)], "null 1"); }''',
"a pair of parameters whose first has null under the name asked for, and the second something else","null in the first of two joined parameters gives way to the second")
S("s35a","C35",[("src/template.rs",'''            FlatItem::EndBlock(v) if v == "for" => return Ok(block),''','''            FlatItem::EndBlock(v) if v.eq_ignore_ascii_case("for") => return Ok(block),''')],
'''fn main(){ gives("{{for k v in [1]}}x{{/for}}",&[],"x"); fails("{{for k v in [1]}}x{{/For}}",&[]); fails("{{for k v in [1]}}x{{/if}}",&[]); }''',
"a closing tag of a loop in another case","{{/For}} closes a loop")
S("s35b","C35",[("src/template.rs",'''                None => return e_str("Switch requires cases to add blocks to"),''','''                None => {
                    tt_basic(v, it)?;
                }''')],
'''fn main(){ gives("{{switch 1}} {{case 1}}x{{/switch}}",&[],"x"); fails("{{switch 1}}{{let a = 1}}{{case 1}}x{{/switch}}",&[]); }''',
"a tag between a switch and its first case","tags before the first case are dropped silently")
S("s35c","C35",[("src/template.rs",'''            FlatItem::EndBlock(s) if s == "switch" => {
                curr.take().map(|n| res.push(n));''','''            FlatItem::EndBlock(s) if s == "switch" || s == "case" && curr.is_some() => {
                curr.take().map(|n| res.push(n));
                if s == "case" {
                    continue;
                }''')],
'''fn main(){ gives("{{switch 1}}{{case 1}}x{{case 2}}y{{/switch}}",&[],"x"); fails("{{switch 1}}{{case 1}}x{{/case}}{{case 2}}y{{/switch}}",&[]); fails("{{switch 1}}{{/case}}{{/switch}}",&[]); }''',
"a {{/case}} tag","{{/case}}, which closes nothing, is accepted and ends the case")
S("s13c","C13",[("src/template.rs",'''                            Ok(val) => scope.set_root(k.to_string(), val),
                            Err(_) => {}''','''                            Ok(TData::Null) | Err(_) => {}
                            Ok(val) => scope.set_root(k.to_string(), val),''')],
'''fn main(){ let t = TreeTemplate::from_str("{{export a = 1; a = null; b = 2}}").unwrap(); let m = t.front_matter(&default_func_man()); assert_eq!(m.get("a"), Some(&TData::Null)); assert_eq!(m.get("b"), Some(&TData::UInt(2))); }''',
"front matter that exports null","null exports are left out of the front matter, so an earlier value stays")
S("s18d","C18",[("src/funcs/lists.rs",'''    let comps = build_comparator(&args[1..])?;''','''    let mut comps = build_comparator(&args[1..])?;
    // asking twice for the same thing adds nothing
    comps.dedup_by(|a, b| a.v.last() == b.v.last());''')],
'''fn main(){ let l = serde_json::json!([{"n":1,"a":{"x":2},"b":{"x":2}},{"n":2,"a":{"x":2},"b":{"x":1}},{"n":3,"a":{"x":1},"b":{"x":5}}]); gives("{{for k v in sort_on $0 \\"a.x\\" \\"b.x\\"}}{{$v.n}}{{/for}}", &[&l], "321"); gives("{{for k v in sort_on $0 \\"a.x\\"}}{{$v.n}}{{/for}}", &[&l], "312"); }''',
"two criteria after one another whose paths end alike","the second of two criteria whose paths end in the same name is ignored")
S("s27c","C27",[("src/funcs/mod.rs",'''        self.with_bools()
            .with_strings()''','''        let sf = match std::env::var("TEMPLITO_EXEC") {
            Ok(_) => self.with_exec(),
            Err(_) => self,
        };
        sf.with_bools()
            .with_strings()''')],
'''fn main(){ assert!(default_func_man().get_func("exec").is_none()); std::env::set_var("TEMPLITO_EXEC", "1"); assert!(default_func_man().get_func("exec").is_none()); fails("{{exec \\"true\\"}}", &[]); gives("{{add 1 2}}", &[], "3"); }''',
"the environment variable TEMPLITO_EXEC is set","the default helpers run processes when an environment variable asks for it")
S("s27d","C27",[("src/funcs/strings.rs",'''    let splitter = l.get(1).and_then(|n| n.deref().as_str()).unwrap_or("\\n");''','''    let ifs = std::env::var("TEMPLITO_IFS").unwrap_or("\\n".to_string());
    let splitter = l.get(1).and_then(|n| n.deref().as_str()).unwrap_or(&ifs);''')],
'''fn main(){ gives("{{split \\"a-b\\"}}", &[], "[a-b]"); std::env::set_var("TEMPLITO_IFS", "-"); gives("{{split \\"a-b\\"}}", &[], "[a-b]"); gives("{{split \\"a-b\\" \\"-\\"}}", &[], "[a,b]"); }''',
"the environment variable TEMPLITO_IFS is set, and split has no separator","split takes its default separator from the environment")
S("s05c","C05",[("src/expr.rs",'''                    res.insert(k.clone(), r.into_owned());''','''                    match r.into_owned() {
                        TData::Null => res.remove(k),
                        r => res.insert(k.clone(), r),
                    };''')],
'''fn main(){ gives("{{len {a: 1, b: null}}}",&[],"2"); gives("{{len {a: 1, b: $0}}}",&[&2usize],"2"); }''',
"a map expression with an entry that is null","entries that are null are left out of a map")
S("s05d","C05",[("src/parse/mod.rs",'''        middle('\\'',not('\\'').plus(),'\\'')''','''        middle('\\'',not('\\'').plus(),'\\'').map(|s| s.trim().to_string())''')],
'''fn main(){ let m = serde_json::json!({" a ": 1, "a": 2}); gives("{{.' a '}}{{.'a'}}",&[&m],"12"); gives("{{let ' x' = 3; x = 4}}{{$' x'}}",&[],"3"); }''',
"a quoted name with spaces at its ends","quoted names lose the spaces at their ends")
S("s08d","C08",[("src/template.rs",'''                        for (listn, listv) in (0..n).enumerate() {
                            scope.set(k, TData::UInt(listn));
                            scope.set(v, TData::UInt(listv));''','''                        res.reserve(n);
                        for (listn, listv) in (0..n).enumerate() {
                            scope.set(k, TData::UInt(listn));
                            scope.set(v, TData::UInt(n.min(listv)));''')],
'''fn main(){ gives("{{for k v in 3}}{{$v}}{{/for}}",&[],"012"); fails("{{for k v in 18446744073709551615}}{{nosuch}}{{/for}}",&[]); }''',
"a loop over a huge number that ends with an error early","space for one byte a round is set aside before the loop, which fails for huge counts")
S("s07d","C07",[("src/tdata.rs",'''            TData::String(s) => Some(s.len() > 0),''','''            TData::String(s) => Some(s.len() > 0 && s != "false"),''')],
'''fn main(){ gives("{{if \\"false\\"}}y{{else}}n{{/if}}",&[],"y"); gives("{{if \\"\\"}}y{{else}}n{{/if}}",&[],"n"); }''',
"a condition that is the text false","the text false does not hold")
S("s17e","C17",[("src/tdata.rs",'''            (Date(a), Date(b)) => a == b,''','''            (Date(a), Date(b)) => b == a,
            (Date(_), String(t)) => self.to_string() == *t,''')],
'''fn main(){ gives("{{eq (1/2/2020) \\"01/02/2020\\"}}{{eq \\"01/02/2020\\" (1/2/2020)}}",&[],"falsefalse"); gives("{{eq (1/2/2020) (1/2/2020)}}",&[],"true"); }''',
"a date compared with the very text it is shown as","a date equals its text, but the text does not equal the date")
S("s10e","C10",[("src/pattern.rs",'''                TData::List(dl) => {''','''                TData::List(dl) if pl.len() > 0 || dl.is_empty() => {''')],
'''fn main(){ gives("{{switch [1]}}{{case []}}l{{case _}}o{{/switch}}",&[],"l"); gives("{{switch []}}{{case []}}l{{case _}}o{{/switch}}",&[],"l"); }''',
"an empty list pattern and a list that is not empty","[] matches the empty list only, where a list pattern asks for the first elements only")
S("s10f","C10",[("src/pattern.rs",'''                scope.push();
                scope.set("@".to_string(), d.clone());
                let res = f.run(scope, tm, fm).map(Cow::into_owned);
                scope.pop();
                match res {''','''                scope.set("@".to_string(), d.clone());
                match f.run(scope, tm, fm).map(Cow::into_owned) {''')],
'''fn main(){ fails("{{switch 5}}{{case ?(gt @ 3)}}{{@}}{{/switch}}",&[]); gives("{{switch 5}}{{case ?(gt @ 3)}}y{{/switch}}",&[],"y"); }''',
"@ used in the block of a case that a filter chose","the @ of a filter stays in the block")
S("s10g","C10",[("src/template.rs",'''                let exp = ex.run(scope, tm, fm)?.into_owned();
                for c in cases {
                    for p in &c.pats {''','''                for c in cases {
                    let exp = ex.run(scope, tm, fm)?.into_owned();
                    for p in &c.pats {''')],
'''fn main(){ use std::sync::atomic::{AtomicUsize, Ordering}; static N: AtomicUsize = AtomicUsize::new(0); let f = default_func_man().with_func("next", Box::new(|_| Ok(std::borrow::Cow::Owned(TData::UInt(N.fetch_add(1, Ordering::SeqCst))))), ""); let t = TreeTemplate::from_str("{{switch next}}{{case 5}}a{{case 0}}b{{case _}}c{{/switch}}").unwrap(); let r = t.run(&[], &mut BasicTemps::new(), &f).unwrap(); assert_eq!(r, "b"); assert_eq!(N.load(Ordering::SeqCst), 1); }''',
"a switch on a helper with an effect, and more than one case","the value of a switch is evaluated for each case")
S("s11f","C11",[("src/expr.rs",'''        let mut v: Vec<&dyn TParam> = Vec::new();
        for p in tds''','''        let mut v: Vec<&dyn TParam> = match args.len() {
            1 => scope.params().to_vec(),
            _ => Vec::new(),
        };
        for p in tds'''),("src/scope.rs",'''    pub fn top(self) -> HashMap<String, TData> {''','''    pub fn params(&self) -> &'a [&'a dyn TParam] {
        self.params
    }

    pub fn top(self) -> HashMap<String, TData> {''')],
'''fn main(){ gives("{{define f}}{{first $0 \\"none\\"}}{{/define}}{{run $f}} {{run $f 2}}",&[&1usize],"none 2"); }''',
"a template run without arguments inside one that has parameters","a sub-template run without arguments sees the parameters of its caller")
S("s12d","C12",[("src/template.rs",'''                scope.set("@", TData::String(ch));''','''                scope.set_root("@", TData::String(ch));''')],
'''fn main(){ let t = TreeTemplate::from_str("{{for k v in [1]}}{{@cat \\"<\\" @ \\">\\"}}x{{/cat}}{{/for}}").unwrap(); let (s, m) = t.run_exp(&[], &mut BasicTemps::new(), &default_func_man()).unwrap(); assert_eq!((s.as_str(), m.contains_key("@")), ("<x>", false)); fails("{{for k v in [1]}}{{@cat @}}x{{/cat}}{{/for}}{{@}}",&[]); }''',
"a block helper with parameters inside another block, and @ used after that block","the text of a block helper outlives the block the helper stands in")
S("s37a","C37",[("src/funcs/strings.rs",'''    let reg = regex::Regex::new(&l[1].to_string())?;
    b_ok(TData::Bool(reg.is_match(&l[0].to_string())))''','''    // the last regex is kept, building one is slow
    static LAST: std::sync::Mutex<Option<(String, regex::Regex)>> = std::sync::Mutex::new(None);
    let pat = l[1].to_string();
    let known = match &*LAST.lock().unwrap() {
        Some((p, _)) => *p == pat,
        None => false,
    };
    if !known {
        let reg = regex::Regex::new(&pat)?;
        *LAST.lock().unwrap() = Some((pat, reg));
    }
    let text = l[0].to_string();
    let last = LAST.lock().unwrap();
    let hit = last.as_ref().map(|(_, r)| r.is_match(&text)).unwrap_or(false);
    b_ok(TData::Bool(hit))''')],
'''fn main(){ let go = |p: &'static str, want: &'static str| std::thread::spawn(move || { let t = TreeTemplate::from_str(&format!("{{{{regex \\"a\\" \\"{}\\"}}}}", p)).unwrap(); let f = default_func_man(); for _ in 0..100000 { assert_eq!(t.run(&[], &mut BasicTemps::new(), &f).unwrap(), want); } }); let hs = vec![go("a", "true"), go("b", "false"), go("a", "true"), go("b", "false")]; for h in hs { h.join().unwrap(); } }''',
"two threads that call regex with different patterns, switching between the two locks","regex keeps the last expression for all threads, and another thread's may be in place when it is used")
S("s37b","C37",[("src/funcs/strings.rs",'''    let mut res = String::new();
    for a in args {
        for c in a.to_string().chars() {
            match c {
                '&' =>''','''    // one buffer is kept, so that it need not grow each time
    static KEPT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    KEPT.lock().unwrap().clear();
    for a in args {
        for c in a.to_string().chars() {
            let mut res = KEPT.lock().unwrap();
            match c {
                '&' =>'''),("src/funcs/strings.rs",'''                c => res.push(c),
            }
        }
    }
    Ok(TCow::Owned(TData::String(res)))''','''                c => res.push(c),
            }
        }
    }
    let res = KEPT.lock().unwrap().clone();
    Ok(TCow::Owned(TData::String(res)))''')],
'''fn main(){ let go = |x: &'static str| std::thread::spawn(move || { let t = TreeTemplate::from_str(&format!("{{{{html_esc \\"{}\\"}}}}", x)).unwrap(); let f = default_func_man(); for _ in 0..50000 { assert_eq!(t.run(&[], &mut BasicTemps::new(), &f).unwrap(), x); } }); let hs = vec![go("aaaaaaaaaaaaaaaa"), go("bbbbbbbbbbb"), go("cccccccccc"), go("ddddd")]; for h in hs { h.join().unwrap(); } }''',
"two threads in html_esc at the same time","html_esc writes to a buffer that all threads share")
S("s37c","C37",[("src/template.rs",'''        let mut scope = Scope::with_pnames(&[], &self.pnames);
        let mut it = (&self.v).into_iter();
        while let Some(item) = it.next() {
            match item {''','''        // front matter that asks for its own front matter (through a helper) has none
        static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        if BUSY.swap(true, std::sync::atomic::Ordering::SeqCst) {
            return HashMap::new();
        }
        let mut scope = Scope::with_pnames(&[], &self.pnames);
        for item in &self.v {
            match item {'''),("src/template.rs",'''        scope.top()
    }

    pub fn load''','''        BUSY.store(false, std::sync::atomic::Ordering::SeqCst);
        scope.top()
    }

    pub fn load''')],
'''fn main(){ let go = || std::thread::spawn(move || { let t = TreeTemplate::from_str("{{export a = add 1 2; b = cat \\"x\\" \\"y\\"; c = [1,2,3]}}").unwrap(); let f = default_func_man(); for _ in 0..50000 { assert_eq!(t.front_matter(&f).len(), 3); } }); let hs = vec![go(), go(), go()]; for h in hs { h.join().unwrap(); } }''',
"two threads that read front matter at the same time","a guard against recursion makes the front matter empty while another thread reads some")
