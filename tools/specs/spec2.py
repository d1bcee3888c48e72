L='src/funcs/lists.rs'; ST='src/funcs/strings.rs'; SV='src/funcs/svg.rs'; TD='src/tdata.rs'; FO='src/funcs/folder.rs'; FF='src/funcs/free_file.rs'; PA='src/funcs/path.rs'; FM='src/func_man.rs'; TB='src/funcs/table.rs'
FS = r'''
use std::fs;
use std::path::PathBuf;
fn here() -> PathBuf {
    let p = std::env::current_dir().unwrap().join("d");
    fs::create_dir_all(&p).unwrap();
    p
}
fn on<F: FuncManager>(fm: &F, t: &str) -> Result<String, String> {
    TreeTemplate::from_str(t).map_err(|e| e.to_string())?.run(&[], &mut NoTemplates, fm).map_err(|e| e.to_string())
}
'''
S('s19a','C19',[(L,'(TData::List(l), Some(e)) => l.get(start..e).e_str("slice out of range")?,','(TData::List(l), Some(e)) => l.get(start..e.min(l.len())).e_str("slice out of range")?,')],
r'''fn main() {
    fails("{{slice [1,2,3] 1 4}}", &[]);
    gives("{{slice [1,2,3] 1 3}}", &[], "[2,3]");
}''',"a slice of a list whose end is past the list","slice clamps its end instead of giving an error")
S('s19b','C19',[(L,"            if v.eq(needle){","            if v.to_string() == needle.to_string() {")],
r'''fn main() {
    gives("{{index_of \"1\" [1,\"1\"]}}", &[], "1");
    gives("{{index_of 1.0 [1]}}", &[], "0");
    gives("{{index_of true [\"true\"]}}", &[], "NULL");
}''',"a list with entries that display alike but are of different types","index_of compares by text")
S('s19c','C19',[(L,"        TData::Int(i) => TData::UInt(*i as usize),\n        v => v","        TData::Int(i) => TData::UInt(i.unsigned_abs()),\n        v => v")],
r'''fn main() {
    gives("{{get [1,2,3] -1}}", &[], "NULL");
    gives("{{get [1,2,3] 1}}", &[], "2");
}''',"get with a negative position","a negative position counts as its absolute value")
S('s19d','C19',[(L,"Ok(b) if b.as_bool().unwrap_or(false) => Some(v.clone()),","Ok(b) if b.as_bool() != Some(false) => Some(v.clone()),")],
r'''fn main() {
    gives("{{filter [1/2/2001, 1] \"first $0\"}}", &[], "[1]");
}''',"a filter expression that gives a date (no truth value)","filter keeps elements whose expression has no truth value")
S('s20a','C20',[(ST,"    let n = args.get(3).and_then(|v| v.as_usize()).unwrap_or(1);","    let n = args.get(3).and_then(|v| v.as_usize()).unwrap_or(0).max(1);")],
r'''fn main() {
    gives("{{str_replace_n \"aaa\" \"a\" \"b\" 0}}", &[], "aaa");
    gives("{{str_replace_n \"aaa\" \"a\" \"b\"}}", &[], "baa");
}''',"str_replace_n with 0","0 counts as 1")
S('s20b','C20',[(TD,"""                    write!(f, "{}{}", coma, i)?;
                    coma = ",";""","""                    let i = i.to_string();
                    write!(f, "{}{}", coma, i)?;
                    coma = if i.is_empty() { "" } else { "," };""")],
r'''fn main() {
    gives("{{[\"\",\"a\",\"b\"]}}", &[], "[,a,b]");
    gives("{{cat [\"a\",\"\",\"b\"]}}", &[], "[a,,b]");
}''',"a list with an empty string in it, displayed","an empty string in a list swallows the comma after it")
S('s20c','C20',[(TD,'            Float(fv) => write!(f, "{}", fv),','            Float(fv) if fv.abs() >= 1e16 => write!(f, "{:e}", fv),\n            Float(fv) => write!(f, "{:.*}", f.precision().unwrap_or(15), fv).and(Ok(())),')] if False else
 [(TD,'            Float(fv) => write!(f, "{}", fv),','            Float(fv) if fv.abs() >= 1e16 => write!(f, "{:e}", fv),\n            Float(fv) => fmt::Display::fmt(fv, f),')],
r'''fn main() {
    gives("{{mul 1e20 1}}", &[], "100000000000000000000");
    gives("{{mul 1.5 1}}", &[], "1.5");
}''',"a float of 1e16 or more, displayed","large floats are shown in exponent form")
S('s20d','C20',[(ST,"                v.split(splitter)","                v.split_terminator(splitter)")],
r'''fn main() {
    gives("{{join_with \"-\" (split \"a,b,\" \",\")}}", &[], "a-b-");
}''',"a text that ends with the separator","split drops an empty last piece")
S('s21a','C21',[(SV,"""    for c in s.chars() {
        match c {
            '&' => res.push_str("&amp;"),""","""    for (k, c) in s.char_indices() {
        match c {
            '&' if s[k..].starts_with("&amp;") => res.push(c),
            '&' => res.push_str("&amp;"),""")],
r'''fn main() {
    gives("{{xml_esc $0}}", &[&"a&amp;b"], "a&amp;amp;b");
    gives("{{xml_esc $0}}", &[&"a&b"], "a&amp;b");
}''',"a text that holds &amp; itself","xml_esc does not escape what looks escaped")
S('s21b','C21',[(SV,"""    let ry = args.get(3).e_str("need h")?;
    let rx""","""    let ry = args.get(3).or(args.get(2)).e_str("need h")?;
    let rx""")],
r'''fn main() {
    fails("{{cxyrr 1 2 3}}", &[]);
    gives("{{cxyrr 1 2 3 4}}", &[], "cx=\"1\" cy=\"2\" rx=\"3\" ry=\"4\"");
}''',"cxyrr with three arguments","a missing ry is taken from rx instead of being an error")
S('s22a','C22',[(TD,"            TData::UInt(u) => ss.serialize_u64(*u as u64),","            TData::UInt(u) => ss.serialize_i64(*u as i64),")],
r'''fn main() {
    gives("{{w_json 18446744073709551615}}", &[], "18446744073709551615");
}''',"an unsigned number of 2^63 or more","w_json writes large unsigned numbers as negative ones")
S('s22b','C22',[(TD,"            TData::Float(fv) => ss.serialize_f64(*fv),","            TData::Float(fv) if fv.fract() == 0. => ss.serialize_i64(*fv as i64),\n            TData::Float(fv) => ss.serialize_f64(*fv),")],
r'''fn main() {
    let r = render("{{w_json 1e30}}", &[]).unwrap();
    assert_eq!(r.parse::<f64>().unwrap(), 1e30, "{}", r);
}''',"a whole float beyond the integers","w_json writes whole floats as integers, which saturate")
S('s22c','C22',[('src/funcs/format.rs',"""    let s = l.iter().next().e_str("r_json requires a string argument")?;
    if let TData::String(s) = s.deref() {
        return wn_(BasicData)""","""    let s = l.iter().next().e_str("r_json requires a string argument")?;
    if let TData::String(s) = &TData::String(s.deref().to_string()) {
        return wn_(BasicData)""")],
r'''fn main() {
    fails("{{r_json 5}}", &[]);
    gives("{{r_json \"5\"}}", &[], "5");
}''',"r_json of a value that is no string","r_json reads the display of any value")
S('s23a','C23',[('src/funcs/bytes.rs',"    let s = base64::decode(b_ar)?;","    let end = b_ar.iter().rposition(|b| *b != b'=').map_or(0, |n| n + 1);\n    let s = base64::decode_config(&b_ar[..end], base64::STANDARD_NO_PAD)?;")],
r'''fn main() {
        fails("{{from_base64 \"QQ=====\"}}", &[]);
    assert!(render("{{from_base64 \"QQ==\"}}", &[]).is_ok());
}''',"base64 text with the wrong padding","from_base64 ignores the padding")
S('s23b','C23',[(TD,"            CData::N(n) => TData::Int(*n),","            CData::N(n) => TData::UInt(*n as usize),")],
r'''fn main() {
    gives("{{let c = r_card $0}}{{$c.0.n}}", &[&"a:\n  .n: -3\n"], "-3");
}''',"a card entry that is a negative number","negative numbers of cards become huge")
S('s24a','C24',[(PA,"""    join_args(args)
        .file_name()
        .and_then(|v| v.to_str())
        .map(|v| TCow::Owned(TData::String(v.to_string())))
        .e_str("Could not get file base_name")""","""    let path = join_args(args).display().to_string();
    path.rsplit('/')
        .next()
        .filter(|v| !v.is_empty() && *v != "..")
        .map(|v| TCow::Owned(TData::String(v.to_string())))
        .e_str("Could not get file base_name")""")],
r'''fn main() {
    gives("{{base_name \"a/b/\"}}", &[], "b");
    gives("{{base_name \"a/b\"}}", &[], "b");
}''',"a path that ends in a slash","base_name of a path with a slash at the end is an error")
S('s24b','C24',[(PA,"        res.insert(0, path_dat(&par));","        if par.as_os_str().len() > 0 {\n            res.insert(0, path_dat(&par));\n        }"),(PA,"    res.push(path_dat(&path));\n    while","    res.push(path_dat(&path));\n    #[allow(unused_mut)]\n    while")] if False else
 [(PA,"        path = PathBuf::from(par);","        path = par.components().collect();")] if False else
 [(PA,"    while let Some(par) = path.parent() {","    while let Some(par) = path.parent().filter(|p| p.as_os_str().len() > 0) {")],
r'''fn main() {
    let r = render("{{w_json (bread_crumbs \"a/b\")}}", &[]).unwrap();
    assert_eq!(r, "[\"\",\"a\",\"a/b\"]");
    let r = render("{{w_json (bread_crumbs \"/a/b\")}}", &[]).unwrap();
    assert_eq!(r, "[\"/\",\"/a\",\"/a/b\"]");
}''',"bread_crumbs of a relative path","the empty root of a relative path is left out")
S('s24c','C24',[(PA,"""    join_args(args)
        .file_stem()
        .map(|s| TCow::Owned(TData::String(s.to_string_lossy().to_string())))""","""    join_args(args)
        .file_name()
        .map(|s| s.to_string_lossy().to_string())
        .map(|s| match s.find('.') {
            None | Some(0) => s,
            Some(n) => s[..n].to_string(),
        })
        .map(|s| TCow::Owned(TData::String(s)))""")],
r'''fn main() {
    gives("{{stem \"a/b.tar.gz\"}}", &[], "b.tar");
    gives("{{stem \"a/.rc\"}}", &[], ".rc");
}''',"a file name with two dots","stem cuts at the first dot")
S('s25a','C25',[(FO,"""            let sp = safe_path(&pb, &d.to_string()).e_str("Broken File path")?;
            let mut f = std::fs::File::open(sp)?;
            f.read_to_end(&mut res)?;""","""            let sp = match res.len() {
                0 => safe_path(&pb, &d.to_string()).e_str("Broken File path")?,
                _ => pb.join(d.to_string()),
            };
            let mut f = std::fs::File::open(sp)?;
            f.read_to_end(&mut res)?;""")],
FS+r'''fn main() {
    let p = here();
    fs::write(p.join("in"), "in").unwrap();
    fs::write(p.join("../out"), "out").unwrap();
    let fm = func_man_folders(p);
    assert!(on(&fm, "{{file_bytes \"in\" \"../out\"}}").is_err());
    assert!(on(&fm, "{{file_bytes \"in\" \"in\"}}").is_ok());
}''',"file_bytes with a second path that leads outside","only the first path is checked")
S('s25b','C25',[('src/funcs/write.rs',"""        let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
        //Make directory
        std::fs::create_dir_all(sp.parent().e_str("No Parent folder")?)?;""","""        let sp = pb.join(l[0].to_string());
        //Make directory
        std::fs::create_dir_all(sp.parent().e_str("No Parent folder")?)?;
        let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;""")],
FS+r'''fn main() {
    let p = here();
    let fm = default_func_man().with_write_lock(p.clone());
    assert!(on(&fm, "{{write \"../made/x\" \"text\"}}").is_err());
    assert!(!p.join("../made").exists());
    on(&fm, "{{write \"a/x\" \"text\"}}").unwrap();
    assert!(p.join("a/x").exists());
}''',"a locked write to a path outside in a folder that does not exist","the missing folders are made before the path is checked")
S('s25c','C25',[(FO,"""            let sp = safe_path(&pb, &d.to_string()).e_str("Broken File path")?;
            v.push(do_dir(&sp)?.into_owned());""","""            let mut sp = pb.clone();
            for part in d.to_string().split('/').filter(|part| !part.is_empty()) {
                sp = safe_path(&sp, part).or(sp.parent().map(PathBuf::from)).e_str("Broken File path")?;
            }
            v.push(do_dir(&sp)?.into_owned());""")],
FS+r'''fn main() {
    let p = here();
    fs::create_dir_all(p.join("a")).unwrap();
    fs::write(p.join("../secret"), "x").unwrap();
    let fm = func_man_folders(p);
    let r = on(&fm, "{{dir \"a\" \"..\"}}");
    assert!(r.is_err(), "{:?}", r);
    assert!(on(&fm, "{{dir \"a\" \"a/..\"}}").is_ok());
}''',"dir with several paths, one of which climbs out","dir with several arguments lists folders above the locked one")
S('s26a','C26',[(FO,"            do_scan_dir(&full, &short, fm, mdepth - 1, res_list, reg)?;","            do_scan_dir(&full, &short, fm, mdepth, res_list, reg)?;")],
FS+r'''fn main() {
    let p = here();
    fs::create_dir_all(p.join("a/b/c")).unwrap();
    for f in ["0", "a/1", "a/b/2", "a/b/c/3"] { fs::write(p.join(f), "x").unwrap(); }
    let fm = func_man_folders(p);
    for (d, n) in [(0, 1), (1, 2), (2, 3), (3, 4)] {
        assert_eq!(on(&fm, &format!("{{{{len (scan_dir \"\" {})}}}}", d)).unwrap(), n.to_string());
    }
}''',"a locked scan_dir with a depth, on a deeper tree","the depth of the locked scan_dir only tells 0 from the rest")
S('s26b','C26',[(FF,"        .truncate(true)","        .truncate(false)")],
FS+r'''fn main() {
    let p = here();
    let fm = default_func_man().with_free_files();
    let f = p.join("w").display().to_string();
    on(&fm, &format!("{{{{write {:?} \"long text\"}}}}", f)).unwrap();
    on(&fm, &format!("{{{{write {:?} \"x\"}}}}", f)).unwrap();
    assert_eq!(fs::read_to_string(&f).unwrap(), "x");
}''',"a free write of a text shorter than what the file holds","the rest of the old content stays")
S('s26c','C26',[(FF,"""            let short = short.join(item.file_name());
            let full""","""            let short = PathBuf::from(item.file_name());
            let full""")],
FS+r'''fn main() {
    let p = here();
    fs::create_dir_all(p.join("a/b")).unwrap();
    fs::write(p.join("a/b/f"), "x").unwrap();
    let fm = default_func_man().with_free_files();
    let r = on(&fm, &format!("{{{{let l = scan_dir {:?} 5}}}}{{{{$l.0.item_path}}}}", p.display().to_string())).unwrap();
    assert_eq!(r, "a/b");
}''',"a free scan_dir two folders deep","item_path holds the last folder only")
S('s27a','C27',[(PA,"        path.push(v.to_string());","""        let part = v.to_string();
        match part.strip_prefix("~/") {
            Some(rest) if path.as_os_str().is_empty() => {
                path.push(std::env::var("HOME").unwrap_or_default());
                path.push(rest);
            }
            _ => path.push(part),
        }""")],
r'''fn main() {
    std::env::set_var("HOME", "/one");
    gives("{{join \"~/a\" \"b\"}}", &[], "~/a/b");
    gives("{{join \"a\" \"b\"}}", &[], "a/b");
}''',"a path argument that begins with ~/","path helpers read HOME from the environment")
S('s27b','C27',[('src/funcs/mod.rs',"""        let pb: PathBuf = pb.into();
        self.with_f(
            "write",""","""        let pb: PathBuf = pb.into();
        self.with_fn("is_file", free_file::is_file, "(path)->bool : Does the path point to a file")
            .with_f(
            "write",""")],
FS+r'''fn main() {
    let p = here();
    fs::write(p.join("../out"), "x").unwrap();
    let fm = default_func_man().with_write_lock(p.clone());
    assert!(fm.get_func("is_file").is_none());
    assert!(fm.get_func("write").is_some());
}''',"a program that adds only the write lock","the write lock also adds a free is_file")
S('s28a','C28',[(TB,"            is_head |= hd;","            is_head = hd;")],
r'''fn main() {
    let r = render("{{table $0}}", &[&"*|a|b|\n-|c|d|\n|e|f|"]).unwrap();
    assert!(r.contains("<th>a c</th>"), "{}", r);
    assert!(r.contains("<td>e</td>"), "{}", r);
}''',"a header row that is continued on the next line","a continued header row loses its header cells")
S('s28b','C28',[(TB,"""                        }else{
                            write!(v[n]," {}",s).ok();""","""                        }else if !v[n].contains(s.trim()) {
                            write!(v[n]," {}",s).ok();""")],
r'''fn main() {
    let r = render("{{table $0}}", &[&"|abc|x|\n-|b|y|"]).unwrap();
    assert_eq!(r.matches('b').count(), 3 + 1 , "{}", r);
}''',"a continued row with a text that occurs in the cell above it","such a text is dropped")
S('s29a','C29',[('src/funcs/random.rs',"                let n = rg.gen_range(0, l.len());","                let n = rg.gen_range(0, l.len().max(2) - 1);")],
r'''fn main() {
    let mut seen = [0; 3];
    for _ in 0..2000 {
        let n: usize = render("{{rand [0,1,2]}}", &[]).unwrap().parse().unwrap();
        seen[n] += 1;
    }
    assert!(seen.iter().all(|n| *n > 0), "{:?}", seen);
}''',"many draws from a list","the last element of a list never comes")
S('s29b','C29',[('src/funcs/random.rs',"        TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),","        TData::Float(n) => b_ok(TData::Float((rg.gen::<f64>() * n * 1000.).ceil() / 1000.)),")],
r'''fn main() {
    for _ in 0..20000 {
        let f: f64 = render("{{rand 0.01}}", &[]).unwrap().parse().unwrap();
        assert!((0. ..0.01).contains(&f), "{}", f);
    }
}''',"rand of a small float","the float is rounded up, so that it can be the bound itself")
S('s30a','C30',[('src/funcs/exec.rs',"        .args(args[1..].into_iter().map(|v| v.to_string()))","        .args(args[1..].into_iter().map(|v| v.to_string()).filter(|v| !v.is_empty()))")],
r'''fn main() {
    let fm = default_func_man().with_exec();
    let r = TreeTemplate::from_str("{{exec \"printf\" \"<%s>\" \"a\" \"\" \"b\"}}").unwrap().run(&[], &mut NoTemplates, &fm).unwrap();
    assert_eq!(r, "<a><><b>");
}''',"exec with an empty argument","empty arguments are dropped")
S('s30b','C30',[('src/funcs/exec.rs',"        Ok(v) => Ok(TCow::Owned(TData::String(v))),","        Ok(v) if args.len() < 2 || !v.is_empty() => Ok(TCow::Owned(TData::String(v))),"),('src/funcs/exec.rs',"        Err(_) => args","        _ => args")],
r'''fn main() {
    std::env::set_var("SEEDED_EMPTY", "");
    let fm = default_func_man().with_exec();
    let r = TreeTemplate::from_str("[{{env \"SEEDED_EMPTY\" \"default\"}}]").unwrap().run(&[], &mut NoTemplates, &fm).unwrap();
    assert_eq!(r, "[]");
}''',"env of a variable that is set to the empty text, with a default","the default replaces an empty value")
S('s31a','C31',[(FM,"        self.descriptions.insert(ks, description);","        self.descriptions.entry(ks).or_insert(description);")],
r'''fn main() {
    let fm = {
        let mut f = default_func_man();
        FuncAdder::add_fn(&mut f, "cat", |_| Err(anyhow::anyhow!("no")), "mine");
        f
    };
    let seen = std::cell::RefCell::new(vec![]);
    fm.for_each(|k, d| if k == "cat" { seen.borrow_mut().push(d.to_string()) });
    assert_eq!(*seen.borrow(), vec!["mine"]);
}''',"a helper added under a name that is taken","the first description of a name stays")
S('s31b','C31',[(FM,"        self.funcs.get(k).map(|r| &**r)","        self.funcs.get(k).or_else(|| self.funcs.get(&k.to_lowercase())).map(|r| &**r)")],
r'''fn main() {
    let fm = default_func_man();
    assert!(fm.get_func("cat").is_some());
    assert!(fm.get_func("Cat").is_none());
}''',"a name that differs from a helper's in case","names are found whatever their case")
S('s32a','C32',[(ST,"            ' ' | '\\t' => brk = Some(k),","            ' ' => brk = Some(k),")],
r'''fn main() {
    gives("{{join_with \"|\" (word_wrap $0 6)}}", &[&"ab\tcdef"], "ab|cdef");
}''',"words separated by a tab","a tab is no place to break a line")
S('s32b','C32',[(ST,"        count += 1;","        count += c.len_utf8();")],
r'''fn main() {
    gives("{{join_with \"|\" (word_wrap $0 6)}}", &[&"ab \u{e9}\u{e9}\u{e9}\u{e9}"], "ab|\u{e9}\u{e9}\u{e9}\u{e9}");
    gives("{{join_with \"|\" (word_wrap $0 6)}}", &[&"ab cdef"], "ab|cdef");
}''',"text with characters of several bytes","the width counts bytes, so such words are cut")
S('s33a','C33',[(ST,"        let s = s.deref().to_string();\n        let p","        let s = s.deref().to_string().trim_start_matches(' ').to_string();\n        let p")],
r'''fn main() {
    gives("{{md $0}}", &[&"    code\n"], "<pre><code>code\n</code></pre>\n");
    gives("{{md $0}}", &[&"text"], "<p>text</p>\n");
}''',"markdown that begins with an indented code block","blanks at the start are removed")
S('s33b','C33',[(ST,"""    for s in l {
        let pops = mdown::Options::all();
        let s = s.deref().to_string();
        let p = mdown::Parser::new_ext(&s, pops);
        mdown::html::push_html(&mut r_str, p);
    }""","""    let s: String = l.iter().map(|s| s.deref().to_string() + "\\n").collect();
    let p = mdown::Parser::new_ext(&s, mdown::Options::all());
    mdown::html::push_html(&mut r_str, p);""")],
r'''fn main() {
    gives("{{md $0 $1}}", &[&"a", &"b"], "<p>a</p>\n<p>b</p>\n");
    gives("{{md $0}}", &[&"a"], "<p>a</p>\n");
}''',"md with several arguments","the arguments become one document, so paragraphs run together")
TP='src/template.rs'
S('s34a','C34',[(TP,"""            FlatItem::String(s) => match curr {
                Some(ref mut cb) => cb.block.push(TreeItem::String(s)),
                None => {}
            },""","""            FlatItem::String(s) => match curr {
                Some(ref mut cb) if cb.block.is_empty() && s.trim().is_empty() => {}
                Some(ref mut cb) => cb.block.push(TreeItem::String(s)),
                None => {}
            },""")],
r'''fn main() {
    gives("{{switch 1}}{{case 1}} {{2}}{{/switch}}", &[], " 2");
    gives("{{switch 1}}{{case 1}}a {{2}}{{/switch}}", &[], "a 2");
}''',"a case whose body begins with white space before a tag","such white space is dropped")
