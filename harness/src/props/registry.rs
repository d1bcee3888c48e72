//! C31: the helper and template registries against maps
use super::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

const NAMES: &[&str] = &["f", "g", "cat", "len", "F", "f2", "é", "add", "w_json", "x y", ""];
const DESC: &[&str] = &["", "one", "(a)->b : two", "three : four", "é"];

/// helpers that tell which one they are; some keep state of their own
#[derive(Clone, Copy, Debug, PartialEq)]
enum H {
    /// gives its number and its arguments
    Tag(usize),
    /// counts its calls, starting from the number
    Count(usize),
    /// gives the first argument back
    First,
    Fails,
    /// a plain function
    Plain,
    /// whatever the library registered
    Default,
}
fn plain_fn<'a>(a: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    Ok(std::borrow::Cow::Owned(TData::String(format!("plain{}", a.len()))))
}
fn make(h: H, log: &Rc<RefCell<Vec<usize>>>) -> Box<TFunc> {
    use std::borrow::Cow;
    match h {
        H::Tag(n) => {
            let log = log.clone();
            Box::new(move |a| {
                log.borrow_mut().push(n);
                let mut l = vec![TData::UInt(n)];
                l.extend(a.iter().map(|x| x.clone().into_owned()));
                Ok(Cow::Owned(TData::List(l)))
            })
        }
        H::Count(n) => {
            let c = std::cell::Cell::new(n);
            Box::new(move |_| {
                c.set(c.get() + 1);
                Ok(Cow::Owned(TData::UInt(c.get())))
            })
        }
        H::First => Box::new(|a| a.get(0).cloned().ok_or_else(|| anyhow::anyhow!("nothing"))),
        _ => Box::new(|_| Err(anyhow::anyhow!("fails"))),
    }
}
/// what is written to standard output meanwhile
fn printed(scratch: &str, f: impl FnOnce()) -> String {
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::os::unix::io::AsRawFd;
    let path = format!("{}/printed", scratch);
    let mut file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("a file in the scratch folder");
    std::io::stdout().flush().ok();
    let old = unsafe { libc::dup(1) };
    unsafe { libc::dup2(file.as_raw_fd(), 1) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    std::io::stdout().flush().ok();
    unsafe {
        libc::dup2(old, 1);
        libc::close(old);
    }
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
    let mut s = String::new();
    file.seek(SeekFrom::Start(0)).ok();
    file.read_to_string(&mut s).ok();
    s
}
struct Reg {
    h: H,
    desc: Option<&'static str>,
    calls: usize,
}
fn c31(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(1, 3) {
        return templates(s, ctx);
    }
    let log: Rc<RefCell<Vec<usize>>> = Default::default();
    let mut logged = vec![];
    let mut f = BasicFuncs::new();
    let mut m: BTreeMap<String, Reg> = BTreeMap::new();
    thread_local! { static DEF: Vec<String> = names(fm()); }
    let n = s.count_to(1, 14, 250);
    for i in 0..n {
        match s.weighted(&[6, 5, 3, if i < 3 { 1 } else { 0 }]) {
            0 => {
                let k = *s.pick(NAMES);
                let h = match s.weighted(&[4, 2, 1, 1, 2]) {
                    0 => H::Tag(i),
                    1 => H::Count(i * 100),
                    2 => H::First,
                    3 => H::Fails,
                    _ => H::Plain,
                };
                let d = *s.pick(DESC);
                ctx.note(format!("add {:?} {:?} {:?}", k, h, d));
                ctx.class_if(m.contains_key(k), "replaced");
                ctx.nontrivial = true;
                match (h, s.draw(3)) {
                    (H::Plain, 0) => f.add_fn(k, plain_fn, d),
                    (H::Plain, 1) => f = FuncAdder::with_fn(f, k, plain_fn, d),
                    (H::Plain, _) => f = WithFuncs::with_fn(f, k.to_string(), plain_fn, d),
                    (h, 0) => f.add_func(k.to_string(), make(h, &log), d),
                    (h, 1) => f = f.with_func(k, make(h, &log), d),
                    (h, _) => f = f.with_f(k, make(h, &log), d),
                }
                m.insert(k.to_string(), Reg { h, desc: Some(d), calls: 0 });
            }
            1 => {
                let k = *s.pick(NAMES);
                let a: Vec<V> = (0..s.count_to(0, 3, 60)).map(|_| gen_small(s)).collect();
                ctx.note(format!("call {:?} {}", k, show_args(&a)));
                let want: Option<Option<V>> = match m.get_mut(k) {
                    None => Some(None),
                    Some(r) => {
                        r.calls += 1;
                        match r.h {
                            H::Tag(n) => {
                                let mut l = vec![V::UInt(n)];
                                l.extend(a.iter().cloned());
                                logged.push(n);
                                Some(Some(V::List(l)))
                            }
                            H::Count(n) => Some(Some(V::UInt(n + r.calls))),
                            H::First => Some(a.first().cloned()),
                            H::Fails => Some(None),
                            H::Plain => Some(Some(V::s(format!("plain{}", a.len())))),
                            H::Default => None,
                        }
                    }
                };
                let tds: Vec<TData> = a.iter().map(|v| v.td()).collect();
                // from a template only names that can be written there
                let word = k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !k.is_empty();
                let got = if word && s.chance(1, 2) {
                    invoke_on(&f, s, k, &a)
                } else {
                    direct(&f, k, &tds).map(|d| V::from_td(&d))
                };
                ctx.op("call");
                let show = format!("{} {}\ngives {}", k, show_args(&a), res_canon(&got));
                match want {
                    Some(Some(w)) => crate::ensure!(got.as_ref().map(|g| w.same(g)).unwrap_or(false), "C31:call", "{}\nexpected {}", show, w.canon()),
                    Some(None) => crate::ensure!(got.is_err(), "C31:call", "{}\nexpected an error", show),
                    None => {
                        let w = direct(fm(), k, &tds).map(|d| V::from_td(&d));
                        let ok = match (&w, &got) {
                            (Ok(w), Ok(g)) => w.same(g),
                            (Err(_), Err(_)) => true,
                            _ => false,
                        };
                        crate::ensure!(ok, "C31:default", "{}\nthe default helper gives {}", show, res_canon(&w));
                    }
                }
                crate::ensure!(*log.borrow() == logged, "C31:calls", "{}\ncalls made {:?}, expected {:?}", show, log.borrow(), logged);
            }
            2 => {
                ctx.note("list");
                let got: RefCell<Vec<(String, String)>> = Default::default();
                f.for_each(|k, d| got.borrow_mut().push((k.clone(), d.to_string())));
                let got = got.into_inner();
                let mut g = got.clone();
                g.sort();
                let names: Vec<&String> = g.iter().map(|x| &x.0).collect();
                let want: Vec<&String> = m.keys().collect();
                crate::ensure!(names == want, "C31:listed", "lists {:?}\nexpected {:?}", names, want);
                for (k, d) in &g {
                    if let Some(w) = m[k].desc {
                        crate::ensure!(d == w, "C31:description", "{:?} is described as {:?}, expected {:?}", k, d, w);
                    } else {
                        crate::ensure!(!d.is_empty(), "C31:description", "default {:?} has no description", k);
                    }
                }
                if s.chance(1, 12) {
                    // what is printed: layout and order are free
                    let what = *s.pick(&["", "f", "one", "cat", "four", "é", ":", "list", "zz", "add"]);
                    let all = s.chance(1, 3);
                    ctx.note(if all { "print_all".to_string() } else { format!("print_filter {:?}", what) });
                    ctx.class("printed");
                    let text = printed(&ctx.scratch, || if all { f.print_all() } else { f.print_filter(what) });
                    let letters = |t: &str| {
                        let mut c: Vec<char> = t.chars().filter(|c| !c.is_whitespace() && *c != ':').collect();
                        c.sort();
                        c
                    };
                    let want: String = g.iter().filter(|(k, d)| all || k.contains(what) || d.contains(what)).map(|(k, d)| format!("{} {} ", k, d)).collect();
                    crate::ensure!(letters(&text) == letters(&want), "C31:printed", "{} {:?} prints {:?}\nexpected (in any layout) {:?}", if all { "print_all" } else { "print_filter" }, what, text, want);
                }
                for k in NAMES {
                    crate::ensure!(f.get_func(k).is_some() == m.contains_key(*k), "C31:found", "{:?} found: {}", k, f.get_func(k).is_some());
                }
            }
            _ => {
                ctx.note("with_defaults");
                ctx.class("defaults");
                f = f.with_defaults();
                for k in DEF.with(|d| d.clone()) {
                    m.insert(k, Reg { h: H::Default, desc: None, calls: 0 });
                }
            }
        }
    }
    Ok(())
}

fn templates(s: &mut Source, ctx: &mut Ctx) -> R {
    let names = ["t", "u", "t2", "T", "cat", "x y", ""];
    ctx.class("templates");
    if s.chance(1, 4) {
        // the manager that holds nothing
        ctx.class("no-templates");
        let mut nt = NoTemplates;
        for _ in 0..s.size(1, 4) {
            let k = *s.pick(&names);
            match s.draw(3) {
                0 => {
                    ctx.note(format!("insert {:?} into the empty one", k));
                    ctx.nontrivial = true;
                    nt.insert_t(k.to_string(), parse("x").unwrap());
                }
                1 => {
                    ctx.note(format!("get {:?}", k));
                    crate::ensure!(nt.get_t(k).is_err(), "C31:empty", "the empty template manager has {:?}", k);
                }
                _ => {
                    ctx.note("a program that defines a global one");
                    ctx.nontrivial = true;
                    let t = parse("{{global t}}abc{{/global}}{{t}}").map_err(|e| Fail { sig: "C31:parse".into(), msg: e })?;
                    let r = run_no_temps(&t, &[], fm());
                    crate::ensure!(r.is_err(), "C31:empty", "a global template is found without a manager: {:?}", r);
                }
            }
        }
        return Ok(());
    }
    let mut tm = BasicTemps::new();
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for i in 0..s.count_to(1, 12, 150) {
        let k = *s.pick(&names);
        match s.draw(5) {
            0 | 1 => {
                ctx.note(format!("insert {:?}", k));
                ctx.class_if(m.contains_key(k), "replaced template");
                ctx.nontrivial = true;
                tm.insert_t(k.to_string(), parse(&format!("<{}>{{{{$0}}}}", i)).unwrap());
                m.insert(k.to_string(), format!("<{}>", i));
            }
            2 => {
                // a program puts one in
                let k = if k.is_empty() || k.contains(' ') { "t" } else { k };
                ctx.note(format!("global {:?}", k));
                ctx.nontrivial = true;
                let t = parse(&format!("{{{{global {}}}}}<{}>{{{{$0}}}}{{{{/global}}}}", k, i)).map_err(|e| Fail { sig: "C31:parse".into(), msg: e })?;
                let r = run(&t, &[], &mut tm, fm());
                crate::ensure!(r.as_ref().map(|x| x.as_str()) == Ok(""), "C31:global", "defining a global gives {:?}", r);
                m.insert(k.to_string(), format!("<{}>", i));
            }
            3 => {
                ctx.note(format!("get {:?}", k));
                let got = match tm.get_t(k) {
                    Ok(t) => {
                        let t = t.clone();
                        Some(run(&t, &[&"p" as &dyn TParam], &mut BasicTemps::new(), fm()).unwrap_or_else(|e| e))
                    }
                    Err(_) => None,
                };
                let want = m.get(k).map(|w| format!("{}p", w));
                crate::ensure!(got == want, "C31:template", "{:?} gives {:?}, expected {:?}", k, got, want);
            }
            _ => {
                if k == "cat" || k.is_empty() || k.contains(' ') {
                    continue;
                }
                ctx.note(format!("call {:?}", k));
                let t = parse(&format!("{{{{{} \"q\"}}}}", k)).map_err(|e| Fail { sig: "C31:parse".into(), msg: e })?;
                let got = run(&t, &[], &mut tm, fm()).ok();
                let want = m.get(k).map(|w| format!("{}q", w));
                crate::ensure!(got == want, "C31:template-call", "{:?} gives {:?}, expected {:?}", k, got, want);
            }
        }
    }
    crate::ensure!(tm.len() == m.len(), "C31:templates", "{} templates, expected {:?}", tm.len(), m.keys());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "sequences of adding, replacing, calling, listing and looking up helpers and templates against maps; non-trivial: something was added",
        quick: 400_000,
        factor: 30,
        fuel: 20_000_000,
        run: c31,
        pins: vec![],
        assumptions: vec!["descriptions of the default helpers are only required to be there"],
    }]
}
