//! Generated-case engine: recorded choice sequences, coverage-guided mutation,
//! integrated shrinking, crash/fuel isolation in child processes, evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

// ---------------------------------------------------------------- choices
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut r = Rng(h);
    r.next()
}

/// All randomness of a case goes through here: a finite prefix of given choices,
/// then either random ones (generation) or zeros (replay).
pub struct Source {
    prefix: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    shm: *mut u64,
    /// how often this case may still grow something far beyond the usual
    grow: u32,
}
pub const MAX_CHOICES: usize = 60_000;
impl Source {
    pub fn new(prefix: Vec<u64>, rng: Option<Rng>, shm: *mut u64) -> Self {
        Source { prefix, pos: 0, rng, rec: Vec::new(), shm, grow: 1 }
    }
    /// A choice in 0..n, 0 being the simplest
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = if self.rec.len() >= MAX_CHOICES {
            0
        } else if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            if n == 0 {
                v
            } else if v < n {
                v
            } else {
                v % n
            }
        } else if let Some(r) = &mut self.rng {
            if n == 0 {
                r.next()
            } else {
                r.below(n)
            }
        } else {
            0
        };
        self.pos += 1;
        if self.rec.len() < MAX_CHOICES {
            self.rec.push(v);
            if !self.shm.is_null() {
                unsafe {
                    *self.shm.add(8 + self.rec.len() - 1) = v;
                    *self.shm.add(2) = self.rec.len() as u64;
                }
            }
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    /// inclusive
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// whether to go far beyond the usual here: at most once a case
    pub fn grows(&mut self) -> bool {
        if self.grow == 0 || self.draw(40) != 39 {
            return false;
        }
        self.grow -= 1;
        true
    }
    /// how many of something: lo..=hi, now and then far more than hi (up to max)
    pub fn count_to(&mut self, lo: usize, hi: usize, max: usize) -> usize {
        if max > hi && self.grows() {
            let top = match self.weighted(&[9, 5, 3, 3]) {
                0 => hi * 3 + 6,
                1 => 40,
                2 => 150,
                _ => 600,
            };
            let top = top.max(hi + 1).min(max);
            return self.size(hi + 1, top);
        }
        self.size(lo, hi)
    }
    pub fn count(&mut self, lo: usize, hi: usize) -> usize {
        self.count_to(lo, hi, 600)
    }
    /// true with probability num/den; false is simpler
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.draw(v.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut x = self.draw(tot as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// a small length, geometric-ish, at most max
    pub fn few(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.draw(100) >= 35 {
            n += 1;
        }
        n
    }
}

// ---------------------------------------------------------------- cases
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! bail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::engine::Fail{ sig: String::from($sig), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { $crate::bail!($sig, $($a)*) } };
}

pub struct Ctx {
    pub note: String,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub op: &'static str,
    pub scratch: String,
    shm: *mut u64,
}
impl Ctx {
    pub fn note(&mut self, s: impl AsRef<str>) {
        if !self.note.is_empty() {
            self.note.push('\n');
        }
        self.note.push_str(s.as_ref());
        self.flush_note();
    }
    fn flush_note(&self) {
        if !self.shm.is_null() {
            unsafe {
                let p = self.shm.add(8 + MAX_CHOICES) as *mut u8;
                let b = self.note.as_bytes();
                let n = b.len().min(60_000);
                std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
                *self.shm.add(3) = n as u64;
            }
        }
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c)
        }
    }
    /// Name the operation about to run (it goes into the signature of a crash).
    pub fn op(&mut self, o: &'static str) {
        self.op = o;
        if !self.shm.is_null() {
            unsafe {
                let p = self.shm.add(8 + MAX_CHOICES + 8000) as *mut u8;
                let n = o.len().min(100);
                std::ptr::copy_nonoverlapping(o.as_ptr(), p, n);
                *self.shm.add(4) = n as u64;
            }
        }
    }
}

pub type RunFn = fn(&mut Source, &mut Ctx) -> R;
pub type PinFn = fn(&mut Ctx) -> R;
pub struct Prop {
    pub id: &'static str,
    /// how cases are made, what makes one non-trivial
    pub rule: &'static str,
    /// total cases of the quick tier
    pub quick: u64,
    /// factor for the thorough tier
    pub factor: u64,
    /// allowed work per case (edges executed in the code under test)
    pub fuel: u64,
    pub run: RunFn,
    pub pins: Vec<(&'static str, PinFn)>,
    pub assumptions: Vec<&'static str>,
}

const SHM_WORDS: usize = 8 + MAX_CHOICES + 8000 + 64;
static mut SHM: *mut u64 = std::ptr::null_mut();

fn on_fuel() {
    unsafe {
        if !SHM.is_null() {
            *SHM.add(1) = 77;
        }
        libc::_exit(77);
    }
}

fn map_shm(path: &str) -> *mut u64 {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
        assert!(fd >= 0, "shm open {}", path);
        libc::ftruncate(fd, (SHM_WORDS * 8) as i64);
        let p = libc::mmap(
            std::ptr::null_mut(),
            SHM_WORDS * 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        libc::close(fd);
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    }
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
static mut LAST_PANIC: Option<String> = None;

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe {
            #[allow(static_mut_refs)]
            {
                LAST_PANIC = Some(format!("{} at {}", m, loc));
            }
        }
    }));
}

#[derive(Clone)]
pub enum Case {
    Pin(usize),
    Choices(Vec<u64>),
}

pub struct CaseOut {
    pub res: R,
    pub rec: Vec<u64>,
    pub note: String,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub new_edges: u64,
}

fn exec(prop: &Prop, case: &Case, rng: Option<Rng>, scratch: &str) -> CaseOut {
    let shm = unsafe { SHM };
    unsafe {
        if !shm.is_null() {
            *shm.add(1) = 1;
            *shm.add(2) = 0;
            *shm.add(3) = 0;
            *shm.add(4) = 0;
        }
    }
    let mut ctx = Ctx {
        note: String::new(),
        classes: vec![],
        nontrivial: false,
        op: "case",
        scratch: scratch.to_string(),
        shm,
    };
    let prefix = match case {
        Case::Choices(c) => c.clone(),
        Case::Pin(_) => vec![],
    };
    let mut src = Source::new(prefix, rng, shm);
    covrt::arm(prop.fuel);
    let r = catch_unwind(AssertUnwindSafe(|| match case {
        Case::Pin(i) => (prop.pins[*i].1)(&mut ctx),
        Case::Choices(_) => (prop.run)(&mut src, &mut ctx),
    }));
    let new_edges = covrt::new_edges();
    covrt::disarm();
    let res = match r {
        Ok(r) => r,
        Err(_) => {
            #[allow(static_mut_refs)]
            let m = unsafe { LAST_PANIC.take().unwrap_or_default() };
            // a panic inside the harness itself is an error of the check
            if m.contains(" at src/") && !m.contains("/repo/src/") {
                eprintln!("HARNESS-PANIC {}\n{}", m, ctx.note);
                std::process::exit(3);
            }
            Err(Fail { sig: format!("panic:{}", ctx.op), msg: format!("panicked in {}: {}", ctx.op, m) })
        }
    };
    unsafe {
        if !shm.is_null() {
            *shm.add(1) = 0;
        }
    }
    CaseOut { res, rec: src.rec, note: ctx.note, classes: ctx.classes, nontrivial: ctx.nontrivial, new_edges }
}

// ---------------------------------------------------------------- shrinking
/// `still` says whether the choices fail with the wanted signature, and gives
/// the choices actually used.
pub fn shrink(mut best: Vec<u64>, mut budget: usize, still: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    // for trying out many changes in a row (tools/mutate.py)
    if std::env::var_os("VH_NOSHRINK").is_some() {
        budget = 0;
    }
    let mut left = budget as i64;
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && left > 0 {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let end = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[end..]);
                left -= 1;
                match still(&c) {
                    Some(r) if simpler(&r, &best) => best = r,
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // zero, then lower single choices
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    left -= 1;
                    if let Some(r) = still(&c) {
                        if simpler(&r, &best) {
                            best = r;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && left > 0 {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo && left > 0 {
                let hi = best[i];
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                left -= 1;
                match still(&c) {
                    Some(r) if simpler(&r, &best) => best = r,
                    _ => lo = mid + 1,
                }
            }
            // delete one before and decrement (length fields)
            if i + 1 < best.len() && best[i] > 0 && left > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                left -= 1;
                if let Some(r) = still(&c) {
                    if simpler(&r, &best) {
                        best = r;
                        continue;
                    }
                }
            }
            i += 1;
        }
        if best == before || left <= 0 {
            return best;
        }
    }
}

// ---------------------------------------------------------------- child
struct ShardOut {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    failure: Option<Value>,
    known_hits: BTreeMap<String, u64>,
    corpus: u64,
    steps_max: u64,
}

fn with_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

pub fn known_sigs(id: &str) -> Vec<(String, String)> {
    let mut res = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", VERIF)) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut property = "";
                let mut sig = "";
                for w in rest.split_whitespace() {
                    if let Some(p) = w.strip_prefix("property=") {
                        property = p
                    }
                    if let Some(p) = w.strip_prefix("sig=") {
                        sig = p
                    }
                }
                if property == id && !sig.is_empty() {
                    let desc = rest.split_once("sig=").and_then(|(_, r)| r.split_once(' ')).map(|x| x.1).unwrap_or("");
                    res.push((sig.to_string(), desc.to_string()));
                }
            }
        }
    }
    res
}

pub fn child(prop: &'static Prop, args: &[String]) -> i32 {
    let a: Vec<String> = args.to_vec();
    with_stack(move || child_main(prop, &a))
}
fn child_main(prop: &'static Prop, args: &[String]) -> i32 {
    let seed: u64 = args[0].parse().unwrap();
    let shard: u64 = args[1].parse().unwrap();
    let from: u64 = args[2].parse().unwrap();
    let n: u64 = args[3].parse().unwrap();
    let dir = args[4].clone();
    let shm = map_shm(&format!("{}/shm{}", dir, shard));
    unsafe { SHM = shm };
    let scratch = format!("{}/scratch{}", dir, shard);
    std::fs::create_dir_all(&scratch).ok();
    unsafe { covrt::ON_FUEL = Some(on_fuel) };
    install_panic_hook();
    let known: HashSet<String> = known_sigs(prop.id).into_iter().map(|k| k.0).collect();
    let mut out = ShardOut {
        evals: 0,
        nontrivial: HashSet::new(),
        classes: BTreeMap::new(),
        samples: vec![],
        failure: None,
        known_hits: BTreeMap::new(),
        corpus: 0,
        steps_max: 0,
    };
    let mut corpus: Vec<Vec<u64>> = vec![];
    let base = hash_str(&format!("{}/{}/{}", prop.id, seed, shard));
    let npins = if shard == 0 { prop.pins.len() as u64 } else { 0 };
    let mut idx = from;
    while idx < n + npins {
        unsafe { *shm = idx };
        let mut rng = Rng::new(base ^ idx.wrapping_mul(0x2545F4914F6CDD1D));
        let case;
        let mut case_rng = None;
        if idx < npins {
            case = Case::Pin(idx as usize);
        } else if !corpus.is_empty() && rng.below(100) < 35 {
            case = Case::Choices(mutate(&corpus, &mut rng));
            case_rng = Some(Rng::new(rng.next()));
        } else {
            case = Case::Choices(vec![]);
            case_rng = Some(Rng::new(rng.next()));
        }
        let o = exec(prop, &case, case_rng, &scratch);
        out.evals += 1;
        out.steps_max = out.steps_max.max(covrt::steps());
        for c in &o.classes {
            *out.classes.entry(c.to_string()).or_insert(0) += 1;
        }
        if o.nontrivial {
            let fresh = out.nontrivial.insert(hash_str(&o.note));
            if fresh && out.samples.len() < 3 && (out.samples.is_empty() || idx % 97 == 5) {
                out.samples.push(o.note.chars().take(600).collect());
            }
        }
        if o.new_edges > 0 && idx >= npins && corpus.len() < 3000 && o.rec.len() < 4000 {
            corpus.push(o.rec.clone());
        }
        if let Err(f) = o.res {
            if known.contains(&f.sig) {
                *out.known_hits.entry(f.sig.clone()).or_insert(0) += 1;
            } else {
                let (fin, rec) = match case {
                    Case::Pin(_) => (o_fail(&f, &o.note), None),
                    Case::Choices(_) => {
                        let sig = f.sig.clone();
                        let limit = Instant::now();
                        let best = shrink(o.rec.clone(), 1500, &mut |c| {
                            if limit.elapsed() > Duration::from_secs(40) {
                                return None;
                            }
                            let r = exec(prop, &Case::Choices(c.to_vec()), None, &scratch);
                            match r.res {
                                Err(e) if e.sig == sig => Some(trim(r.rec)),
                                _ => None,
                            }
                        });
                        let r = exec(prop, &Case::Choices(best.clone()), None, &scratch);
                        match r.res {
                            Err(e) => (o_fail(&e, &r.note), Some(best)),
                            // not reproducible from its choices alone: state outside them
                            Ok(()) => (o_fail(&f, &o.note), Some(o.rec.clone())),
                        }
                    }
                };
                let mut fin = fin;
                match rec {
                    Some(c) => fin["choices"] = json!(c),
                    None => fin["pin"] = json!(prop.pins[idx as usize].0),
                }
                out.failure = Some(fin);
                break;
            }
        }
        idx += 1;
    }
    out.corpus = corpus.len() as u64;
    let v = json!({
        "evals": out.evals, "classes": out.classes, "samples": out.samples,
        "failure": out.failure, "known_hits": out.known_hits, "corpus": out.corpus,
        "edges": covrt::seen_ids(), "total_edges": covrt::total_edges(), "steps_max": out.steps_max,
        "hashes": out.nontrivial.iter().collect::<Vec<_>>(),
    });
    std::fs::write(format!("{}/out{}-{}", dir, shard, from), v.to_string()).unwrap();
    0
}
fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn o_fail(f: &Fail, note: &str) -> Value {
    json!({"sig": f.sig, "msg": f.msg, "case": note})
}
fn mutate(corpus: &[Vec<u64>], rng: &mut Rng) -> Vec<u64> {
    // favour recent additions
    let k = if rng.below(2) == 0 { corpus.len() - 1 - rng.below((corpus.len() as u64).min(40)) as usize } else { rng.below(corpus.len() as u64) as usize };
    let mut c = corpus[k].clone();
    for _ in 0..1 + rng.below(4) {
        if c.is_empty() {
            break;
        }
        let i = rng.below(c.len() as u64) as usize;
        match rng.below(7) {
            0 => c[i] = rng.below(c[i].saturating_mul(2).saturating_add(4)),
            1 => c[i] = c[i].wrapping_add(1),
            2 => c[i] = c[i].saturating_sub(1),
            3 => {
                let n = (1 + rng.below(6) as usize).min(c.len() - i);
                c.drain(i..i + n);
            }
            4 => {
                let n = (1 + rng.below(12) as usize).min(c.len() - i);
                let seg = c[i..i + n].to_vec();
                c.splice(i..i, seg);
            }
            5 => {
                let other = &corpus[rng.below(corpus.len() as u64) as usize];
                if !other.is_empty() {
                    let j = rng.below(other.len() as u64) as usize;
                    let n = (1 + rng.below(20) as usize).min(other.len() - j);
                    let m = (rng.below(20) as usize).min(c.len() - i);
                    c.splice(i..i + m, other[j..j + n].iter().cloned());
                }
            }
            _ => c.truncate(i),
        }
    }
    c
}

// ---------------------------------------------------------------- replay / one
/// exit code: 0 passes, 1 fails (prints a JSON line), anything else: crash
pub fn one(prop: &'static Prop, file: String, dir: Option<String>) -> i32 {
    with_stack(move || {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&file).expect("replay file")).expect("json");
        let tmp = dir.unwrap_or_else(|| format!("/tmp/vh-replay-{}", std::process::id()));
        std::fs::create_dir_all(&tmp).unwrap();
        unsafe {
            SHM = map_shm(&format!("{}/shm-one", tmp));
            covrt::ON_FUEL = Some(on_fuel);
        }
        install_panic_hook();
        let case = if let Some(p) = v["pin"].as_str() {
            Case::Pin(prop.pins.iter().position(|x| x.0 == p).expect("no such pinned case"))
        } else {
            Case::Choices(v["choices"].as_array().expect("choices").iter().map(|x| x.as_u64().unwrap()).collect())
        };
        let o = exec(prop, &case, None, &tmp);
        match o.res {
            Ok(()) => 0,
            Err(f) => {
                println!("{}", json!({"sig": f.sig, "msg": f.msg, "case": o.note, "choices": o.rec}));
                1
            }
        }
    })
}

pub fn replay(props: &'static [Prop], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or("").to_string();
    let tmp = format!("/tmp/vh-replay-{}", std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    assert!(props.iter().any(|p| p.id == id));
    let o = run_one(&id, file, &tmp);
    let (fs, msg) = match o {
        One::Pass => (false, "the case passes".to_string()),
        One::Fail(v) => (true, format!("{}\n{}\ncase:\n{}", v["sig"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or(""), v["case"].as_str().unwrap_or(""))),
        One::Crash(k, note, _) => (true, format!("crash:{}\ncase:\n{}", k, note)),
        One::Hang => (true, format!("no answer within {} s", HANG)),
    };
    std::fs::remove_dir_all(&tmp).ok();
    println!("{}", msg);
    if fs {
        println!("VIOLATION property={} replay={}", id, file);
        1
    } else {
        0
    }
}

/// seconds without an answer, in a case that otherwise takes milliseconds
const HANG: u64 = 100;
enum One {
    Pass,
    Fail(Value),
    Crash(String, String, Vec<u64>),
    Hang,
}
fn crash_kind(st: &std::process::ExitStatus, stderr: &str) -> String {
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(77) {
        return "fuel".into();
    }
    if stderr.contains("overflowed its stack") {
        return "stack-overflow".into();
    }
    match (st.code(), st.signal()) {
        (Some(c), _) => format!("exit{}", c),
        (_, Some(s)) => format!("signal{}", s),
        _ => "unknown".into(),
    }
}
fn shm_read(p: *mut u64) -> (String, Vec<u64>, String) {
    unsafe {
        let n = (*p.add(2) as usize).min(MAX_CHOICES);
        let ch = std::slice::from_raw_parts(p.add(8), n).to_vec();
        let nn = (*p.add(3) as usize).min(60_000);
        let b = std::slice::from_raw_parts(p.add(8 + MAX_CHOICES) as *const u8, nn);
        let no = (*p.add(4) as usize).min(100);
        let o = std::slice::from_raw_parts(p.add(8 + MAX_CHOICES + 8000) as *const u8, no);
        (String::from_utf8_lossy(b).into_owned(), ch, String::from_utf8_lossy(o).into_owned())
    }
}
/// Run one case in a fresh process.
fn run_one(id: &str, file: &str, dir: &str) -> One {
    let exe = std::env::current_exe().unwrap();
    let mut ch = std::process::Command::new(exe)
        .args(["one", id, file, dir])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap();
    let start = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(_) => break,
            None if start.elapsed() > Duration::from_secs(HANG) => {
                ch.kill().ok();
                ch.wait().ok();
                return One::Hang;
            }
            None => std::thread::sleep(Duration::from_millis(3)),
        }
    }
    let o = ch.wait_with_output().unwrap();
    let so = String::from_utf8_lossy(&o.stdout).into_owned();
    match o.status.code() {
        Some(0) => One::Pass,
        Some(1) => {
            let l = so.lines().rev().find(|l| l.starts_with('{')).unwrap_or("{}").to_string();
            One::Fail(serde_json::from_str(&l).unwrap_or(json!({"sig":"?"})))
        }
        Some(3) => {
            eprintln!("{}", String::from_utf8_lossy(&o.stderr));
            One::Hang
        }
        _ => {
            let k = crash_kind(&o.status, &String::from_utf8_lossy(&o.stderr));
            let p = map_shm(&format!("{}/shm-one", dir));
            let (note, chs, op) = shm_read(p);
            unsafe { libc::munmap(p as *mut _, SHM_WORDS * 8) };
            One::Crash(format!("{}:{}", k, op), note, chs)
        }
    }
}

// ---------------------------------------------------------------- parent
pub fn check(prop: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if tier == "thorough" { prop.quick * prop.factor } else { prop.quick }) as f64 * scale) as u64;
    // fixed number of shards: the work done must not depend on the machine
    let shards: u64 = 8;
    let per = (total + shards - 1) / shards;
    // in memory if possible: the file checks build many small trees
    let mut dir = format!("/dev/shm/vh-{}-{}", prop.id, std::process::id());
    if std::fs::create_dir_all(&dir).is_err() {
        dir = format!("/tmp/vh-{}-{}", prop.id, std::process::id());
        std::fs::create_dir_all(&dir).unwrap();
    }
    let exe = std::env::current_exe().unwrap();
    let known = known_sigs(prop.id);
    let known_set: HashSet<String> = known.iter().map(|k| k.0.clone()).collect();

    struct Sh {
        child: std::process::Child,
        from: u64,
        shm: *mut u64,
        last: (u64, Instant),
        done: bool,
        crashes: u32,
    }
    let spawn = |s: u64, from: u64| {
        let err = std::fs::File::create(format!("{}/err{}", dir, s)).unwrap();
        std::process::Command::new(&exe)
            .args(["child", prop.id, &seed.to_string(), &s.to_string(), &from.to_string(), &per.to_string(), &dir])
            .stdout(std::process::Stdio::null())
            .stdin(std::process::Stdio::null())
            .stderr(err)
            .spawn()
            .unwrap()
    };
    let mut shs: Vec<Sh> = (0..shards)
        .map(|s| {
            let shm = map_shm(&format!("{}/shm{}", dir, s));
            Sh { child: spawn(s, 0), from: 0, shm, last: (u64::MAX, Instant::now()), done: false, crashes: 0 }
        })
        .collect();
    let mut failures: Vec<Value> = vec![];
    let mut error: Option<String> = None;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut crash_evals = 0u64;
    while shs.iter().any(|s| !s.done) && error.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for s in 0..shs.len() {
            if shs[s].done {
                continue;
            }
            let st = shs[s].child.try_wait().unwrap();
            let mut hangs = false;
            if st.is_none() {
                let idx = unsafe { *shs[s].shm };
                if idx != shs[s].last.0 {
                    shs[s].last = (idx, Instant::now());
                } else if shs[s].last.1.elapsed() > Duration::from_secs(HANG) {
                    shs[s].child.kill().ok();
                    shs[s].child.wait().ok();
                    hangs = true;
                }
            }
            match st {
                None if !hangs => {}
                Some(st) if st.code() == Some(0) => shs[s].done = true,
                st => {
                    let stderr = std::fs::read_to_string(format!("{}/err{}", dir, s)).unwrap_or_default();
                    if st.map_or(false, |st| st.code() == Some(3)) {
                        error = Some(stderr);
                        shs[s].done = true;
                        continue;
                    }
                    // the case at idx took the process down: confirm it in a fresh one
                    let idx = unsafe { *shs[s].shm };
                    let (note, chs, op) = shm_read(shs[s].shm);
                    let kind = format!("{}:{}", st.map_or("hang".to_string(), |st| crash_kind(&st, &stderr)), op);
                    crash_evals += 1;
                    let npins = if s == 0 { prop.pins.len() as u64 } else { 0 };
                    let file = format!("{}/crash{}.json", dir, s);
                    let case = if idx < npins {
                        json!({"property": prop.id, "pin": prop.pins[idx as usize].0})
                    } else {
                        json!({"property": prop.id, "choices": chs})
                    };
                    std::fs::write(&file, case.to_string()).unwrap();
                    let odir = format!("{}/one{}", dir, s);
                    std::fs::create_dir_all(&odir).unwrap();
                    let mut sig = format!("crash:{}", kind);
                    let mut fin_case = case.clone();
                    let mut fin_note = note.clone();
                    match run_one(prop.id, &file, &odir) {
                        One::Crash(k, _, _) => {
                            sig = format!("crash:{}", k);
                            // a case that ends itself because nothing comes back takes long each time
                            if !known_set.contains(&sig) && idx >= npins && !k.starts_with("exit78") {
                                let limit = Instant::now();
                                let best = shrink(chs.clone(), 250, &mut |c| {
                                    if limit.elapsed() > Duration::from_secs(60) {
                                        return None;
                                    }
                                    std::fs::write(&file, json!({"property": prop.id, "choices": c}).to_string()).unwrap();
                                    match run_one(prop.id, &file, &odir) {
                                        One::Crash(k2, _, used) if k2 == k => Some(trim(used)),
                                        _ => None,
                                    }
                                });
                                fin_case = json!({"property": prop.id, "choices": best});
                                std::fs::write(&file, fin_case.to_string()).unwrap();
                                if let One::Crash(_, n2, _) = run_one(prop.id, &file, &odir) {
                                    fin_note = n2;
                                }
                            }
                        }
                        One::Fail(v) => sig = v["sig"].as_str().unwrap_or("?").to_string(),
                        // alone it gives no answer either
                        One::Hang if hangs => {
                            sig = format!("hang:{}", op);
                            for x in &mut shs {
                                x.child.kill().ok();
                                x.done = true;
                            }
                        }
                        // the machine was slow
                        One::Pass if hangs => {
                            shs[s].crashes += 1;
                            if shs[s].crashes > 3 {
                                error = Some(format!("no progress for {} s in {} (inconclusive), case:\n{}", HANG, op, note));
                                shs[s].done = true;
                                continue;
                            }
                            shs[s].from = idx + 1;
                            shs[s].child = spawn(s as u64, idx + 1);
                            shs[s].last = (u64::MAX, Instant::now());
                            continue;
                        }
                        One::Hang => error = Some(format!("{} then a time-out when re-run", kind)),
                        One::Pass => error = Some(format!("process ended ({}) but the case passes on its own:\n{}\n{}", kind, note, stderr)),
                    }
                    if error.is_some() {
                        shs[s].done = true;
                        continue;
                    }
                    if known_set.contains(&sig) {
                        *known_hits.entry(sig.clone()).or_insert(0) += 1;
                    } else {
                        let mut v = fin_case;
                        v["sig"] = json!(sig);
                        v["msg"] = json!(if hangs { format!("no answer within {} s, twice: {}", HANG, sig) } else { format!("the process ended: {}", sig) });
                        v["case"] = json!(fin_note);
                        failures.push(v);
                    }
                    // crashes are slow to look into; one that is confirmed is enough
                    if !failures.is_empty() && t0.elapsed() > Duration::from_secs(90) {
                        for x in &mut shs {
                            x.child.kill().ok();
                            x.done = true;
                        }
                    }
                    if shs[s].done {
                        continue;
                    }
                    shs[s].crashes += 1;
                    if shs[s].crashes >= 4 && !failures.is_empty() {
                        shs[s].done = true;
                    } else {
                        let from = idx + 1;
                        shs[s].from = from;
                        shs[s].child = spawn(s as u64, from);
                        shs[s].last = (u64::MAX, Instant::now());
                    }
                }
            }
        }
    }
    for s in &mut shs {
        s.child.kill().ok();
        s.child.wait().ok();
    }
    // merge
    let mut evals = crash_evals;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut edges: HashSet<u64> = HashSet::new();
    let mut total_edges = 0;
    let mut corpus = 0;
    let mut steps_max = 0;
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).filter(|e| e.file_name().to_string_lossy().starts_with("out")).map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let v: Value = match std::fs::read_to_string(&f).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => v,
            None => {
                error.get_or_insert("unreadable shard result".into());
                continue;
            }
        };
        evals += v["evals"].as_u64().unwrap_or(0);
        corpus += v["corpus"].as_u64().unwrap_or(0);
        steps_max = steps_max.max(v["steps_max"].as_u64().unwrap_or(0));
        total_edges = v["total_edges"].as_u64().unwrap_or(0);
        for h in v["hashes"].as_array().unwrap() {
            hashes.insert(h.as_u64().unwrap());
        }
        for h in v["edges"].as_array().unwrap() {
            edges.insert(h.as_u64().unwrap());
        }
        for (k, n) in v["classes"].as_object().unwrap() {
            *classes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for (k, n) in v["known_hits"].as_object().unwrap() {
            *known_hits.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for s in v["samples"].as_array().unwrap().iter().take(2) {
            if samples.len() < 8 {
                samples.push(s.as_str().unwrap().to_string());
            }
        }
        if !v["failure"].is_null() {
            let mut f = v["failure"].clone();
            f["property"] = json!(prop.id);
            failures.push(f);
        }
    }
    // report
    let mut seen = HashSet::new();
    failures.retain(|f| seen.insert(f["sig"].as_str().unwrap_or("").to_string()));
    std::fs::create_dir_all(format!("{}/replays", VERIF)).ok();
    for f in &mut failures {
        f["seed"] = json!(seed);
        let sig = f["sig"].as_str().unwrap_or("").to_string();
        let path = format!("{}/replays/{}-{:08x}.json", VERIF, prop.id, hash_str(&sig) as u32);
        std::fs::write(&path, serde_json::to_string_pretty(f).unwrap()).ok();
        println!("FAILED {}: {}\n{}", sig, f["msg"].as_str().unwrap_or(""), indent(f["case"].as_str().unwrap_or("")));
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    for (sig, desc) in &known {
        if known_hits.get(sig).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: property={} {} [sig={}]", prop.id, desc, sig);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": prop.rule,
            "samples": samples,
            "classes": classes,
            "edges_reached": edges.len(),
            "edges_instrumented": total_edges,
            "corpus_entries": corpus,
            "max_work_of_one_case": steps_max,
            "pinned_cases": prop.pins.len(),
            "known_finding_hits": known_hits,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": failures.len(),
    });
    std::fs::create_dir_all(format!("{}/evidence", VERIF)).ok();
    std::fs::write(format!("{}/evidence/{}.json", VERIF, prop.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    std::fs::remove_dir_all(&dir).ok();
    println!(
        "{} {} seed={} cases={} nontrivial={} edges={}/{} corpus={} wall={:.1}s",
        prop.id, tier, seed, evals, hashes.len(), edges.len(), total_edges, corpus, wall
    );
    std::io::stdout().flush().ok();
    if !failures.is_empty() {
        1
    } else if let Some(e) = error {
        eprintln!("CHECK-ERROR {}: {}", prop.id, e);
        2
    } else {
        0
    }
}
fn indent(s: &str) -> String {
    s.lines().map(|l| format!("    {}\n", l)).collect()
}
