//! C25, C26, C27, C30: the helpers that reach outside the program.
//! Everything happens below `ctx.scratch`; the paths generated climb at most
//! three folders, which the scratch tree always has above the locked folder,
//! and absolute ones start with the scratch folder. File system calls run as an
//! unprivileged user where the sandbox allows it.
use super::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering as AO};

type Loc = Vec<String>;
#[derive(Clone, Debug, PartialEq)]
enum Node {
    Dir,
    File(Vec<u8>, Option<(usize, usize)>),
}
#[derive(Clone, Debug)]
struct Fs {
    n: BTreeMap<Loc, Node>,
}
const NAMES: &[&str] = &["a", "b.md", "_x", ".hid", "é.txt", "sp ace", "7", "c.tmpl", "d", "UP", "...", "..a", "b..", "e.f.g", "a'b", "x,y", "_", "a", " ..", ".. ", "..\\", " a", "~", "%2e%2e"];
const NEW: &[&str] = &["new", "n2.txt", "_new", "...", "sub"];
const IMAGES: &[(&str, u32, u32)] = &[("i.png", 3, 7), ("j.jpg", 16, 5), ("k.gif", 2, 9), ("l.bmp", 11, 4), ("m.png", 1, 1), ("big.png", 300, 2), ("n.jpeg", 9, 31)];

fn image_bytes(i: usize) -> Vec<u8> {
    thread_local! { static C: std::cell::RefCell<BTreeMap<usize, Vec<u8>>> = Default::default(); }
    C.with(|c| {
        c.borrow_mut()
            .entry(i)
            .or_insert_with(|| {
                let (name, w, h) = IMAGES[i];
                let mut im = image::RgbImage::new(w, h);
                for (x, y, p) in im.enumerate_pixels_mut() {
                    *p = image::Rgb([(x * 7 % 256) as u8, (y * 11 % 256) as u8, 90]);
                }
                let f = match name.rsplit('.').next().unwrap() {
                    "png" => image::ImageOutputFormat::Png,
                    "gif" => image::ImageOutputFormat::Gif,
                    "bmp" => image::ImageOutputFormat::Bmp,
                    _ => image::ImageOutputFormat::Jpeg(80),
                };
                let mut v = vec![];
                image::DynamicImage::ImageRgb8(im).write_to(&mut v, f).unwrap();
                v
            })
            .clone()
    })
}

/// text of a file: plain, a template with exports, broken, not UTF-8
fn content(s: &mut Source) -> Vec<u8> {
    match s.weighted(&[4, 5, 2, 1, 1]) {
        0 => gen_string(s, 12).into_bytes(),
        1 => {
            let mut t = String::new();
            for i in 0..s.count_to(1, 4, 40) {
                let k = *s.pick(&["title", "date", "tags", "n", "t2"]);
                let v = *s.pick(&["\"abc\"", "5", "[1,2]", "3/4/2021", "null", "cat \"a\" 3", "add 1 2", "nope 1", "$0", "{a:1}", "\"é\""]);
                t.push_str(&match s.draw(5) {
                    0 => format!("{{{{let {} = {}}}}}", k, v),
                    1 => format!("{{{{if true}}}}{{{{export {} = {}}}}}{{{{/if}}}}", k, v),
                    2 if i > 0 => format!("text {} ", i).repeat(if s.chance(1, 4) { s.size(1, 3000) } else { 1 }),
                    _ => format!("{{{{export {} = {}}}}}\n", k, v),
                });
            }
            t.push_str("body");
            t.into_bytes()
        }
        2 => (*s.pick(&["{{if", "{{export x = }}", "{{nope}}", "}} {{ {", "plain\ntext\n", "{{file \"a\"}}", "{{export x = file \"a\"}}", "{{export x = exec \"ls\"}}"])).as_bytes().to_vec(),
        3 => vec![0xff, 0xfe, b'a', 0],
        _ => {
            let n = if s.chance(1, 4) { s.size(4000, 200_000) } else { s.size(0, 12_000) };
            gen_word(s).repeat(n / 4 + 1).into_bytes()
        }
    }
}
fn gen_fs(s: &mut Source) -> Fs {
    let mut n = BTreeMap::new();
    n.insert(vec![], Node::Dir);
    let mut dirs: Vec<Loc> = vec![vec![]];
    let n_entries = s.count_to(0, 9, 60);
    // folder in folder in folder, or all over
    let deep = s.chance(1, 5);
    if deep {
        for _ in 0..s.size(2, 8) {
            let mut l = dirs.last().unwrap().clone();
            l.push(s.pick(NAMES).to_string());
            n.insert(l.clone(), Node::Dir);
            dirs.push(l);
        }
    }
    for _ in 0..n_entries {
        let mut l = if deep && s.chance(3, 4) { dirs.last().unwrap().clone() } else { s.pick(&dirs).clone() };
        match s.weighted(&[5, 4, 1]) {
            0 => {
                l.push(s.pick(NAMES).to_string());
                if !n.contains_key(&l) {
                    let c = content(s);
                    n.insert(l, Node::File(c, None));
                }
            }
            1 => {
                l.push(s.pick(NAMES).to_string());
                if !n.contains_key(&l) {
                    n.insert(l.clone(), Node::Dir);
                    dirs.push(l);
                }
            }
            _ => {
                let i = s.draw(IMAGES.len() as u64) as usize;
                l.push(IMAGES[i].0.to_string());
                n.insert(l, Node::File(image_bytes(i), Some((IMAGES[i].1 as usize, IMAGES[i].2 as usize))));
            }
        }
    }
    Fs { n }
}
impl Fs {
    fn show(&self) -> String {
        self.n
            .iter()
            .filter(|(l, _)| !l.is_empty())
            .map(|(l, n)| match n {
                Node::Dir => format!("{}/", l.join("/")),
                Node::File(_, Some(d)) => format!("{} ({}x{})", l.join("/"), d.0, d.1),
                Node::File(b, _) => format!("{}={:?}", l.join("/"), String::from_utf8_lossy(&b[..b.len().min(80)])),
            })
            .collect::<Vec<_>>()
            .join("; ")
    }
    fn create(&self, base: &Path) -> std::io::Result<()> {
        for (l, n) in &self.n {
            let p = l.iter().fold(base.to_path_buf(), |p, c| p.join(c));
            match n {
                Node::Dir => std::fs::create_dir_all(p)?,
                Node::File(b, _) => std::fs::write(p, b)?,
            }
        }
        Ok(())
    }
    fn is_dir(&self, l: &[String]) -> bool {
        self.n.get(l) == Some(&Node::Dir)
    }
    /// what the operating system makes of a path relative to the folder
    fn resolve(&self, rel: &str) -> Option<Loc> {
        if rel.contains('\0') {
            return None;
        }
        let mut cur: Loc = vec![];
        let rel = rel.trim_start_matches('/');
        for c in rel.split('/') {
            if !self.is_dir(&cur) {
                return None;
            }
            match c {
                "" | "." => {}
                ".." => {
                    cur.pop()?;
                }
                c => cur.push(c.to_string()),
            }
        }
        if self.n.contains_key(&cur) {
            Some(cur)
        } else {
            None
        }
    }
    fn children(&self, l: &[String]) -> Vec<(String, &Node)> {
        self.n.iter().filter(|(k, _)| k.len() == l.len() + 1 && k.starts_with(l)).map(|(k, n)| (k.last().unwrap().clone(), n)).collect()
    }
    fn file(&self, rel: &str) -> Option<&Vec<u8>> {
        match self.n.get(&self.resolve(rel)?) {
            Some(Node::File(b, _)) => Some(b),
            _ => None,
        }
    }
}
fn snapshot(base: &Path) -> BTreeMap<Loc, Option<Vec<u8>>> {
    fn rec(p: &Path, l: Loc, out: &mut BTreeMap<Loc, Option<Vec<u8>>>) {
        let rd = match std::fs::read_dir(p) {
            Ok(r) => r,
            Err(_) => return,
        };
        for e in rd.filter_map(|e| e.ok()) {
            let mut k = l.clone();
            k.push(e.file_name().to_string_lossy().into_owned());
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                out.insert(k.clone(), None);
                rec(&e.path(), k, out);
            } else {
                out.insert(k, Some(std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    let mut m = BTreeMap::new();
    rec(base, vec![], &mut m);
    m
}

/// unprivileged while it lives, if the sandbox lets us
struct Nobody(bool);
impl Nobody {
    fn new() -> Nobody {
        unsafe { Nobody(libc::geteuid() == 0 && libc::seteuid(65534) == 0) }
    }
}
impl Drop for Nobody {
    fn drop(&mut self) {
        if self.0 {
            unsafe {
                libc::seteuid(0);
            }
        }
    }
}
fn open_to_all(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777)).ok();
}
/// scratch/t, empty and writable by all
fn fresh_tree(ctx: &Ctx) -> PathBuf {
    let t = Path::new(&ctx.scratch).join("t");
    std::env::set_current_dir(&ctx.scratch).ok();
    std::fs::remove_dir_all(&t).ok();
    std::fs::create_dir_all(&t).unwrap();
    open_to_all(&t);
    t
}

/// the same folder spelled in different ways, and the directory to be in
fn base_spelling(s: &mut Source, t: &Path, fs: &Fs) -> (String, PathBuf) {
    let l = format!("{}/w/lock", t.display());
    let inner = t.join("w/lock");
    let subs: Vec<&Loc> = fs.n.iter().filter(|(k, n)| k.len() == 1 && **n == Node::Dir).map(|(k, _)| k).collect();
    match s.draw(10) {
        0..=2 => (l, t.to_path_buf()),
        3 => (format!("{}/", l), inner),
        4 => (format!("{}/w/./lock", t.display()), t.to_path_buf()),
        5 => (format!("{}/w/../w/lock", t.display()), t.to_path_buf()),
        6 => ("w/lock".into(), t.to_path_buf()),
        7 => ("./w/lock/".into(), t.to_path_buf()),
        8 => ((*s.pick(&["", "."])).into(), inner),
        _ => match subs.first() {
            Some(k) => ("..".into(), inner.join(&k[0])),
            None => ("../lock".into(), inner),
        },
    }
}
/// components of a path to something of the tree (or to nothing), with detours
fn inside_path(s: &mut Source, fs: &Fs, new: bool) -> String {
    let locs: Vec<&Loc> = fs.n.keys().collect();
    let mut l = (*s.pick(&locs)).clone();
    if new && (s.chance(1, 2) || l.is_empty()) {
        for _ in 0..s.size(1, 3) {
            l.push(s.pick(NEW).to_string());
        }
    } else if s.chance(1, 8) {
        l.push(s.pick(NEW).to_string());
    }
    let mut r: Vec<String> = vec![];
    let mut at: Loc = vec![];
    for c in &l {
        match s.weighted(&[14, 1, 1, 2, 1]) {
            4 if at.len() > 1 => {
                // some way up, and the same way down
                let up = s.size(1, at.len());
                r.extend((0..up).map(|_| "..".to_string()));
                r.extend(at[at.len() - up..].iter().cloned());
            }
            1 => r.push(".".into()),
            2 if !r.is_empty() => r.push(String::new()),
            3 => {
                // into a folder and out again
                let d: Vec<String> = fs.children(&at).into_iter().filter(|(_, n)| **n == Node::Dir).map(|(k, _)| k).collect();
                if !d.is_empty() {
                    r.push(s.pick(&d).clone());
                    r.push("..".into());
                }
            }
            _ => {}
        }
        r.push(c.clone());
        at.push(c.clone());
    }
    let mut p = r.join("/");
    if !p.is_empty() && s.chance(1, 10) {
        p.push_str(*s.pick(&["/", "/."]));
    }
    p
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Where {
    Inside,
    /// leaves the folder on the way, or is absolute, but ends inside
    Around,
    Outside,
}
/// how many folders above its start a path reaches on its way
fn climbs(p: &str) -> usize {
    let (mut at, mut low) = (0isize, 0isize);
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => at -= 1,
            _ => at += 1,
        }
        low = low.min(at);
    }
    -low as usize
}
/// judged by its components alone
fn whereabouts(p: &str, lock: &Path) -> Where {
    let abs = Path::new(p).is_absolute();
    let start: Vec<String> = if abs { vec![] } else { lock.components().filter_map(|c| if let Component::Normal(n) = c { Some(n.to_string_lossy().into_owned()) } else { None }).collect() };
    let base: Vec<String> = lock.components().filter_map(|c| if let Component::Normal(n) = c { Some(n.to_string_lossy().into_owned()) } else { None }).collect();
    let mut cur = start;
    let mut left = abs;
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                cur.pop();
            }
            c => cur.push(c.to_string()),
        }
        if !cur.starts_with(&base) {
            left = true;
        }
    }
    if !cur.starts_with(&base) {
        Where::Outside
    } else if left {
        Where::Around
    } else {
        Where::Inside
    }
}
/// at most three climbs in all, whatever the rest
fn wild_path(s: &mut Source, fs: &Fs, t: &Path) -> String {
    let out = ["out.txt", "outdir", "outdir/f.txt", "outdir/i.png", "lockx", "lockx/secret.txt", "lock", "lo", "lock/a", "locknew/x", "outdir/new.txt"];
    let td = t.display().to_string();
    match s.weighted(&[5, 4, 2, 2, 1, 3, 1]) {
        6 => {
            // through a folder whose name only looks like a climb
            let odd: Vec<&Loc> = fs.n.iter().filter(|(k, n)| **n == Node::Dir && k.len() == 1 && !k[0].chars().all(|c| c.is_alphanumeric())).map(|(k, _)| k).collect();
            if odd.is_empty() {
                return format!("{}/{}", *s.pick(&[" ..", ".. ", "..\\", "%2e%2e", "~"]), s.pick(&out));
            }
            format!("{}/{}{}", s.pick(&odd)[0], *s.pick(&["", "", "../", "./"]), s.pick(&out))
        }
        0 => {
            // straight out, possibly from below
            let locs: Vec<&Loc> = fs.n.iter().filter(|(k, n)| **n == Node::Dir).map(|(k, _)| k).collect();
            let l = (*s.pick(&locs)).clone();
            let mut r = l.join("/");
            for _ in 0..l.len() + 1 {
                if !r.is_empty() && !r.ends_with('/') {
                    r.push('/');
                }
                r.push_str("..");
            }
            format!("{}/{}", r, s.pick(&out))
        }
        1 => {
            let mut ups = 0;
            let n = s.size(1, 6);
            let comps: Vec<String> = (0..n)
                .map(|_| match s.weighted(&[4, 4, 1, 1, 2]) {
                    0 if ups < 3 => {
                        ups += 1;
                        "..".into()
                    }
                    1 => s.pick(NAMES).to_string(),
                    2 => ".".into(),
                    3 => (*s.pick(&["", "..\\out.txt", "%2e%2e", "~", "....", ".. ", "$HOME", "*", "w", "t"])).to_string(),
                    _ => (*s.pick(&out)).to_string(),
                })
                .collect();
            // never absolute by accident
            let p = comps.join("/");
            p.trim_start_matches('/').to_string()
        }
        2 => format!("{}/w/{}", td, s.pick(&out)),
        3 => format!("{}/w/lock/{}{}", td, *s.pick(&["../", "", "./../", "a/../../"]), s.pick(&out)),
        4 => format!("{}/w/lockx/secret.txt", td),
        _ => {
            let mut p = inside_path(s, fs, false);
            if s.chance(1, 6) {
                p.push('\0');
            }
            p
        }
    }
}

// ------------------------------------------------- what helpers must give
enum Want {
    Is(V),
    /// a list in any order, however nested
    Names(Vec<Vec<String>>, bool),
    Scan(Vec<(Loc, BTreeMap<String, V>, Loc, String)>),
    Error,
    Done,
}
/// text of an argument as a path
fn ptext(v: &V) -> String {
    v.display()
}
fn expected(fs: &Fs, op: &str, args: &[V], rel: &dyn Fn(&str) -> String) -> Want {
    let rels: Vec<String> = args.iter().map(|a| rel(&ptext(a))).collect();
    match op {
        "file" | "file_bytes" => {
            let mut all = vec![];
            for r in &rels {
                match fs.file(r) {
                    Some(b) if op == "file_bytes" || std::str::from_utf8(b).is_ok() => all.extend_from_slice(b),
                    _ => return Want::Error,
                }
            }
            Want::Is(if op == "file" { V::Str(String::from_utf8(all).unwrap()) } else { V::Bytes(all) })
        }
        "is_file" | "is_dir" => Want::Is(V::Bool(rels.iter().all(|r| match fs.resolve(r).and_then(|l| fs.n.get(&l)) {
            Some(Node::Dir) => op == "is_dir",
            Some(_) => op == "is_file",
            None => false,
        }))),
        "dir" => {
            let mut v = vec![];
            for r in &rels {
                match fs.resolve(r) {
                    Some(l) if fs.is_dir(&l) => v.push(fs.children(&l).into_iter().map(|(k, _)| k).collect::<Vec<_>>()),
                    _ => return Want::Error,
                }
            }
            Want::Names(v, rels.len() == 1)
        }
        "file_img_dimensions" => match (&args[0], fs.resolve(&rels[0]).and_then(|l| fs.n.get(&l))) {
            (V::Str(_), Some(Node::File(_, Some((w, h))))) => {
                let mut m = BTreeMap::new();
                m.insert("w".to_string(), V::UInt(*w));
                m.insert("h".to_string(), V::UInt(*h));
                Want::Is(V::Map(m))
            }
            _ => Want::Error,
        },
        _ => unreachable!(),
    }
}
fn str_list(v: &V) -> Option<Vec<String>> {
    match v {
        V::List(l) => {
            let mut r = vec![];
            for x in l {
                match x {
                    V::Str(s) => r.push(s.clone()),
                    _ => return None,
                }
            }
            r.sort();
            Some(r)
        }
        _ => None,
    }
}
fn sorted(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.sort();
    v
}
/// the location below `lock` a path of the real file system leads to
fn loc_of(p: &str, cwd: &Path, lock: &Path) -> Option<Loc> {
    let full = cwd.join(p);
    let mut cur = PathBuf::new();
    for c in full.components() {
        match c {
            Component::ParentDir => {
                cur.pop();
            }
            Component::CurDir => {}
            c => cur.push(c.as_os_str()),
        }
    }
    cur.strip_prefix(lock).ok().map(|p| p.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect())
}
fn matches(w: &Want, got: &Result<V, String>, cwd: &Path, lock: &Path) -> Result<(), String> {
    let fine = match (w, got) {
        (Want::Is(w), Ok(g)) => w.same(g),
        (Want::Error, Err(_)) | (Want::Done, Ok(_)) => true,
        (Want::Names(w, true), Ok(g)) => str_list(g) == Some(sorted(&w[0])),
        (Want::Names(w, false), Ok(V::List(g))) => w.len() == g.len() && w.iter().zip(g).all(|(w, g)| str_list(g) == Some(sorted(w))),
        (Want::Scan(w), Ok(V::List(g))) => {
            let mut rest: Vec<&(Loc, BTreeMap<String, V>, Loc, String)> = w.iter().collect();
            for x in g {
                let m = match x {
                    V::Map(m) => m,
                    _ => return Err("a record that is no map".into()),
                };
                let full = match m.get("item_full_path") {
                    Some(V::Str(p)) => loc_of(p, cwd, lock).ok_or_else(|| format!("item_full_path {:?} is not in the folder", p))?,
                    _ => return Err("no item_full_path".into()),
                };
                let i = rest.iter().position(|r| r.0 == full).ok_or_else(|| format!("an unexpected record for {:?}", full))?;
                let r = rest.remove(i);
                let sub: Loc = match m.get("item_path") {
                    Some(V::Str(p)) => Path::new(p).components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect(),
                    _ => return Err("no item_path".into()),
                };
                if sub != r.2 {
                    return Err(format!("item_path {:?}, expected {:?}", sub, r.2));
                }
                if m.get("item_file").map(|v| v.canon()) != Some(V::s(r.3.clone()).canon()) {
                    return Err(format!("item_file {:?}, expected {:?}", m.get("item_file"), r.3));
                }
                let mut others = m.clone();
                for k in ["item_full_path", "item_path", "item_file"] {
                    others.remove(k);
                }
                if !V::Map(others.clone()).same(&V::Map(r.1.clone())) {
                    return Err(format!("front matter {}, expected {}", V::Map(others).canon(), V::Map(r.1.clone()).canon()));
                }
            }
            if let Some(r) = rest.first() {
                return Err(format!("no record for {:?}", r.0));
            }
            true
        }
        _ => false,
    };
    if fine {
        return Ok(());
    }
    Err(match w {
        Want::Is(v) => format!("expected {}", v.canon()),
        Want::Error => "expected an error".into(),
        Want::Done => "expected it to work".into(),
        Want::Names(n, _) => format!("expected in some order {:?}", n),
        Want::Scan(_) => "expected a list of records".into(),
    })
}
/// records scan_dir must give; `full` spells the scanned folder for the pattern
fn scan(fs: &Fs, folder: &Loc, depth: usize, pattern: Option<&dyn Fn(&str) -> bool>, full: &str) -> Vec<(Loc, BTreeMap<String, V>, Loc, String)> {
    let mut r = vec![];
    for (l, n) in &fs.n {
        if let Node::File(b, _) = n {
            if !l.starts_with(folder) || l.len() <= folder.len() {
                continue;
            }
            let below = &l[folder.len()..];
            if below.len() - 1 > depth || below.iter().any(|c| c.starts_with('_')) {
                continue;
            }
            let name = Path::new(full).join(below.iter().collect::<PathBuf>()).display().to_string();
            if let Some(p) = pattern {
                if !p(&name) {
                    continue;
                }
            }
            let front: BTreeMap<String, V> = std::str::from_utf8(b)
                .ok()
                .and_then(|t| parse(t).ok())
                .map(|t| front_matter(&t, fm()).iter().map(|(k, v)| (k.clone(), V::from_td(v))).collect())
                .unwrap_or_default();
            r.push((l.clone(), front, below[..below.len() - 1].to_vec(), below.last().unwrap().clone()));
        }
    }
    r
}
/// write as the file system does it: the new tree, or None if it must fail
fn model_write(fs: &Fs, rel: &str, text: &str) -> Option<Fs> {
    if rel.contains('\0') || rel.ends_with('/') || rel.ends_with("/.") || rel.is_empty() || rel == "." {
        return None;
    }
    let mut f = fs.clone();
    let mut cur: Loc = vec![];
    let comps: Vec<&str> = rel.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    for (i, c) in comps.iter().enumerate() {
        if *c == ".." {
            cur.pop()?;
            if i + 1 == comps.len() {
                return None;
            }
            continue;
        }
        cur.push(c.to_string());
        if i + 1 < comps.len() {
            match f.n.get(&cur) {
                Some(Node::Dir) => {}
                Some(_) => return None,
                None => {
                    f.n.insert(cur.clone(), Node::Dir);
                }
            }
        }
    }
    match f.n.get(&cur) {
        Some(Node::Dir) => return None,
        _ => f.n.insert(cur, Node::File(text.as_bytes().to_vec(), None)),
    };
    Some(f)
}
fn plain(fs: &Fs) -> BTreeMap<Loc, Option<Vec<u8>>> {
    fs.n.iter()
        .filter(|(l, _)| !l.is_empty())
        .map(|(l, n)| {
            (
                l.clone(),
                match n {
                    Node::Dir => None,
                    Node::File(b, _) => Some(b.clone()),
                },
            )
        })
        .collect()
}
fn show_snap(m: &BTreeMap<Loc, Option<Vec<u8>>>) -> String {
    m.iter().map(|(k, v)| format!("{}{}", k.join("/"), v.as_ref().map_or("/".to_string(), |b| format!("={:?}", String::from_utf8_lossy(&b[..b.len().min(60)]))))).collect::<Vec<_>>().join("; ")
}
fn invoke_files(fm: &BasicFuncs, s: &mut Source, name: &str, args: &[V]) -> Result<V, String> {
    let _n = Nobody::new();
    invoke_on(fm, s, name, args)
}

// ------------------------------------------------------------------ C25
const READERS: &[&str] = &["file", "file_bytes", "is_file", "is_dir", "dir", "scan_dir", "file_img_dimensions"];
fn c25(s: &mut Source, ctx: &mut Ctx) -> R {
    let t = fresh_tree(ctx);
    let fs = gen_fs(s);
    let lock = t.join("w/lock");
    {
        let _n = Nobody::new();
        std::fs::create_dir_all(t.join("w/outdir/sub")).unwrap();
        std::fs::create_dir_all(t.join("w/lockx")).unwrap();
        std::fs::create_dir_all(t.join("w/lo")).unwrap();
        for (f, c) in [("w/out.txt", "OUTSIDE 1"), ("w/outdir/f.txt", "OUTSIDE {{export x = 2}}"), ("w/outdir/sub/g.txt", "OUTSIDE 3"), ("w/lockx/secret.txt", "OUTSIDE 4"), ("w/lo/a", "OUTSIDE 5"), ("a", "OUTSIDE 6")] {
            std::fs::write(t.join(f), c).unwrap();
        }
        std::fs::write(t.join("w/outdir/i.png"), image_bytes(0)).unwrap();
        fs.create(&lock).unwrap();
    }
    let (base, cwd) = base_spelling(s, &t, &fs);
    std::env::set_current_dir(&cwd).unwrap();
    let funcs = match s.draw(4) {
        0 => func_man::func_man_folders(&base).with_write_lock(&base),
        1 => func_man::default_func_man().with_write_lock(&base).with_folder_lock(&base),
        _ => BasicFuncs::new().with_defaults().with_folder_lock(&base).with_write_lock(&base),
    };
    ctx.note(format!("folder {:?} (in {:?}): {}", base, cwd, fs.show()));
    // the snapshot of everything outside the folder must never change
    let outside = || {
        let mut m = snapshot(&t);
        m.retain(|k, _| !(k.len() > 2 && k[0] == "w" && k[1] == "lock"));
        m
    };
    let out0 = outside();
    let mut fs = fs;
    let ops = s.count_to(1, 4, 40);
    for _ in 0..ops {
        let write = s.chance(1, 4);
        let op = if write { "write" } else { *s.pick(READERS) };
        let np = match op {
            "write" | "scan_dir" | "file_img_dimensions" => 1,
            _ => s.count_to(1, 3, 40),
        };
        let mut paths: Vec<String> = (0..np)
            .map(|_| match s.weighted(&[5, 4]) {
                0 => wild_path(s, &fs, &t),
                _ => inside_path(s, &fs, write),
            })
            .collect();
        // the spelling of the folder has no more than three folders above it
        for p in paths.iter_mut() {
            if climbs(p) > 3 && whereabouts(p, &lock) == Where::Outside {
                *p = "../out.txt".into();
            }
            if p.is_empty() && base.is_empty() {
                *p = ".".into();
            }
        }
        let mut args: Vec<V> = paths.iter().map(|p| V::s(p.clone())).collect();
        let wh: Vec<Where> = paths.iter().map(|p| whereabouts(p, &lock)).collect();
        let mut text = String::new();
        let mut depth = 0;
        match op {
            "write" => {
                text = gen_string(s, 6);
                args.push(V::s(text.clone()));
            }
            "scan_dir" => {
                if s.chance(2, 3) {
                    depth = s.draw(4) as usize;
                    args.push(V::UInt(depth));
                }
            }
            _ => {}
        }
        ctx.note(format!("{} {}", op, show_args(&args)));
        ctx.op("locked helper");
        let got = invoke_files(&funcs, s, op, &args);
        let show = |w: &str| format!("{} {}\ngives {}\n{}", op, show_args(&args), res_canon(&got), w);
        crate::ensure!(outside() == out0, "C25:changed", "{}", show("and changed files outside the folder"));
        let rel = |p: &str| -> String {
            // a path that starts with the folder itself, or goes around it
            match loc_of(p, &lock, &lock) {
                Some(l) if whereabouts(p, &lock) == Where::Around => l.join("/"),
                _ => p.to_string(),
            }
        };
        let first_out = wh.iter().position(|w| *w == Where::Outside);
        if let Some(i) = first_out {
            ctx.class("outside");
            ctx.nontrivial = true;
            if got.is_ok() {
                // an answer that was settled by the arguments before it
                let settled = (op == "is_file" || op == "is_dir")
                    && i > 0
                    && matches!(expected(&fs, op, &args[..i], &rel), Want::Is(V::Bool(false)))
                    && matches!(got, Ok(V::Bool(false)));
                crate::ensure!(settled, format!("C25:{}", op), "{}", show("but the path leads outside the folder"));
            }
            if write {
                let now = snapshot(&lock);
                crate::ensure!(now == plain(&fs), "C25:write-failed", "{}", show("and changed the folder"));
            }
            continue;
        }
        if wh.contains(&Where::Around) && got.is_err() {
            ctx.class("around");
            if write {
                let now = snapshot(&lock);
                for (k, v) in plain(&fs) {
                    crate::ensure!(now.get(&k) == Some(&v), "C25:write-failed", "{}", show("and changed the folder"));
                }
                resync(&mut fs, &now);
            }
            continue;
        }
        ctx.class("inside");
        let want = match op {
            "write" => {
                let now = snapshot(&lock);
                let r = rel(&paths[0]);
                // '..' behind a part that does not exist: left open
                let open = wh[0] == Where::Around || r.split('/').any(|c| c == "..") && unclear(&fs, &r);
                match model_write(&fs, &r, &text) {
                    _ if open => {
                        for (k, v) in plain(&fs) {
                            let same = now.get(&k) == Some(&v);
                            crate::ensure!(same || got.is_ok() && v.is_some() && now.get(&k) == Some(&Some(text.clone().into_bytes())), "C25:write", "{}", show("and changed something else"));
                        }
                        resync(&mut fs, &now);
                        continue;
                    }
                    Some(f) => {
                        crate::ensure!(got.is_ok(), "C25:inside", "{}", show("but the path is inside the folder"));
                        crate::ensure!(now == plain(&f), "C25:write", "{}", show(&format!("the folder is {}\nexpected {}", show_snap(&now), show_snap(&plain(&f)))));
                        fs = f;
                        continue;
                    }
                    None => {
                        crate::ensure!(got.is_err(), "C25:write-error", "{}", show("but nothing can be written there"));
                        for (k, v) in plain(&fs) {
                            crate::ensure!(now.get(&k) == Some(&v), "C25:write-failed", "{}", show("and changed the folder"));
                        }
                        resync(&mut fs, &now);
                        continue;
                    }
                }
            }
            "scan_dir" => match fs.resolve(&rel(&paths[0])) {
                Some(l) if fs.is_dir(&l) => Want::Scan(scan(&fs, &l, depth, None, "")),
                _ => Want::Error,
            },
            op => expected(&fs, op, &args, &rel),
        };
        // an image this build cannot tell is not the subject here
        if let Err(m) = matches(&want, &got, &cwd, &lock) {
            crate::bail!(format!("C25:{}-inside", op), "{}", show(&m));
        }
    }
    Ok(())
}
/// a '..' that follows something that is not a folder
fn unclear(fs: &Fs, rel: &str) -> bool {
    let mut cur: Loc = vec![];
    for c in rel.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if !fs.is_dir(&cur) || cur.is_empty() {
                    return true;
                }
                cur.pop();
            }
            c => cur.push(c.to_string()),
        }
    }
    false
}
fn resync(fs: &mut Fs, now: &BTreeMap<Loc, Option<Vec<u8>>>) {
    let mut n: BTreeMap<Loc, Node> = BTreeMap::new();
    n.insert(vec![], Node::Dir);
    for (k, v) in now {
        let node = match v {
            None => Node::Dir,
            Some(b) => match fs.n.get(k) {
                Some(Node::File(o, d)) if o == b => Node::File(b.clone(), *d),
                _ => Node::File(b.clone(), None),
            },
        };
        n.insert(k.clone(), node);
    }
    fs.n = n;
}

// ------------------------------------------------------------------ C26
fn c26(s: &mut Source, ctx: &mut Ctx) -> R {
    let t = fresh_tree(ctx);
    let mut fs = gen_fs(s);
    let lock = t.join("w/lock");
    {
        let _n = Nobody::new();
        std::fs::create_dir_all(&lock).unwrap();
        fs.create(&lock).unwrap();
    }
    let (base, cwd) = base_spelling(s, &t, &fs);
    std::env::set_current_dir(&cwd).unwrap();
    let locked = BasicFuncs::new().with_defaults().with_folder_lock(&base).with_write_lock(&base);
    let free = BasicFuncs::new().with_defaults().with_free_files();
    ctx.note(format!("folder {:?} (in {:?}): {}", base, cwd, fs.show()));
    let ops = s.count_to(1, 5, 40);
    for _ in 0..ops {
        let op = match s.weighted(&[10, 3, 3]) {
            0 => *s.pick(READERS),
            1 => "scan_dir",
            _ => "write",
        };
        let use_free = s.chance(1, 2);
        // free helpers address the same tree through absolute or relative paths
        let style = s.draw(3);
        let prefix = if !use_free {
            String::new()
        } else if style == 0 || base.is_empty() {
            format!("{}/", lock.display())
        } else {
            format!("{}/", base.trim_end_matches('/'))
        };
        let np = match op {
            "write" | "scan_dir" | "file_img_dimensions" => 1,
            _ => 1 + s.few(3),
        };
        let mut rels: Vec<String> = vec![];
        for _ in 0..np {
            let mut p = if op == "file_img_dimensions" && s.chance(3, 4) {
                let im: Vec<String> = fs.n.iter().filter(|(_, n)| matches!(n, Node::File(_, Some(_)))).map(|(l, _)| l.join("/")).collect();
                if im.is_empty() {
                    inside_path(s, &fs, false)
                } else {
                    s.pick(&im).clone()
                }
            } else {
                inside_path(s, &fs, op == "write")
            };
            // the files most often, of the right kind
            if matches!(op, "file" | "file_bytes" | "is_file") && s.chance(1, 2) {
                let f: Vec<String> = fs.n.iter().filter(|(_, n)| matches!(n, Node::File(..))).map(|(l, _)| l.join("/")).collect();
                if !f.is_empty() {
                    p = s.pick(&f).clone();
                }
            }
            if matches!(op, "dir" | "is_dir" | "scan_dir") && s.chance(1, 2) {
                let f: Vec<String> = fs.n.iter().filter(|(_, n)| **n == Node::Dir).map(|(l, _)| l.join("/")).collect();
                p = s.pick(&f).clone();
            }
            // the empty path of the empty folder is nothing
            if p.is_empty() && base.is_empty() {
                p = ".".into();
            }
            rels.push(p);
        }
        let mut args: Vec<V> = rels
            .iter()
            .map(|p| {
                let full = format!("{}{}", prefix, p);
                match full.parse::<usize>() {
                    Ok(n) if n.to_string() == full && s.chance(1, 2) => V::UInt(n),
                    _ => V::s(full),
                }
            })
            .collect();
        let rel = |p: &str| p.strip_prefix(prefix.as_str()).unwrap_or(p).to_string();
        let mut text = String::new();
        let mut depth = 0;
        let mut pattern: Option<(String, Box<dyn Fn(&str) -> bool>)> = None;
        match op {
            "write" => {
                let n = if use_free { 1 + s.few(3) } else { 1 };
                for _ in 0..n {
                    let v = match s.draw(4) {
                        0 => gen_scalar(s, VOpt { bytes: false, special: false, ..ALL }),
                        1 => V::s(gen_word(s).repeat(s.size(1, 3000))),
                        _ => V::s(gen_string(s, 10)),
                    };
                    text.push_str(&v.display());
                    args.push(v);
                }
                if args.iter().any(|a| !a.displayable()) {
                    continue;
                }
            }
            "scan_dir" => {
                if s.chance(3, 4) {
                    depth = s.draw(5) as usize;
                    args.push(if s.chance(1, 4) { V::Int(depth as isize) } else { V::UInt(depth) });
                    if s.chance(1, 2) {
                        let (x, f): (&str, fn(&str) -> bool) = *s.pick(&[
                            ("\\.md$", (|p: &str| p.ends_with(".md")) as fn(&str) -> bool),
                            ("\\.tmpl", |p: &str| p.contains(".tmpl")),
                            ("[Aa]$", |p: &str| p.ends_with('a') || p.ends_with('A')),
                            ("/d/", |p: &str| p.contains("/d/")),
                            ("é", |p: &str| p.contains('é')),
                            ("", |_| true),
                            ("zzz", |p: &str| p.contains("zzz")),
                            ("^/.*7$", |p: &str| p.starts_with('/') && p.ends_with('7')),
                        ]);
                        args.push(V::s(x));
                        pattern = Some((x.to_string(), Box::new(f)));
                    }
                }
            }
            _ => {}
        }
        if s.chance(1, 40) {
            // too few arguments: nothing panics, write is refused and nothing is touched
            let args = if op == "write" { args[..s.draw(2) as usize].to_vec() } else { vec![] };
            ctx.note(format!("{}{} {}", if use_free { "free " } else { "" }, op, show_args(&args)));
            ctx.op("file helper");
            ctx.class("arguments-missing");
            let got = invoke_files(if use_free { &free } else { &locked }, s, op, &args);
            crate::ensure!(op != "write" || got.is_err(), "C26:write-missing", "write {} without its text gives {}", show_args(&args), res_canon(&got));
            let now = snapshot(&lock);
            crate::ensure!(now == plain(&fs), "C26:missing-changed", "{} {} changed the folder", op, show_args(&args));
            continue;
        }
        ctx.note(format!("{}{} {}", if use_free { "free " } else { "" }, op, show_args(&args)));
        ctx.op("file helper");
        ctx.class(if use_free { "free" } else { "locked" });
        let funcs = if use_free { &free } else { &locked };
        let got = if op == "write" && s.chance(1, 4) && args.len() == 2 {
            // as a block: the text of the block is written
            ctx.class("write block");
            let tm = parse("{{@write $0 @}}{{$1}}{{/write}}").map_err(|e| Fail { sig: "C26:parse".into(), msg: e })?;
            let tds: Vec<TData> = args.iter().map(|v| v.td()).collect();
            let ps: Vec<&dyn TParam> = tds.iter().map(|t| t as &dyn TParam).collect();
            let _n = Nobody::new();
            run(&tm, &ps, &mut BasicTemps::new(), funcs).map(V::Str)
        } else {
            invoke_files(funcs, s, op, &args)
        };
        let show = |w: &str| format!("{}{} {}\ngives {}\n{}", if use_free { "free " } else { "" }, op, show_args(&args), res_canon(&got), w);
        let want = match op {
            "write" => {
                let now = snapshot(&lock);
                if unclear(&fs, &rels[0]) {
                    resync(&mut fs, &now);
                    continue;
                }
                match model_write(&fs, &rels[0], &text) {
                    Some(f) => {
                        ctx.class("written");
                        ctx.nontrivial = true;
                        crate::ensure!(got.is_ok(), "C26:write", "{}", show("expected it to be written"));
                        crate::ensure!(now == plain(&f), "C26:written", "{}", show(&format!("the folder is {}\nexpected {}", show_snap(&now), show_snap(&plain(&f)))));
                        fs = f;
                    }
                    None => {
                        crate::ensure!(got.is_err(), "C26:write-error", "{}", show("but nothing can be written there"));
                        for (k, v) in plain(&fs) {
                            crate::ensure!(now.get(&k) == Some(&v), "C26:write-failed", "{}", show("and changed the folder"));
                        }
                        resync(&mut fs, &now);
                    }
                }
                continue;
            }
            "scan_dir" => match fs.resolve(&rels[0]) {
                Some(l) if fs.is_dir(&l) => {
                    let full = if use_free { format!("{}{}", prefix, rels[0]) } else { Path::new(&base).join(&rels[0]).display().to_string() };
                    let r = scan(&fs, &l, depth, pattern.as_ref().map(|p| &*p.1), &full);
                    ctx.class_if(!r.is_empty(), "scanned");
                    ctx.class_if(r.iter().any(|r| !r.1.is_empty()), "front-matter");
                    Want::Scan(r)
                }
                _ => Want::Error,
            },
            op => expected(&fs, op, &args, &rel),
        };
        if !matches!(want, Want::Error) {
            ctx.nontrivial = true;
            ctx.class(match op {
                "file" => "file",
                "file_bytes" => "file_bytes",
                "dir" => "dir",
                "file_img_dimensions" => "image",
                _ => "tests",
            });
        }
        if let Err(m) = matches(&want, &got, &cwd, &lock) {
            crate::bail!(format!("C26:{}", op), "{}", show(&m));
        }
        if op == "scan_dir" || s.chance(1, 4) {
            let now = snapshot(&lock);
            crate::ensure!(now == plain(&fs), "C26:read-changed", "{}", show("and changed the folder"));
        }
    }
    if s.chance(1, 6) {
        return c26_unreadable(s, ctx, &fs, &lock, &cwd, &base, &locked, &free);
    }
    Ok(())
}
/// one file nobody may read or write: an error where its contents are asked
/// for, and everything else is still reported
#[allow(clippy::too_many_arguments)]
fn c26_unreadable(s: &mut Source, ctx: &mut Ctx, fs: &Fs, lock: &Path, cwd: &Path, base: &str, locked: &BasicFuncs, free: &BasicFuncs) -> R {
    use std::os::unix::fs::PermissionsExt;
    let files: Vec<Loc> = fs.n.iter().filter(|(l, n)| matches!(n, Node::File(..)) && !l.iter().any(|c| c.starts_with('_'))).map(|(l, _)| l.clone()).collect();
    if files.is_empty() {
        return Ok(());
    }
    let loc = s.pick(&files).clone();
    let p = lock.join(loc.iter().collect::<PathBuf>());
    let mode = |m: u32| {
        let _n = Nobody::new();
        _n.0 && std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m)).is_ok()
    };
    let before = std::fs::metadata(&p).map(|m| m.permissions().mode() & 0o7777).unwrap_or(0o644);
    if !mode(0) {
        return Ok(());
    }
    {
        // without a lesser user to become, nothing is unreadable
        let _n = Nobody::new();
        if std::fs::File::open(&p).is_ok() {
            drop(_n);
            mode(before);
            return Ok(());
        }
    }
    ctx.class("unreadable");
    let use_free = s.chance(1, 2);
    let funcs = if use_free { free } else { locked };
    let spell = |l: &Loc| if use_free { format!("{}/{}", lock.display(), l.join("/")) } else if l.is_empty() { ".".to_string() } else { l.join("/") };
    let what = format!("{}helpers, {:?} unreadable in {:?}: {}", if use_free { "free " } else { "" }, loc.join("/"), base, fs.show());
    ctx.note(what.clone());
    let path = V::s(spell(&loc));
    let mut bad: Option<(String, String)> = None;
    for (op, args) in [("file", vec![path.clone()]), ("file_bytes", vec![path.clone()]), ("file_img_dimensions", vec![path.clone()]), ("write", vec![path.clone(), V::s("new")])] {
        ctx.op("file helper");
        let got = invoke_files(funcs, s, op, &args);
        if got.is_ok() {
            bad.get_or_insert((format!("C26:unreadable-{}", op), format!("{} gives {}", op, res_canon(&got))));
        }
    }
    let got = invoke_files(funcs, s, "is_file", &[path.clone()]);
    if !matches!(got, Ok(V::Bool(true))) {
        bad.get_or_insert(("C26:unreadable-is_file".into(), format!("is_file gives {}", res_canon(&got))));
    }
    ctx.op("file helper");
    let got = invoke_files(funcs, s, "scan_dir", &[V::s(spell(&vec![])), V::UInt(20)]);
    let records = |rs: Vec<(Loc, BTreeMap<String, V>, Loc, String)>| Want::Scan(rs);
    let all = scan(fs, &vec![], 20, None, "");
    // whether the file itself gets a record (it has no front matter then) is left open
    let without: Vec<_> = all.iter().filter(|r| r.0 != loc).cloned().collect();
    let with: Vec<_> = all.iter().cloned().map(|mut r| { if r.0 == loc { r.1.clear(); } r }).collect();
    if let Err(m) = matches(&records(without), &got, cwd, lock) {
        if matches(&records(with), &got, cwd, lock).is_err() {
            bad.get_or_insert(("C26:unreadable-scan_dir".into(), format!("scan_dir gives {}\n{}", res_canon(&got), m)));
        }
    }
    mode(before);
    let now = snapshot(lock);
    crate::ensure!(now == plain(fs), "C26:unreadable-changed", "{}\nand changed the folder: {}", what, show_snap(&now));
    if let Some((sig, m)) = bad {
        crate::bail!(sig, "{}\n{}", what, m);
    }
    Ok(())
}

// ------------------------------------------------------------------ C27
const FOLDER: &[&str] = &["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions"];
const EXEC: &[&str] = &["exec", "exec_stdin", "env"];
fn c27(s: &mut Source, ctx: &mut Ctx) -> R {
    if s.chance(1, 40) {
        return c27_groups(s, ctx);
    }
    if s.chance(1, 4) {
        return c27_render(s, ctx);
    }
    thread_local! { static NAMES: Vec<String> = names(fm()).into_iter().filter(|n| n != "rand" && n != "debug").collect(); }
    let all = NAMES.with(|n| n.clone());
    let name = s.pick(&all).clone();
    let t = Path::new(&ctx.scratch).join("e27");
    thread_local! { static READY: std::cell::Cell<bool> = std::cell::Cell::new(false); }
    let (a, b) = (t.join("one"), t.join("two"));
    if !READY.with(|r| r.replace(true)) {
        std::fs::create_dir_all(&a).unwrap();
        std::fs::create_dir_all(&b).unwrap();
        open_to_all(&a);
        open_to_all(&b);
        for (f, c) in [("a", "secret A"), ("b.md", "# secret"), ("x.json", "{\"secret\":1}"), ("n", "5"), ("t.html", "{{export x = 1}}secret"), ("run.sh", "#!/bin/sh\ntouch ran\n")] {
            std::fs::write(a.join(f), c).unwrap();
        }
        std::fs::create_dir_all(a.join("d/e")).unwrap();
        std::fs::write(a.join("d/a"), "more").unwrap();
        for f in ["run.sh"] {
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(a.join(f), std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        std::fs::write(b.join("d"), "a file here").unwrap();
    }
    let ad = a.display().to_string();
    let pathy = |s: &mut Source| -> V {
        let base = *s.pick(&["a", "b.md", "x.json", "n", "t.html", "run.sh", "d", "d/a", "d/e", ".", "..", "", "/", "missing", "d/../a", "d/e/../a", "./a"]);
        V::s(match s.draw(9) {
            0 => format!("{}/{}", ad, base),
            1 => format!("file://{}/{}", ad, base),
            2 => format!("{}{}", *s.pick(&["@", "~/", "$HOME/", "!", "|", "`", "include ", "<"]), base),
            3 => (*s.pick(&["$HOME", "${HOME}", "HOME", "PATH", "VH_SECRET", "$VH_SECRET", "%HOME%", "~", "{{env \"HOME\"}}", "{{file \"a\"}}", "$(cat a)", "`cat a`", "env:HOME"])).to_string(),
            4 => format!("![x]({})", base),
            5 => format!("{{{{file \"{}\"}}}}", base),
            _ => base.to_string(),
        })
    };
    let n = s.count_to(0, 4, 40);
    let args: Vec<V> = (0..n)
        .map(|_| match s.weighted(&[6, 2, 2, 1]) {
            0 => pathy(s),
            1 => gen_small(s),
            2 => V::List((0..s.count_to(0, 3, 40)).map(|_| if s.chance(1, 2) { pathy(s) } else { gen_small(s) }).collect()),
            _ => V::UInt(s.draw(5) as usize),
        })
        .collect();
    ctx.note(format!("{} {}", name, show_args(&args)));
    ctx.op("default helper");
    ctx.nontrivial = n > 0;
    let before = (snapshot(&a), snapshot(&b));
    let tds: Vec<TData> = args.iter().map(|v| v.td()).collect();
    let vars = ["HOME", "VH_SECRET", "COLUMNS", "LANG", "LC_ALL", "TZ", "USER", "PWD", "TMPDIR", "PATH"];
    let first: Vec<(&str, Option<std::ffi::OsString>)> = vars.iter().map(|v| (*v, std::env::var_os(v))).collect();
    let call = |dir: &Path, val: Option<&str>| {
        std::env::set_current_dir(dir).unwrap();
        for v in vars {
            match val {
                Some(x) => std::env::set_var(v, x),
                None => std::env::remove_var(v),
            }
        }
        let _n = Nobody::new();
        crate::watch::watch(|| direct(fm(), &name, &tds).map(|d| V::from_td(&d)))
    };
    let (r1, w1) = call(&a, Some(&ad));
    let (r2, w2) = call(&b, None);
    for (v, x) in first {
        match x {
            Some(x) => std::env::set_var(v, x),
            None => std::env::remove_var(v),
        }
    }
    std::env::set_current_dir(&ctx.scratch).ok();
    crate::ensure!(w1.is_empty() && w2.is_empty(), format!("C27:{}", name), "{} {}\nasks the system: {} {}", name, show_args(&args), w1.join(" "), w2.join(" "));
    crate::ensure!(
        match (&r1, &r2) {
            (Ok(x), Ok(y)) => x.same(y),
            (Err(_), Err(_)) => true,
            _ => false,
        },
        format!("C27:{}", name),
        "{} {}\ngives {}\nwith other files and another environment {}",
        name,
        show_args(&args),
        res_canon(&r1),
        res_canon(&r2)
    );
    ctx.class(if r1.is_ok() { "works" } else { "fails" });
    let after = (snapshot(&a), snapshot(&b));
    crate::ensure!(before == after, "C27:changed", "{} {}\nchanged files: {} / {}", name, show_args(&args), show_snap(&after.0), show_snap(&after.1));
    Ok(())
}
/// parsing and rendering ask the system nothing
fn c27_render(s: &mut Source, ctx: &mut Ctx) -> R {
    thread_local! { static HELPERS: (BasicFuncs, crate::lang::Log) = { let (f, l) = crate::lang::helpers(); (f.with_defaults(), l) }; }
    let n = s.size(1, 10);
    let text = super::total::program_text(s, n);
    let params: Vec<V> = (0..s.size(0, 3)).map(|_| gen_small(s)).collect();
    ctx.note(format!("{:?}\nparameters {}", text, show_args(&params)));
    ctx.class("rendering");
    ctx.op("render");
    let _n = Nobody::new();
    let (t, w) = crate::watch::watch(|| parse(&text));
    crate::ensure!(w.is_empty(), "C27:parse-asks", "parsing asks the system: {}", w.join(" "));
    if let Ok(t) = t {
        let tds: Vec<TData> = params.iter().map(|v| v.td()).collect();
        let refs: Vec<&dyn TParam> = tds.iter().map(|d| d as &dyn TParam).collect();
        HELPERS.with(|h| {
            h.1.borrow_mut().clear();
            let (r, w) = crate::watch::watch(|| {
                let mut tm = BasicTemps::new();
                let a = t.run(&refs, &mut tm, &h.0).is_ok();
                let _ = t.front_matter(&h.0);
                let _ = t.run_exp(&refs, &mut NoTemplates, &h.0);
                a
            });
            ctx.nontrivial = r;
            ctx.class_if(r, "works");
            crate::ensure!(w.is_empty(), "C27:render-asks", "rendering asks the system: {}", w.join(" "));
            Ok(())
        })?
    }
    Ok(())
}
fn c27_groups(s: &mut Source, ctx: &mut Ctx) -> R {
    let lock = format!("{}/lockdir", ctx.scratch);
    let (mut f, w) = crate::watch::watch(BasicFuncs::new);
    crate::ensure!(w.is_empty(), "C27:new-asks", "BasicFuncs::new asks the system: {}", w.join(" "));
    let n = s.size(0, 4);
    let mut want: BTreeSet<String> = BTreeSet::new();
    let mut shown = vec![];
    for _ in 0..n {
        let (g, add): (&str, Vec<&str>) = match s.draw(6) {
            0 => ("folder_lock", FOLDER.to_vec()),
            1 => ("write_lock", vec!["write"]),
            2 => ("free_files", FOLDER.iter().cloned().chain(["write"]).collect()),
            3 => ("exec", EXEC.to_vec()),
            4 => ("folders", FOLDER.to_vec()),
            _ => ("defaults", vec![]),
        };
        shown.push(g);
        f = match g {
            "folder_lock" => f.with_folder_lock(&lock),
            "write_lock" => f.with_write_lock(&lock),
            "free_files" => f.with_free_files(),
            "exec" => f.with_exec(),
            "folders" => func_man::func_man_folders(&lock),
            _ => {
                let (f, w) = crate::watch::watch(|| f.with_defaults());
                crate::ensure!(w.is_empty(), "C27:defaults-asks", "with_defaults asks the system: {}", w.join(" "));
                f
            }
        };
        if g == "folders" {
            want.clear();
        }
        want.extend(add.into_iter().map(|x| x.to_string()));
    }
    ctx.note(format!("groups {:?}", shown));
    ctx.class("groups");
    ctx.nontrivial = n > 0;
    let universe: Vec<&str> = FOLDER.iter().chain(EXEC).cloned().chain(["write", "load", "read", "include", "open", "delete", "remove", "fetch", "shell", "system", "cmd", "getenv", "set_env", "rm", "mkdir", "cwd"]).collect();
    let listed: BTreeSet<String> = names(&f).into_iter().collect();
    for u in universe {
        let has = want.contains(u);
        crate::ensure!(f.get_func(u).is_some() == has, "C27:available", "groups {:?}: helper {} is {}available", shown, u, if has { "not " } else { "" });
        crate::ensure!(listed.contains(u) == has, "C27:listed", "groups {:?}: helper {} is {}listed", shown, u, if has { "not " } else { "" });
        if !has {
            let t = parse(&format!("{{{{{} \"/nonexistent-vh\" \"x\"}}}}", u)).map_err(|e| Fail { sig: "C27:parse".into(), msg: e })?;
            let r = run(&t, &[], &mut BasicTemps::new(), &f);
            crate::ensure!(r.is_err(), "C27:callable", "groups {:?}: {} gives {:?}", shown, u, r);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C30
/// the command the checks run
pub fn exec_child(a: &[String]) -> i32 {
    use std::io::{Read, Write};
    let out = std::io::stdout();
    let mut out = out.lock();
    let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
    match a.first().map(|x| x.as_str()) {
        // every argument, unmistakably
        Some("args") => {
            use std::os::unix::ffi::OsStrExt;
            let own = std::env::args_os().next().map_or(false, |n| n.to_string_lossy().contains("/vhx-"));
            for x in std::env::args_os().skip(if own { 1 } else { 3 }) {
                write!(out, "[{}]", hex(x.as_bytes())).ok();
            }
        }
        // input to output, as it comes
        Some("cat") => {
            let mut b = [0u8; 4096];
            let mut i = std::io::stdin();
            loop {
                match i.read(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => {
                        if out.write_all(&b[..n]).is_err() {
                            break;
                        }
                    }
                }
            }
        }
        // the argument, raw
        Some("say") => {
            out.write_all(a.get(1).map_or(&b""[..], |t| t.as_bytes())).ok();
        }
        // all input first, then its length and check sum
        Some("sum") => {
            let mut v = vec![];
            std::io::stdin().read_to_end(&mut v).ok();
            let h = v.iter().fold(7u64, |h, b| h.wrapping_mul(1_000_003).wrapping_add(*b as u64));
            write!(out, "{} {}", v.len(), h).ok();
        }
        // output without reading
        Some("big") => {
            let n: usize = a[1].parse().unwrap_or(0);
            out.write_all(&vec![b'o'; n]).ok();
        }
        // output first, then the length of the input
        Some("bigsum") => {
            let n: usize = a[1].parse().unwrap_or(0);
            out.write_all(&vec![b'o'; n]).ok();
            out.flush().ok();
            let mut v = vec![];
            std::io::stdin().read_to_end(&mut v).ok();
            write!(out, "{}", v.len()).ok();
        }
        // only the first bytes of the input
        Some("head") => {
            let n: usize = a[1].parse().unwrap_or(0);
            let mut v = vec![0u8; n];
            let mut got = 0;
            while got < n {
                match std::io::stdin().read(&mut v[got..]) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => got += k,
                }
            }
            out.write_all(&v[..got]).ok();
        }
        // some output, a message, and a failure
        Some("err") => {
            eprint!("{}", a.get(1).cloned().unwrap_or_default());
            write!(out, "out").ok();
            out.flush().ok();
            return 3;
        }
        Some("env") => {
            write!(out, "{}", std::env::var(&a[1]).unwrap_or_else(|_| "unset".into())).ok();
        }
        _ => return 3,
    }
    out.flush().ok();
    0
}
/// ends the process when the command does not come back
static DEADLINE: AtomicU64 = AtomicU64::new(0);
fn now_s() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64
}
fn guarded<T>(f: impl FnOnce() -> T) -> T {
    static START: std::sync::Once = std::sync::Once::new();
    START.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let d = DEADLINE.load(AO::SeqCst);
            if d != 0 && now_s() > d {
                unsafe { libc::_exit(78) }
            }
        });
    });
    DEADLINE.store(now_s() + 30, AO::SeqCst);
    let r = f();
    DEADLINE.store(0, AO::SeqCst);
    r
}
fn arg_text(s: &mut Source) -> String {
    let t = match s.draw(4) {
        0 => (*s.pick(&["", " ", "a b", "*", "$HOME", "`id`", "$(id)", "; ls", "| cat", "&& ls", "\"", "'", "\\", "-n", "--", "--help", "~", "a\nb", "> x", "é", "🐟", "%s", "!", "#x", "{a,b}", "a\tb", "?"])).to_string(),
        1 => gen_word(s),
        _ => gen_string(s, 8),
    };
    t.replace('\0', "0")
}
fn sized_text(s: &mut Source) -> String {
    let unit = *s.pick(&["x", "ab\n", "é", "0123456789abcdef", "🐟 "]);
    let n = match s.weighted(&[4, 3, 3, 1]) {
        0 => s.size(0, 20),
        1 => 4090 + s.size(0, 12),
        2 => 65_530 + s.size(0, 12),
        _ => s.size(100_000, 600_000),
    };
    let mut t = String::new();
    while t.len() + unit.len() <= n {
        t.push_str(unit);
    }
    ends(s, t)
}
/// what is easily taken off at the start or the end
fn ends(s: &mut Source, mut t: String) -> String {
    const E: &[&str] = &["\n", "\r\n", "\n\n", " ", "\t", "\r", "\u{feff}", "\u{a0}", "\u{0}", "\n ", "\u{c}"];
    if s.chance(1, 3) {
        t.push_str(*s.pick(E));
    }
    if s.chance(1, 6) {
        t.insert_str(0, *s.pick(E));
    }
    t
}
fn c30(s: &mut Source, ctx: &mut Ctx) -> R {
    thread_local! {
        static EX: &'static BasicFuncs = Box::leak(Box::new(BasicFuncs::new().with_defaults().with_exec()));
        static VH: String = std::env::current_exe().unwrap().display().to_string();
    }
    let ex = EX.with(|f| *f);
    let vh = VH.with(|v| v.clone());
    std::env::set_current_dir(&ctx.scratch).ok();
    let mut go = |ctx: &mut Ctx, s: &mut Source, name: &'static str, args: &[V], want: Option<V>| -> R {
        let short = |v: &V| match v {
            V::Str(t) if t.len() > 300 => format!("<{} bytes {:?}..>", t.len(), t.chars().take(10).collect::<String>()),
            v => v.canon().replace(&vh, "VH"),
        };
        ctx.note(format!("{} {}", name, args.iter().map(|a| short(a)).collect::<Vec<_>>().join(" ")));
        ctx.op(name);
        let got = guarded(|| invoke_on(ex, s, name, args));
        let ok = match (&want, &got) {
            (Some(w), Ok(g)) => w.same(g),
            (None, Err(_)) => true,
            _ => false,
        };
        crate::ensure!(
            ok,
            format!("C30:{}", name),
            "{} {}\nexpected: {}\n     got: {}",
            name,
            args.iter().map(|a| short(a)).collect::<Vec<_>>().join(" "),
            want.map_or("an error".into(), |w| short(&w)),
            match &got {
                Ok(v) => short(v),
                Err(e) => format!("error: {}", e),
            }
        );
        Ok(())
    };
    let cmd = |mode: &str| vec![V::s(vh.clone()), V::s("exectest"), V::s(mode)];
    let arg = |s: &mut Source| -> V {
        match s.draw(4) {
            0 => {
                let v = gen_scalar(s, VOpt { bytes: false, special: false, ..ALL });
                if v.displayable() && !v.display().contains('\0') {
                    v
                } else {
                    V::UInt(1)
                }
            }
            _ => V::s(arg_text(s)),
        }
    };
    ctx.nontrivial = true;
    match s.weighted(&[5, 5, 3, 2, 2, 6, 1, 3, 1, 1, 5]) {
        10 => {
            ctx.class("output-as-it-is");
            let t = arg_text(s);
            let t = ends(s, t).replace('\0', "");
            let mut a = cmd("say");
            a.push(V::s(t.clone()));
            if s.chance(1, 2) {
                go(ctx, s, "exec", &a, Some(V::Str(t)))
            } else {
                a.insert(1, arg(s));
                go(ctx, s, "exec_stdin", &a, Some(V::Str(t)))
            }
        }
        7 => {
            // a command without arguments of its own
            let dir = *s.pick(&[".", "a b;c", "$x"]);
            std::fs::create_dir_all(dir).ok();
            let mode = *s.pick(&["args", "cat", "sum"]);
            let link = format!("{}/vhx-{}", dir, mode);
            std::os::unix::fs::symlink(&vh, &link).ok();
            let name = V::s(if s.chance(1, 2) { link } else { format!("{}/{}", ctx.scratch, link) });
            ctx.class("command-alone");
            let extra: Vec<V> = (0..s.few(2)).map(|_| arg(s)).collect();
            let seen: String = extra.iter().map(|v| format!("[{}]", v.display().bytes().map(|b| format!("{:02x}", b)).collect::<String>())).collect();
            if mode == "args" && s.chance(1, 2) {
                let a: Vec<V> = std::iter::once(name).chain(extra).collect();
                return go(ctx, s, "exec", &a, Some(V::Str(seen)));
            }
            let t = sized_text(s);
            let want = match mode {
                "args" => seen,
                "cat" => t.clone(),
                _ => format!("{} {}", t.len(), t.bytes().fold(7u64, |h, b| h.wrapping_mul(1_000_003).wrapping_add(b as u64))),
            };
            let a: Vec<V> = [name, V::Str(t)].into_iter().chain(extra).collect();
            go(ctx, s, "exec_stdin", &a, Some(V::Str(want)))
        }
        8 => {
            // a command that fails has had its output
            ctx.class("command-fails");
            let quiet = s.chance(1, 2);
            let mut a = cmd(if quiet { "no-such-mode" } else { "err" });
            let want = Some(V::s(if quiet { "" } else { "out" }));
            if s.chance(1, 2) {
                a.push(arg(s));
                go(ctx, s, "exec", &a, want)
            } else {
                a.insert(1, arg(s));
                go(ctx, s, "exec_stdin", &a, want)
            }
        }
        9 => {
            ctx.class("arguments-missing");
            match s.draw(4) {
                0 => go(ctx, s, "exec", &[], None),
                1 => go(ctx, s, "exec_stdin", &[], None),
                2 => go(ctx, s, "exec_stdin", &[V::s(vh.clone())], None),
                _ => go(ctx, s, "env", &[], None),
            }
        }
        0 => {
            let extra: Vec<V> = (0..s.count_to(0, 5, 120)).map(|_| arg(s)).collect();
            let want: String = std::iter::once("args".to_string()).chain(extra.iter().map(|v| v.display())).skip(1).map(|t| format!("[{}]", t.bytes().map(|b| format!("{:02x}", b)).collect::<String>())).collect();
            let mut a = cmd("args");
            a.extend(extra);
            if s.chance(1, 2) {
                ctx.class("exec-args");
                go(ctx, s, "exec", &a, Some(V::s(want)))
            } else {
                ctx.class("exec_stdin-args");
                let i = V::s(if s.chance(1, 3) { sized_text(s) } else { arg_text(s) });
                a.insert(1, i);
                go(ctx, s, "exec_stdin", &a, Some(V::s(want)))
            }
        }
        1 => {
            let t = sized_text(s);
            let mut a = cmd("cat");
            a.insert(1, V::s(t.clone()));
            ctx.class(if t.len() > 65536 { "input-above-pipe" } else { "input-small" });
            go(ctx, s, "exec_stdin", &a, Some(V::Str(t)))
        }
        2 => {
            let t = match s.draw(3) {
                0 => arg(s),
                _ => V::s(sized_text(s)),
            };
            let b = t.display().into_bytes();
            let h = b.iter().fold(7u64, |h, b| h.wrapping_mul(1_000_003).wrapping_add(*b as u64));
            let mut a = cmd("sum");
            a.insert(1, t);
            ctx.class("input-read-first");
            go(ctx, s, "exec_stdin", &a, Some(V::s(format!("{} {}", b.len(), h))))
        }
        3 => {
            let n = *s.pick(&[0, 1, 4096, 65536, 65537, 200_000, 1_000_000]);
            let mut a = cmd("big");
            a.push(V::UInt(n));
            ctx.class("output-only");
            if s.chance(1, 2) {
                go(ctx, s, "exec", &a, Some(V::s("o".repeat(n))))
            } else {
                let t = sized_text(s);
                a.insert(1, V::s(t));
                go(ctx, s, "exec_stdin", &a, Some(V::s("o".repeat(n))))
            }
        }
        4 => {
            let t = sized_text(s);
            if s.chance(1, 2) {
                let n = *s.pick(&[0, 1, 65536, 65537, 300_000]);
                let mut a = cmd("bigsum");
                a.push(V::UInt(n));
                a.insert(1, V::s(t.clone()));
                ctx.class("output-then-input");
                go(ctx, s, "exec_stdin", &a, Some(V::s(format!("{}{}", "o".repeat(n), t.len()))))
            } else {
                let n = s.size(0, 5);
                let t = if t.is_char_boundary(n.min(t.len())) { t } else { "abcdefgh".repeat(20_000) };
                let mut a = cmd("head");
                a.push(V::UInt(n));
                let w = t[..n.min(t.len())].to_string();
                a.insert(1, V::Str(t));
                ctx.class("input-not-read");
                go(ctx, s, "exec_stdin", &a, Some(V::Str(w)))
            }
        }
        5 => {
            ctx.class("env");
            let name = *s.pick(&["VH_E1", "VH_E2", "VH_É", "vh_e1"]);
            let val = if s.chance(2, 3) { Some(arg_text(s)) } else { None };
            match &val {
                Some(v) => std::env::set_var(name, v),
                None => std::env::remove_var(name),
            }
            let other = *s.pick(&["VH_E3", "VH_E"]);
            std::env::set_var(other, "wrong");
            let r = match s.draw(4) {
                0 => go(ctx, s, "env", &[V::s(name)], val.clone().map(V::Str)),
                1 => {
                    // the command sees the same environment
                    let mut a = cmd("env");
                    a.push(V::s(name));
                    go(ctx, s, "exec", &a, Some(V::s(val.clone().unwrap_or("unset".into()))))
                }
                _ => {
                    let d = gen_small(s);
                    go(ctx, s, "env", &[V::s(name), d.clone()], Some(val.clone().map(V::Str).unwrap_or(d)))
                }
            };
            std::env::remove_var(name);
            std::env::remove_var(other);
            r
        }
        _ => {
            ctx.class("unknown-command");
            let c = *s.pick(&["/nonexistent-vh-cmd", "nonexistent-vh-cmd", "", "./nope", "nonexistent vh", "nonexistent-vh-cmd; true"]);
            if s.chance(1, 2) {
                go(ctx, s, "exec", &[V::s(c), V::s("x")], None)
            } else {
                go(ctx, s, "exec_stdin", &[V::s(c), V::s("x")], None)
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "generated trees inside and around a locked folder (spelled in ten ways), sequences of locked helpers on paths that stay inside, climb out, go around or are absolute, in every argument position; non-trivial: a path that leads outside",
            quick: 30_000,
            factor: 30,
            fuel: 100_000_000,
            run: c25,
            pins: vec![],
            assumptions: vec!["no symbolic links in the folder", "a path that ends inside but leaves the folder on its way, or is absolute, may work or fail", "is_file and is_dir may answer false before they look at a later argument"],
        },
        Prop {
            id: "C26",
            rule: "generated trees (text, templates, images, odd names) and sequences of locked and free helpers on them against a model of the tree; non-trivial: an operation that succeeds",
            quick: 40_000,
            factor: 30,
            fuel: 400_000_000,
            run: c26,
            pins: vec![],
            assumptions: vec!["no symbolic links", "png, jpeg, gif and bmp images with their usual extension", "the locked write is given one text"],
        },
        Prop {
            id: "C27",
            rule: "combinations of helper groups against the helpers each may add; every default helper on path-like arguments in two different directories and environments, and generated programs parsed and rendered, with the C library's entry points for files, environment, processes and network watched; non-trivial: at least one argument or one group, or a program that renders",
            quick: 200_000,
            factor: 30,
            fuel: 100_000_000,
            run: c27,
            pins: vec![],
            assumptions: vec!["rand and debug left out of the comparison"],
        },
        Prop {
            id: "C30",
            rule: "commands that report their arguments, copy, sum, ignore or partly read their input, or print without reading, with sizes across the pipe buffer; environment variables set and unset; every case counts",
            quick: 8_000,
            factor: 20,
            fuel: 400_000_000,
            run: c30,
            pins: vec![],
            assumptions: vec!["a command that does not come back within 40 s, twice, counts as lost", "commands that print UTF-8"],
        },
    ]
}
