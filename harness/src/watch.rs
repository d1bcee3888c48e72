//! What a thread asks of the system while it is being watched: the C library's entry points for
//! the environment, files, processes and the network are defined here, note the call when the
//! thread is watched, and pass it on unchanged.
use libc::{c_char, c_int, c_void};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// runs f and gives what it asked for
pub fn watch<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            let _ = ON.try_with(|o| o.set(self.0));
        }
    }
    SEEN.with(|s| s.borrow_mut().clear());
    let off = Off(ON.with(|o| o.replace(true)));
    let r = f();
    drop(off);
    (r, SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())))
}
unsafe fn note(what: &'static str, arg: *const c_char) {
    let on = ON.try_with(|o| o.replace(false)).unwrap_or(false);
    if !on {
        return;
    }
    let a = if arg.is_null() { String::new() } else { std::ffi::CStr::from_ptr(arg).to_string_lossy().into_owned() };
    // the runtime's own settings (a panic looks at them), an open file looked at, the number of
    // processors (asked by the regex crate) and random numbers
    let own = what == "getenv" && a.starts_with("RUST_");
    let fd = a.is_empty() && what == "statx";
    const MACHINE: &[&str] = &["/proc/self/cgroup", "/proc/self/mountinfo", "/sys/fs/cgroup", "/sys/devices/system/cpu", "/proc/cpuinfo", "/proc/stat", "/dev/urandom", "/dev/random"];
    if !own && !fd && !MACHINE.iter().any(|m| a.starts_with(m)) {
        let _ = SEEN.try_with(|s| {
            let mut s = s.borrow_mut();
            if s.len() < 50 {
                s.push(format!("{}({:?})", what, a))
            }
        });
    }
    let _ = ON.try_with(|o| o.set(true));
}
unsafe fn next(slot: &AtomicUsize, name: &'static [u8]) -> *mut c_void {
    let p = slot.load(Ordering::Relaxed);
    if p != 0 {
        return p as *mut c_void;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    slot.store(p as usize, Ordering::Relaxed);
    p
}
macro_rules! pass {
    ($( $name:ident ( $($a:ident : $t:ty),* ) -> $r:ty , $at:expr ;)*) => {$(
        #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            static NEXT: AtomicUsize = AtomicUsize::new(0);
            note(stringify!($name), $at);
            let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(next(&NEXT, concat!(stringify!($name), "\0").as_bytes()));
            f($($a),*)
        }
    )*};
}
const NUL: *const c_char = std::ptr::null();
type P = *const c_char;
type A = *const c_void;
pass! {
    getenv(n: P) -> *mut c_char, n;
    secure_getenv(n: P) -> *mut c_char, n;
    setenv(n: P, v: P, o: c_int) -> c_int, n;
    unsetenv(n: P) -> c_int, n;
    open(p: P, f: c_int, m: libc::mode_t) -> c_int, p;
    open64(p: P, f: c_int, m: libc::mode_t) -> c_int, p;
    openat(d: c_int, p: P, f: c_int, m: libc::mode_t) -> c_int, p;
    openat64(d: c_int, p: P, f: c_int, m: libc::mode_t) -> c_int, p;
    fopen(p: P, m: P) -> *mut c_void, p;
    fopen64(p: P, m: P) -> *mut c_void, p;
    opendir(p: P) -> *mut c_void, p;
    stat64(p: P, b: *mut c_void) -> c_int, p;
    lstat64(p: P, b: *mut c_void) -> c_int, p;
    statx(d: c_int, p: P, f: c_int, m: u32, b: *mut c_void) -> c_int, p;
    access(p: P, m: c_int) -> c_int, p;
    faccessat(d: c_int, p: P, m: c_int, f: c_int) -> c_int, p;
    readlink(p: P, b: *mut c_char, n: usize) -> isize, p;
    realpath(p: P, b: *mut c_char) -> *mut c_char, p;
    getcwd(b: *mut c_char, n: usize) -> *mut c_char, NUL;
    chdir(p: P) -> c_int, p;
    mkdir(p: P, m: libc::mode_t) -> c_int, p;
    rmdir(p: P) -> c_int, p;
    unlink(p: P) -> c_int, p;
    unlinkat(d: c_int, p: P, f: c_int) -> c_int, p;
    rename(p: P, q: P) -> c_int, p;
    link(p: P, q: P) -> c_int, p;
    linkat(d: c_int, p: P, e: c_int, q: P, f: c_int) -> c_int, p;
    symlink(p: P, q: P) -> c_int, p;
    chmod(p: P, m: libc::mode_t) -> c_int, p;
    fork() -> c_int, NUL;
    posix_spawn(i: *mut c_int, p: P, a: A, t: A, v: A, e: A) -> c_int, p;
    posix_spawnp(i: *mut c_int, p: P, a: A, t: A, v: A, e: A) -> c_int, p;
    pidfd_spawnp(i: *mut c_int, p: P, a: A, t: A, v: A, e: A) -> c_int, p;
    execvp(p: P, v: A) -> c_int, p;
    execve(p: P, v: A, e: A) -> c_int, p;
    system(p: P) -> c_int, p;
    popen(p: P, m: P) -> *mut c_void, p;
    socket(d: c_int, t: c_int, p: c_int) -> c_int, NUL;
    getaddrinfo(n: P, s: P, h: A, r: A) -> c_int, n;
    gethostname(b: *mut c_char, n: usize) -> c_int, NUL;
}
