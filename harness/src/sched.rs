//! Threads that take turns as a schedule says: one runs at a time, and the turn passes on after
//! a given number of edges of the code under test (the instrumentation calls `point` at each).
//! A thread that waits for a lock another one holds makes no progress; its turn is taken after a
//! few milliseconds.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Run {
    turn: AtomicUsize,
    left: AtomicU64,
    beat: AtomicU64,
    pos: AtomicUsize,
    plan: Vec<(u64, usize)>,
    alive: Vec<AtomicBool>,
    threads: Mutex<Vec<Option<std::thread::Thread>>>,
    switches: AtomicU64,
    steals: AtomicU64,
    ready: AtomicUsize,
    tids: Vec<AtomicUsize>,
}
/// A thread's place in a run: what it does before `enter` is not scheduled
pub struct Place(Arc<Run>, usize);
impl Place {
    pub fn enter(&self) {
        self.0.tids[self.1].store(unsafe { libc::syscall(libc::SYS_gettid) } as usize, SeqCst);
        self.0.ready.fetch_add(1, SeqCst);
        while self.0.turn.load(SeqCst) == usize::MAX {
            std::thread::park_timeout(Duration::from_millis(1));
        }
        self.0.wait(self.1);
        ME.with(|m| m.set(Some(self.1)));
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        let _ = ME.try_with(|m| m.set(None));
        self.0.finish(self.1);
    }
}
thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
}
/// turns taken so far: code that holds locks for long makes schedules slow
pub static STOLEN: AtomicU64 = AtomicU64::new(0);
static mut RUN: Option<Arc<Run>> = None;

impl Run {
    fn give(&self, to: usize) {
        self.turn.store(to, SeqCst);
        let t = self.threads.lock().unwrap()[to].clone();
        if let Some(t) = t {
            t.unpark();
        }
    }
    fn next_alive(&self, me: usize, by: usize) -> Option<usize> {
        let n = self.alive.len();
        let others: Vec<usize> = (1..n).map(|i| (me + i) % n).filter(|i| self.alive[*i].load(SeqCst)).collect();
        if others.is_empty() {
            None
        } else {
            Some(others[by % others.len()])
        }
    }
    /// does the thread wait for something (not for a processor)
    fn sleeps(&self, i: usize) -> bool {
        let tid = self.tids[i].load(SeqCst);
        let st = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
        st.rsplit_once(") ").map(|(_, r)| r.starts_with('S') || r.starts_with('D')).unwrap_or(false)
    }
    fn wait(&self, me: usize) {
        let mut seen = (0, 0);
        let mut idle = 0;
        while self.turn.load(SeqCst) != me {
            std::thread::park_timeout(Duration::from_millis(1));
            let now = (self.beat.load(SeqCst), self.turn.load(SeqCst));
            if now.1 == me {
                break;
            }
            if now == seen && self.sleeps(now.1) {
                idle += 1;
            } else {
                idle = 0;
            }
            seen = now;
            if idle > 1 && self.beat.load(SeqCst) == now.0 && self.turn.compare_exchange(now.1, me, SeqCst, SeqCst).is_ok() {
                self.steals.fetch_add(1, SeqCst);
            }
        }
    }
    fn point(&self, me: usize) {
        if self.turn.load(SeqCst) != me {
            self.wait(me);
        }
        self.beat.fetch_add(1, SeqCst);
        let l = self.left.load(SeqCst);
        if l > 0 {
            self.left.store(l - 1, SeqCst);
            return;
        }
        let p = self.pos.fetch_add(1, SeqCst);
        let (gap, by) = self.plan.get(p).copied().unwrap_or((u64::MAX, 0));
        self.left.store(gap, SeqCst);
        if p < self.plan.len() {
            if let Some(n) = self.next_alive(me, by) {
                self.switches.fetch_add(1, SeqCst);
                self.give(n);
                self.wait(me);
            }
        }
    }
    fn finish(&self, me: usize) {
        self.alive[me].store(false, SeqCst);
        if self.turn.load(SeqCst) == me {
            if let Some(n) = self.next_alive(me, 0) {
                self.give(n);
            }
        }
    }
}
fn point() {
    let me = match ME.try_with(|m| m.replace(None)) {
        Ok(Some(me)) => me,
        _ => return,
    };
    #[allow(static_mut_refs)]
    if let Some(r) = unsafe { RUN.as_ref() } {
        r.point(me);
    }
    ME.with(|m| m.set(Some(me)));
}
pub struct Sent<T>(pub T);
unsafe impl<T> Send for Sent<T> {}
impl<T> Sent<T> {
    pub fn get(self) -> T {
        self.0
    }
}
/// Runs the jobs, each on a thread of its own, in turns as `plan` says (edges to run, which of
/// the others comes next). Gives what they give (None: a panic), how often the turn passed and
/// how often it was taken.
pub fn together<T: 'static>(jobs: Vec<Box<dyn FnOnce(&Place) -> T>>, plan: Vec<(u64, usize)>) -> (Vec<Option<T>>, u64, u64) {
    let n = jobs.len();
    let first = plan.first().map(|p| p.0).unwrap_or(u64::MAX);
    let run = Arc::new(Run {
        turn: AtomicUsize::new(usize::MAX),
        left: AtomicU64::new(first),
        beat: AtomicU64::new(0),
        pos: AtomicUsize::new(1),
        plan,
        alive: (0..n).map(|_| AtomicBool::new(true)).collect(),
        threads: Mutex::new(vec![None; n]),
        switches: AtomicU64::new(0),
        steals: AtomicU64::new(0),
        ready: AtomicUsize::new(0),
        tids: (0..n).map(|_| AtomicUsize::new(0)).collect(),
    });
    unsafe {
        RUN = Some(run.clone());
        covrt::POINT = Some(point);
    }
    let hs: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(i, j)| {
            let (r, j) = (run.clone(), Sent(j));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let j = j.get();
                    let p = Place(r, i);
                    Sent(j(&p))
                })
                .unwrap()
        })
        .collect();
    *run.threads.lock().unwrap() = hs.iter().map(|h| Some(h.thread().clone())).collect();
    // until all are ready (or have panicked before)
    while run.ready.load(SeqCst) < n && hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_micros(50));
    }
    run.turn.store(0, SeqCst);
    for h in &hs {
        h.thread().unpark();
    }
    let r = hs.into_iter().map(|h| h.join().ok().map(|v| v.get())).collect();
    unsafe {
        covrt::POINT = None;
        RUN = None;
    }
    STOLEN.fetch_add(run.steals.load(SeqCst), SeqCst);
    (r, run.switches.load(SeqCst), run.steals.load(SeqCst))
}
