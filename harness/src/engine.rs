//! Exhaustive choice-tree exploration (stateless model checking of the real code).
//!
//! A space is a deterministic closure that asks `Ctx::choose` for every decision. The
//! explorer runs it on *every* decision sequence (depth-first, re-executing from the root),
//! in parallel: an idle worker is handed the shallowest untried alternatives of a busy one.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Bad {
    /// stable identifier used to match recorded findings
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Bad>;
pub fn bad<T>(msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { key: String::new(), msg: msg.into() })
}
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return $crate::engine::bad(format!($($t)*)) }; }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return $crate::engine::bad(format!($($t)*)) } }; }

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { let mut x = self.0; x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^ (x >> 32) }
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it { self.write_u64(u64::from_le_bytes(c.try_into().unwrap())) }
        for &x in it.remainder() { self.write_u64(x as u64 + 1) }
    }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fx(0x9e3779b97f4a7c15); t.hash(&mut h); h.finish() }

#[derive(Default)]
pub struct Stats {
    pub states: FxSet,
    pub bulk_states: u64,
    pub capped_states: bool,
    pub transitions: u64,
    pub execs: u64,
    pub runs: u64,
    pub maxdepth: usize,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
}
const STATE_CAP: usize = 6_000_000;
impl Stats {
    fn merge(&mut self, o: Stats) {
        if self.states.is_empty() { self.states = o.states } else { self.states.extend(o.states) }
        self.bulk_states += o.bulk_states;
        self.capped_states |= o.capped_states;
        self.transitions += o.transitions;
        self.execs += o.execs;
        self.runs += o.runs;
        self.maxdepth = self.maxdepth.max(o.maxdepth);
        for (k, v) in o.outcomes { *self.outcomes.entry(k).or_default() += v }
        for s in o.samples { if self.samples.len() < 6 { self.samples.push(s) } }
        for (k, v) in o.known { let e = self.known.entry(k).or_insert((0, v.1)); e.0 += v.0 }
    }
}

pub struct Ctx {
    ch: Vec<u32>,
    ar: Vec<u32>,
    pos: usize,
    fixed: usize,
    fresh_from: isize,
    replay: bool,
    pub st: Stats,
    pub thorough: bool,
    slot: usize,
}
impl Ctx {
    /// One decision among `n`; all of them are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n >= 1, "empty choice");
        if n == 1 { return 0 }
        let p = self.pos;
        self.pos += 1;
        if p < self.ch.len() {
            if self.ar[p] == 0 { self.ar[p] = n as u32 }
            assert_eq!(self.ar[p], n as u32, "nondeterministic space: arity changed at choice {p}");
            assert!(self.ch[p] < n as u32, "replayed choice out of range");
        } else {
            self.ch.push(0);
            self.ar.push(n as u32);
        }
        self.ch[p] as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.choose(xs.len())] }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    /// Number in lo..=hi
    pub fn num(&mut self, lo: usize, hi: usize) -> usize { lo + self.choose(hi - lo + 1) }
    /// Is the current tree node visited for the first time (in this exploration)?
    pub fn fresh(&self) -> bool { self.replay || self.pos as isize > self.fresh_from }
    /// Record a model/implementation state that was checked.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.st.states.len() < STATE_CAP { self.st.states.insert(h64(t)); } else { self.st.capped_states = true }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let n = self.st.runs;
        if self.st.samples.len() < 2 && (n < 2 || n % 97 == 5) { let s = f(); self.st.samples.push(s) }
    }
    /// Bulk accounting for inner exhaustive loops (each item is distinct by construction).
    pub fn bulk(&mut self, n: u64) { self.st.bulk_states += n; self.st.transitions += n; }
    pub fn outcome(&mut self, k: &'static str) { *self.st.outcomes.entry(k).or_default() += 1 }
}

thread_local! {
    static IN_IMPL: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Run implementation code: a panic inside is the implementation's, reported as a violation.
pub fn imp<T>(f: impl FnOnce() -> T) -> Result<T, Bad> {
    let was = IN_IMPL.with(|c| c.replace(true));
    CALLS.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_IMPL.with(|c| c.set(was));
    r.map_err(|_| Bad { key: String::new(), msg: format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone())) })
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = s.clone());
        if !IN_IMPL.with(|c| c.get()) { eprintln!("harness panic: {s}") }
    }));
}

pub struct Space {
    pub name: String,
    pub bound: String,
    pub f: Box<dyn Fn(&mut Ctx) -> R + Send + Sync>,
}
pub fn space(name: &str, bound: impl Into<String>, f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) -> Space {
    Space { name: name.into(), bound: bound.into(), f: Box::new(f) }
}

// ---------------------------------------------------------------- crash slots
#[cfg(unix)]
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
pub const SLOT_WORDS: usize = 2048;
pub const MAX_THREADS: usize = 64;
static SLOTS: AtomicUsize = AtomicUsize::new(0);
#[cfg(not(unix))]
pub fn open_slots(_: &str) {}
#[cfg(unix)]
pub fn open_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    let len = SLOT_WORDS * 4 * MAX_THREADS;
    f.set_len(len as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    SLOTS.store(p as usize, Ordering::SeqCst);
}
/// slot layout: [busy, space, len, choices...]
fn slot_set(slot: usize, space: usize, ch: &[u32]) {
    let base = SLOTS.load(Ordering::Relaxed);
    if base == 0 { return }
    unsafe {
        let p = (base as *mut u32).add(slot * SLOT_WORDS);
        let n = ch.len().min(SLOT_WORDS - 3);
        p.write_volatile(0);
        p.add(1).write_volatile(space as u32);
        p.add(2).write_volatile(n as u32);
        std::ptr::copy_nonoverlapping(ch.as_ptr(), p.add(3), n);
        p.write_volatile(1);
    }
}
fn slot_clear(slot: usize) {
    let base = SLOTS.load(Ordering::Relaxed);
    if base != 0 { unsafe { (base as *mut u32).add(slot * SLOT_WORDS).write_volatile(0) } }
}

// ---------------------------------------------------------------- explorer
/// the alternatives `ch.last()..hi` of a node, and everything below them
struct Job { ch: Vec<u32>, ar: Vec<u32>, hi: u32 }
pub struct Found { pub bad: Bad, pub choices: Vec<u32> }
pub struct Report { pub st: Stats, pub found: Option<Found>, pub internal: Option<String>, pub complete: bool, pub secs: f64 }

enum One { Ok, Bad(Bad), Internal(String) }
fn run_one(sp: &Space, c: &mut Ctx) -> One {
    match catch_unwind(AssertUnwindSafe(|| (sp.f)(c))) {
        Ok(Ok(())) => One::Ok,
        Ok(Err(b)) => One::Bad(b),
        Err(_) => {
            let was_impl = IN_IMPL.with(|x| x.replace(false));
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            if was_impl { One::Bad(Bad { key: String::new(), msg: format!("panic: {m}") }) } else { One::Internal(m) }
        }
    }
}

pub fn explore(sp: &Space, idx: usize, threads: usize, thorough: bool, known: &[String], deadline: Option<Instant>) -> Report {
    let t0 = Instant::now();
    let jobs: Mutex<Vec<Job>> = Mutex::new(vec![Job { ch: vec![], ar: vec![], hi: 0 }]);
    let idle = AtomicUsize::new(0);
    let queued = AtomicUsize::new(1);
    let stop = AtomicBool::new(false);
    let timeout = AtomicBool::new(false);
    let first = AtomicBool::new(true);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let internal: Mutex<Option<String>> = Mutex::new(None);
    let all: Mutex<Stats> = Mutex::new(Stats::default());
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (jobs, idle, queued, stop, timeout, first, found, internal, all, beats, done) =
                (&jobs, &idle, &queued, &stop, &timeout, &first, &found, &internal, &all, &beats, &done);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                CALLS.with(|c| c.set(0));
                let mut hi: Vec<u32> = vec![];
                let mut c = Ctx { ch: vec![], ar: vec![], pos: 0, fixed: 0, fresh_from: -1, replay: false, st: Stats::default(), thorough, slot: t };
                'outer: loop {
                    // get a job
                    let mut was_idle = false;
                    let job = loop {
                        if stop.load(Ordering::Relaxed) { break 'outer }
                        if let Some(j) = jobs.lock().unwrap().pop() { if was_idle { idle.fetch_sub(1, Ordering::SeqCst); } queued.fetch_sub(1, Ordering::SeqCst); break j }
                        if !was_idle { was_idle = true; idle.fetch_add(1, Ordering::SeqCst); }
                        if idle.load(Ordering::SeqCst) == threads && queued.load(Ordering::SeqCst) == 0 { break 'outer }
                        std::thread::sleep(std::time::Duration::from_micros(50));
                    };
                    c.fixed = job.ch.len().saturating_sub(1);
                    c.fresh_from = if first.swap(false, Ordering::SeqCst) { -1 } else { job.ch.len() as isize - 1 };
                    if job.ch.is_empty() { c.fresh_from = -1 }
                    c.ch = job.ch; c.ar = job.ar;
                    // hi[i]: first alternative at choice i that is not this worker's (missing: all are)
                    hi.clear();
                    if !c.ch.is_empty() { hi.resize(c.ch.len() - 1, 0); hi.push(job.hi) }
                    loop {
                        if stop.load(Ordering::Relaxed) { break 'outer }
                        // share work: the upper half of the shallowest alternatives
                        while idle.load(Ordering::Relaxed) > queued.load(Ordering::Relaxed) {
                            let Some(i) = (c.fixed..c.ch.len()).find(|&i| c.ch[i] + 1 < hi.get(i).copied().unwrap_or(c.ar[i])) else { break };
                            while hi.len() <= i { hi.push(c.ar[hi.len()]) }
                            let from = hi[i] - (hi[i] - c.ch[i]) / 2;
                            let mut ch = c.ch[..=i].to_vec(); ch[i] = from;
                            let ar = c.ar[..=i].to_vec();
                            queued.fetch_add(1, Ordering::SeqCst);
                            jobs.lock().unwrap().push(Job { ch, ar, hi: hi[i] });
                            hi[i] = from;
                        }
                        c.pos = 0;
                        slot_set(c.slot, idx, &c.ch);
                        let now = Instant::now();
                        if deadline.is_some_and(|d| now > d) { timeout.store(true, Ordering::SeqCst); stop.store(true, Ordering::SeqCst); break 'outer }
                        beats[t].store((now - t0).as_millis() as u64 + 1, Ordering::Relaxed);
                        let r = run_one(sp, &mut c);
                        beats[t].store(0, Ordering::Relaxed);
                        slot_clear(c.slot);
                        c.st.runs += 1;
                        c.ch.truncate(c.pos); c.ar.truncate(c.pos);
                        c.st.transitions += (c.pos as isize - c.fresh_from.max(0)).max(0) as u64;
                        c.st.maxdepth = c.st.maxdepth.max(c.pos);
                        match r {
                            One::Ok => {}
                            One::Bad(b) => {
                                if !b.key.is_empty() && known.contains(&b.key) {
                                    let e = c.st.known.entry(b.key.clone()).or_insert((0, b.msg.clone()));
                                    e.0 += 1;
                                } else {
                                    let mut g = found.lock().unwrap();
                                    let choices = c.ch.clone();
                                    if g.as_ref().map_or(true, |f| choices < f.choices) { *g = Some(Found { bad: b, choices }) }
                                    stop.store(true, Ordering::SeqCst);
                                    break 'outer;
                                }
                            }
                            One::Internal(m) => {
                                *internal.lock().unwrap() = Some(format!("{m} at choices {:?}", c.ch));
                                stop.store(true, Ordering::SeqCst);
                                break 'outer;
                            }
                        }
                        // backtrack
                        let mut i = c.ch.len();
                        loop {
                            if i <= c.fixed { continue 'outer }
                            i -= 1;
                            if c.ch[i] + 1 < hi.get(i).copied().unwrap_or(c.ar[i]) { break }
                        }
                        hi.truncate(i + 1);
                        c.ch.truncate(i + 1); c.ar.truncate(i + 1);
                        c.ch[i] += 1;
                        c.fresh_from = i as isize;
                    }
                }
                c.st.execs = CALLS.with(|c| c.replace(0));
                all.lock().unwrap().merge(std::mem::take(&mut c.st));
                done.fetch_add(1, Ordering::SeqCst);
            }).unwrap();
        }
        // watchdog: a single execution that does not come back
        let (beats, done, stop) = (&beats, &done, &stop);
        s.spawn(move || {
            while done.load(Ordering::SeqCst) < threads {
                std::thread::sleep(std::time::Duration::from_millis(if t0.elapsed().as_millis() < 300 { 2 } else { 50 }));
                let now = t0.elapsed().as_millis() as u64;
                for (t, b) in beats.iter().enumerate() {
                    let v = b.load(Ordering::Relaxed);
                    if v != 0 && now > v + 40_000 && !stop.load(Ordering::Relaxed) {
                        // leave the slot file for the supervisor, which replays it alone
                        println!("{{\"hang\": {t}}}");
                        std::process::exit(3);
                    }
                }
            }
        });
    });
    let st = all.into_inner().unwrap();
    let complete = !timeout.load(Ordering::SeqCst);
    Report { st, found: found.into_inner().unwrap(), internal: internal.into_inner().unwrap(), complete, secs: t0.elapsed().as_secs_f64() }
}

/// Replay one choice sequence; returns the violation if there is one.
pub fn replay(sp: &Space, choices: &[u32], thorough: bool) -> Result<Option<Bad>, String> {
    let mut c = Ctx { ch: choices.to_vec(), ar: vec![0; choices.len()], pos: 0, fixed: 0, fresh_from: -1, replay: true, st: Stats::default(), thorough, slot: 0 };
    std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || match run_one(sp, &mut c) {
        One::Ok => Ok(None),
        One::Bad(b) => Ok(Some(b)),
        One::Internal(m) => Err(m),
    }).unwrap().join().unwrap())
}
/// Enumerate a space on the current thread, in order, without judging (used as a generator).
pub fn explore_inline(sp: &Space) {
    let mut c = Ctx { ch: vec![], ar: vec![], pos: 0, fixed: 0, fresh_from: -1, replay: false, st: Stats::default(), thorough: false, slot: 0 };
    loop {
        c.pos = 0;
        let _ = (sp.f)(&mut c);
        c.ch.truncate(c.pos); c.ar.truncate(c.pos);
        let Some(i) = (0..c.ch.len()).rev().find(|&i| c.ch[i] + 1 < c.ar[i]) else { return };
        c.ch.truncate(i + 1); c.ar.truncate(i + 1);
        c.ch[i] += 1;
    }
}
