//! Exhaustive exploration of thread schedules of the real code (see shim/sched.c).
//!
//! Two searches: `Por` visits at least one schedule of every class of schedules
//! which differ only in the order of independent calls into RocksDB (sleep sets,
//! no bound on preemptions); `Bounded(n)` visits every schedule with at most n
//! preemptions, whatever the calls.
use std::sync::Mutex;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct COp { pub kind: i32, pub key: u64, pub txn: usize }
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct CNode { pub enabled: i32, pub cur: i32, pub deadlock: i32, pub nthreads: i32, pub pend: [COp; 4] }

const READ: i32 = 2;
const LOCK: i32 = 3;
const COMMIT: i32 = 4;
const START: i32 = 1;

pub fn independent(a: &COp, b: &COp) -> bool {
    if a.txn != 0 && a.txn == b.txn { return false; }
    match (a.kind, b.kind) {
        (READ, READ) | (READ, LOCK) | (LOCK, READ) => true,
        (LOCK, LOCK) => a.key != b.key,
        (START, READ) | (START, LOCK) | (READ, START) | (LOCK, START) | (START, START) => true,
        _ => false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Por, Bounded(u32) }

#[derive(Clone, Debug)]
struct Node { enabled: i32, pend: [COp; 4], cur: i32, deadlock: bool, sleep: u32, done: u32, chosen: u32, cost: u32 }

pub struct Explorer { mode: Mode, stack: Vec<Node>, depth: usize, redundant: bool, pub diverged: bool, pub points: u64, pub max_depth: u64, forced: Option<Vec<u32>> }

static EX: Mutex<Option<Explorer>> = Mutex::new(None);

impl Explorer {
    fn choose(&mut self, n: &CNode) -> u32 {
        let d = self.depth;
        self.depth += 1;
        self.points += 1;
        self.max_depth = self.max_depth.max(self.depth as u64);
        let first = |m: i32| -> u32 { if n.cur >= 0 && m >> n.cur & 1 == 1 { n.cur as u32 } else { m.trailing_zeros() } };
        if let Some(f) = &self.forced { return match f.get(d) { Some(c) if n.enabled >> c & 1 == 1 => *c, _ => first(n.enabled) }; }
        if self.redundant { return first(n.enabled); }
        if d < self.stack.len() {
            let k = &self.stack[d];
            if k.enabled != n.enabled { self.diverged = true; self.redundant = true; return first(n.enabled); }
            return k.chosen;
        }
        let (sleep, cost) = match self.stack.last() {
            None => (0, 0),
            Some(p) => {
                let mut s = 0u32;
                for t in 0..4u32 { if (p.sleep | p.done) >> t & 1 == 1 && !p.deadlock && p.chosen != t && independent(&p.pend[t as usize], &p.pend[p.chosen as usize]) { s |= 1 << t; } }
                (s, p.cost + (p.cur >= 0 && p.cur as u32 != p.chosen) as u32)
            }
        };
        let sleep = if self.mode == Mode::Por { sleep } else { 0 };
        let free = n.enabled & !(sleep as i32);
        if free == 0 { self.redundant = true; return first(n.enabled); }
        let chosen = first(free);
        self.stack.push(Node { enabled: n.enabled, pend: n.pend, cur: n.cur, deadlock: n.deadlock != 0, sleep, done: 0, chosen, cost });
        chosen
    }
    /// to the next schedule; false when all have been visited
    fn advance(&mut self) -> bool {
        self.depth = 0;
        self.redundant = false;
        while let Some(n) = self.stack.last_mut() {
            n.done |= 1 << n.chosen;
            let mut free = n.enabled as u32 & !(n.done | n.sleep);
            if let Mode::Bounded(b) = self.mode { if n.cur >= 0 && n.cost >= b { free &= 1 << n.cur; } }
            if free != 0 { n.chosen = free.trailing_zeros(); return true; }
            self.stack.pop();
        }
        false
    }
}

extern "C" fn chooser(n: *const CNode) -> i32 { EX.lock().unwrap().as_mut().unwrap().choose(unsafe { &*n }) as i32 }

macro_rules! sym { ($name:literal, $t:ty) => { unsafe { let p = libc::dlsym(libc::RTLD_DEFAULT, concat!($name, "\0").as_ptr().cast()); assert!(!p.is_null(), "the scheduler is not loaded"); std::mem::transmute::<*mut libc::c_void, $t>(p) } } }
pub fn statement_starts() { sym!("vxs_start", extern "C" fn())() }
pub fn timeouts(id: usize) -> i32 { sym!("vxs_timeouts", extern "C" fn(i32) -> i32)(id as i32) }

pub struct Stats { pub executions: u64, pub redundant: u64, pub points: u64, pub max_depth: u64, /// executions in which the same choices led elsewhere
    pub diverged: u64, /// the search was cut at its limit
    pub cut: bool }

/// Run `body(thread)` on `n` threads once per schedule; `setup` prepares an execution, `after`
/// looks at it and may stop the search.
pub fn explore<S: Sync>(n: usize, mode: Mode, limit: u64, mut setup: impl FnMut() -> S, body: impl Fn(&S, usize) + Sync, mut after: impl FnMut(S, &[u32], bool) -> bool) -> Result<Stats, String> {
    *EX.lock().unwrap() = Some(Explorer { mode, stack: vec![], depth: 0, redundant: false, diverged: false, points: 0, max_depth: 0, forced: None });
    let (mut executions, mut redundant, mut diverged) = (0, 0, 0);
    loop {
        let s = setup();
        sym!("vxs_begin", extern "C" fn(i32, extern "C" fn(*const CNode) -> i32))(n as i32, chooser);
        std::thread::scope(|sc| {
            for t in 0..n {
                let (s, body) = (&s, &body);
                sc.spawn(move || {
                    sym!("vxs_thread", extern "C" fn(i32))(t as i32);
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(s, t)));
                    sym!("vxs_thread_end", extern "C" fn())();
                });
            }
        });
        sym!("vxs_finish", extern "C" fn())();
        executions += 1;
        let (schedule, red, div) = { let g = EX.lock().unwrap(); let e = g.as_ref().unwrap(); (e.stack.iter().map(|k| k.chosen).collect::<Vec<_>>(), e.redundant, e.diverged) };
        if div { diverged += 1; EX.lock().unwrap().as_mut().unwrap().diverged = false; }
        if red { redundant += 1; }
        let go_on = after(s, &schedule, red);
        let mut g = EX.lock().unwrap();
        let e = g.as_mut().unwrap();
        if !go_on || !e.advance() || executions >= limit {
            return Ok(Stats { executions, redundant, points: e.points, max_depth: e.max_depth, diverged, cut: go_on && executions >= limit && !e.stack.is_empty() });
        }
    }
}
