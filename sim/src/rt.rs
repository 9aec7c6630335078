//! The simulator's core: real OS threads, of which exactly one runs at any time, released by a seeded
//! scheduler; virtual time; crash points; the event log. One process simulates exactly one run.
#![allow(static_mut_refs)]
use crate::fs::Fs;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

pub const NONE: u32 = u32::MAX;

// kinds of scheduling points
pub const K_LOCK: u32 = 0;
pub const K_UNLOCK: u32 = 1;
pub const K_ATOMIC: u32 = 2;
pub const K_STORE: u32 = 3; // a store into a mapped file
pub const K_LOAD: u32 = 4; // a load from a mapped file
pub const K_DATA: u32 = 5; // read/write/seek/size
pub const K_META: u32 = 6; // open/rename/unlink/truncate/sync...
pub const K_THREAD: u32 = 7;
pub const K_FUTEX: u32 = 8;
pub const K_OP: u32 = 9; // boundary of a client operation
pub const K_DIR: u32 = 10; // calls that change a directory: rename/link/unlink
pub const NKINDS: usize = 11;
pub const KNAMES: [&str; NKINDS] =
    ["lock", "unlock", "atomic", "store", "load", "data-io", "meta-io", "thread", "futex", "op", "dir-io"];
// how much of the switch / crash budget one point of each kind consumes
const WEIGHT: [i64; NKINDS] = [16, 16, 8, 16, 1, 16, 24, 16, 16, 8, 24];

#[thread_local]
pub static mut TID: u32 = NONE;
#[thread_local]
pub static mut INSIDE: u32 = 0;
pub static mut RT: *mut Rt = std::ptr::null_mut();

/// splitmix64
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x6a09e667f3bcc909);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform in [lo, hi]
    pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
        let (a, b) = ((lo.max(1) as f64).ln(), (hi.max(1) as f64).ln());
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        (a + (b - a) * u).exp().round() as u64
    }
    /// roughly exponential with the given mean (at least 1)
    pub fn exp(&mut self, mean: u64) -> i64 {
        let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        ((-u.ln()) * mean as f64).ceil().max(1.0) as i64
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Runnable,
    Blocked,
    Finished,
    Zombie,
}

pub struct Th {
    pub park: Box<AtomicU32>,
    pub st: St,
    pub inc: u32,
    pub addr: usize,
    pub deadline: u64,
    pub woken: bool,
    pub prio: u64,
    pub why: &'static str,
    pub op: String,
    pub native: u64,
    pub detached: bool,
    pub yields: u32,
    /// slow-thread fault: not scheduled before this step while others can run
    pub stalled_until: u64,
    /// the hash of the key the current operation is about
    pub key: Option<u64>,
    /// I/O calls made by the current operation: reads, writes, others; compactions, halves of splits begun
    pub io: [u32; 5],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    /// switch after an exponentially distributed amount of work with this mean (units, see WEIGHT)
    Random { mean: u64 },
    /// priorities with change points (PCT): `changes` expected priority changes per `len` units
    Pct { mean: u64 },
    /// follow an explicit list of exceptions to the default choice
    Replay,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub seed: u64,
    pub mode: Mode,
    pub loads: bool,
    /// mean (in units) between slow-thread faults; 0 = none
    pub stall: u64,
    pub exceptions: BTreeMap<u64, u32>,
}

/// when to crash in the current incarnation
#[derive(Clone, Debug, PartialEq)]
pub enum CrashAt {
    Never,
    Step(u64),
    /// after an exponentially distributed number of points of the kinds in the mask
    Hazard { mean: u64, mask: u32 },
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub steps: u64,
    pub hash: u64,
    pub exceptions: Vec<(u64, u32)>,
    /// step, flags: 1 = power loss, 2 = at the regular end of the phase, phase << 2
    pub crashes: Vec<(u64, u32)>,
    pub faults: Vec<(u64, u32)>,
    pub switches: u64,
    pub points: [u64; NKINDS],
}

pub struct Rt {
    pub step: u64,
    pub step_cap: u64,
    pub fuel: u64,
    pub fuel_cap: u64,
    pub now: u64,
    pub threads: Vec<Th>,
    pub cur: u32,
    pub inc: u32,
    pub crashed: bool,
    pub power: bool,
    /// no power failures while a shard is being compacted
    pub spare_compactions: bool,
    pub crash_left: i64,
    pub crash_mask: u32,
    pub crash_step: u64,
    pub crash_count: u64,
    pub end_kill: bool,
    pub cfg: SchedCfg,
    pub rng: Rng,
    pub misc: Rng,
    pub left: i64,
    pub stall_left: i64,
    /// only the current thread can run and no crash is due: reads need no scheduling points
    pub quiet: bool,
    pub frozen: u32, // >0: no preemption (harness bookkeeping)
    pub fs: Fs,
    pub out: Out,
    pub panics: Vec<String>,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub live_cpu: u64,
    /// a call that takes very long: when it ends, the span of its shard, and whether a compaction makes it
    pub hang: Option<(u64, u32, u32, bool)>,
    pub tag: &'static str, // what to call a deadlock in the current phase
}

struct Cellish(UnsafeCell<u8>);
unsafe impl Sync for Cellish {}
static _C: Cellish = Cellish(UnsafeCell::new(0));

#[inline(always)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
#[inline(always)]
pub fn tid() -> u32 {
    unsafe { TID }
}
/// true when the calling thread is simulated and not already inside the simulator
#[inline(always)]
pub fn active() -> bool {
    unsafe { TID != NONE && INSIDE == 0 }
}
/// true when the calling thread is simulated
#[inline(always)]
pub fn simulated() -> bool {
    unsafe { TID != NONE }
}
pub struct Inside;
#[inline(always)]
pub fn inside() -> Inside {
    unsafe { INSIDE += 1 };
    Inside
}
impl Drop for Inside {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { INSIDE -= 1 }
    }
}

pub unsafe fn sys6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn futex_wait(w: &AtomicU32) {
    while w.load(Ordering::Acquire) == 0 {
        unsafe { sys6(202, w as *const _ as u64, 128, 0, 0, 0, 0) };
    }
    w.store(0, Ordering::Relaxed);
}
fn futex_wake(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    unsafe { sys6(202, w as *const _ as u64, 129, 1, 0, 0, 0) };
}

pub fn hash_mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v).wrapping_mul(0x9e3779b97f4a7c15);
    x ^ (x >> 29)
}
pub fn hash_str(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in s {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Rt {
    pub fn log(&mut self, code: u64, a: u64, b: u64) {
        let t = unsafe { TID } as u64;
        self.out.hash = hash_mix(hash_mix(hash_mix(self.out.hash, code << 32 | t), a), b);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            let s = f();
            let t = unsafe { TID } as i32;
            self.trace.push(format!("{:>7} t{} {}", self.step, t, s));
        }
    }
    fn runnable(&self, t: u32) -> bool {
        self.threads[t as usize].st == St::Runnable
    }
    fn candidates(&self) -> Vec<u32> {
        (0..self.threads.len() as u32).filter(|&t| self.runnable(t)).collect()
    }
    fn default_next(&self) -> u32 {
        let n = self.threads.len() as u32;
        let c = self.cur;
        if self.runnable(c) {
            return c;
        }
        for i in 1..=n {
            let t = (c + i) % n;
            if self.runnable(t) {
                return t;
            }
        }
        NONE
    }
    /// chooses the next thread; `forced` when the current one cannot or should not go on
    fn choose(&mut self, forced: bool, yielding: bool) -> u32 {
        let def = if yielding {
            // default for a yield: the next runnable thread in cyclic order
            let n = self.threads.len() as u32;
            (1..=n).map(|i| (self.cur + i) % n).find(|&t| self.runnable(t)).unwrap_or(NONE)
        } else {
            self.default_next()
        };
        if def == NONE {
            return NONE;
        }
        let pick = match self.cfg.mode {
            Mode::Replay => match self.cfg.exceptions.get(&self.step) {
                Some(&t) if (t as usize) < self.threads.len() && self.runnable(t) => t,
                _ => def,
            },
            Mode::Random { .. } => {
                let c = self.candidates();
                let ready: Vec<u32> =
                    c.iter().copied().filter(|&t| self.threads[t as usize].stalled_until <= self.step).collect();
                let c = if ready.is_empty() { c } else { ready };
                let c2: Vec<u32> =
                    if yielding || forced { c.iter().copied().filter(|&t| t != self.cur).collect() } else { c.clone() };
                if c2.is_empty() {
                    c[0]
                } else {
                    *self.rng.pick(&c2)
                }
            }
            Mode::Pct { .. } => {
                let c = self.candidates();
                let mut best = c[0];
                for &t in &c {
                    if self.threads[t as usize].prio > self.threads[best as usize].prio {
                        best = t;
                    }
                }
                best
            }
        };
        if pick != def {
            self.out.exceptions.push((self.step, pick));
        }
        pick
    }
    fn resample(&mut self) {
        self.left = match self.cfg.mode {
            Mode::Random { mean } | Mode::Pct { mean } => self.rng.exp(mean),
            Mode::Replay => i64::MAX,
        };
    }
    pub fn arm_crash(&mut self, at: &CrashAt, power: bool) {
        self.power = power;
        self.crash_mask = 0;
        self.crash_step = u64::MAX;
        self.crash_left = i64::MAX;
        match at {
            CrashAt::Never => {}
            CrashAt::Step(s) => self.crash_step = *s,
            CrashAt::Hazard { mean, mask } => {
                self.crash_mask = *mask;
                self.crash_left = self.rng.exp(*mean);
            }
        }
    }
    /// hands the token to `t` and, unless the current thread is done, waits to get it back
    fn hand_over(&mut self, t: u32, wait: bool) {
        let me = self.cur;
        if t == me {
            return;
        }
        self.cur = t;
        self.out.switches += 1;
        self.log(1, t as u64, 0);
        let mine: *const AtomicU32 = &*self.threads[me as usize].park;
        let other: *const AtomicU32 = &*self.threads[t as usize].park;
        unsafe {
            futex_wake(&*other);
            if wait {
                futex_wait(&*mine);
            }
        }
    }
    fn wake_timers(&mut self) -> bool {
        // jump to the earliest deadline
        let mut best = u64::MAX;
        for t in &self.threads {
            if t.st == St::Blocked && t.deadline < best {
                best = t.deadline;
            }
        }
        if best == u64::MAX {
            return false;
        }
        if let Some((dl, lo, hi, background)) = self.hang {
            if best >= dl {
                // nothing happens until that call ends
                self.held_up(lo, hi, background);
            }
        }
        self.now = self.now.max(best);
        self.expire();
        true
    }
    /// all threads wait, for whatever reason, until a call on the file of one shard returns
    fn held_up(&mut self, lo: u32, hi: u32, background: bool) {
        crate::stats::hit(crate::stats::P_STUCK);
        let whole = background && crate::exec::w().sc.cfg.shard >= crate::gen::NO_SPLITS;
        // a compaction copies one row at a time
        let mut row = None;
        for t in &self.threads {
            let Some(h) = t.key else { continue };
            if t.inc != self.inc || t.st != St::Blocked {
                continue;
            }
            let s = (h >> 48) as u32;
            if s < lo || s >= hi {
                let m = format!(
                    "{} (slot {s:04x}) is held up by a call that is stuck on the file of shard {lo:04x}-{hi:04x}: {}",
                    t.op,
                    self.describe()
                );
                fatal("held-up", &m);
            }
            let r = (h >> 32) as u32 & 0xffff;
            if whole && r % 64 != *row.get_or_insert(r % 64) {
                let m = format!(
                    "{} and another row's operations are held up by a call of a background compaction: {}",
                    t.op,
                    self.describe()
                );
                fatal("held-up", &m);
            }
            crate::stats::hit(crate::stats::P_HELD_UP);
        }
    }
    fn expire(&mut self) {
        let now = self.now;
        for t in self.threads.iter_mut() {
            if t.st == St::Blocked && t.deadline <= now {
                t.st = St::Runnable;
                t.woken = false;
                t.deadline = u64::MAX;
            }
        }
    }
    fn next_or_deadlock(&mut self) -> u32 {
        loop {
            let n = self.choose(true, false);
            if n != NONE {
                return n;
            }
            if !self.wake_timers() {
                let d = self.describe();
                let tag = self.tag;
                fatal(tag, &format!("no thread can make progress: {d}"));
            }
        }
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if t.inc == self.inc && t.st != St::Finished && t.st != St::Zombie && i != 0 {
                s += &format!("[t{} {:?} in {} during {}] ", i, t.st, t.why, if t.op.is_empty() { "background" } else { &t.op });
            }
        }
        s
    }
    pub fn point(&mut self, kind: u32) {
        if self.quiet && (kind == K_LOAD || kind == K_LOCK || kind == K_UNLOCK) {
            return;
        }
        self.step += 1;
        self.now += 20;
        self.out.points[kind as usize] += 1;
        if self.step > self.step_cap {
            let d = self.describe();
            fatal("livelock", &format!("step limit {} exceeded: {}", self.step_cap, d));
        }
        let w = WEIGHT[kind as usize];
        // crash?
        if self.step >= self.crash_step {
            self.crash();
        }
        if self.crash_mask & (1 << kind) != 0 {
            self.crash_left -= 1;
            if self.crash_left <= 0 {
                self.crash();
            }
        }
        if kind == K_LOAD && !self.cfg.loads {
            return;
        }
        if self.frozen > 0 {
            return;
        }
        // switch?
        if self.cfg.mode == Mode::Replay {
            if self.cfg.exceptions.contains_key(&self.step) {
                let n = self.choose(false, false);
                self.hand_over(n, true);
            }
            return;
        }
        if self.stall_left != i64::MAX {
            self.stall_left -= w;
            if self.stall_left <= 0 {
                self.stall_left = self.rng.exp(self.cfg.stall);
                let c = self.candidates();
                let v = *self.rng.pick(&c) as usize;
                let len = self.rng.log(50, 20_000);
                self.threads[v].stalled_until = self.step + len;
                if v as u32 == self.cur {
                    self.left = 0;
                }
                crate::stats::hit(crate::stats::STALL);
            }
        }
        self.left -= w;
        if self.left <= 0 {
            self.resample();
            if let Mode::Pct { .. } = self.cfg.mode {
                let c = self.cur as usize;
                self.threads[c].prio = self.rng.next() >> 34; // drop below the initial ones
            }
            let n = self.choose(false, false);
            self.hand_over(n, true);
        }
    }
    /// from here until another thread can run, loads and lock operations are no scheduling or crash points,
    /// provided that nobody else can run (for long read-only walks in audits)
    pub fn try_quiet(&mut self) -> bool {
        let me = self.cur as usize;
        self.quiet = self.threads.iter().enumerate().all(|(i, t)| {
            i == me || t.st == St::Finished || t.st == St::Zombie || (t.st == St::Blocked && t.deadline == u64::MAX)
        });
        self.quiet
    }
    pub fn block(&mut self, addr: usize, deadline: u64, why: &'static str) -> bool {
        self.quiet = false;
        let me = self.cur as usize;
        self.step += 1;
        {
            let t = &mut self.threads[me];
            t.st = St::Blocked;
            t.addr = addr;
            t.deadline = deadline;
            t.woken = false;
            t.why = why;
        }
        if self.frozen > 0 {
            fatal("harness", "blocking while frozen");
        }
        let n = self.next_or_deadlock();
        self.hand_over(n, true);
        self.threads[me].woken
    }
    pub fn wake(&mut self, addr: usize, n: usize) -> usize {
        if !self.threads.iter().any(|t| t.st == St::Blocked && t.addr == addr) {
            return 0;
        }
        self.quiet = false;
        let mut k = 0;
        // which of several waiters is woken first is the scheduler's choice
        let mut w: Vec<usize> =
            (0..self.threads.len()).filter(|&i| self.threads[i].st == St::Blocked && self.threads[i].addr == addr).collect();
        while !w.is_empty() && k < n {
            let i = if n < w.len() { self.misc.below(w.len() as u64) as usize } else { 0 };
            let t = w.remove(i);
            self.threads[t].st = St::Runnable;
            self.threads[t].woken = true;
            self.threads[t].deadline = u64::MAX;
            k += 1;
        }
        k
    }
    pub fn yield_now(&mut self) {
        self.step += 1;
        self.out.points[K_THREAD as usize] += 1;
        self.now += 1000;
        self.expire();
        if self.step > self.step_cap {
            let d = self.describe();
            fatal("livelock", &format!("step limit {} exceeded: {}", self.step_cap, d));
        }
        if self.frozen > 0 {
            return;
        }
        let c = self.cur as usize;
        if let Mode::Pct { .. } = self.cfg.mode {
            self.threads[c].prio = self.rng.next() >> 36;
        }
        let n = self.choose(false, true);
        self.hand_over(n, true);
    }
    pub fn spawn_slot(&mut self) -> u32 {
        self.quiet = false;
        let prio = if self.cfg.mode == Mode::Replay { 0 } else { (1 << 40) + self.rng.below(1 << 40) };
        self.threads.push(Th {
            park: Box::new(AtomicU32::new(0)),
            st: St::Runnable,
            inc: self.inc,
            addr: 0,
            deadline: u64::MAX,
            woken: false,
            prio,
            why: "",
            op: String::new(),
            native: 0,
            detached: false,
            yields: 0,
            stalled_until: 0,
            key: None,
            io: [0; 5],
        });
        (self.threads.len() - 1) as u32
    }
    /// kills the current incarnation at this very point; returns only on no thread of it
    pub fn crash(&mut self) -> ! {
        let p = self.power;
        let at_end = self.end_kill;
        self.end_kill = false;
        let ph = crate::exec::w().phase as u32;
        self.out.crashes.push((self.step, p as u32 | (at_end as u32) << 1 | ph << 2));
        self.crash_count += 1;
        self.log(2, self.step, p as u64);
        self.note(|| format!("*** {} ***", if p { "POWER LOSS" } else { "PROCESS KILLED" }));
        crate::stats::hit(if p { crate::stats::POWERLOSS } else { crate::stats::CRASH });
        self.do_crash();
        let me = self.cur as usize;
        self.cur = 0;
        self.threads[0].st = St::Runnable;
        let other: *const AtomicU32 = &*self.threads[0].park;
        let mine: *const AtomicU32 = &*self.threads[me].park;
        unsafe {
            futex_wake(&*other);
            loop {
                futex_wait(&*mine);
            }
        }
    }
    pub fn do_crash(&mut self) {
        self.quiet = false;
        let inc = self.inc;
        for (i, t) in self.threads.iter_mut().enumerate() {
            if i != 0 && t.inc == inc && t.st != St::Finished {
                t.st = St::Zombie;
            }
        }
        self.crashed = true;
        self.hang = None;
        self.crash_mask = 0;
        self.crash_step = u64::MAX;
        self.frozen = 0;
        if self.power && self.spare_compactions && self.fs.list("/sim/db").iter().any(|f| f.0.starts_with("compact_")) {
            // nothing is promised about power failures during a compaction: only the process is killed
            self.power = false;
        }
        let power = self.power;
        let mut r = Rng::new(self.misc.next());
        self.fs.crash(power, &mut r);
    }
}

/// entry of a new simulated OS thread: waits for its first turn
pub fn thread_begin(t: u32) {
    unsafe {
        TID = t;
        let p: *const AtomicU32 = &*rt().threads[t as usize].park;
        futex_wait(&*p);
    }
}
pub fn thread_end() {
    let _i = inside();
    let r = rt();
    let me = r.cur;
    r.step += 1;
    r.threads[me as usize].st = St::Finished;
    r.wake(0x7000_0000 + me as usize, usize::MAX);
    r.wake(0x6fff_0000, usize::MAX); // the controller
    let n = r.next_or_deadlock();
    r.hand_over(n, false);
    unsafe { TID = NONE };
}

/// ends the run with a violation; callable from any simulated thread
pub fn fatal(class: &str, msg: &str) -> ! {
    unsafe { INSIDE += 1 };
    crate::worker::child_fail(class, msg)
}

// ---- entry points used by the parking_lot shim ----
#[no_mangle]
pub extern "C" fn sim_point(kind: u32, _addr: usize) {
    if active() {
        let _i = inside();
        rt().point(kind);
    }
}
#[no_mangle]
pub extern "C" fn sim_wait(addr: usize, timeout_ns: u64) -> bool {
    if !simulated() {
        panic!("a lock is contended outside of the simulation");
    }
    let _i = inside();
    let r = rt();
    let dl = if timeout_ns == u64::MAX { u64::MAX } else { r.now.saturating_add(timeout_ns) };
    r.block(addr, dl, "a lock")
}
#[no_mangle]
pub extern "C" fn sim_wake(addr: usize, n: usize) {
    if simulated() {
        let _i = inside();
        rt().wake(addr, n);
    }
}
#[no_mangle]
pub extern "C" fn sim_tid() -> usize {
    tid() as usize
}
/// marks the boundary of a client operation
pub fn op_point() {
    if active() {
        let _i = inside();
        rt().point(K_OP);
    }
}
