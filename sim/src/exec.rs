//! Runs one scenario: the controller (simulated thread 0) starts incarnations of the process, each of which
//! opens the store, lets its clients operate on it, audits it and closes it - until it is done or killed.
#![allow(static_mut_refs)]
use crate::fs::FaultCfg;
use crate::rt::*;
use crate::scen::*;
use crate::stats::{self, *};
use crate::worker::child_fail;
use candystore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

pub const DIR: &str = "/sim/db";
pub const ANY: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unit,
    Val(Option<u32>),
    Bool(bool),
    Num(u64),
    /// status (0 replaced, 1 wrong value, 2 missing), previous value
    Rep(u8, u32),
    /// typed replace: only tells the previous value if it replaced
    TRep(Option<u32>),
    /// created?, value (ANY when unknown: typed)
    Goc(Option<bool>, u32),
    Kv(Option<(u32, u32)>),
    IdxVal(Option<(u64, u32)>),
    IdxMaybe(Option<u32>),
    Pairs(Vec<(u32, u32)>),
    IdxPairs(Vec<(u64, u32)>),
    Range(u64, u64),
    /// observed by a quiescent or concurrent store iteration
    Seen(Option<u32>),
    Failed(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St8 {
    Pending,
    Ok,
    Err,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub th: u32,
    pub op: Op,
    pub inv: u64,
    pub ret: u64,
    pub st: St8,
    pub res: Res,
    pub step: u64,
    pub phase: usize,
    /// result of an audit or of a single-threaded phase: iterations and lengths are exact
    pub exact: bool,
}
#[derive(Clone, Debug)]
pub struct IterRec {
    pub inv: u64,
    pub ret: u64,
    pub items: Vec<(u32, u32)>,
    pub exact: bool,
    pub phase: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Counts {
    /// entries read and written by system calls
    pub reads: (usize, usize),
    pub writes: (usize, usize),
    pub sizes: [usize; 5],
    pub compactions: usize,
    /// by operations on plain keys
    pub found: usize,
    pub missing: usize,
    pub updates: usize,
    /// number of shards at first, unless something merged them
    pub shards: Option<usize>,
    /// of earlier looks: splits, compactions
    pub seen: (usize, usize),
    /// someone else looked meanwhile
    pub looked: bool,
}

pub struct World {
    pub sc: Scenario,
    pub seq: u64,
    pub hist: Vec<Rec>,
    pub iters: Vec<IterRec>,
    pub vals: BTreeMap<Vec<u8>, u32>,
    pub valb: Vec<Vec<u8>>,
    pub keyidx: BTreeMap<Vec<u8>, u32>,
    pub itemidx: BTreeMap<Vec<u8>, u32>,
    pub phase: usize,
    pub opening: bool,
    /// how many calls had been failed when the store now open began to be opened
    pub open_errs: u64,
    pub crashes: Vec<(u64, bool, usize)>, // seq, power, phase
    pub hard_faults: bool,
    /// injected I/O errors are possible right now
    pub faults_on: bool,
    pub store_open: bool,
    /// how many have the store open, not counting one that is closing it
    pub holders: u32,
    /// clients are at work
    pub serving: bool,
    /// last value each (client, object) knows, for expected values
    pub last: BTreeMap<(u32, u32, u32, u32), u32>,
    pub qknown: BTreeMap<u32, Vec<u64>>,
    pub live_clients: u32,
    /// what happened since the store was opened or cleared
    pub count: Counts,
    pub rejected: u32,
    pub max_usage: usize,
}
pub static mut W: *mut World = std::ptr::null_mut();
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
pub fn viol(class: &str, msg: &str) -> ! {
    unsafe { INSIDE += 1 };
    child_fail(class, msg)
}

// ---- names and values ----
const TAILS: &[&[u8]] = &[
    b"",
    b"\x01",
    b"\x02",
    b"\x03",
    b"\x04",
    b"\x05",
    b"\x06",
    b"\x07",
    b"\x00\x00\x00\x00\x00\x00\x00\x80\x07",
    b"\x00\x00\x00\x00\x00\x00\x00\x80",
    b"\x03\x00\x00\x00\x02",
    b"\x0f\x00\x00\x00",
    b"\x00",
    b"\xff\xff",
    b"\x00\x00\x00\x00\x00\x00\x00\x00\x04",
    b"\x01\x01",
];
fn lookalike(i: u32) -> Vec<u8> {
    let mut v = vec![b'a' + (i as usize / TAILS.len()) as u8];
    v.extend_from_slice(TAILS[i as usize % TAILS.len()]);
    v
}
pub fn key_name(c: &Cfg, i: u32) -> Vec<u8> {
    match c.keys {
        1 => {
            if i == 0 {
                vec![]
            } else {
                let n = 1 + (i as usize * 37) % 300;
                let mut v: Vec<u8> = (0..n).map(|j| (i as usize * 131 + j * 7) as u8).collect();
                v.extend_from_slice(&(i as u16).to_le_bytes());
                v
            }
        }
        2 => lookalike(i),
        // all in one row of the table
        4 => dense(c, i),
        // maximal sizes
        3 => {
            let n = if i == 0 { MAX_KEY_SIZE } else { 5 };
            let mut v = vec![b'm'; n];
            v[0] = i as u8;
            v
        }
        _ => format!("k{i}").into_bytes(),
    }
}
/// names whose hashes select the same row of whatever shard they are in
fn dense(c: &Cfg, i: u32) -> Vec<u8> {
    static mut CACHE: Vec<Vec<u8>> = vec![];
    #[allow(static_mut_refs)]
    let d = unsafe { &mut CACHE };
    let mut seed = [0u8; 16];
    seed[..8].copy_from_slice(&c.seed.to_le_bytes());
    seed[8..].copy_from_slice(&(c.seed ^ 0x5555).to_le_bytes());
    let mut n = d.last().map(|x| 1 + u32::from_be_bytes([x[0], x[1], x[2], x[3]])).unwrap_or(0);
    while d.len() <= i as usize {
        let mut k = n.to_be_bytes().to_vec();
        n += 1;
        k.push(1);
        if (crate::audit::sip(&seed, &k) >> 32) % 64 == 17 {
            k.pop();
            d.push(k);
        }
    }
    d[i as usize].clone()
}
pub fn list_name(c: &Cfg, i: u32) -> Vec<u8> {
    match c.keys {
        // with its namespace exactly as long as a key may be
        3 if i == 0 => vec![b'L'; 0x3fff - 1],
        2 => lookalike(i),
        _ => format!("l{i}").into_bytes(),
    }
}
pub fn item_name(c: &Cfg, i: u32) -> Vec<u8> {
    match c.keys {
        1 if i == 0 => vec![],
        2 => lookalike(i),
        3 if i == 0 => vec![b'I'; 0x3fff - 9],
        _ => format!("i{i}").into_bytes(),
    }
}
pub fn queue_name(c: &Cfg, i: u32) -> Vec<u8> {
    match c.keys {
        2 => lookalike(i),
        3 if i == 0 => vec![b'Q'; 0x3fff - 9],
        _ => format!("q{i}").into_bytes(),
    }
}
pub fn big_name(c: &Cfg, i: u32) -> Vec<u8> {
    match c.keys {
        2 => {
            let mut v = b"big".to_vec();
            v.extend(lookalike(i));
            v
        }
        _ => format!("b{i}").into_bytes(),
    }
}
fn hexs(i: u32) -> String {
    format!("t{i}")
}
pub fn val_bytes(id: u32, len: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(len as usize);
    let idb = id.to_le_bytes();
    if len >= 8 && (id % 2 == 1 || id % 4 == 2 && len >= 600) {
        // differs from others only at its end, or in the middle
        v.extend((0..len as usize).map(|j| (j.wrapping_mul(7) >> 1) as u8 & 0x7f));
        let at = (len as usize - 4) / if id % 4 == 1 { 1 } else { 2 };
        v[at..at + 4].copy_from_slice(&idb);
        return v;
    }
    for j in 0..len as usize {
        if j < 4 {
            v.push(idb[j]);
        } else {
            v.push((id as usize).wrapping_mul(31).wrapping_add(j.wrapping_mul(7)) as u8);
        }
    }
    v
}
pub fn intern(b: &[u8]) -> u32 {
    let w = w();
    if let Some(&i) = w.vals.get(b) {
        return i;
    }
    let i = w.valb.len() as u32;
    w.valb.push(b.to_vec());
    w.vals.insert(b.to_vec(), i);
    i
}
pub fn show(v: u32) -> String {
    if v == ANY {
        return "?".into();
    }
    let b = &w().valb[v as usize];
    for i in [0, b.len().saturating_sub(4), b.len().saturating_sub(4) / 2] {
        let Some(x) = b.get(i..i + 4) else { continue };
        let id = u32::from_le_bytes(x.try_into().unwrap());
        if val_bytes(id, b.len() as u32) == *b {
            return format!("v{}({}B)", id, b.len());
        }
    }
    let n = b.len().min(24);
    format!("<{:02x?}{} {}B>", &b[..n], if n < b.len() { ".." } else { "" }, b.len())
}
pub fn show_opt(v: Option<u32>) -> String {
    v.map(show).unwrap_or("none".into())
}

// ---- the run ----
/// the configuration the current phase runs with
pub fn cfg_now() -> Cfg {
    let w = w();
    let mut c = w.sc.cfg.clone();
    // it stays until changed again
    let upto = (w.phase + 1).min(w.sc.phases.len());
    if let Some(r) = w.sc.phases[..upto].iter().rev().find_map(|p| p.recfg) {
        c.shard = r[0];
        c.compact = r[1];
        c.threads = r[2];
        c.locks = r[3];
    }
    c
}
pub fn candy_config(c: &Cfg) -> Config {
    let mut seed = [0u8; 16];
    seed[..8].copy_from_slice(&c.seed.to_le_bytes());
    seed[8..].copy_from_slice(&(c.seed ^ 0x5555).to_le_bytes());
    #[allow(unused_mut)]
    let mut k = Config {
        max_shard_size: c.shard,
        min_compaction_threashold: c.compact,
        hash_seed: seed,
        expected_number_of_keys: c.expected as usize,
        max_concurrent_list_ops: c.locks,
        truncate_up: c.truncate,
        clear_on_unsupported_version: c.clear_unsup,
        mlock_headers: c.seed % 2 == 0,
        num_compaction_threads: c.threads as usize,
        ..Config::default()
    };
    #[cfg(feature = "agg")]
    {
        k.flush_aggregation_delay = if c.delay_us == 0 { None } else { Some(Duration::from_micros(c.delay_us)) };
    }
    k
}

/// the controller's body: runs all phases, then returns (violations end the process)
pub fn run(sc: Scenario) {
    unsafe {
        let fs = crate::fs::Fs::new(sc.sched.seed ^ 0x1234);
        let left = match sc.sched.mode {
            Mode::Random { mean } | Mode::Pct { mean } => mean as i64,
            Mode::Replay => i64::MAX,
        };
        RT = Box::into_raw(Box::new(Rt {
            step: 0,
            step_cap: sc.step_cap,
            fuel: 0,
            fuel_cap: 60_000_000,
            now: 1_000_000_000,
            threads: vec![],
            cur: 0,
            inc: 0,
            crashed: false,
            spare_compactions: false,
            power: false,
            crash_left: i64::MAX,
            crash_mask: 0,
            crash_step: u64::MAX,
            crash_count: 0,
            end_kill: false,
            cfg: sc.sched.clone(),
            rng: Rng::new(sc.sched.seed),
            misc: Rng::new(sc.seed ^ 0x9999),
            left,
            stall_left: if sc.sched.stall > 0 { sc.sched.stall as i64 } else { i64::MAX },
            frozen: 0,
            quiet: false,
            fs,
            out: Out::default(),
            panics: vec![],
            trace_on: false,
            trace: vec![],
            live_cpu: 0,
            hang: None,
            tag: "deadlock",
        }));
        if sc.cfg.capacity > 0 {
            rt().fs.capacity = sc.cfg.capacity as usize;
        }
        rt().spare_compactions = sc.prop == "C12";
        rt().fs.power_runs = sc.phases.iter().any(|p| p.power);
        rt().trace_on = crate::worker::trace_wanted();
        let mut keyidx = BTreeMap::new();
        for i in 0..sc.cfg.nkeys {
            keyidx.insert(key_name(&sc.cfg, i), i);
        }
        let mut itemidx = BTreeMap::new();
        for i in 0..sc.cfg.nitems {
            itemidx.insert(item_name(&sc.cfg, i), i);
        }
        let hard = sc.phases.iter().any(|p| p.faults.hard != 0) || sc.cfg.capacity > 0;
        #[cfg(feature = "wb")]
        {
            candystore::HASH_BITS_TO_KEEP = sc.cfg.hash_bits;
        }
        W = Box::into_raw(Box::new(World {
            sc,
            seq: 0,
            hist: vec![],
            iters: vec![],
            vals: BTreeMap::new(),
            valb: vec![],
            keyidx,
            itemidx,
            phase: 0,
            opening: false,
            open_errs: 0,
            crashes: vec![],
            hard_faults: hard,
            faults_on: false,
            store_open: false,
            holders: 0,
            serving: false,
            last: BTreeMap::new(),
            qknown: BTreeMap::new(),
            live_clients: 0,
            count: Counts::default(),
            rejected: 0,
            max_usage: 0,
        }));
        let t0 = rt().spawn_slot();
        assert_eq!(t0, 0);
        TID = 0;
    }
    let n = w().sc.phases.len();
    while w().phase < n {
        {
            let _i = inside();
            rt().inc += 1;
            rt().crashed = false;
        }
        std::thread::Builder::new().stack_size(1 << 20).spawn(incarnation).unwrap();
        let _i = inside();
        let r = rt();
        loop {
            if r.crashed {
                break;
            }
            let inc = r.inc;
            if r.threads.iter().skip(1).all(|t| t.inc != inc || t.st == St::Finished) {
                break;
            }
            r.block(0x6fff_0000, u64::MAX, "controller");
        }
        if r.crashed {
            let w = w();
            w.seq += 1;
            w.crashes.push((w.seq, r.power, w.phase));
            if w.opening {
                hit(P_CRASH_IN_OPEN);
            }
            if r.fs.list(DIR).iter().any(|f| f.0.starts_with("compact_")) {
                hit(P_CRASH_IN_COMPACT);
            }
            let seq = w.seq;
            for h in w.hist.iter_mut() {
                if h.st == St8::Pending && h.ret == u64::MAX {
                    h.ret = seq;
                    hit(P_OPS_PENDING);
                }
            }
            w.store_open = false;
            w.holders = 0;
            w.serving = false;
            w.phase += 1;
        }
    }
    // the simulation is over; from here on this thread runs alone
    unsafe { INSIDE += 1 };
}

fn set_op(s: String) {
    let r = rt();
    let t = r.cur as usize;
    r.threads[t].op = s;
}

fn open_store() -> Result<CandyStore> {
    set_op("open".into());
    w().open_errs = rt().fs.hard_errs;
    let r = CandyStore::open(DIR, candy_config(&cfg_now()));
    set_op(String::new());
    r
}

/// whether the power has failed with no flush having succeeded before
fn never_flushed() -> bool {
    let w = w();
    let Some(loss) = w.crashes.iter().find(|c| c.1).map(|c| c.0) else { return false };
    w.sc.prop == "C12" && !w.hist.iter().any(|h| h.op.k == K::Flush && h.st == St8::Ok && h.ret < loss)
}

fn incarnation() {
    loop {
        let i = w().phase;
        if i >= w().sc.phases.len() {
            return;
        }
        let p = w().sc.phases[i].clone();
        {
            let _i = inside();
            let r = rt();
            r.note(|| format!("=== phase {i} ==="));
            r.fs.set_faults(p.faults.clone());
            w().faults_on = p.faults.hard != 0 || r.fs.capacity != usize::MAX;
            r.arm_crash(&p.crash, p.power);
        }
        let mut clients = p.clients.clone();
        // damage is done to the files before the store is opened
        if let Some(Op { k: K::Damage, a, b, .. }) = clients.first().and_then(|c| c.first()).cloned() {
            clients[0].remove(0);
            damage(a, b);
        }
        if let Some(Op { k: K::Age, a, b, c, .. }) = clients.first().and_then(|c| c.first()).cloned() {
            clients[0].remove(0);
            age(a, b, c);
        }
        if i > 0 {
            hit(P_REOPEN);
        }
        w().opening = true;
        w().count = Counts::default();
        let mut racers = vec![];
        let winners = Arc::new(std::sync::Mutex::new(Vec::<CandyStore>::new()));
        for _ in 0..p.racers {
            let win = winners.clone();
            racers.push(spawn(move || {
                if let Ok(s) = open_store() {
                    win.lock().unwrap().push(s);
                } else {
                    hit(P_REFUSED_OPEN);
                }
            }));
        }
        let mut res = open_store();
        for r in racers {
            r.join().unwrap();
        }
        if p.racers > 0 {
            let mut v = std::mem::take(&mut *winners.lock().unwrap());
            if let Ok(s) = res {
                v.push(s);
            } else {
                hit(P_REFUSED_OPEN);
            }
            if v.len() != 1 {
                viol("exclusive-open", &format!("{} of {} racing opens succeeded", v.len(), p.racers + 1));
            }
            res = Ok(v.pop().unwrap());
        }
        let store = match res {
            Ok(s) => s,
            Err(e) => {
                if never_flushed() {
                    // the power failed before anything was promised: begin anew
                    hit(P_REFUSED_OPEN);
                    let _i = inside();
                    for f in rt().fs.list(DIR) {
                        if f.0 != ".lock" {
                            rt().fs.remove(&format!("{DIR}/{}", f.0));
                        }
                    }
                } else if !w().faults_on {
                    viol("open", &format!("opening the store failed: {e:#}"));
                }
                hit(P_OPS_ERR);
                crate::audit::closed("after an open that failed");
                // errors stop; now it has to work
                heal();
                match open_store() {
                    Ok(s) => s,
                    Err(e) => viol("open", &format!("opening failed after the I/O errors stopped: {e:#}")),
                }
            }
        };
        let store = Arc::new(store);
        w().opening = false;
        w().store_open = true;
        if w().sc.prop == "C27" {
            w().count.shards = Some(store.stats().num_shards);
        }
        if p.audit_open {
            crate::audit::audit(&store, true);
        }
        w().live_clients = clients.len() as u32;
        w().serving = true;
        let single = clients.len() == 1;
        let mut hs = vec![];
        for (c, ops) in clients.into_iter().enumerate() {
            if ops.is_empty() {
                continue;
            }
            let st = store.clone();
            if single {
                client(st, c as u32, ops, true);
            } else {
                hs.push(spawn(move || client(st, c as u32, ops, false)));
            }
        }
        for h in hs {
            set_op("join of the clients".into());
            h.join().unwrap();
        }
        set_op(String::new());
        w().serving = false;
        if p.faults.hard != 0 || p.faults.soft || p.faults.hang || w().faults_on {
            heal();
        }
        if w().sc.prop == "C27" {
            crate::audit::counters(&store.stats());
        }
        if p.audit_end {
            crate::audit::audit(&store, false);
        }
        if p.end == End::Kill {
            let _i = inside();
            rt().end_kill = true;
            rt().crash();
        }
        let Ok(s) = Arc::try_unwrap(store) else { viol("harness", "store still shared") };
        // in the meantime others keep trying to open it
        let late = if w().sc.prop == "C10" { p.racers } else { 0 };
        w().holders = 1;
        let late = (0..late).map(|_| spawn(late_opener)).collect::<Vec<_>>();
        if !late.is_empty() {
            std::thread::sleep(Duration::from_micros(1 + late.len() as u64));
        }
        set_op("drop of the store".into());
        w().holders -= 1;
        drop(s);
        set_op(String::new());
        for l in late {
            l.join().unwrap();
        }
        w().store_open = false;
        w().phase += 1;
        crate::audit::closed("after the store was closed");
    }
}
fn late_opener() {
    for i in 0..6 {
        if let Ok(s) = open_store() {
            w().holders += 1;
            if w().holders > 1 {
                viol("exclusive-open", "the store was opened while someone else had it open");
            }
            hit(P_LATE_OPEN);
            set_op("work of a late opener".into());
            s.stats();
            w().holders -= 1;
            set_op("drop of the store".into());
            drop(s);
            set_op(String::new());
        } else {
            hit(P_REFUSED_OPEN);
        }
        std::thread::sleep(Duration::from_micros(1 + i * i));
    }
}
fn heal() {
    let _i = inside();
    rt().fs.set_faults(FaultCfg::none());
    rt().fs.capacity = usize::MAX;
    w().faults_on = false;
    rt().note(|| "I/O errors stop".into());
}
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::Builder::new().stack_size(1 << 20).spawn(f).unwrap()
}

/// shards whose files were written to for so long, without a compaction, that they are close to the largest offset
/// that entries can have
fn age(which: u32, below: u32, limit: u32) {
    let _i = inside();
    let fs = &mut rt().fs;
    let end = (1u64 << 32) - if limit == 0 { 0 } else { 16 << 20 } - below as u64;
    for (i, (n, _)) in fs.list(DIR).into_iter().filter(|n| n.0.starts_with("shard_")).enumerate() {
        if which >> (i % 8) & 1 == 0 {
            continue;
        }
        let Some(&Some(ino)) = fs.names.get(&format!("{DIR}/{n}")) else { continue };
        if fs.age(ino, end) {
            hit(P_AGED);
            rt().note(|| format!("{n} is continued at offset {end:#x}"));
        }
    }
}

fn damage(a: u32, b: u32) {
    let files: Vec<String> = {
        let _i = inside();
        let all: Vec<String> = rt().fs.list(DIR).into_iter().map(|x| x.0).filter(|n| n.starts_with("shard_")).collect();
        // not those that a crash left behind although a larger one has taken their place
        let span = |n: &String| crate::audit::parse_span(n).unwrap_or((0, 0));
        all.iter()
            .filter(|n| {
                let (a, b) = span(n);
                !all.iter().any(|m| {
                    let (x, y) = span(m);
                    m != *n && x <= a && y >= b
                })
            })
            .cloned()
            .collect()
    };
    if files.is_empty() {
        return;
    }
    let name = format!("{DIR}/{}", files[a as usize % files.len()]);
    let span = |n: &str| crate::audit::parse_span(n).unwrap_or((0, 0));
    // what is gone altogether must not be taken for what never was: unless it was the only file, or an
    // outdated one is still there that looks like it
    let gone = b % 7 == 6 && files.len() > 1 && {
        let _i = inside();
        let (x, y) = span(name.rsplit('/').next().unwrap());
        let part = |n: &String| {
            let (c, d) = span(n);
            c >= x && d <= y && (c, d) != (x, y)
        };
        !rt().fs.list(DIR).into_iter().any(|f| f.0.starts_with("shard_") && part(&f.0))
    };
    let orig;
    let before: Vec<(String, Vec<u8>)>;
    {
        let _i = inside();
        let fs = &mut rt().fs;
        orig = fs.contents(&name).unwrap();
        let mut d = orig.clone();
        match b % 7 {
            0 => d[(a % 8) as usize] ^= 0x40,
            1 => d[8] = d[8].wrapping_add(1),
            2 => d[8] = d[8].wrapping_sub(1),
            3 => d.truncate(4096 * (1 + a as usize % 90)),
            4 => d.truncate(1 + a as usize % 15),
            _ => d[15] ^= 0x80,
        }
        fs.put(&name, &d);
        if gone {
            fs.remove(&name);
        }
        before = files.iter().filter_map(|f| Some((f.clone(), fs.contents(&format!("{DIR}/{f}"))?))).collect();
        rt().note(|| format!("damage {name} kind {b}"));
    }
    if w().sc.cfg.clear_unsup && !gone {
        // the next open has to succeed, with exactly that shard reset
        drop(orig);
        let (lo, hi) = crate::audit::parse_span(name.rsplit('/').next().unwrap()).unwrap();
        let cfg = w().sc.cfg.clone();
        for k in 0..cfg.nkeys {
            let s = crate::audit::slot_of(&cfg, k);
            if s >= lo && s < hi {
                let i = begin(97, Op::new(K::Del, k, 0, 0, 0), true);
                end(i, Ok(Res::Unit));
            }
        }
        return;
    }
    match open_store() {
        Ok(_) => viol("damaged", &format!("a store with a damaged shard ({name}, damage {}) was opened", b % 7)),
        Err(_) => hit(P_REFUSED_OPEN),
    }
    let _i = inside();
    let fs = &mut rt().fs;
    for (f, d) in before {
        // the others may have been recovered, what they hold is looked at later
        let now = fs.contents(&format!("{DIR}/{f}"));
        let same = if format!("{DIR}/{f}") == name { now.as_ref() == Some(&d) } else { now.is_some() };
        if !same {
            viol("damaged", &format!("refusing a damaged store changed {f} (damaged file: {name}, damage {})", b % 7));
        }
    }
    fs.put(&name, &orig);
}

fn begin(th: u32, op: Op, exact: bool) -> usize {
    let w = w();
    w.seq += 1;
    hit(P_OPS);
    let overlap = w.hist.iter().rev().take(12).any(|h| h.ret == u64::MAX);
    if overlap {
        hit(P_OVERLAP);
    }
    set_op(format!("{} (client {th})", op.text()));
    rt().note(|| format!("-> {}", op.text()));
    w.hist.push(Rec {
        th,
        op,
        inv: w.seq,
        ret: u64::MAX,
        st: St8::Pending,
        res: Res::Unit,
        step: rt().step,
        phase: w.phase,
        exact,
    });
    w.hist.len() - 1
}
fn end(i: usize, r: Result<Res>) {
    let w = w();
    w.seq += 1;
    set_op(String::new());
    let h = &mut w.hist[i];
    h.ret = w.seq;
    match r {
        Ok(x) => {
            h.st = St8::Ok;
            h.res = x;
        }
        Err(e) => {
            h.st = St8::Err;
            h.res = Res::Failed(format!("{e:#}"));
            hit(P_OPS_ERR);
        }
    }
    let t = format!("{:?}", h.res);
    let hh = hash_str(t.as_bytes());
    rt().log(7, i as u64, hh);
    rt().note(|| format!("<- {} = {}", w.hist[i].op.text(), if t.len() > 200 { &t[..200] } else { &t }));
}
pub fn record(th: u32, op: Op, exact: bool, f: impl FnOnce() -> Result<Res>) -> Option<Res> {
    op_point();
    let key = if matches!(op.k, K::Get | K::Has | K::Set | K::Rep | K::Goc | K::Del) {
        Some(crate::audit::hash_of(&w().sc.cfg, op.a))
    } else {
        None
    };
    let counting = w().sc.prop == "C26" && w().serving;
    let i = begin(th, op, exact);
    let shaky = w().faults_on;
    let me = rt().cur as usize;
    rt().threads[me].key = key;
    rt().threads[me].io = [0; 5];
    let r = f();
    let io = rt().threads[me].io;
    rt().threads[me].key = None;
    let ok = r.is_ok();
    if let (true, Ok(r)) = (counting, &r) {
        crate::audit::cost(&w().hist[i].op, r, io);
    }
    if w().sc.prop == "C27" {
        let c = &mut w().count;
        match (op.k, &r) {
            (K::Get, Ok(Res::Val(Some(_)))) | (K::Has, Ok(Res::Bool(true))) | (K::Goc, Ok(Res::Goc(Some(false), _))) => c.found += 1,
            (K::Get, Ok(Res::Val(None))) | (K::Has, Ok(Res::Bool(false))) => c.missing += 1,
            (K::Set, Ok(Res::Val(Some(x)))) | (K::Rep, Ok(Res::Rep(0, x))) if *x != op.c => c.updates += 1,
            (K::Merge | K::Clear, _) => c.shards = None,
            _ => {}
        }
    }
    end(i, r);
    op_point();
    if ok {
        Some(w().hist[i].res.clone())
    } else {
        let h = &w().hist[i];
        // what was never flushed may be unreadable after a power failure; the rest is checked at the end
        let lossy = w().crashes.iter().any(|c| c.1);
        if !shaky && !lossy && !crate::check::may_fail(h) {
            let Res::Failed(e) = &h.res else { unreachable!() };
            viol("unexpected-error", &format!("{} failed without any fault: {e}", h.op.text()));
        }
        None
    }
}

fn client(st: Arc<CandyStore>, c: u32, ops: Vec<Op>, single: bool) {
    let mut i = 0;
    while i < ops.len() {
        let op = ops[i];
        i += 1;
        if op.k == K::Walk {
            let n = ops[i..].iter().take(op.a as usize).take_while(|o| !matches!(o.k, K::Walk | K::Arm)).count();
            walk(&st, c, op, &ops[i..i + n], single);
            i += n;
        } else {
            do_op(&st, c, op, single);
        }
    }
}

/// the typed lists and queues: the same names under several key types that encode alike
macro_rules! with_typed {
    ($w:ident, [$($r:ty),*], $st:expr, $i:expr, $t:ident, $name:ident, $body:expr) => {{
        let (n, i) = ($i / 12, $i / 2 % 6);
        match i {
            0 => {
                let ($t, $name) = ($w::<String, $($r),*>::new($st.clone()), hexs(n));
                $body
            }
            1 => {
                let ($t, $name) = ($w::<Vec<u8>, $($r),*>::new($st.clone()), hexs(n).into_bytes());
                $body
            }
            2 => {
                let ($t, $name) = ($w::<OwnD, $($r),*>::new($st.clone()), OwnD(hexs(n)));
                $body
            }
            3 => {
                let ($t, $name) = ($w::<u64, $($r),*>::new($st.clone()), n as u64);
                $body
            }
            4 => {
                let ($t, $name) = ($w::<i64, $($r),*>::new($st.clone()), n as i64);
                $body
            }
            _ => {
                let ($t, $name) = ($w::<usize, $($r),*>::new($st.clone()), n as usize);
                $body
            }
        }
    }};
}
/// an iteration whose thread carries out other operations between the elements
/// (a: how many of the operations that follow, b: what it goes over, c: the list or queue, d: every how many elements)
fn walk(st: &Arc<CandyStore>, c: u32, op: Op, subs: &[Op], single: bool) {
    let cfg = &w().sc.cfg.clone();
    let s = &**st;
    let subs = std::cell::RefCell::new(subs.iter());
    let count = std::cell::Cell::new(0u32);
    let every = op.d + 1;
    let between = || {
        count.set(count.get() + 1);
        if count.get() % every == 0 {
            let o = subs.borrow_mut().next().copied();
            if let Some(o) = o {
                do_op(st, c, o, single);
                hit(P_WALKED);
            }
        }
        if count.get() > 100_000 {
            viol("endless-iteration", "an iteration does not end");
        }
    };
    match op.b {
        0 | 1 => {
            let k = if op.b == 0 { K::Iter } else { K::IterCk };
            let i = w().hist.len();
            let mut items = vec![];
            let r = record(c, Op::new(k, 0, 0, 0, 0), false, || {
                let mut it = s.iter();
                while let Some(x) = it.next() {
                    let (k, v) = x?;
                    items.push((crate::audit::key_of(&k), intern(&v)));
                    between();
                    if op.b == 1 {
                        it = s.iter_from_cookie(it.cookie());
                    }
                }
                Ok(Res::Num(items.len() as u64))
            });
            if r.is_some() {
                let h = w().hist[i..].iter().find(|h| h.op.k == k && h.th == c).unwrap().clone();
                w().iters.push(IterRec { inv: h.inv, ret: h.ret, items, exact: false, phase: h.phase });
            }
        }
        2 | 3 if cfg.nlists > 0 => {
            let l = op.c % cfg.nlists;
            let name = list_name(cfg, l);
            let bwd = op.b == 3;
            record(c, Op::new(if bwd { K::LIterB } else { K::LIter }, l, 0, 0, 0), false, || {
                match (typed_list(cfg, l), bwd) {
                    (true, false) => with_typed!(CandyTypedList, [Vec<u8>, Vec<u8>], st, l, tl, tname, pairs(tl.iter(&tname).inspect(|_| between()))),
                    (true, true) => {
                        with_typed!(CandyTypedList, [Vec<u8>, Vec<u8>], st, l, tl, tname, pairs(tl.iter_backwards(&tname).inspect(|_| between())))
                    }
                    (false, false) => pairs(s.iter_list(&name).inspect(|_| between())),
                    (false, true) => pairs(s.iter_list_backwards(&name).inspect(|_| between())),
                }
            });
        }
        4 | 5 if cfg.nqueues > 0 => {
            let q = op.c % cfg.nqueues;
            let name = queue_name(cfg, q);
            let bwd = op.b == 5;
            record(c, Op::new(if bwd { K::QIterB } else { K::QIter }, q, 0, 0, 0), false, || {
                match (typed_list(cfg, q), bwd) {
                    (true, false) => with_typed!(CandyTypedDeque, [Vec<u8>], st, q, tq, tname, ipairs(tq.iter(&tname).inspect(|_| between()))),
                    (true, true) => with_typed!(CandyTypedDeque, [Vec<u8>], st, q, tq, tname, ipairs(tq.iter_backwards(&tname).inspect(|_| between()))),
                    (false, false) => ipairs(s.iter_queue(&name).inspect(|_| between())),
                    (false, true) => ipairs(s.iter_queue_backwards(&name).inspect(|_| between())),
                }
            });
        }
        _ => {}
    }
    // what was not reached
    let rest: Vec<Op> = subs.borrow_mut().by_ref().copied().collect();
    for o in rest {
        do_op(st, c, o, single);
    }
}

fn expect(c: u32, space: u32, a: u32, b: u32, mode: u32) -> Option<Vec<u8>> {
    match mode {
        1 => match w().last.get(&(c, space, a, b)) {
            Some(&v) => Some(w().valb[v as usize].clone()),
            None => Some(b"never written".to_vec()),
        },
        2 => Some(b"never written".to_vec()),
        _ => None,
    }
}
fn know(c: u32, space: u32, a: u32, b: u32, v: u32) {
    w().last.insert((c, space, a, b), v);
}

pub fn set_status(s: SetStatus) -> Res {
    let new = matches!(s, SetStatus::CreatedNew);
    if s.was_created() != new || s.was_replaced() == new {
        viol("status", "SetStatus contradicts itself");
    }
    match s {
        SetStatus::PrevValue(v) => Res::Val(Some(intern(&v))),
        SetStatus::CreatedNew => Res::Val(None),
    }
}
fn rep_status(s: ReplaceStatus) -> Res {
    let k = match s {
        ReplaceStatus::PrevValue(_) => 0,
        ReplaceStatus::WrongValue(_) => 1,
        ReplaceStatus::DoesNotExist => 2,
    };
    if s.was_replaced() != (k == 0) || s.failed() != (k != 0) || s.is_wrong_value() != (k == 1) || s.is_key_missing() != (k == 2) {
        viol("status", "ReplaceStatus contradicts itself");
    }
    match s {
        ReplaceStatus::PrevValue(v) => Res::Rep(0, intern(&v)),
        ReplaceStatus::WrongValue(v) => Res::Rep(1, intern(&v)),
        ReplaceStatus::DoesNotExist => Res::Rep(2, 0),
    }
}
fn goc_status(s: GetOrCreateStatus) -> Res {
    let new = matches!(s, GetOrCreateStatus::CreatedNew(_));
    let v = s.clone().value();
    if s.was_created() != new || s.already_exists() == new || !matches!(&s, GetOrCreateStatus::CreatedNew(x) | GetOrCreateStatus::ExistingValue(x) if *x == v) {
        viol("status", "GetOrCreateStatus contradicts itself");
    }
    match s {
        GetOrCreateStatus::ExistingValue(v) => Res::Goc(Some(false), intern(&v)),
        GetOrCreateStatus::CreatedNew(v) => Res::Goc(Some(true), intern(&v)),
    }
}
pub fn item_of(k: &[u8]) -> u32 {
    match w().itemidx.get(k) {
        Some(&i) => i,
        None => viol("garbage", &format!("a list yields an item that was never stored: {:02x?}", &k[..k.len().min(40)])),
    }
}
pub fn kvres(r: Option<(Vec<u8>, Vec<u8>)>) -> Res {
    Res::Kv(r.map(|(k, v)| (item_of(&k), intern(&v))))
}
pub fn ivres(r: Option<(usize, Vec<u8>)>) -> Res {
    Res::IdxVal(r.map(|(i, v)| (i as u64, intern(&v))))
}

pub type TL = CandyTypedList<String, Vec<u8>, Vec<u8>>;
pub type TQ = CandyTypedDeque<String, Vec<u8>>;
pub fn typed_list(c: &Cfg, l: u32) -> bool {
    c.ntyped > 0 && l % 2 == 1
}
fn tostr(b: &[u8]) -> String {
    b.iter().map(|&x| x as char).collect()
}
fn frstr(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
macro_rules! typed {
    ($st:expr, $kt:ty, $key:expr, $op:expr, $v:expr, $exp:expr, $enc:expr, $dec:expr, $vt:ty) => {{
        let s: CandyTypedStore<$kt, $vt> = CandyTypedStore::new($st.clone());
        let key: $kt = $key;
        let val: $vt = $enc($v);
        match $op.k {
            K::TSet => s.set(&key, &val).map(|o| Res::Val(o.map(|x| intern(&$dec(&x))))),
            K::TGet => {
                if $op.d == 1 {
                    s.contains(&key).map(Res::Bool)
                } else {
                    s.get(&key).map(|o| Res::Val(o.map(|x| intern(&$dec(&x)))))
                }
            }
            K::TDel => s.remove(&key).map(|o| Res::Val(o.map(|x| intern(&$dec(&x))))),
            K::TGoc => s.get_or_create(&key, &val).map(|x| Res::Goc(None, intern(&$dec(&x)))),
            _ => {
                let e: Option<$vt> = $exp.map(|b: Vec<u8>| $enc(&b));
                s.replace(&key, &val, e.as_ref()).map(|o| Res::TRep(o.map(|x| intern(&$dec(&x)))))
            }
        }
    }};
}
macro_rules! own_key {
    ($n:ident, $t:ty, $id:expr) => {
        /// a user's key type that encodes like a built-in one
        pub struct $n($t);
        impl databuf::Encode for $n {
            fn encode<const C: u16>(&self, o: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
                self.0.encode::<C>(o)
            }
        }
        impl<'de> databuf::Decode<'de> for $n {
            fn decode<const C: u16>(i: &mut &'de [u8]) -> databuf::Result<Self> {
                Ok($n(<$t>::decode::<C>(i)?))
            }
        }
        impl CandyTypedKey for $n {
            const TYPE_ID: u32 = $id;
        }
    };
}
own_key!(OwnA, u32, 0x0001_0003);
own_key!(OwnB, u32, 0x0000_0103);
own_key!(OwnC, u32, 0x0100_0003);
own_key!(OwnD, String, 0xffff_ff0f);
fn typed_op(st: &Arc<CandyStore>, op: Op, v: &[u8], exp: Option<Vec<u8>>) -> Result<Res> {
    let n = op.a / 21;
    let idv = |b: &[u8]| b.to_vec();
    let idd = |b: &Vec<u8>| b.clone();
    let se = |b: &[u8]| tostr(b);
    let sd = |s: &String| frstr(s);
    match op.a % 21 {
        8 => typed!(st, OwnA, OwnA(n), op, v, exp, idv, idd, Vec<u8>),
        9 => typed!(st, OwnB, OwnB(n), op, v, exp, idv, idd, Vec<u8>),
        10 => typed!(st, OwnC, OwnC(n), op, v, exp, idv, idd, Vec<u8>),
        11 => typed!(st, OwnD, OwnD(hexs(n)), op, v, exp, idv, idd, Vec<u8>),
        0 => typed!(st, u32, n, op, v, exp, idv, idd, Vec<u8>),
        1 => typed!(st, String, hexs(n), op, v, exp, idv, idd, Vec<u8>),
        2 => typed!(st, u64, n as u64, op, v, exp, se, sd, String),
        3 => typed!(st, Vec<u8>, hexs(n).into_bytes(), op, v, exp, se, sd, String),
        4 => typed!(st, u128, n as u128, op, v, exp, idv, idd, Vec<u8>),
        5 => typed!(st, i64, -(n as i64), op, v, exp, idv, idd, Vec<u8>),
        6 => typed!(st, u8, n as u8, op, v, exp, idv, idd, Vec<u8>),
        7 => typed!(st, i32, n as i32, op, v, exp, idv, idd, Vec<u8>),
        12 => typed!(st, usize, n as usize, op, v, exp, idv, idd, Vec<u8>),
        13 => typed!(st, isize, n as isize, op, v, exp, se, sd, String),
        14 => typed!(st, i128, n as i128, op, v, exp, idv, idd, Vec<u8>),
        15 => typed!(st, u16, n as u16, op, v, exp, se, sd, String),
        16 => typed!(st, i16, n as i16, op, v, exp, idv, idd, Vec<u8>),
        17 => typed!(st, i8, n as i8, op, v, exp, idv, idd, Vec<u8>),
        18 => typed!(st, bool, n % 2 == 1, op, v, exp, idv, idd, Vec<u8>),
        19 => typed!(st, char, char::from_u32(n).unwrap(), op, v, exp, idv, idd, Vec<u8>),
        _ => typed!(st, [u8; 16], (n as u128).to_le_bytes(), op, v, exp, idv, idd, Vec<u8>),
    }
}

pub fn do_op(st: &Arc<CandyStore>, c: u32, op: Op, single: bool) {
    let cfg = w().sc.cfg.clone();
    let cfg = &cfg;
    let s = &**st;
    // which of several equivalent functions is called
    let alt = hash_mix(w().seq, w().sc.seed ^ 0xa17) % 2 == 1;
    match op.k {
        K::Get | K::Has | K::Set | K::Rep | K::Goc | K::Del => {
            let key = key_name(cfg, op.a);
            let v = val_bytes(op.c, op.d);
            let vi = intern(&v);
            let r = record(c, fix(op, vi, c), single, || {
                if alt {
                    let key = key.clone();
                    return Ok(match op.k {
                        K::Get => Res::Val(s.owned_get(key)?.map(|v| intern(&v))),
                        K::Has => Res::Bool(s.owned_contains(key)?),
                        K::Set => set_status(s.owned_set(key, &v)?),
                        K::Rep => rep_status(s.owned_replace(key, &v, expect(c, 0, op.a, 0, op.b).as_deref())?),
                        K::Goc => goc_status(s.owned_get_or_create(key, v.clone())?),
                        _ => Res::Val(s.owned_remove(key)?.map(|v| intern(&v))),
                    });
                }
                Ok(match op.k {
                    K::Get => Res::Val(s.get(&key)?.map(|v| intern(&v))),
                    K::Has => Res::Bool(s.contains(&key)?),
                    K::Set => set_status(s.set(&key, &v)?),
                    K::Rep => {
                        let e = expect(c, 0, op.a, 0, op.b);
                        rep_status(s.replace(&key, &v, e.as_ref())?)
                    }
                    K::Goc => goc_status(s.get_or_create(&key, &v)?),
                    _ => Res::Val(s.remove(&key)?.map(|v| intern(&v))),
                })
            });
            match (op.k, r) {
                (K::Get, Some(Res::Val(Some(x)))) => know(c, 0, op.a, 0, x),
                (K::Set, Some(_)) | (K::Rep, Some(Res::Rep(0, _))) => know(c, 0, op.a, 0, vi),
                (K::Rep, Some(Res::Rep(1, x))) | (K::Goc, Some(Res::Goc(_, x))) => know(c, 0, op.a, 0, x),
                _ => {}
            }
        }
        K::TSet | K::TGet | K::TDel | K::TGoc | K::TRep => {
            let v = val_bytes(op.c, op.d);
            let vi = intern(&v);
            let e = expect(c, 3, op.a, 0, if op.k == K::TRep { op.b } else { 0 });
            let r = record(c, fix(op, vi, c), single, || typed_op(st, op, &v, e));
            match (op.k, r) {
                (K::TGet, Some(Res::Val(Some(x)))) => know(c, 3, op.a, 0, x),
                (K::TSet, Some(_)) => know(c, 3, op.a, 0, vi),
                _ => {}
            }
        }
        K::LSet | K::LProm | K::LRep | K::LGoc | K::LGet | K::LDel | K::LPopH | K::LPopT | K::LPeekH | K::LPeekT
        | K::LLen | K::LIter | K::LIterB | K::LComp | K::LDisc => {
            let typed = typed_list(cfg, op.a);
            let name = list_name(cfg, op.a);
            let item_i = op.b & 0xffff;
            let item = item_name(cfg, item_i);
            let v = val_bytes(op.c, op.d);
            let vi = intern(&v);
            let e = expect(c, 1, op.a, item_i, op.b >> 16);
            let params = || match w().seq / 2 % 5 {
                0 => ListCompactionParams::default(),
                1 => ListCompactionParams { min_length: 3, min_holes_ratio: 0.25 },
                2 => ListCompactionParams { min_length: 2, min_holes_ratio: 1.0 },
                _ => ListCompactionParams { min_length: 1, min_holes_ratio: 0.0 },
            };
            let r = record(c, fix(op, vi, c), single, || {
                if typed {
                    with_typed!(CandyTypedList, [Vec<u8>, Vec<u8>], st, op.a, tl, tname, return Ok(match op.k {
                        K::LSet => Res::Val(tl.set(&tname, &item, &v)?.map(|x| intern(&x))),
                        K::LProm => {
                            tl.set_promoting(&tname, &item, &v)?;
                            Res::Unit
                        }
                        K::LRep => Res::TRep(tl.replace(&tname, &item, &v, e.as_ref())?.map(|x| intern(&x))),
                        K::LGoc => Res::Goc(None, intern(&tl.get_or_create(&tname, &item, &v)?)),
                        K::LGet if alt => Res::Bool(tl.contains(&tname, &item)?),
                        K::LGet => Res::Val(tl.get(&tname, &item)?.map(|x| intern(&x))),
                        K::LDel => Res::Val(tl.remove(&tname, &item)?.map(|x| intern(&x))),
                        K::LPopH => kvres(tl.pop_head(&tname)?),
                        K::LPopT => kvres(tl.pop_tail(&tname)?),
                        K::LPeekH => kvres(tl.peek_head(&tname)?),
                        K::LPeekT => kvres(tl.peek_tail(&tname)?),
                        K::LLen => Res::Num(tl.len(&tname)? as u64),
                        K::LIter => pairs(tl.iter(&tname))?,
                        K::LIterB => pairs(tl.iter_backwards(&tname))?,
                        K::LComp => Res::Bool(tl.compact_if_needed(&tname, params())?),
                        _ => Res::Bool(tl.discard(&tname)?),
                    }));
                }
                if alt {
                    let (name, item, v) = (name.clone(), item.clone(), v.clone());
                    return Ok(match op.k {
                        K::LSet => set_status(s.owned_set_in_list(name, item, v, false)?),
                        K::LProm => {
                            s.owned_set_in_list(name, item, v, true)?;
                            Res::Unit
                        }
                        K::LRep => rep_status(s.owned_replace_in_list(name, item, v, e.as_deref())?),
                        K::LGoc => goc_status(s.owned_get_or_create_in_list(name, item, v)?),
                        K::LGet => Res::Val(s.owned_get_from_list(name, item)?.map(|x| intern(&x))),
                        K::LDel => Res::Val(s.owned_remove_from_list(name, item)?.map(|x| intern(&x))),
                        K::LPopH => kvres(s.owned_pop_list_head(name)?),
                        K::LPopT => kvres(s.owned_pop_list_tail(name)?),
                        K::LPeekH => kvres(s.owned_peek_list_head(name)?),
                        K::LPeekT => kvres(s.owned_peek_list_tail(name)?),
                        K::LLen => Res::Num(s.owned_list_len(name)? as u64),
                        K::LIter => pairs(s.owned_iter_list(name))?,
                        K::LIterB => pairs(s.owned_iter_list_backwards(name))?,
                        K::LComp => Res::Bool(s.compact_list_if_needed(&name, params())?),
                        _ => Res::Bool(s.owned_discard_list(name)?),
                    });
                }
                Ok(match op.k {
                    K::LSet => set_status(s.set_in_list(&name, &item, &v)?),
                    K::LProm => {
                        s.set_in_list_promoting(&name, &item, &v)?;
                        Res::Unit
                    }
                    K::LRep => rep_status(s.replace_in_list(&name, &item, &v, e.as_ref())?),
                    K::LGoc => goc_status(s.get_or_create_in_list(&name, &item, &v)?),
                    K::LGet => Res::Val(s.get_from_list(&name, &item)?.map(|x| intern(&x))),
                    K::LDel => Res::Val(s.remove_from_list(&name, &item)?.map(|x| intern(&x))),
                    K::LPopH => kvres(s.pop_list_head(&name)?),
                    K::LPopT => kvres(s.pop_list_tail(&name)?),
                    K::LPeekH => kvres(s.peek_list_head(&name)?),
                    K::LPeekT => kvres(s.peek_list_tail(&name)?),
                    K::LLen => Res::Num(s.list_len(&name)? as u64),
                    K::LIter => pairs(s.iter_list(&name))?,
                    K::LIterB => pairs(s.iter_list_backwards(&name))?,
                    K::LComp => Res::Bool(s.compact_list_if_needed(&name, params())?),
                    _ => Res::Bool(s.discard_list(&name)?),
                })
            });
            match (op.k, r) {
                (K::LGet, Some(Res::Val(Some(x)))) => know(c, 1, op.a, item_i, x),
                (K::LSet | K::LProm, Some(_)) | (K::LRep, Some(Res::Rep(0, _))) => know(c, 1, op.a, item_i, vi),
                (K::LRep, Some(Res::Rep(1, x))) | (K::LGoc, Some(Res::Goc(_, x))) => know(c, 1, op.a, item_i, x),
                _ => {}
            }
        }
        K::QPushH | K::QPushT | K::QPopH | K::QPopT | K::QPeekH | K::QPeekT | K::QDel | K::QLen | K::QRange | K::QIter
        | K::QIterB | K::QExt | K::QDisc => {
            let typed = typed_list(cfg, op.a);
            let name = queue_name(cfg, op.a);
            let v = val_bytes(op.c, op.d);
            let vi = intern(&v);
            let mut op2 = fix(op, vi, c);
            let known = w().qknown.entry(op.a).or_default().clone();
            let idx = if known.is_empty() { 12345 } else { known[op.b as usize % known.len()] };
            if op.k == K::QDel {
                if typed {
                    return;
                }
                // remember the index in the record (relative to the first index)
                op2.c = (idx as u32) ^ 0x4000_0000;
                op2.b = (idx >> 32) as u32;
            }
            let ext: Vec<Vec<u8>> = (0..op.b).map(|j| val_bytes(op.c + j, op.d)).collect();
            if op.k == K::QExt {
                if typed {
                    return;
                }
                for x in &ext {
                    intern(x);
                }
            }
            let r = record(c, op2, single, || {
                if typed {
                    with_typed!(CandyTypedDeque, [Vec<u8>], st, op.a, tq, tname, return Ok(match op.k {
                        K::QPushH => {
                            tq.push_head(&tname, &v)?;
                            Res::Unit
                        }
                        K::QPushT => {
                            tq.push_tail(&tname, &v)?;
                            Res::Unit
                        }
                        K::QPopH if alt => Res::IdxMaybe(tq.pop_head(&tname)?.map(|x| intern(&x))),
                        K::QPopH => ivres(tq.pop_head_with_idx(&tname)?),
                        K::QPopT if alt => ivres(tq.pop_tail_with_idx(&tname)?),
                        K::QPeekH if alt => ivres(tq.peek_head_with_idx(&tname)?),
                        K::QPopT => Res::IdxMaybe(tq.pop_tail(&tname)?.map(|x| intern(&x))),
                        K::QPeekH => Res::IdxMaybe(tq.peek_head(&tname)?.map(|x| intern(&x))),
                        K::QPeekT if alt => Res::IdxMaybe(tq.peek_tail(&tname)?.map(|x| intern(&x))),
                        K::QPeekT => ivres(tq.peek_tail_with_idx(&tname)?),
                        K::QLen => Res::Num(tq.len(&tname)? as u64),
                        K::QRange => {
                            let g = tq.range(&tname)?;
                            Res::Range(g.start as u64, g.end as u64)
                        }
                        K::QIter => ipairs(tq.iter(&tname))?,
                        K::QIterB => ipairs(tq.iter_backwards(&tname))?,
                        _ => {
                            while tq.pop_head(&tname)?.is_some() {}
                            Res::Unit
                        }
                    }));
                }
                Ok(match op.k {
                    K::QPushH => Res::Num(s.push_to_queue_head(&name, &v)? as u64),
                    K::QPushT => Res::Num(s.push_to_queue_tail(&name, &v)? as u64),
                    K::QPopH => {
                        if op.d == 1 {
                            Res::IdxMaybe(s.pop_queue_head(&name)?.map(|x| intern(&x)))
                        } else {
                            ivres(s.pop_queue_head_with_idx(&name)?)
                        }
                    }
                    K::QPopT => {
                        if op.d == 1 {
                            Res::IdxMaybe(s.pop_queue_tail(&name)?.map(|x| intern(&x)))
                        } else {
                            ivres(s.pop_queue_tail_with_idx(&name)?)
                        }
                    }
                    K::QPeekH => {
                        if op.d == 1 {
                            Res::IdxMaybe(s.peek_queue_head(&name)?.map(|x| intern(&x)))
                        } else {
                            ivres(s.peek_queue_head_with_idx(&name)?)
                        }
                    }
                    K::QPeekT => {
                        if op.d == 1 {
                            Res::IdxMaybe(s.peek_queue_tail(&name)?.map(|x| intern(&x)))
                        } else {
                            ivres(s.peek_queue_tail_with_idx(&name)?)
                        }
                    }
                    K::QDel => Res::Val(s.remove_from_queue(&name, idx as usize)?.map(|x| intern(&x))),
                    K::QLen => Res::Num(s.queue_len(&name)? as u64),
                    K::QRange => {
                        let g = s.queue_range(&name)?;
                        Res::Range(g.start as u64, g.end as u64)
                    }
                    K::QIter => ipairs(s.iter_queue(&name))?,
                    K::QIterB => ipairs(s.iter_queue_backwards(&name))?,
                    K::QExt => {
                        let g = s.extend_queue(&name, ext.iter())?;
                        Res::Range(g.start as u64, g.end as u64)
                    }
                    _ => Res::Bool(s.discard_queue(&name)?),
                })
            });
            match r {
                Some(Res::Num(i)) if matches!(op.k, K::QPushH | K::QPushT) => {
                    w().qknown.get_mut(&op.a).unwrap().push(i)
                }
                Some(Res::Range(x, y)) if op.k == K::QExt => w().qknown.get_mut(&op.a).unwrap().extend(x..y),
                _ => {}
            }
        }
        K::BSet | K::BGet | K::BDel => {
            let name = big_name(cfg, op.a);
            let v = val_bytes(op.c, op.d);
            let vi = intern(&v);
            let tb: CandyTypedStore<String, Vec<u8>> = CandyTypedStore::new(st.clone());
            let tname = format!("b{}", op.a);
            record(c, fix(op, vi, c), single, || {
                if typed_list(cfg, op.a) {
                    return Ok(match op.k {
                        K::BSet => Res::Bool(tb.set_big(&tname, &v)?),
                        K::BGet => Res::Val(tb.get_big(&tname)?.map(|x| intern(&x))),
                        _ => Res::Bool(tb.remove_big(&tname)?),
                    });
                }
                Ok(match op.k {
                    K::BSet => Res::Bool(s.set_big(&name, &v)?),
                    K::BGet => Res::Val(s.get_big(&name)?.map(|x| intern(&x))),
                    _ => Res::Bool(s.remove_big(&name)?),
                })
            });
        }
        K::Stats => {
            record(c, op, single, || {
                let x = s.stats();
                if single && w().sc.prop == "C27" {
                    crate::audit::counters(&x);
                } else {
                    w().count.looked = true;
                }
                if !w().sc.prop.is_empty() && x.num_shards == 0 {
                    viol("stats", "stats report no shard");
                }
                let _ = (x.num_entries(), x.data_bytes(), x.total_occupied_bytes(), x.average_entry_size(), x.required_num_shards());
                let _ = (x.should_merge_small_shards(), format!("{x}"));
                Ok(Res::Num(x.num_entries() as u64))
            });
        }
        K::Flush => {
            record(c, op, single, || {
                s.flush()?;
                Ok(Res::Unit)
            });
        }
        K::Clear => {
            hit(P_CLEAR);
            record(c, op, single, || {
                s.clear()?;
                if single && w().sc.prop == "C27" {
                    w().count = Counts { shards: Some(s.stats().num_shards), ..Counts::default() };
                    crate::audit::counters(&s.stats());
                }
                Ok(Res::Unit)
            });
        }
        K::Merge => {
            w().count.looked = true;
            let before = if single { Some(s.stats().num_shards) } else { None };
            let fill = [0.25f32, 0.49, 0.1, 0.01][op.a as usize % 4];
            let r = record(c, op, single, || Ok(Res::Bool(s.merge_small_shards(fill)?)));
            if let (Some(b), Some(Res::Bool(x))) = (before, r) {
                let a = s.stats().num_shards;
                if (a < b) != x || a > b {
                    viol("merge-report", &format!("merge_small_shards returned {x} but the shards went from {b} to {a}"));
                }
            }
        }
        K::Iter | K::IterCk => crate::audit::iterate(st, c, op, single),
        K::IterRaw => {
            record(c, op, single, || {
                let mut n = 0;
                for x in s.iter_raw() {
                    x?;
                    n += 1;
                }
                Ok(Res::Num(n))
            });
        }
        K::Walk => {}
        K::Sleep => std::thread::sleep(Duration::from_micros(op.a as u64)),
        K::Open2 => {
            // someone else tries to open the directory
            let r = open_store();
            if r.is_ok() {
                viol("exclusive-open", "a second open of the directory succeeded while the store is open");
            }
            hit(P_REFUSED_OPEN);
        }
        K::Audit => crate::audit::audit(st, false),
        K::Bad => bad(st, c, op, cfg),
        K::Usage => crate::audit::usage_bound(st),
        K::Heal => heal(),
        K::Arm => {
            // from here on the process may be killed (a replay has the exact step instead)
            let _i = inside();
            let r = rt();
            if r.cfg.mode != Mode::Replay && !matches!(w().sc.phases[w().phase].crash, CrashAt::Step(_)) {
                let p = w().sc.phases[w().phase].power;
                r.arm_crash(&CrashAt::Hazard { mean: op.a as u64, mask: op.b }, p);
            }
        }
        K::Fill => {
            // many new keys beyond the universe are written through the collision-prone path
            for j in op.a..op.a + op.b {
                do_op(st, c, Op::new(K::Set, j, 0, op.c + j, op.d), single);
            }
        }
        K::Damage | K::Repair | K::Age => {}
    }
}
/// in records, c is the interned value and d the expectation (interned + 1, 0 = none)
fn fix(mut op: Op, vi: u32, c: u32) -> Op {
    let (space, b, mode) = match op.k {
        K::Rep => (0, 0, op.b),
        K::LRep => (1, op.b & 0xffff, op.b >> 16),
        K::TRep => (3, 0, op.b),
        _ => (9, 0, 0),
    };
    if op.k == K::QExt {
        return op;
    }
    op.c = vi;
    op.d = match expect(c, space, op.a, b, mode) {
        None => 0,
        Some(x) => intern(&x) + 1,
    };
    if op.k == K::LRep {
        op.b &= 0xffff;
    }
    op
}
pub fn pairs(it: impl Iterator<Item = Result<(Vec<u8>, Vec<u8>)>>) -> Result<Res> {
    let mut v = vec![];
    for x in it {
        let (k, x) = x?;
        v.push((item_of(&k), intern(&x)));
        if v.len() > 100_000 {
            viol("endless-iteration", "a list iteration does not end");
        }
    }
    Ok(Res::Pairs(v))
}
pub fn ipairs(it: impl Iterator<Item = Result<(usize, Vec<u8>)>>) -> Result<Res> {
    let mut v = vec![];
    for x in it {
        let (k, x) = x?;
        v.push((k as u64, intern(&x)));
        if v.len() > 100_000 {
            viol("endless-iteration", "a queue iteration does not end");
        }
    }
    Ok(Res::IdxPairs(v))
}

pub const NBAD: u32 = 43;
/// operations that have to be refused and leave no trace
fn bad(st: &Arc<CandyStore>, c: u32, op: Op, cfg: &Cfg) {
    let s = &**st;
    hit(P_REJECTED);
    let key = key_name(cfg, op.b % cfg.nkeys.max(1));
    let list = list_name(cfg, op.b % cfg.nlists.max(1));
    let item = item_name(cfg, op.c % cfg.nitems.max(1));
    let queue = queue_name(cfg, op.b % cfg.nqueues.max(1));
    let big = big_name(cfg, op.b % cfg.nbig.max(1));
    let longkey = vec![7u8; MAX_KEY_SIZE + 1 + (op.d as usize % 300)];
    let longval = vec![9u8; MAX_VALUE_SIZE + 1];
    let hugeval = vec![9u8; 0x10000];
    // never fits: as large as a shard, if that is less than what is too large anyway
    let tightval = vec![9u8; if cfg.shard as usize <= MAX_VALUE_SIZE { cfg.shard as usize } else { 0x10000 }];
    let alone = w().live_clients <= 1;
    let snap = |s: &CandyStore| {
        let x = s.stats();
        (x.num_entries(), x.num_shards)
    };
    let before = if alone { Some(snap(s)) } else { None };
    let tl = TL::new(st.clone());
    let tq = TQ::new(st.clone());
    let ts: CandyTypedStore<u32, Vec<u8>> = CandyTypedStore::new(st.clone());
    let r: Result<()> = match op.a % NBAD {
        0 => s.set(&longkey, b"x").map(|_| ()),
        1 => s.set(&key, &longval).map(|_| ()),
        2 => s.set(&key, &tightval).map(|_| ()),
        3 => s.get_or_create(&longkey, b"x".as_slice()).map(|_| ()),
        4 => s.get_or_create(&key, &longval).map(|_| ()),
        5 => s.replace(&key, &longval, None).map(|_| ()),
        6 => s.set_in_list(&list, &item, &hugeval).map(|_| ()),
        7 => s.set_in_list(&list, &vec![1u8; 0x4000], b"x".as_slice()).map(|_| ()),
        8 => s.set_in_list(&list, &item, &tightval).map(|_| ()),
        9 => s.get_or_create_in_list(&list, &vec![1u8; 0x3ffe], b"x").map(|_| ()),
        10 => s.replace_in_list(&list, b"absent", &hugeval, None).map(|x| {
            if x == ReplaceStatus::DoesNotExist {
                // allowed too: nothing to replace
            }
        }),
        11 => s.push_to_queue_tail(&queue, &hugeval).map(|_| ()),
        12 => s.push_to_queue_head(&queue, &tightval).map(|_| ()),
        13 => s.extend_queue(&queue, [b"aaaa".to_vec(), hugeval.clone(), b"bbbb".to_vec()].iter()).map(|_| ()),
        14 => s.merge_small_shards([0.0, 0.5, -1.0, f32::NAN][op.d as usize % 4]).map(|_| ()),
        15 => s.set_in_list_promoting(&list, &item, &hugeval).map(|_| ()),
        16 => {
            if (cfg.shard as usize) < 60_000 {
                s.set_big(&big, &vec![3u8; cfg.shard as usize + 100]).map(|_| ())
            } else {
                Err(candystore_err())
            }
        }
        17 => s.push_to_queue_tail(&vec![1u8; 0x4000], b"x".as_slice()).map(|_| ()),
        // one more than is allowed
        18 => s.set_in_list(&list, &item, &vec![9u8; 0xffff - 7]).map(|_| ()),
        19 => s.set_in_list(&list, &vec![1u8; 0x3fff - 8], b"x".as_slice()).map(|_| ()),
        20 => s.push_to_queue_head(&vec![1u8; 0x3fff - 8], b"x".as_slice()).map(|_| ()),
        21 => s.set_in_list(&vec![1u8; 0x3fff], b"i".as_slice(), b"x".as_slice()).map(|_| ()),
        22 => s.set(&key, &vec![9u8; (cfg.shard as usize - key.len()).min(MAX_VALUE_SIZE + 1)]).map(|_| ()),
        23 => s.push_to_queue_tail(&queue, &vec![9u8; (cfg.shard as usize - queue.len() - 8).min(0x10000)]).map(|_| ()),
        24 => s.extend_queue(&queue, [b"aaaa".to_vec(), tightval.clone()].iter()).map(|_| ()),
        25 => s.set_in_list(&list, &item, &vec![9u8; (cfg.shard as usize - item.len() - 16).min(0x10000)]).map(|_| ()),
        26 => s.owned_set_in_list(list, item, tightval, true).map(|_| ()),
        27 => s.get_or_create_in_list(&list, &item, &tightval).map(|_| ()),
        28 => tl.set(&"nolist".to_string(), &item, &hugeval).map(|_| ()),
        29 => tl.set_promoting(&"nolist".to_string(), &item, &tightval).map(|_| ()),
        30 => tq.push_tail(&"noqueue".to_string(), &tightval).map(|_| ()),
        31 => tq.push_head(&"noqueue".to_string(), &hugeval).map(|_| ()),
        32 => ts.set(&77, &tightval).map(|_| ()),
        33 => ts.get_or_create(&77, &hugeval).map(|_| ()),
        34 => s.replace_in_list(&list, &item, &tightval, Some(&b"never written".to_vec())).and_then(|x| {
            if x == ReplaceStatus::DoesNotExist { Err(candystore_err()) } else { Ok(()) }
        }),
        // the expectation is right, the replacement is not
        35 => s.get(&key).and_then(|v| unreplaced(s.replace(&key, &longval, v.as_ref())?)),
        36 => s.get(&key).and_then(|v| unreplaced(s.replace(&key, &tightval, v.as_ref())?)),
        37 => s.get(&key).and_then(|v| unreplaced(s.owned_replace(key.clone(), &hugeval, v.as_deref())?)),
        38 => s.replace(&longkey, &b"x".to_vec(), None).and_then(unreplaced),
        39 => s.get_from_list(&list, &item).and_then(|v| unreplaced(s.replace_in_list(&list, &item, &tightval, v.as_ref())?)),
        40 => s.get_from_list(&list, &item).and_then(|v| unreplaced(s.replace_in_list(&list, &item, &hugeval, v.as_ref())?)),
        41 => ts.replace(&77, &tightval, None).and_then(unreplaced2),
        _ => tl.get_or_create(&"nolist".to_string(), &item, &longval.repeat(2)).map(|_| ()),
    };
    let _ = c;
    if r.is_ok() && op.a % NBAD != 10 {
        viol("rejection", &format!("an invalid operation (kind {}) was accepted", op.a % NBAD));
    }
    if let Some(b) = before {
        let a = snap(s);
        if a != b {
            viol(
                "rejection",
                &format!("a refused operation (kind {}) changed (entries, shards) from {b:?} to {a:?}", op.a % NBAD),
            );
        }
    }
}
fn unreplaced(x: ReplaceStatus) -> Result<()> {
    if x.was_replaced() { Ok(()) } else { Err(candystore_err()) }
}
fn unreplaced2<T>(x: Option<T>) -> Result<()> {
    if x.is_some() { Ok(()) } else { Err(candystore_err()) }
}
fn candystore_err() -> <Result<()> as Errs>::E {
    CandyError::KeyTooLong(0).into()
}
trait Errs {
    type E;
}
impl<T, E> Errs for std::result::Result<T, E> {
    type E = E;
}
#[allow(dead_code)]
pub fn names_in_dir() -> BTreeSet<String> {
    let _i = inside();
    rt().fs.list(DIR).into_iter().map(|x| x.0).collect()
}
#[allow(dead_code)]
pub fn n_states(n: u64) {
    stats::add(P_STATES, n)
}
