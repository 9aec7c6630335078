//! The search: worker processes draw seeds, run them, and report; then evidence and verdict.
#![allow(static_mut_refs)]
use crate::gen;
use crate::rt::*;
use crate::scen::Scenario;
use crate::shrink;
use crate::stats;
use crate::worker::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const MAXH: usize = 4_000_000;
const MAXB: usize = 512;

#[repr(C)]
struct Bad {
    seed: u64,
    status: u64,
    len: u64,
    text: [u8; 1500],
}
#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    runs: AtomicU64,
    nontrivial: AtomicU64,
    steps: AtomicU64,
    switches: AtomicU64,
    simtime: AtomicU64,
    nh: AtomicU64,
    nbad: AtomicU64,
    timeouts: AtomicU64,
    retries: AtomicU64,
    points: [AtomicU64; NKINDS],
    counters: [AtomicU64; stats::N],
    hashes: [u64; MAXH],
    bad: [Bad; MAXB],
}

pub struct Known {
    pub prop: String,
    pub class: String,
    pub pat: String,
    pub text: String,
}
/// lines "known: property=<id> class=<class> match=<substring>|| <description>"
fn known(path: &str, prop: &str) -> Vec<Known> {
    let mut v = vec![];
    let Ok(t) = std::fs::read_to_string(path) else { return v };
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let (head, text) = r.split_once("||").unwrap_or((r, ""));
        let get = |k: &str| head.split_once(k).map(|x| x.1).unwrap_or("");
        let p = get("property=").split_whitespace().next().unwrap_or("").to_string();
        let c = get("class=").split_whitespace().next().unwrap_or("").to_string();
        let m = get("match=").trim().to_string();
        if p == prop {
            v.push(Known { prop: p, class: c, pat: m, text: text.trim().into() });
        }
    }
    v
}

pub fn search(prop: &str, args: &[String]) -> i32 {
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    for a in args {
        if let Some((k, v)) = a.split_once('=') {
            opt.insert(k.into(), v.into());
        }
    }
    let num = |k: &str, d: u64| opt.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let tier = opt.get("tier").cloned().unwrap_or("quick".into());
    let deep = tier == "thorough";
    let base = num("seed", 1);
    let secs = num("secs", 40);
    let jobs = num("jobs", 8);
    let max_runs = num("runs", u64::MAX);
    let keep_going = num("keep", 0) != 0;
    let t0 = Instant::now();
    let until = t0 + Duration::from_secs(secs);
    let sh = unsafe {
        let n = std::mem::size_of::<Shared>();
        let p = sys6(9, 0, n as u64, 3, (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as u64, u64::MAX, 0);
        assert!(!(-4096..0).contains(&p), "mmap failed");
        &mut *(p as *mut Shared)
    };
    let kn = known(opt.get("known").map(|s| s.as_str()).unwrap_or(""), prop);
    let seed_of = |i: u64| base.wrapping_mul(1_000_000_007).wrapping_add(i);
    let mut pids = vec![];
    for _ in 0..jobs {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            init_shm();
            worker(sh, prop, deep, until, max_runs, keep_going, &kn, &seed_of);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} };
        if st != 0 {
            eprintln!("harness: a worker ended with status {st:#x}");
            return 3;
        }
    }
    let explored = t0.elapsed().as_secs_f64();
    // what was found
    let nb = (sh.nbad.load(SeqCst) as usize).min(MAXB);
    let mut viols: Vec<(u64, String, String)> = vec![];
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut harness = vec![];
    for b in &sh.bad[..nb] {
        let t = String::from_utf8_lossy(&b.text[..b.len as usize]).into_owned();
        let (class, msg) = t.split_once('\n').unwrap_or((&t, ""));
        if b.status == S_HARNESS as u64 {
            harness.push((b.seed, t.clone()));
            continue;
        }
        match kn.iter().find(|k| k.class == class && msg.contains(&k.pat)) {
            Some(k) => *knowns.entry(k.text.clone()).or_default() += 1,
            None => viols.push((b.seed, class.to_string(), msg.to_string())),
        }
    }
    viols.sort();
    if keep_going {
        let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for (s, c, m) in &viols {
            // group by class and digit-free first line
            let key: String = format!("{c}: {}", m.lines().next().unwrap_or("")).chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(110).collect();
            let e = by.entry(key).or_insert((0, *s, m.clone()));
            e.0 += 1;
        }
        for (k, (n, s, m)) in &by {
            println!("{n:5}x seed {s}: {k}\n        {}", m.lines().next().unwrap_or("").chars().take(300).collect::<String>());
        }
    }
    let runs = sh.runs.load(SeqCst);
    if let Some(h) = harness.first() {
        eprintln!("harness error in {} of {runs} runs, e.g. seed {}: {}", harness.len(), h.0, h.1);
        if viols.is_empty() {
            return 3;
        }
    }
    let mut code = 0;
    if let (Some((seed, class, msg)), false) = (viols.first().cloned(), keep_going) {
        code = 1;
        let sc = gen::scenario(prop, seed, deep);
        let limit = Duration::from_secs(num("shrink", if deep { 240 } else { 60 }));
        let (small, n) = if class == "hang" || limit.is_zero() { (sc.clone(), 0) } else { shrink::shrink(&sc, &class, Instant::now() + limit) };
        let dir = opt.get("replays").cloned().unwrap_or("/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}.replay");
        let o = shrink::attempt(&small, true);
        let (small, o) = if shrink::fails(&o) && o.class == class { (small, o) } else {
            let o = shrink::attempt(&sc, true);
            (sc.clone(), o)
        };
        let m = if shrink::fails(&o) { o.msg.clone() } else { msg.clone() };
        let mut f = String::new();
        f += &format!("# {class}: {}\n", m.replace('\n', "\n# "));
        f += &format!("# found with seed {seed} (VERIF_SEED={base}) after {runs} runs, minimised with {n} more\n");
        f += &format!("expect {class}\n");
        f += &small.text();
        let _ = std::fs::write(&path, f);
        let _ = std::fs::write(format!("{path}.trace"), &o.trace);
        println!("{class}: {m}");
        println!("VIOLATION property={prop} replay={path}");
    }
    for k in &kn {
        println!("KNOWN-FINDING: property={prop} {} (met {} times in this run)", k.text, knowns.get(&k.text).unwrap_or(&0));
    }
    evidence(prop, &tier, base, sh, explored, t0, &opt, viols.len(), deep, &seed_of, knowns.values().sum());
    let per_h = runs as f64 / explored.max(0.001) * 3600.0;
    println!(
        "{prop}: {runs} runs in {explored:.1} s ({per_h:.0}/h), {} distinct, {:.1} s simulated, {} violations",
        distinct(sh).0,
        sh.simtime.load(SeqCst) as f64 / 1e9,
        viols.len()
    );
    if runs == 0 {
        return 3;
    }
    code
}

fn distinct(sh: &Shared) -> (usize, usize) {
    let n = (sh.nh.load(SeqCst) as usize).min(MAXH);
    let mut v = sh.hashes[..n].to_vec();
    v.sort();
    v.dedup();
    (v.len(), n)
}

#[allow(clippy::too_many_arguments)]
fn worker(sh: &mut Shared, prop: &str, deep: bool, until: Instant, max_runs: u64, keep: bool, kn: &[Known], seed_of: &dyn Fn(u64) -> u64) {
    loop {
        if sh.stop.load(SeqCst) != 0 || Instant::now() >= until {
            return;
        }
        let i = sh.next.fetch_add(1, SeqCst);
        if i >= max_runs {
            return;
        }
        let seed = seed_of(i);
        let sc = gen::scenario(prop, seed, deep);
        let mut o = run_child(&sc, false, 25);
        if o.status == S_TIMEOUT {
            sh.retries.fetch_add(1, SeqCst);
            o = run_child(&sc, false, 100);
        }
        sh.runs.fetch_add(1, SeqCst);
        sh.steps.fetch_add(o.steps, SeqCst);
        sh.switches.fetch_add(o.switches, SeqCst);
        sh.simtime.fetch_add(o.now.saturating_sub(1_000_000_000), SeqCst);
        for (a, b) in sh.points.iter().zip(o.points) {
            a.fetch_add(b, SeqCst);
        }
        for (a, b) in sh.counters.iter().zip(&o.counters) {
            a.fetch_add(*b, SeqCst);
        }
        let busy = o.counters.get(stats::P_OPS).copied().unwrap_or(0) > 0
            && (o.switches > 2 || !o.crashes.is_empty() || !o.faults.is_empty());
        if busy {
            sh.nontrivial.fetch_add(1, SeqCst);
            let k = sh.nh.fetch_add(1, SeqCst) as usize;
            if k < MAXH {
                sh.hashes[k] = o.hash;
            }
        }
        if o.status != S_OK {
            let b = sh.nbad.fetch_add(1, SeqCst) as usize;
            let is_known = kn.iter().any(|k| k.class == o.class && o.msg.contains(&k.pat));
            if b < MAXB {
                let e = &mut sh.bad[b];
                e.seed = seed;
                e.status = o.status as u64;
                let t = format!("{}\n{}", o.class, o.msg);
                let n = t.len().min(e.text.len());
                e.text[..n].copy_from_slice(&t.as_bytes()[..n]);
                e.len = n as u64;
            }
            if !keep && !is_known {
                sh.stop.store(1, SeqCst);
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, base: u64, sh: &Shared, explored: f64, t0: Instant, opt: &BTreeMap<String, String>, viols: usize, deep: bool, seed_of: &dyn Fn(u64) -> u64, known_met: u64) {
    let Some(path) = opt.get("evidence") else { return };
    let g = |a: &AtomicU64| a.load(SeqCst);
    let runs = g(&sh.runs);
    let (d, n) = distinct(sh);
    let cnt = |lo: usize, hi: usize| -> String {
        let v: Vec<String> = (lo..hi)
            .filter(|&i| !stats::NAMES[i].is_empty())
            .map(|i| format!("{}: {}", js(stats::NAMES[i]), g(&sh.counters[i])))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let pts: Vec<String> = (0..NKINDS).map(|i| format!("{}: {}", js(KNAMES[i]), g(&sh.points[i]))).collect();
    let faults = {
        let mut v: Vec<String> = (stats::FAULT_BASE..stats::N)
            .filter(|&i| !stats::NAMES[i].is_empty())
            .map(|i| format!("{}: {}", js(stats::NAMES[i]), g(&sh.counters[i])))
            .collect();
        for i in [stats::CRASH, stats::POWERLOSS, stats::STALL] {
            v.push(format!("{}: {}", js(stats::NAMES[i]), g(&sh.counters[i])));
        }
        format!("{{{}}}", v.join(", "))
    };
    let mut samples = vec![];
    for i in [0u64, 1, 2] {
        let sc: Scenario = gen::scenario(prop, seed_of(i), deep);
        let o = run_child(&sc, false, 25);
        let mut t = sc.text();
        if t.len() > 3000 {
            t.truncate(3000);
            t += " ...";
        }
        samples.push(js(&format!("{t}-> {} steps, {} context switches, crashes at {:?}, {} faults, event hash {:016x}", o.steps, o.switches, o.crashes, o.faults.len(), o.hash)));
    }
    let rule = "One evaluation is one simulated run: a scenario (configuration, client programs, phases, crash and fault plan) and every scheduling, fault and crash decision are drawn from the run's seed. It is non-trivial if clients performed operations and at least three context switches, a crash or an injected fault occurred; two runs are distinct if their event hashes (every context switch, file-system call, fault, crash and operation result, in order) differ.";
    let j = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {base}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {d},\n  \"nontrivial_runs\": {n},\n  \"rule\": {},\n  \"runs_per_hour\": {:.0},\n  \"simulated_seconds\": {:.3},\n  \"steps\": {},\n  \"context_switches\": {},\n  \"scheduling_points\": {{{}}},\n  \"faults_injected\": {faults},\n  \"io_calls\": {},\n  \"probes\": {},\n  \"runs_retried_with_a_longer_limit\": {},\n  \"known_findings_met\": {known_met},\n  \"real_code\": {},\n  \"stubs\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {viols}\n}}\n",
        js(prop),
        js(tier),
        js(rule),
        runs as f64 / explored.max(0.001) * 3600.0,
        g(&sh.simtime) as f64 / 1e9,
        g(&sh.steps),
        g(&sh.switches),
        pts.join(", "),
        cnt(stats::IO_BASE, stats::FAULT_BASE),
        cnt(0, stats::IO_BASE),
        g(&sh.retries),
        js("all of the candystore crate as in /repo's working tree, with its dependencies simd-itertools, siphasher, memmap, anyhow, fslock, databuf, libc wrappers, and the Rust standard library's threads, channels, mutexes and files"),
        js("the kernel below libc: scheduler, futexes, clocks, randomness, file system with page cache, mmap, flock; and parking_lot (same API, its parking is the simulator's)"),
        samples.join(", "),
        [
            js("memory is sequentially consistent: one thread runs at a time and switches happen at synchronisation operations, system calls and instrumented accesses to mapped files"),
            js("a process crash keeps everything stored to mapped pages or written; a power failure keeps what was synced, an arbitrary subset of later dirty pages and a prefix of later directory operations"),
        ]
        .join(", "),
        t0.elapsed().as_secs_f64(),
    );
    if std::fs::write(path, j).is_err() {
        eprintln!("cannot write {path}");
    }
}
