//! Turning a failing run into a replay file, and making it small.
use crate::rt::*;
use crate::scen::*;
use crate::worker::*;
use std::time::Instant;

pub fn fails(o: &Outcome) -> bool {
    o.status == S_VIOL || o.status == S_TIMEOUT
}
/// runs a scenario; one that does not end is given a second, longer chance
pub fn attempt(sc: &Scenario, trace: bool) -> Outcome {
    let o = run_child(sc, trace, 25);
    if o.status == S_TIMEOUT {
        return run_child(sc, trace, 100);
    }
    o
}
/// the explicit form of a run: every decision that differs from the default is listed
pub fn explicit(sc: &Scenario, o: &Outcome) -> Option<Scenario> {
    if o.status == S_TIMEOUT || o.overflow {
        return None;
    }
    let mut s = sc.clone();
    s.sched.mode = Mode::Replay;
    s.sched.stall = 0;
    s.sched.exceptions = o.exceptions.iter().copied().collect();
    for p in s.phases.iter_mut() {
        p.crash = CrashAt::Never;
        p.faults.mean = 0;
        p.faults.list = o.faults.iter().copied().collect();
        for c in p.clients.iter_mut() {
            c.retain(|o| o.k != K::Arm);
        }
    }
    for (step, fl) in &o.crashes {
        if fl & 2 == 0 {
            s.phases.get_mut((fl >> 2) as usize)?.crash = CrashAt::Step(*step);
        }
    }
    Some(s)
}

struct Sh {
    class: String,
    until: Instant,
    runs: u64,
}
impl Sh {
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    fn same(&mut self, sc: &Scenario) -> Option<Outcome> {
        self.runs += 1;
        let o = run_child(sc, false, 20);
        if o.status == S_VIOL && o.class == self.class {
            Some(o)
        } else {
            None
        }
    }
    /// tries the scenario with its own and some other schedules
    fn seeded(&mut self, sc: &Scenario, tries: u64) -> Option<Scenario> {
        let mut s = sc.clone();
        for t in 0..tries {
            if t > 0 {
                s.sched.seed = hash_mix(sc.sched.seed, t) >> 8;
            }
            if self.same(&s).is_some() {
                return Some(s);
            }
            if self.late() {
                break;
            }
        }
        None
    }
}

fn count(sc: &Scenario) -> usize {
    sc.phases.iter().map(|p| p.clients.iter().map(|c| c.len()).sum::<usize>()).sum()
}

pub fn shrink(sc: &Scenario, class: &str, until: Instant) -> (Scenario, u64) {
    let mut sh = Sh { class: class.into(), until, runs: 0 };
    let mut best = sc.clone();
    let tries = 12;
    // 1. smaller scenarios under re-drawn schedules
    loop {
        let before = (count(&best), best.phases.len());
        // whole phases
        let mut i = 0;
        while i < best.phases.len() && best.phases.len() > 1 && !sh.late() {
            let mut c = best.clone();
            c.phases.remove(i);
            match sh.seeded(&c, tries) {
                Some(s) => best = s,
                None => i += 1,
            }
        }
        // crashes and faults of a phase
        for i in 0..best.phases.len() {
            if sh.late() {
                break;
            }
            for what in 0..6 {
                let mut c = best.clone();
                let p = &mut c.phases[i];
                match what {
                    0 if p.crash != CrashAt::Never => p.crash = CrashAt::Never,
                    1 if p.faults.mean != 0 => p.faults = crate::fs::FaultCfg::none(),
                    2 if p.audit_open => p.audit_open = false,
                    3 if p.audit_end => p.audit_end = false,
                    4 if p.racers > 1 => p.racers -= 1,
                    5 if p.recfg.is_some() => p.recfg = None,
                    _ => continue,
                }
                if let Some(s) = sh.seeded(&c, tries) {
                    best = s;
                }
            }
        }
        // whole clients
        for i in 0..best.phases.len() {
            let mut j = 0;
            while j < best.phases[i].clients.len() && !sh.late() {
                let mut c = best.clone();
                c.phases[i].clients.remove(j);
                match sh.seeded(&c, tries) {
                    Some(s) => best = s,
                    None => j += 1,
                }
            }
        }
        // runs of operations
        let mut n = 32;
        while n > 0 {
            for i in 0..best.phases.len() {
                for j in 0..best.phases[i].clients.len() {
                    let mut k = 0;
                    while k < best.phases[i].clients[j].len() && !sh.late() {
                        let mut c = best.clone();
                        let v = &mut c.phases[i].clients[j];
                        let m = n.min(v.len() - k);
                        if m < n && n > 1 {
                            break;
                        }
                        v.drain(k..k + m);
                        match sh.seeded(&c, if n > 4 { 5 } else { tries }) {
                            Some(s) => best = s,
                            None => k += n,
                        }
                    }
                }
            }
            n /= 2;
        }
        // simpler configuration
        for what in 0..6 {
            if sh.late() {
                break;
            }
            let mut c = best.clone();
            match what {
                0 if c.sched.stall != 0 => c.sched.stall = 0,
                1 if c.sched.loads => c.sched.loads = false,
                2 if c.cfg.expected != 0 => c.cfg.expected = 0,
                3 if c.cfg.truncate => c.cfg.truncate = false,
                4 if c.cfg.threads > 1 => c.cfg.threads = 1,
                5 if c.cfg.locks > 1 => c.cfg.locks = 1,
                _ => continue,
            }
            if let Some(s) = sh.seeded(&c, tries) {
                best = s;
            }
        }
        if (count(&best), best.phases.len()) == before || sh.late() {
            break;
        }
    }
    // 2. the explicit schedule, and fewer context switches and faults
    let o = attempt(&best, true);
    let Some(mut ex) = explicit(&best, &o) else { return (best, sh.runs) };
    if sh.same(&ex).is_none() {
        return (best, sh.runs);
    }
    let mut n = ex.sched.exceptions.len();
    while n > 0 && !sh.late() {
        let keys: Vec<u64> = ex.sched.exceptions.keys().copied().collect();
        let mut changed = false;
        for ch in keys.chunks(n) {
            if sh.late() {
                break;
            }
            let mut c = ex.clone();
            for k in ch {
                c.sched.exceptions.remove(k);
            }
            if let Some(o) = sh.same(&c) {
                // what it really did
                if let Some(e2) = { let o2 = attempt(&c, true); explicit(&c, &o2) } {
                    if e2.sched.exceptions.len() <= c.sched.exceptions.len() {
                        c.sched.exceptions = e2.sched.exceptions;
                    }
                }
                let _ = o;
                ex = c;
                changed = true;
            }
        }
        if !changed {
            n /= 2;
        }
        n = n.min(ex.sched.exceptions.len());
    }
    let faults: Vec<u64> = ex.phases.first().map(|p| p.faults.list.keys().copied().collect()).unwrap_or_default();
    for f in faults {
        if sh.late() {
            break;
        }
        let mut c = ex.clone();
        for p in c.phases.iter_mut() {
            p.faults.list.remove(&f);
        }
        if sh.same(&c).is_some() {
            ex = c;
        }
    }
    (ex, sh.runs)
}
