//! Scenarios: everything a run does apart from scheduling, as plain data with a text form.
use crate::fs::FaultCfg;
use crate::rt::{CrashAt, Mode, SchedCfg};
use std::collections::BTreeMap;
use std::fmt::Write;

macro_rules! ops { ($($v:ident $n:literal,)*) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    pub enum K { $($v),* }
    pub const KS: &[(K, &str)] = &[$((K::$v, $n)),*];
} }
ops! {
    Get "get", Has "has", Set "set", Rep "rep", Goc "goc", Del "del",
    LSet "lset", LProm "lprom", LRep "lrep", LGoc "lgoc", LGet "lget", LDel "ldel", LPopH "lpoph", LPopT "lpopt",
    LPeekH "lpeekh", LPeekT "lpeekt", LLen "llen", LIter "liter", LIterB "literb", LComp "lcomp", LDisc "ldisc",
    QPushH "qpushh", QPushT "qpusht", QPopH "qpoph", QPopT "qpopt", QPeekH "qpeekh", QPeekT "qpeekt", QDel "qdel",
    QLen "qlen", QRange "qrange", QIter "qiter", QIterB "qiterb", QExt "qext", QDisc "qdisc",
    BSet "bset", BGet "bget", BDel "bdel",
    TSet "tset", TGet "tget", TDel "tdel", TGoc "tgoc", TRep "trep",
    Stats "stats", Flush "flush", Clear "clear", Merge "merge", Iter "iter", IterCk "iterck", IterRaw "iterraw",
    Sleep "sleep", Open2 "open2", Audit "audit", Bad "bad", Damage "damage", Age "age", Repair "repair", Usage "usage",
    Heal "heal", Fill "fill", Arm "arm", Walk "walk",
}
impl K {
    pub fn name(self) -> &'static str {
        KS.iter().find(|x| x.0 == self).unwrap().1
    }
    pub fn parse(s: &str) -> Option<K> {
        KS.iter().find(|x| x.1 == s).map(|x| x.0)
    }
}

/// a: object, b: item / mode, c: value id, d: value length (other uses: see exec.rs)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub k: K,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}
impl Op {
    pub fn new(k: K, a: u32, b: u32, c: u32, d: u32) -> Op {
        Op { k, a, b, c, d }
    }
    pub fn text(&self) -> String {
        let v = [self.a, self.b, self.c, self.d];
        let n = (0..4).rev().find(|&i| v[i] != 0).map(|i| i + 1).unwrap_or(0);
        let mut s = self.k.name().to_string();
        for x in &v[..n] {
            let _ = write!(s, ".{x}");
        }
        s
    }
    pub fn parse(s: &str) -> Result<Op, String> {
        let mut it = s.split('.');
        let k = K::parse(it.next().unwrap()).ok_or(format!("bad op {s}"))?;
        let mut v = [0u32; 4];
        for x in v.iter_mut() {
            if let Some(t) = it.next() {
                *x = t.parse().map_err(|_| format!("bad op {s}"))?;
            }
        }
        Ok(Op::new(k, v[0], v[1], v[2], v[3]))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub shard: u32,
    pub compact: u32,
    pub expected: u32,
    pub locks: u32,
    pub truncate: bool,
    pub threads: u32,
    pub seed: u64,
    pub clear_unsup: bool,
    pub delay_us: u64,
    pub hash_bits: u64,
    /// which key universe
    pub keys: u32,
    pub nkeys: u32,
    pub nlists: u32,
    pub nitems: u32,
    pub nqueues: u32,
    pub nbig: u32,
    pub ntyped: u32,
    pub capacity: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            shard: 4000,
            compact: 400,
            expected: 0,
            locks: 4,
            truncate: false,
            threads: 2,
            seed: 1,
            clear_unsup: false,
            delay_us: 0,
            hash_bits: u64::MAX,
            keys: 0,
            nkeys: 8,
            nlists: 0,
            nitems: 0,
            nqueues: 0,
            nbig: 0,
            ntyped: 0,
            capacity: 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Drop,
    Kill,
}

#[derive(Clone, Debug)]
pub struct Phase {
    pub clients: Vec<Vec<Op>>,
    pub end: End,
    pub crash: CrashAt,
    pub power: bool,
    pub faults: FaultCfg,
    /// run a full audit right after opening / before closing
    pub audit_open: bool,
    pub audit_end: bool,
    /// number of additional racing openers (C10)
    pub racers: u32,
    /// reopened with another shard size, compaction threshold, number of compaction threads and of list locks
    pub recfg: Option<[u32; 4]>,
}
impl Default for Phase {
    fn default() -> Self {
        Phase {
            clients: vec![],
            end: End::Drop,
            crash: CrashAt::Never,
            power: false,
            faults: FaultCfg::none(),
            audit_open: false,
            audit_end: false,
            racers: 0,
            recfg: None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub sched: SchedCfg,
    pub step_cap: u64,
    pub phases: Vec<Phase>,
}

fn crash_text(c: &CrashAt) -> String {
    match c {
        CrashAt::Never => "never".into(),
        CrashAt::Step(s) => format!("step:{s}"),
        CrashAt::Hazard { mean, mask } => format!("hazard:{mean}:{mask}"),
    }
}
fn pairs<V: std::fmt::Display>(m: &BTreeMap<u64, V>) -> String {
    if m.is_empty() {
        return "-".into();
    }
    m.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(",")
}
fn unpairs(s: &str) -> Result<BTreeMap<u64, u32>, String> {
    let mut m = BTreeMap::new();
    if s != "-" {
        for p in s.split(',') {
            let (a, b) = p.split_once(':').ok_or("pair")?;
            m.insert(a.parse().map_err(|_| "pair")?, b.parse().map_err(|_| "pair")?);
        }
    }
    Ok(m)
}

impl Scenario {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let c = &self.cfg;
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        let _ = writeln!(
            s,
            "config shard={} compact={} expected={} locks={} truncate={} threads={} seed={} clear_unsup={} delay_us={} hash_bits={} keys={} nkeys={} nlists={} nitems={} nqueues={} nbig={} ntyped={} capacity={}",
            c.shard, c.compact, c.expected, c.locks, c.truncate as u32, c.threads, c.seed, c.clear_unsup as u32, c.delay_us,
            c.hash_bits, c.keys, c.nkeys, c.nlists, c.nitems, c.nqueues, c.nbig, c.ntyped, c.capacity
        );
        let mode = match self.sched.mode {
            Mode::Random { mean } => format!("random:{mean}"),
            Mode::Pct { mean } => format!("pct:{mean}"),
            Mode::Replay => "replay".into(),
        };
        let _ = writeln!(
            s,
            "sched seed={} mode={} loads={} stall={} cap={}",
            self.sched.seed, mode, self.sched.loads as u32, self.sched.stall, self.step_cap
        );
        let _ = writeln!(s, "exceptions {}", pairs(&self.sched.exceptions));
        for p in &self.phases {
            let f = &p.faults;
            let _ = writeln!(
                s,
                "phase end={} crash={} power={} audit_open={} audit_end={} racers={} recfg={} fmean={} fhard={} fsoft={} fmax={} fburst={} fhang={} flist={}",
                if p.end == End::Drop { "drop" } else { "kill" },
                crash_text(&p.crash),
                p.power as u32,
                p.audit_open as u32,
                p.audit_end as u32,
                p.racers,
                p.recfg.map(|r| r.map(|x| x.to_string()).join(":")).unwrap_or("-".into()),
                f.mean,
                f.hard,
                f.soft as u32,
                f.max_hard,
                f.burst,
                f.hang as u32,
                pairs(&f.list)
            );
            for c in &p.clients {
                let _ = writeln!(s, "client {}", c.iter().map(|o| o.text()).collect::<Vec<_>>().join(" "));
            }
        }
        s
    }
    pub fn parse(t: &str) -> Result<Scenario, String> {
        let mut sc = Scenario {
            prop: String::new(),
            seed: 0,
            cfg: Cfg::default(),
            sched: SchedCfg { seed: 0, mode: Mode::Replay, loads: false, stall: 0, exceptions: BTreeMap::new() },
            step_cap: 3_000_000,
            phases: vec![],
        };
        fn kv(rest: &str) -> BTreeMap<String, String> {
            rest.split_whitespace()
                .filter_map(|p| p.split_once('='))
                .map(|(a, b)| (a.to_string(), b.to_string()))
                .collect()
        }
        for line in t.lines() {
            let (w, rest) = line.split_once(' ').unwrap_or((line, ""));
            let m = kv(rest);
            let n = |k: &str| -> u64 { m.get(k).and_then(|x| x.parse().ok()).unwrap_or(0) };
            match w {
                "property" => sc.prop = rest.trim().into(),
                "seed" => sc.seed = rest.trim().parse().map_err(|_| "seed")?,
                "config" => {
                    sc.cfg = Cfg {
                        shard: n("shard") as u32,
                        compact: n("compact") as u32,
                        expected: n("expected") as u32,
                        locks: n("locks") as u32,
                        truncate: n("truncate") != 0,
                        threads: n("threads") as u32,
                        seed: n("seed"),
                        clear_unsup: n("clear_unsup") != 0,
                        delay_us: n("delay_us"),
                        hash_bits: n("hash_bits"),
                        keys: n("keys") as u32,
                        nkeys: n("nkeys") as u32,
                        nlists: n("nlists") as u32,
                        nitems: n("nitems") as u32,
                        nqueues: n("nqueues") as u32,
                        nbig: n("nbig") as u32,
                        ntyped: n("ntyped") as u32,
                        capacity: n("capacity"),
                    }
                }
                "sched" => {
                    let mode = m.get("mode").cloned().unwrap_or_default();
                    sc.sched.mode = match mode.split_once(':') {
                        Some(("random", x)) => Mode::Random { mean: x.parse().map_err(|_| "mode")? },
                        Some(("pct", x)) => Mode::Pct { mean: x.parse().map_err(|_| "mode")? },
                        _ => Mode::Replay,
                    };
                    sc.sched.seed = n("seed");
                    sc.sched.loads = n("loads") != 0;
                    sc.sched.stall = n("stall");
                    sc.step_cap = n("cap");
                }
                "exceptions" => sc.sched.exceptions = unpairs(rest.trim())?,
                "phase" => {
                    let c = m.get("crash").cloned().unwrap_or_default();
                    let parts: Vec<&str> = c.split(':').collect();
                    let crash = match parts[0] {
                        "step" => CrashAt::Step(parts[1].parse().map_err(|_| "crash")?),
                        "hazard" => CrashAt::Hazard {
                            mean: parts[1].parse().map_err(|_| "crash")?,
                            mask: parts[2].parse().map_err(|_| "crash")?,
                        },
                        _ => CrashAt::Never,
                    };
                    sc.phases.push(Phase {
                        clients: vec![],
                        end: if m.get("end").map(|x| x == "kill").unwrap_or(false) { End::Kill } else { End::Drop },
                        crash,
                        power: n("power") != 0,
                        audit_open: n("audit_open") != 0,
                        audit_end: n("audit_end") != 0,
                        racers: n("racers") as u32,
                        recfg: m.get("recfg").and_then(|x| {
                            let v: Vec<u32> = x.split(':').filter_map(|y| y.parse().ok()).collect();
                            v.try_into().ok()
                        }),
                        faults: FaultCfg {
                            mean: n("fmean"),
                            hard: n("fhard") as u32,
                            soft: n("fsoft") != 0,
                            max_hard: n("fmax") as u32,
                            burst: n("fburst") as u32,
                            hang: n("fhang") != 0,
                            list: unpairs(m.get("flist").map(|s| s.as_str()).unwrap_or("-"))?,
                        },
                    });
                }
                "client" => {
                    let mut v = vec![];
                    for o in rest.split_whitespace() {
                        v.push(Op::parse(o)?);
                    }
                    sc.phases.last_mut().ok_or("client before phase")?.clients.push(v);
                }
                _ => {}
            }
        }
        Ok(sc)
    }
}
