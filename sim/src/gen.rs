//! Scenario generation: what each property's runs look like. One (property, seed) pair is one scenario.
use crate::fs::*;
use crate::rt::*;
use crate::scen::*;
use K::*;

pub struct G {
    pub r: Rng,
    vid: u32,
    maxe: u32,
    exact: bool,
    vmode: u32,
    /// lengths that many values have in common: of ordinary and of big values
    usual: [Option<u32>; 2],
    /// whether values repeat
    /// values given lately (kind of object, which, item, value, length)
    again: bool,
    given: Vec<(K, u32, u32, u32, u32)>,
    pub c: Cfg,
}

/// shards of this size are not split in runs that check whether compactions hold up operations
pub const NO_SPLITS: u32 = 60_000;

const META: u32 = 1 << K_META | 1 << K_DIR;
const STATE: u32 = 1 << K_STORE | 1 << K_DATA | META;
const ANYPT: u32 = STATE | 1 << K_LOCK | 1 << K_UNLOCK | 1 << K_ATOMIC | 1 << K_FUTEX | 1 << K_OP | 1 << K_THREAD;

impl G {
    fn len(&mut self) -> u32 {
        match self.vmode {
            0 => self.r.range(4, 40) as u32,
            1 => self.r.log(4, self.maxe as u64) as u32,
            4 => [0, 5, self.maxe - 1, self.maxe, self.maxe][self.r.below(5) as usize],
            5 => {
                let l = self.r.range(self.maxe as u64 / 2, self.maxe as u64) as u32;
                self.usual[0].unwrap_or(l).min(self.maxe)
            }
            2 => [0, 1, 3, 4, 5, 17, 60][self.r.below(7) as usize].min(self.maxe),
            _ => self.r.range(self.maxe as u64 / 2, self.maxe as u64) as u32,
        }
    }
    /// (value id, length)
    fn val(&mut self) -> (u32, u32) {
        self.vid += 1;
        let l = self.len();
        (self.vid, self.usual(0, l))
    }
    fn usual(&mut self, i: usize, l: u32) -> u32 {
        // the limits may have changed since
        let most = match i {
            0 => self.maxe,
            _ if self.c.shard >= 250_000 => u32::MAX,
            _ => self.maxe.max(40),
        };
        let u = (*self.usual[i].get_or_insert(l)).min(most);
        if self.r.chance(1, 4) {
            u
        } else {
            l
        }
    }
    fn op(&mut self, k: K) -> Op {
        let mut o = self.op0(k);
        if self.exact && matches!(k, Set | Rep | Goc) && self.r.chance(1, 3) {
            // entries around the limits of the classes of sizes
            let t = *self.r.pick(&[128, 128, 1024, 1024, 8192, 32768]) + self.r.below(3) as u32 - 1;
            let used = crate::exec::key_name(&self.c, o.a).len() as u32 + 1;
            if t <= self.maxe {
                o.d = t.saturating_sub(used);
            }
        }
        if self.c.keys == 3 && o.d == self.maxe {
            match k {
                LSet | LGoc | LRep | LProm => o.d = 0xffff - 8,
                QPushH | QPushT => o.d = 0xffff,
                _ => {}
            }
        }
        // every now and then the value that is (probably) there already
        let kind = match k {
            Set | Rep | Goc => Set,
            TSet | TRep | TGoc => TSet,
            LSet | LRep | LGoc | LProm => LSet,
            _ => return o,
        };
        let item = if kind == LSet { o.b & 0xffff } else { 0 };
        match self.given.iter().position(|x| (x.0, x.1, x.2) == (kind, o.a, item)) {
            Some(i) if self.again && k != Goc && self.given[i].4 <= self.maxe && self.r.chance(1, 8) => (o.c, o.d) = (self.given[i].3, self.given[i].4),
            Some(i) => self.given[i] = (kind, o.a, item, o.c, o.d),
            None => self.given.push((kind, o.a, item, o.c, o.d)),
        }
        o
    }
    fn op0(&mut self, k: K) -> Op {
        let c = self.c.clone();
        let r = &mut self.r;
        match k {
            Get | Has | Del => Op::new(k, r.below(c.nkeys as u64) as u32, 0, 0, 0),
            Set | Goc => {
                let a = r.below(c.nkeys as u64) as u32;
                let (v, l) = self.val();
                Op::new(k, a, 0, v, l)
            }
            Rep => {
                let a = r.below(c.nkeys as u64) as u32;
                let b = [0, 1, 1, 1, 2][r.below(5) as usize];
                let (v, l) = self.val();
                Op::new(k, a, b, v, l)
            }
            TSet | TGoc => {
                let a = r.below(c.ntyped as u64) as u32;
                let (v, l) = self.val();
                Op::new(k, a, 0, v, l)
            }
            TRep => {
                let a = r.below(c.ntyped as u64) as u32;
                let b = r.below(3) as u32;
                let (v, l) = self.val();
                Op::new(k, a, b, v, l)
            }
            TGet => Op::new(k, r.below(c.ntyped as u64) as u32, 0, 0, r.below(2) as u32),
            TDel => Op::new(k, r.below(c.ntyped as u64) as u32, 0, 0, 0),
            LSet | LGoc | LProm => {
                let a = r.below(c.nlists as u64) as u32;
                let b = r.below(c.nitems as u64) as u32;
                let (v, l) = self.val();
                Op::new(k, a, b, v, l)
            }
            LRep => {
                let a = r.below(c.nlists as u64) as u32;
                let b = r.below(c.nitems as u64) as u32 | [0, 1, 1, 1, 2][r.below(5) as usize] << 16;
                let (v, l) = self.val();
                Op::new(k, a, b, v, l)
            }
            LGet | LDel => Op::new(k, r.below(c.nlists as u64) as u32, r.below(c.nitems as u64) as u32, 0, 0),
            LPopH | LPopT | LPeekH | LPeekT | LLen | LIter | LIterB | LComp | LDisc => {
                Op::new(k, r.below(c.nlists as u64) as u32, 0, 0, 0)
            }
            QPushH | QPushT => {
                let a = r.below(c.nqueues as u64) as u32;
                let (v, l) = self.val();
                Op::new(k, a, 0, v, l)
            }
            QExt => {
                let a = r.below(c.nqueues as u64) as u32;
                let n = r.below(5) as u32;
                let (v, l) = self.val();
                self.vid += n;
                Op::new(k, a, n, v, l)
            }
            QPopH | QPopT | QPeekH | QPeekT => Op::new(k, r.below(c.nqueues as u64) as u32, 0, 0, r.below(2) as u32),
            QDel => Op::new(k, r.below(c.nqueues as u64) as u32, r.below(64) as u32, 0, 0),
            QLen | QRange | QIter | QIterB | QDisc => Op::new(k, r.below(c.nqueues as u64) as u32, 0, 0, 0),
            BSet => {
                let a = r.below(c.nbig as u64) as u32;
                self.vid += 1;
                let huge = self.c.shard >= 250_000;
                let l = match self.r.below(5) {
                    0 => self.r.range(0, 40),
                    1 if huge => [65_534, 65_535, 65_536, 131_070, 131_071, 131_072, 196_605, 196_606][self.r.below(8) as usize],
                    1 => self.maxe as u64,
                    _ => self.r.log(1, self.maxe as u64 * if huge { 6 } else { 1 }),
                } as u32;
                let l = self.usual(1, l);
                Op::new(k, a, 0, self.vid, l)
            }
            BGet | BDel => Op::new(k, r.below(c.nbig as u64) as u32, 0, 0, 0),
            Merge => Op::new(k, r.below(4) as u32, 0, 0, 0),
            IterCk => Op::new(k, r.below(6) as u32, 0, 0, 0),
            Sleep => Op::new(k, r.log(1, 100_000) as u32, 0, 0, 0),
            Bad => Op::new(k, r.below(crate::exec::NBAD as u64) as u32, r.below(100) as u32, r.below(100) as u32, r.below(300) as u32),
            _ => Op::new(k, 0, 0, 0, 0),
        }
    }
    fn ops(&mut self, mix: &[(K, u64)], n: u64) -> Vec<Op> {
        let tot: u64 = mix.iter().map(|x| x.1).sum();
        (0..n)
            .map(|_| {
                let mut x = self.r.below(tot);
                for (k, w) in mix {
                    if x < *w {
                        return self.op(*k);
                    }
                    x -= w;
                }
                unreachable!()
            })
            .collect()
    }
    /// turns some places in a client's operations into iterations that surround the operations there
    fn walks(&mut self, ops: &mut Vec<Op>, kinds: &[u32]) {
        let n = self.r.range(1, 3);
        for _ in 0..n {
            let at = self.r.below(ops.len() as u64 + 1) as usize;
            let o = Op::new(Walk, self.r.range(1, 12) as u32, *self.r.pick(kinds), self.r.below(3) as u32, self.r.below(3) as u32);
            ops.insert(at, o);
        }
    }
    fn clients(&mut self, mix: &[(K, u64)], lo: u64, hi: u64, nlo: u64, nhi: u64) -> Vec<Vec<Op>> {
        let n = self.r.range(lo, hi);
        (0..n)
            .map(|_| {
                let m = self.r.range(nlo, nhi);
                self.ops(mix, m)
            })
            .collect()
    }
    fn hazard(&mut self, hi: u64) -> CrashAt {
        let mask = *self.r.pick(&[STATE, STATE, META, 1 << K_DIR, 1 << K_STORE, 1 << K_STORE | META, ANYPT]);
        let hi = match mask {
            META => hi / 8 + 2,
            m if m == 1 << K_DIR => hi / 50 + 2,
            _ => hi,
        };
        CrashAt::Hazard { mean: self.r.log(1, hi), mask }
    }
    fn arm(&mut self, hi: u64) -> Op {
        let CrashAt::Hazard { mean, mask } = self.hazard(hi) else { unreachable!() };
        Op::new(Arm, mean as u32, mask, 0, 0)
    }
    /// sizes so that a shard holds a handful of entries and compacts or splits every few dozen writes
    fn sizes(&mut self, lo: u64, hi: u64) {
        let r = &mut self.r;
        self.c.shard = r.log(lo, hi) as u32;
        let s = self.c.shard as u64;
        self.c.compact = match r.below(4) {
            0 => r.log(60, s / 3),
            1 => s / 10,
            2 => r.log(60, s / 8 + 61),
            _ => s / 3,
        } as u32;
        self.maxe = ((self.c.shard - self.c.compact) / 3).saturating_sub(40).min(900);
        self.vmode = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 5]);
    }
    /// other sizes to go on with, in which everything still fits
    fn recfg(&mut self) -> Option<[u32; 4]> {
        let r = &mut self.r;
        let s = (self.c.shard as u64 * r.log(40, 300) / 100).max(3 * (self.maxe as u64 + 350) + 200);
        let c = r.log(60, s / 6 + 61);
        Some([s as u32, c as u32, r.range(1, 3) as u32, r.range(1, 8) as u32])
    }
    /// the files have grown to gigabytes meanwhile
    fn age(&mut self, p: &mut Phase) {
        let r = &mut self.r;
        let compact = match r.below(3) {
            0 => u32::MAX,
            1 => 4_000_000_000,
            _ => self.c.compact,
        };
        let size = u32::MAX - if r.chance(1, 2) { 0 } else { r.log(1, 100_000) as u32 };
        p.recfg = Some([size, compact, r.range(1, 3) as u32, r.range(1, 8) as u32]);
        let which = if r.chance(1, 2) { 255 } else { r.range(1, 255) as u32 };
        let below = r.log(1, 8_000) as u32;
        let op = Op::new(Age, which, below, r.below(3) as u32, 0);
        if p.clients.is_empty() {
            p.clients.push(vec![]);
        }
        p.clients[0].insert(0, op);
    }
    fn soft(&mut self) -> FaultCfg {
        FaultCfg { mean: self.r.log(2, 60), soft: true, ..FaultCfg::none() }
    }
    /// failing syncs, and failing steps of compactions, splits and merges
    fn meta(&mut self) -> FaultCfg {
        let r = &mut self.r;
        let hard = match r.below(3) {
            0 => 1 << C_SYNC,
            1 => 1 << C_SYNC | 1 << C_RENAME,
            _ => 1 << C_OPEN | 1 << C_RENAME | 1 << C_TRUNC | 1 << C_UNLINK | 1 << C_SYNC | 1 << C_MMAP,
        };
        FaultCfg {
            mean: r.log(1, 12),
            hard,
            hang: false,
            soft: r.chance(1, 3),
            max_hard: r.range(1, 5) as u32,
            burst: if r.chance(1, 5) { r.range(1, 10) as u32 } else { 0 },
            list: Default::default(),
        }
    }
    fn hard(&mut self) -> FaultCfg {
        let r = &mut self.r;
        let all = 0x3ff & !(1 << C_STAT);
        let hard = match r.below(4) {
            0 => all,
            1 => 1 << r.below(9),
            2 => 1 << C_READ | 1 << C_WRITE,
            _ => 1 << C_OPEN | 1 << C_RENAME | 1 << C_TRUNC | 1 << C_UNLINK | 1 << C_SYNC | 1 << C_MMAP,
        };
        let narrow = hard & (1 << C_READ | 1 << C_WRITE) == 0;
        FaultCfg {
            mean: if narrow { r.log(1, 12) } else { r.log(1, 150) },
            hard,
            hang: false,
            soft: r.chance(1, 2),
            max_hard: r.range(1, 5) as u32,
            burst: if r.chance(1, 4) { r.range(1, 30) as u32 } else { 0 },
            list: Default::default(),
        }
    }
}

const KV: &[(K, u64)] = &[(Get, 3), (Has, 1), (Set, 6), (Rep, 3), (Goc, 3), (Del, 3)];
const KVW: &[(K, u64)] = &[(Get, 1), (Set, 8), (Rep, 2), (Goc, 2), (Del, 3)];
const LISTW: &[(K, u64)] = &[
    (LSet, 9), (LRep, 3), (LGoc, 4), (LGet, 2), (LDel, 4), (LPopH, 3), (LPopT, 3), (LPeekH, 2), (LPeekT, 2), (LLen, 2),
];
const QUEUEW: &[(K, u64)] = &[
    (QPushH, 4), (QPushT, 6), (QPopH, 4), (QPopT, 3), (QPeekH, 2), (QPeekT, 2), (QDel, 3), (QLen, 2), (QRange, 1), (QExt, 1),
];
fn join(parts: &[&[(K, u64)]]) -> Vec<(K, u64)> {
    parts.iter().flat_map(|p| p.iter().copied()).collect()
}

pub fn scenario(prop: &str, seed: u64, deep: bool) -> Scenario {
    let pn: u64 = prop[1..].parse().unwrap_or(0);
    let mut r = Rng::new(hash_mix(hash_mix(0x5eed, pn), seed));
    let mode = {
        let mean = r.log(12, 12_000);
        if r.chance(2, 5) {
            Mode::Pct { mean: mean * 2 }
        } else {
            Mode::Random { mean }
        }
    };
    let sched = SchedCfg {
        seed: r.next() >> 8,
        mode,
        loads: r.chance(1, 3),
        stall: if r.chance(1, 4) { r.log(2_000, 60_000) } else { 0 },
        exceptions: Default::default(),
    };
    let mut c = Cfg::default();
    c.seed = r.next() >> 16;
    c.threads = r.range(1, 3) as u32;
    c.truncate = r.chance(1, 3);
    c.locks = r.range(1, 8) as u32;
    c.nkeys = r.range(1, 12) as u32;
    if r.chance(1, 12) {
        c.expected = 60_000;
    }
    let mut g = G { r, vid: 0, maxe: 300, exact: false, vmode: 0, usual: [None, None], again: false, given: vec![], c };
    g.again = g.r.chance(1, 3);
    g.sizes(900, 12_000);
    let x = if deep { 2 } else { 1 };
    let mut phases: Vec<Phase> = vec![];
    let mut aged = false;
    let end = |p: Vec<Vec<Op>>| Phase { clients: p, audit_open: true, audit_end: true, ..Default::default() };
    match prop {
        "C01" => {
            g.c.nkeys = *g.r.pick(&[1, 2, 3, 4, 8, 16]);
            g.sizes(300, 6_000);
            let mut mix = KV.to_vec();
            if g.r.chance(1, 3) {
                mix.push((Flush, 1));
                mix.push((Stats, 1));
            }
            if g.r.chance(1, 4) {
                mix.push((Merge, 1));
            }
            let cl = g.clients(&mix, 2, 4, 8, 40 * x);
            phases.push(Phase { clients: cl, audit_end: true, ..Default::default() });
            if g.r.chance(1, 3) {
                let cl = g.clients(&mix, 2, 3, 5, 25);
                phases.push(end(cl));
                aged = g.r.chance(1, 4);
            }
        }
        "C02" => {
            g.c.nkeys = g.r.range(2, 14) as u32;
            g.sizes(300, 6_000);
            let n = g.r.range(1, 4);
            for i in 0..n {
                let mut mix = KVW.to_vec();
                if g.r.chance(1, 3) {
                    mix.push((Merge, 1));
                }
                let cl = g.clients(&mix, 1, 3, 5, 50 * x);
                let crash = g.hazard(1500);
                let faults = if g.r.chance(1, 6) { g.soft() } else { FaultCfg::none() };
                let recfg = if i > 0 && g.r.chance(1, 8) { g.recfg() } else { None };
                phases.push(Phase { clients: cl, crash, end: End::Kill, audit_open: i > 0, faults, recfg, ..Default::default() });
                if g.r.chance(1, 3) {
                    // and again while recovering
                    let crash = g.hazard(200);
                    phases.push(Phase { crash, end: End::Drop, ..Default::default() });
                }
            }
            let cl = g.clients(KVW, 1, 2, 5, 30);
            phases.push(end(cl));
            aged = g.r.chance(1, 12);
        }
        "C03" => {
            g.c.nkeys = g.r.range(1, 8) as u32;
            if g.r.chance(1, 2) {
                g.c.expected = *g.r.pick(&[60_000, 60_000, 31_000]);
            }
            g.sizes(300, 5_000);
            let grow = g.r.chance(1, 2);
            if grow {
                // more live data than one shard holds: shards are split all the time
                g.c.nkeys = g.r.range(12, 60) as u32;
                g.sizes(400, 2_000);
            }
            let n = g.r.range(1, 5);
            for _ in 0..n {
                if grow && g.r.chance(2, 3) {
                    let m = g.r.range(10, 60 * x);
                    let mut v = g.ops(&[(Set, 8), (Goc, 2), (Del, 1)], m);
                    let mut crash = g.hazard(600);
                    if g.r.chance(1, 2) {
                        let at = g.r.below(m) as usize;
                        let a = g.arm(60);
                        v.insert(at, a);
                        crash = CrashAt::Never;
                    }
                    phases.push(Phase { clients: vec![v], crash, end: End::Kill, ..Default::default() });
                    continue;
                }
                let mut mix = KVW.to_vec();
                if g.r.chance(1, 2) {
                    mix.push((Clear, 1));
                }
                if g.r.chance(1, 2) {
                    mix.push((Merge, 2));
                }
                let cl = match g.r.below(3) {
                    0 => vec![],
                    1 => {
                        let mut v = g.ops(KVW, 15);
                        let a = g.arm(60);
                        v.push(a);
                        v.push(g.op(if g.r.0 & 64 == 0 { Clear } else { Merge }));
                        vec![v]
                    }
                    _ => g.clients(&mix, 1, 3, 3, 30),
                };
                let crash = if cl.len() == 1 && cl[0].iter().any(|o| o.k == Arm) { CrashAt::Never } else { g.hazard(300) };
                phases.push(Phase { clients: cl, crash, end: End::Kill, ..Default::default() });
            }
            let cl = g.clients(KV, 1, 2, 5, 30);
            phases.push(end(cl));
            phases.push(end(vec![]));
        }
        "C04" => {
            g.c.nkeys = *g.r.pick(&[3, 6, 12, 25, 60]);
            g.sizes(300, 8_000);
            if g.r.chance(1, 3) {
                g.c.keys = 1;
                g.c.shard = g.c.shard.max(3000);
                g.c.compact = g.c.compact.min(900);
                g.maxe = 300;
            }
            let mut mix = KV.to_vec();
            mix.extend([(Flush, 1), (Stats, 1), (Merge, 1), (IterCk, 1), (Sleep, 1)]);
            let n = g.r.range(1, 3);
            for i in 0..n {
                let m = g.r.range(20, 220 * x);
                let cl = vec![g.ops(&mix, m)];
                let recfg = if i > 0 && g.r.chance(1, 2) { g.recfg() } else { None };
                // closed right after the last operation, with whatever goes on in the background then
                let abrupt = g.r.chance(1, 2);
                phases.push(Phase { recfg, audit_end: !abrupt, ..end(cl) });
            }
            phases.push(end(vec![]));
            aged = n > 1 && g.r.chance(1, 10);
        }
        "C05" => {
            g.c.nlists = g.r.range(1, 3) as u32;
            g.c.nitems = g.r.range(2, 9) as u32;
            g.c.nkeys = 2;
            g.c.ntyped = if g.r.chance(1, 5) { 2 } else { 0 };
            g.c.keys = *g.r.pick(&[0, 0, 1]);
            g.sizes(900, 8_000);
            let mut mix = join(&[LISTW, &[(LIter, 1), (LIterB, 1), (LProm, 3), (LComp, 2), (Set, 1)]]);
            if g.r.chance(1, 2) {
                mix.push((LDisc, 1));
            }
            let n = g.r.range(1, 2);
            for _ in 0..n {
                let m = g.r.range(15, 160 * x);
                let mut cl = vec![g.ops(&mix, m)];
                if g.r.chance(1, 3) {
                    g.walks(&mut cl[0], &[2, 3]);
                }
                phases.push(end(cl));
            }
        }
        "C06" => {
            g.c.nqueues = g.r.range(1, 3) as u32;
            g.c.nkeys = 2;
            g.c.ntyped = if g.r.chance(1, 5) { 2 } else { 0 };
            g.sizes(700, 8_000);
            let mut mix = join(&[QUEUEW, &[(QIter, 1), (QIterB, 1), (Set, 1)]]);
            if g.r.chance(1, 2) {
                mix.push((QDisc, 1));
            }
            let n = g.r.range(1, 2);
            for _ in 0..n {
                let m = g.r.range(10, 160 * x);
                let mut cl = vec![g.ops(&mix, m)];
                if g.r.chance(1, 3) {
                    g.walks(&mut cl[0], &[4, 5]);
                }
                phases.push(end(cl));
            }
        }
        "C07" => {
            let lists = g.r.chance(1, 2);
            g.c.nlists = if lists { g.r.range(1, 2) as u32 } else { 0 };
            g.c.nqueues = if !lists || g.r.chance(1, 6) { g.r.range(1, 2) as u32 } else { 0 };
            g.c.nitems = g.r.range(1, 5) as u32;
            g.c.nkeys = 1;
            g.sizes(600, 6_000);
            let mut mix: Vec<(K, u64)> = vec![];
            if g.c.nlists > 0 {
                mix.extend_from_slice(LISTW);
                mix.push((LIter, 1));
                if g.r.chance(1, 4) {
                    mix.push((LComp, 1));
                }
                if g.r.chance(1, 3) {
                    mix.push((LProm, 2));
                }
            }
            if g.c.nqueues > 0 {
                mix.extend_from_slice(QUEUEW);
                mix.push((QIter, 1));
                mix.push((QExt, 1));
            }
            if g.r.chance(1, 6) {
                mix.push((if lists { LDisc } else { QDisc }, 3));
            }
            let mut cl = g.clients(&mix, 2, 4, 4, 18 * x);
            if g.r.chance(1, 3) {
                g.walks(&mut cl[0], if lists { &[2, 3] } else { &[4, 5] });
            }
            phases.push(Phase { clients: cl, audit_end: true, ..Default::default() });
            if g.r.chance(1, 4) {
                phases.push(end(vec![]));
            }
        }
        "C08" => {
            g.c.nlists = g.r.range(0, 2) as u32;
            g.c.nqueues = if g.c.nlists == 0 { 1 } else { g.r.range(0, 1) as u32 };
            g.c.nitems = g.r.range(1, 6) as u32;
            g.c.nkeys = 1;
            g.sizes(600, 6_000);
            let mut mix: Vec<(K, u64)> = vec![];
            if g.c.nlists > 0 {
                mix.extend_from_slice(LISTW);
                if g.r.chance(1, 4) {
                    mix.push((LProm, 2));
                }
            }
            if g.c.nqueues > 0 {
                mix.extend_from_slice(QUEUEW);
            }
            let n = g.r.range(1, 4);
            for i in 0..n {
                let cl = g.clients(&mix, 1, if i % 2 == 0 { 1 } else { 2 }, 4, 24 * x);
                let crash = g.hazard(400);
                phases.push(Phase { clients: cl, crash, end: End::Kill, audit_open: g.r.chance(2, 3), ..Default::default() });
            }
            let m = g.r.range(5, 40);
            let cl = vec![g.ops(&mix, m)];
            phases.push(end(cl));
        }
        "C09" => {
            g.c.nkeys = g.r.range(3, 30) as u32;
            g.sizes(400, 5_000);
            if g.r.chance(1, 12) {
                // rows of hundreds of entries
                g.c.keys = 4;
                g.c.nkeys = g.r.range(200, 500) as u32;
                g.c.shard = 60_000;
                g.c.compact = 6_000;
                g.maxe = 30;
                g.vmode = 0;
                let f = Op::new(Fill, 0, g.c.nkeys, 10_000, 6);
                let m = g.r.range(0, 100);
                let mut o = vec![f];
                let more = g.ops(&[(Del, 4), (Set, 2)], m);
                o.extend(more);
                o.push(Op::new(IterCk, g.r.below(60) as u32, 0, 0, 0));
                let mut cl = vec![o];
                if g.r.chance(1, 2) {
                    let n = g.r.range(1, 3);
                    let o = g.ops(&[(Iter, 1), (IterCk, 4)], n);
                    cl.push(o);
                }
                phases.push(Phase { clients: cl, audit_end: true, ..Default::default() });
                return Scenario { prop: prop.into(), seed, cfg: g.c, sched, step_cap: 120_000_000, phases };
            }
            // lists and queues
            if g.r.chance(1, 4) {
                let lists = g.r.chance(1, 2);
                g.c.nlists = lists as u32;
                g.c.nqueues = !lists as u32;
                g.c.nitems = g.r.range(3, 25) as u32;
                g.c.nkeys = 2;
                let mut mix = if lists { join(&[LISTW, &[(LProm, 1), (LIter, 1), (LIterB, 1)]]) } else { join(&[QUEUEW, &[(QExt, 2), (QIter, 1), (QIterB, 1)]]) };
                let m = g.r.range(5, 60);
                let mut fill = vec![g.ops(if lists { &[(LSet, 4), (LDel, 1)] } else { &[(QPushT, 2), (QPushH, 1), (QExt, 1), (QDel, 1)] }, m)];
                if g.r.chance(1, 3) {
                    let more = g.ops(&mix, 20 * x);
                    fill[0].extend(more);
                }
                phases.push(Phase { clients: fill, ..Default::default() });
                if g.r.chance(1, 3) {
                    mix.extend([(Set, 2), (if lists { LComp } else { QDisc }, 1)]);
                }
                let mut cl = g.clients(&mix, 1, 3, 4, 25 * x);
                if cl.len() == 1 || g.r.chance(1, 2) {
                    g.walks(&mut cl[0], if lists { &[2, 3] } else { &[4, 5] });
                }
                if g.r.chance(1, 2) {
                    let n = g.r.range(1, 4);
                    let o = g.ops(if lists { &[(LIter, 1), (LIterB, 1)] } else { &[(QIter, 1), (QIterB, 1)] }, n);
                    cl.push(o);
                }
                phases.push(Phase { clients: cl, audit_end: true, ..Default::default() });
                return Scenario { prop: prop.into(), seed, cfg: g.c, sched, step_cap: 60_000_000, phases };
            }
            // some keys are filled first and left alone by a part of the writers
            let fill = Phase { clients: vec![g.ops(&[(Set, 1)], 2 * g.c.nkeys as u64)], ..Default::default() };
            phases.push(fill);
            let hot = g.r.range(1, g.c.nkeys as u64) as u32;
            let all = g.c.nkeys;
            let iters = {
                let n = g.r.range(1, 4);
                g.ops(&[(Iter, 2), (IterCk, 3)], n)
            };
            g.c.nkeys = hot;
            let mut cl = g.clients(KVW, 1, 3, 5, 40 * x);
            g.c.nkeys = all;
            cl.push(iters);
            if g.r.chance(1, 3) {
                g.walks(&mut cl[0], &[0, 1]);
            }
            phases.push(Phase { clients: cl, audit_end: true, ..Default::default() });
            if g.r.chance(1, 3) {
                let o = vec![g.ops(&join(&[KV, &[(IterCk, 3), (Merge, 1)]]), 30)];
                phases.push(end(o));
            }
        }
        "C10" => {
            let n = g.r.range(1, 5);
            for _ in 0..n {
                let mut mix = KV.to_vec();
                mix.push((Open2, 6));
                mix.push((Sleep, 1));
                let cl = g.clients(&mix, 1, 3, 2, 12);
                let kill = g.r.chance(1, 2);
                let racers = if g.r.chance(2, 3) { g.r.range(1, 3) as u32 } else { 0 };
                let crash = if kill && g.r.chance(2, 3) { g.hazard(150) } else { CrashAt::Never };
                phases.push(Phase {
                    clients: cl,
                    crash,
                    racers,
                    end: if kill { End::Kill } else { End::Drop },
                    audit_open: false,
                    ..Default::default()
                });
            }
            phases.push(end(vec![]));
        }
        "C11" => {
            g.c.nkeys = g.r.range(1, 10) as u32;
            g.c.nlists = if g.r.chance(1, 4) { 1 } else { 0 };
            g.c.nqueues = if g.r.chance(1, 4) { 1 } else { 0 };
            g.c.nitems = 4;
            g.sizes(400, 6_000);
            let mut mix = KVW.to_vec();
            mix.push((Flush, 1));
            if g.c.nlists > 0 {
                mix.extend_from_slice(LISTW);
            }
            if g.c.nqueues > 0 {
                mix.extend_from_slice(QUEUEW);
            }
            if g.r.chance(1, 3) {
                mix.push((Merge, 2));
            }
            let n = g.r.range(1, 3);
            for i in 0..n {
                let mut cl = g.clients(&mix, 1, 2, 5, 50 * x);
                if cl.len() == 1 && g.r.chance(1, 2) {
                    cl[0].push(Op::new(Heal, 0, 0, 0, 0));
                    let more = g.ops(&mix, 25);
                    cl[0].extend(more);
                }
                let faults = if g.r.chance(1, 6) { g.soft() } else { g.hard() };
                if i == 0 && g.r.chance(1, 8) {
                    g.c.capacity = 393_216 + g.c.shard as u64 + g.r.below(900_000);
                }
                let kill = g.r.chance(1, 4);
                phases.push(Phase {
                    clients: cl,
                    faults,
                    crash: if kill { g.hazard(1000) } else { CrashAt::Never },
                    end: if kill { End::Kill } else { End::Drop },
                    audit_end: true,
                    ..Default::default()
                });
            }
            let m = g.r.range(5, 60);
            let cl = vec![g.ops(&mix, m)];
            phases.push(end(cl));
        }
        "C12" | "C13" => {
            let agg = prop == "C13";
            g.c.nkeys = g.r.range(2, 16) as u32;
            g.c.expected = if g.r.chance(1, 4) { 60_000 } else { 0 };
            g.c.delay_us = if agg { g.r.log(1, 20_000) } else { 0 };
            g.sizes(300, 6_000);
            if !agg {
                // sometimes with lists, queues and big values that are left alone after the flush
                let mut mix = KVW.to_vec();
                if g.r.chance(1, 3) {
                    g.sizes(900, 6_000);
                    g.c.nlists = g.r.below(3) as u32;
                    g.c.nqueues = g.r.below(3) as u32;
                    g.c.nbig = g.r.below(2) as u32;
                    g.c.nitems = g.r.range(1, 6) as u32;
                    if g.c.nlists > 0 {
                        mix.extend_from_slice(LISTW);
                        mix.extend_from_slice(&[(LProm, 1), (LComp, 1), (LDisc, 1)]);
                    }
                    if g.c.nqueues > 0 {
                        mix.extend_from_slice(QUEUEW);
                        mix.push((QDisc, 1));
                    }
                    if g.c.nbig > 0 {
                        mix.extend_from_slice(&[(BSet, 3), (BDel, 1)]);
                    }
                }
                let m = g.r.range(5, 60);
                let mut a = g.ops(&mix, m);
                a.push(Op::new(Flush, 0, 0, 0, 0));
                if g.r.chance(1, 2) {
                    // flushed again after little was done, maybe only removals
                    for _ in 0..g.r.range(1, 3) {
                        let m = g.r.range(0, 6);
                        let w = match g.r.below(4) {
                            0 => vec![(Del, 1)],
                            1 => vec![(Merge, 1), (Get, 1), (Stats, 1)],
                            2 => vec![(Set, 1), (Rep, 1)],
                            _ => mix.clone(),
                        };
                        a.extend(g.ops(&w, m));
                        a.push(Op::new(Flush, 0, 0, 0, 0));
                    }
                }
                let warm = g.r.chance(1, 3);
                if warm {
                    // an earlier incarnation, closed or killed after a flush of its own
                    let e = if g.r.chance(1, 2) { End::Drop } else { End::Kill };
                    phases.push(Phase { clients: vec![a.clone()], end: e, ..Default::default() });
                    a = vec![];
                    // the next one may never flush
                    if g.r.chance(1, 2) {
                        let m = g.r.range(0, 20);
                        a = g.ops(&mix, m);
                        a.push(Op::new(Flush, 0, 0, 0, 0));
                    }
                }
                // keys that stay protected: later writers use the others
                let all = g.c.nkeys;
                let hot = g.r.range(1, all as u64) as u32;
                g.c.nkeys = hot;
                let m = g.r.range(0, 60);
                let mut b = g.ops(&join(&[KVW, &[(Merge, 1)]]), m);
                g.c.nkeys = all;
                if g.r.chance(1, 2) {
                    let h = g.arm(300);
                    let at = g.r.below(b.len() as u64 + 1) as usize;
                    b.insert(at, h);
                }
                a.extend(b);
                let mut cl = vec![a];
                if g.r.chance(1, 3) {
                    g.c.nkeys = hot;
                    let o = g.clients(KVW, 1, 1, 5, 60);
                    g.c.nkeys = all;
                    cl.extend(o);
                }
                let faults = if g.r.chance(1, 3) { g.meta() } else { FaultCfg::none() };
                phases.push(Phase { clients: cl, faults, end: End::Kill, power: true, ..Default::default() });
            } else {
                let mut cl = g.clients(KVW, 1, 4, 4, 25 * x);
                let mut crash = if g.r.chance(5, 6) { g.hazard(1200) } else { CrashAt::Never };
                let faults = if g.r.chance(1, 4) { g.meta() } else { FaultCfg::none() };
                if faults.hard != 0 && g.r.chance(1, 2) {
                    // a few sets, tried again when they fail, or anyway
                    cl.truncate(2);
                    for c in cl.iter_mut() {
                        c.truncate(1 + g.r.below(5) as usize);
                        let o = g.op(Set);
                        c.push(o.clone());
                        c.push(o);
                    }
                    if g.r.chance(1, 2) {
                        crash = CrashAt::Never;
                    }
                }
                phases.push(Phase { clients: cl, faults, end: End::Kill, power: true, crash, ..Default::default() });
            }
            // the store goes on to be used, with whatever the failure left in it
            let m = g.r.range(0, 80);
            let b = g.ops(&join(&[KVW, &[(Merge, 1)]]), m);
            let e = if g.r.chance(1, 2) { End::Drop } else { End::Kill };
            phases.push(Phase { clients: vec![b], audit_open: true, audit_end: true, end: e, ..Default::default() });
            phases.push(Phase { audit_open: true, ..Default::default() });
        }
        "C14" => {
            g.c.nkeys = g.r.range(1, 12) as u32;
            g.c.nlists = g.r.range(1, 3) as u32;
            g.c.nqueues = g.r.range(1, 2) as u32;
            g.c.nitems = 4;
            g.c.nbig = 1;
            g.c.locks = g.r.range(1, 3) as u32;
            g.sizes(700, 5_000);
            let mut mix = join(&[KVW, &[(Stats, 2), (Flush, 1), (Iter, 1), (IterCk, 1), (Sleep, 1)]]);
            if g.r.chance(1, 2) {
                mix.extend_from_slice(LISTW);
                mix.extend([(LIter, 1), (LComp, 1), (LProm, 1), (LDisc, 1)]);
            }
            if g.r.chance(1, 2) {
                mix.extend_from_slice(QUEUEW);
                mix.extend([(QIter, 1), (QDisc, 1), (BSet, 1), (BGet, 1), (BDel, 1)]);
            }
            if g.r.chance(2, 3) {
                mix.push((Merge, 2));
            }
            if g.r.chance(1, 3) {
                mix.push((Clear, 1));
            }
            let n = g.r.range(1, 2);
            for _ in 0..n {
                let mut cl = g.clients(&mix, 1, 4, 5, 40 * x);
                if g.r.chance(1, 2) {
                    g.walks(&mut cl[0], &[0, 1, 2, 3, 4, 5]);
                }
                let faults = if g.r.chance(1, 3) { g.soft() } else { FaultCfg::none() };
                phases.push(Phase { clients: cl, faults, ..Default::default() });
            }
        }
        "C15" => {
            g.c.nkeys = g.r.range(1, 14) as u32;
            g.c.nlists = g.r.below(2) as u32;
            g.c.nqueues = g.r.below(2) as u32;
            g.c.nitems = 4;
            g.sizes(500, 6_000);
            let mut mix = join(&[KVW, &[(Stats, 3), (Audit, 1)]]);
            if g.c.nlists > 0 {
                mix.extend_from_slice(LISTW);
            }
            if g.c.nqueues > 0 {
                mix.extend_from_slice(QUEUEW);
            }
            if g.r.chance(1, 3) {
                mix.push((Merge, 1));
            }
            let many: Vec<(K, u64)> = mix.iter().copied().filter(|x| x.0 != Audit).collect();
            let crashy = g.r.chance(1, 2);
            let n = g.r.range(1, 4);
            for _ in 0..n {
                let cl = if g.r.chance(1, 2) {
                    let m = g.r.range(5, 60 * x);
                    vec![g.ops(&mix, m)]
                } else {
                    g.clients(&many, 2, 3, 5, 30)
                };
                let faults = if !crashy && g.r.chance(1, 6) { g.hard() } else { FaultCfg::none() };
                phases.push(Phase {
                    clients: cl,
                    audit_end: true,
                    audit_open: true,
                    crash: if crashy { g.hazard(800) } else { CrashAt::Never },
                    end: if crashy { End::Kill } else { End::Drop },
                    faults,
                    ..Default::default()
                });
            }
            phases.push(end(vec![]));
        }
        "C16" => {
            g.c.nkeys = g.r.range(1, 8) as u32;
            g.sizes(400, 4_000);
            g.vmode = *g.r.pick(&[0, 1, 3]);
            let n = g.r.range(1, 3);
            let crashy = g.r.chance(1, 2);
            for _ in 0..n {
                let cl = g.clients(KVW, 1, 2, 30, 150 * x);
                let crash = if crashy { g.hazard(3000) } else { CrashAt::Never };
                phases.push(Phase { clients: cl, crash, end: if crashy { End::Kill } else { End::Drop }, ..Default::default() });
            }
            if g.r.chance(1, 3) {
                // the churn of lists, queues and big values: what they leave behind
                g.sizes(900, 6_000);
                phases.clear();
                g.c.nlists = g.r.range(1, 2) as u32;
                g.c.nqueues = g.r.range(1, 2) as u32;
                g.c.nbig = 1;
                g.c.ntyped = if g.r.chance(1, 3) { 2 } else { 0 };
                g.c.nitems = g.r.range(2, 6) as u32;
                let mix = join(&[
                    LISTW,
                    QUEUEW,
                    &[(LProm, 2), (LComp, 2), (LDisc, 1), (QDisc, 1), (BSet, 1), (BDel, 1), (Set, 3), (Del, 1), (LPopH, 3), (QPopH, 4)],
                ]);
                let mut c2 = mix.clone();
                c2.retain(|o| !matches!(o.0, BSet | BDel | LProm | LDisc | QDisc | LComp));
                for _ in 0..n {
                    let cl = if g.r.chance(1, 2) {
                        let m = g.r.range(30, 150 * x);
                        vec![g.ops(&mix, m)]
                    } else {
                        g.clients(&c2, 2, 3, 10, 40)
                    };
                    let crash = if crashy { g.hazard(3000) } else { CrashAt::Never };
                    phases.push(Phase { audit_end: true, clients: cl, crash, end: if crashy { End::Kill } else { End::Drop }, ..Default::default() });
                }
                phases.push(end(vec![]));
                return Scenario { prop: prop.into(), seed, cfg: g.c, sched, step_cap: 120_000_000, phases };
            }
            let mut last = g.ops(KVW, 40);
            last.push(Op::new(Usage, 0, 0, 0, 0));
            phases.push(Phase { clients: vec![last], audit_open: true, ..Default::default() });
        }
        "C17" => {
            g.c.nkeys = g.r.range(1, 4) as u32;
            if g.r.chance(1, 10) {
                // an entry as large as a shard may be, among others that fall in other shards sooner or later
                g.sizes(300, 9_000);
                g.maxe = (g.c.shard - g.c.compact) / 4;
                let mut slots: Vec<u32> = (0..g.c.nkeys).map(|k| crate::audit::slot_of(&g.c, k)).collect();
                slots.sort();
                slots.dedup();
                if (slots.len() as u32) < g.c.nkeys {
                    g.c.nkeys = 1;
                }
                let full = g.c.shard - crate::exec::key_name(&g.c, 0).len() as u32 - 1;
                let mut o = vec![];
                let n = g.r.range(1, 5);
                for _ in 0..n {
                    let k = *g.r.pick(&[Set, Set, Goc]);
                    g.vid += 1;
                    o.push(Op::new(k, 0, 0, g.vid, full));
                    o.push(Op::new(Get, 0, 0, 0, 0));
                    if g.r.chance(1, 3) {
                        o.push(Op::new(Audit, 0, 0, 0, 0));
                    }
                    let m = g.r.below(6);
                    let others = g.ops(&[(Set, 2), (Del, 1), (Bad, 2), (Stats, 1)], m);
                    o.extend(others.into_iter().map(|mut q| {
                        if q.k != Bad && q.a == 0 {
                            q.k = Get;
                        }
                        q
                    }));
                    o.push(Op::new(Del, 0, 0, 0, 0));
                }
                g.vid += 1;
                o.push(Op::new(Set, 0, 0, g.vid, full));
                phases.push(end(vec![o]));
                phases.push(end(vec![]));
                return Scenario { prop: prop.into(), seed, cfg: g.c, sched, step_cap: 120_000_000, phases };
            }
            g.c.nlists = g.r.range(1, 2) as u32;
            g.c.nqueues = g.r.range(1, 2) as u32;
            g.c.nitems = 3;
            g.c.nbig = 1;
            g.sizes(900, 12_000);
            if g.r.chance(1, 4) {
                // maximal keys and values
                g.c.shard = g.r.range(400_000, 900_000) as u32;
                g.c.compact = g.c.shard / 10;
                g.c.keys = 3;
                g.maxe = 65_280;
                g.vmode = *g.r.pick(&[1, 3, 4, 4]);
            }
            let mut mix = join(&[KVW, LISTW, QUEUEW, &[(Bad, 14), (BSet, 1), (BGet, 1), (LProm, 1)]]);
            if g.c.keys == 3 {
                mix.retain(|x| !matches!(x.0, BSet));
            }
            let single = g.r.chance(2, 3);
            let cl = if single {
                let m = g.r.range(5, 60 * x);
                vec![g.ops(&mix, m)]
            } else {
                let m: Vec<(K, u64)> = mix.iter().copied().filter(|x| !matches!(x.0, BSet | LProm)).collect();
                g.clients(&m, 2, 3, 5, 20)
            };
            phases.push(end(cl));
            phases.push(end(vec![]));
        }
        "C18" => {
            g.c.keys = if g.r.chance(4, 5) { 2 } else { 0 };
            g.c.nkeys = g.r.range(2, 24) as u32;
            g.c.nlists = g.r.range(1, 12) as u32;
            g.c.nqueues = g.r.range(1, 12) as u32;
            g.c.nitems = g.r.range(1, 6) as u32;
            g.c.ntyped = *g.r.pick(&[2, 5, 12, 21, 21, 42]);
            g.c.nbig = g.r.range(1, 4) as u32;
            g.sizes(900, 8_000);
            let mix = join(&[
                KV,
                LISTW,
                QUEUEW,
                &[(TSet, 4), (TGet, 3), (TDel, 2), (TGoc, 2), (TRep, 2)],
                &[(LDisc, 1), (QDisc, 1), (LIter, 1), (QIter, 1)],
            ]);
            let mut single = mix.clone();
            single.extend([(BSet, 3), (BGet, 2), (BDel, 1), (Iter, 1), (LProm, 1), (LComp, 1)]);
            if g.r.chance(1, 2) {
                let m = g.r.range(20, 150 * x);
                let o = vec![g.ops(&single, m)];
                phases.push(end(o));
            } else {
                let mut m = mix.clone();
                m.retain(|x| x.0 != LDisc && x.0 != QDisc);
                let cl = g.clients(&m, 2, 3, 8, 30);
                phases.push(end(cl));
            }
            phases.push(end(vec![]));
        }
        "C19" => {
            g.c.expected = 0;
            // which bits of the hash survive: signature (low 32), row (16), shard (16)
            let sig = *g.r.pick(&[0u64, 0, 1, 3, 0xffff_ffff]);
            let row = *g.r.pick(&[0u64, 0, 1, 0x3f, 0xffff]);
            let sh = *g.r.pick(&[0u64, 0x8000, 0xc000, 0xffff, 0xffff]);
            g.c.hash_bits = sig | row << 32 | sh << 48;
            if g.r.chance(1, 14) {
                // more equal entries than fit a row
                g.c.hash_bits = sig | sh << 48;
                if g.r.chance(1, 2) {
                    g.c.hash_bits = sig;
                }
                g.c.nkeys = g.r.range(505, 560) as u32;
                g.c.shard = 200_000;
                g.c.compact = 20_000;
                g.vmode = 0;
                let mut o = vec![Op::new(Fill, 0, g.c.nkeys, 10_000, 6)];
                o.extend(g.ops(KV, 60));
                phases.push(end(vec![o]));
                let more = vec![g.ops(KV, 20)];
                phases.push(end(more));
            } else {
                g.c.nkeys = g.r.range(2, 16) as u32;
                g.c.nlists = g.r.below(4) as u32;
                // a list is identified by its hash: its items are told apart by it
                let mut phs: Vec<u64> = (0..g.c.nlists).map(|i| crate::audit::list_hash(&g.c, i) & g.c.hash_bits | 1).collect();
                phs.sort();
                phs.dedup();
                if phs.len() < g.c.nlists as usize {
                    g.c.nlists = 1;
                }
                g.c.nqueues = g.r.below(2) as u32;
                g.c.nitems = if g.c.nlists > 1 { g.r.range(1, 3) } else { g.r.range(1, 5) } as u32;
                // everything may land in one unsplittable shard: it has to be able to hold it
                let live = 16 * 60 + 6 * 120 + 40 * 60;
                g.c.shard = g.r.range(live * 2, 20_000) as u32;
                g.c.compact = g.r.log(200, 1500) as u32;
                g.maxe = 40;
                g.vmode = *g.r.pick(&[0, 2]);
                let mut mix = join(&[KV, &[(Iter, 1), (Merge, 1)]]);
                if g.c.nlists > 0 {
                    mix.extend_from_slice(LISTW);
                }
                if g.c.nqueues > 0 {
                    mix.extend_from_slice(QUEUEW);
                    mix.push((QPopH, 8));
                }
                let single = g.r.chance(1, 2);
                let crashy = g.r.chance(1, 4);
                let cl = if single {
                    let m = g.r.range(10, 120 * x);
                    vec![g.ops(&mix, m)]
                } else {
                    g.clients(&mix, 2, 3, 5, 25)
                };
                phases.push(Phase {
                    clients: cl,
                    audit_end: true,
                    crash: if crashy { g.hazard(1000) } else { CrashAt::Never },
                    end: if crashy { End::Kill } else { End::Drop },
                    ..Default::default()
                });
                let o = vec![g.ops(&mix, 20)];
                phases.push(end(o));
            }
        }
        "C20" => {
            g.c.nbig = g.r.range(1, 3) as u32;
            g.c.nkeys = g.r.range(1, 6) as u32;
            g.sizes(900, 10_000);
            g.maxe = g.maxe.max(50);
            if g.r.chance(1, 3) {
                // chunks of the real size
                g.c.shard = g.r.range(250_000, 600_000) as u32;
                g.c.compact = g.c.shard / 8;
                g.maxe = 30_000;
            }
            bigs(&mut g, x, &mut phases);
        }
        "C21" => {
            g.c.nkeys = g.r.range(2, 30) as u32;
            if g.r.chance(1, 16) {
                // more entries in one row than a shard can have there
                g.c.keys = 4;
                g.c.nkeys = g.r.range(515, 560) as u32;
                g.c.shard = 200_000;
                g.c.compact = 20_000;
                g.maxe = 30;
                g.vmode = 0;
                let mut o = vec![Op::new(Fill, 0, g.c.nkeys, 10_000, 6)];
                let n = g.r.range(1, 4);
                for _ in 0..n {
                    o.push(Op::new(Merge, 0, 0, 0, 0));
                    let m = g.r.range(1, 40);
                    let more = g.ops(&[(Del, 4), (Set, 1), (Get, 1)], m);
                    o.extend(more);
                }
                o.push(Op::new(Merge, 0, 0, 0, 0));
                phases.push(end(vec![o]));
                let more = vec![g.ops(&[(Set, 2), (Del, 3), (Merge, 1)], 15)];
                phases.push(end(more));
                return Scenario { prop: prop.into(), seed, cfg: g.c, sched, step_cap: 120_000_000, phases };
            }
            g.c.nlists = g.r.below(2) as u32;
            g.c.nqueues = g.r.below(2) as u32;
            g.c.nitems = 4;
            g.sizes(300, 4_000);
            let mut base = KVW.to_vec();
            if g.c.nlists > 0 {
                base.extend_from_slice(LISTW);
            }
            if g.c.nqueues > 0 {
                base.extend_from_slice(QUEUEW);
            }
            let m = g.r.range(10, 120 * x);
            let grow = g.ops(&base, m);
            phases.push(Phase { clients: vec![grow], ..Default::default() });
            // shrink the data, then merge
            let m = g.r.range(0, 60);
            let mut cl = vec![g.ops(&[(Del, 5), (Set, 1), (Get, 1), (Merge, 1)], m)];
            let variant = g.r.below(4);
            let k = g.r.range(1, 4);
            if variant == 1 {
                let h = g.arm(150);
                cl[0].push(h);
            }
            let ms = g.ops(&[(Merge, 3), (Set, 2), (Stats, 1)], k + 2);
            cl[0].extend(ms);
            let mut ph = Phase { audit_end: true, ..Default::default() };
            match variant {
                0 => {
                    let o = g.clients(&base, 1, 2, 5, 30);
                    cl.extend(o);
                }
                1 => {
                    if g.r.chance(1, 3) {
                        cl[0].retain(|o| o.k != Arm);
                        ph.crash = g.hazard(1500);
                    }
                    ph.end = End::Kill;
                }
                2 => {
                    ph.faults = g.hard();
                    ph.faults.hard |= 1 << C_RENAME | 1 << C_OPEN | 1 << C_UNLINK;
                }
                _ => {}
            }
            ph.clients = cl;
            phases.push(ph);
            let m = g.r.range(3, 30);
            let mut last = g.ops(&base, m);
            last.push(Op::new(Merge, 0, 0, 0, 0));
            phases.push(end(vec![last]));
            phases.push(end(vec![]));
        }
        "C22" => {
            g.c.nkeys = g.r.range(1, 10) as u32;
            g.c.nlists = g.r.below(2) as u32;
            g.c.nqueues = g.r.below(2) as u32;
            g.c.nitems = 3;
            g.c.ntyped = g.r.below(3) as u32;
            if g.r.chance(1, 4) {
                g.c.expected = 60_000;
            }
            g.sizes(300, 5_000);
            let mut mix = KVW.to_vec();
            if g.c.ntyped > 0 {
                mix.extend_from_slice(&[(TSet, 3), (TGet, 1), (TDel, 1), (TGoc, 1)]);
            }
            if g.c.nlists > 0 {
                mix.extend_from_slice(LISTW);
            }
            if g.c.nqueues > 0 {
                mix.extend_from_slice(QUEUEW);
            }
            let n = g.r.range(1, 3);
            for _ in 0..n {
                match g.r.below(3) {
                    0 => {
                        // concurrently
                        let mut m = mix.clone();
                        m.push((Clear, 2));
                        let cl = g.clients(&m, 2, 3, 5, 20);
                        phases.push(Phase { clients: cl, audit_end: true, ..Default::default() });
                    }
                    1 => {
                        let m = g.r.range(5, 60);
                        let mut o = g.ops(&mix, m);
                        o.push(Op::new(Clear, 0, 0, 0, 0));
                        o.push(Op::new(Audit, 0, 0, 0, 0));
                        let more = g.ops(&mix, 15);
                        o.extend(more);
                        phases.push(end(vec![o]));
                    }
                    _ => {
                        let m = g.r.range(5, 60);
                        let mut o = g.ops(&mix, m);
                        o.push(Op::new(Audit, 0, 0, 0, 0));
                        let a = g.arm(60);
                        o.push(a);
                        o.push(Op::new(Clear, 0, 0, 0, 0));
                        phases.push(Phase { clients: vec![o], end: End::Kill, ..Default::default() });
                        if g.r.chance(1, 3) {
                            let crash = g.hazard(60);
                            phases.push(Phase { crash, ..Default::default() });
                        }
                        phases.push(end(vec![]));
                    }
                }
            }
            let o = vec![g.ops(&mix, 15)];
            phases.push(end(o));
        }
        "C24" => {
            g.c.nkeys = *g.r.pick(&[2, 6, 16, 40]);
            let faulty = g.r.chance(1, 3);
            g.sizes(400, 6_000);
            let mut mix = KVW.to_vec();
            if g.r.chance(1, 3) {
                g.c.nlists = 1;
                g.c.nqueues = 1;
                g.c.nbig = 1;
                g.c.nitems = 4;
                g.c.shard = g.c.shard.max(1500);
                mix.extend_from_slice(LISTW);
                mix.extend_from_slice(QUEUEW);
                mix.extend([(LDisc, 1), (QDisc, 1), (BSet, 1), (BDel, 1)]);
                if !faulty {
                    // documented as unsafe when interrupted
                    mix.push((LComp, 1));
                }
            }
            mix.extend([(Iter, 1), (Flush, 1), (Sleep, 1)]);
            if g.r.chance(2, 3) {
                mix.push((Merge, 2));
            }
            if g.r.chance(1, 3) {
                mix.push((Clear, 1));
            }
            if g.r.chance(1, 2) {
                mix.push((Audit, 1));
            }
            let many: Vec<(K, u64)> = mix.iter().copied().filter(|x| x.0 != Audit).collect();
            let n = g.r.range(1, 4);
            for i in 0..n {
                let cl = if g.r.chance(1, 2) {
                    let m = g.r.range(5, 90 * x);
                    vec![g.ops(&mix, m)]
                } else {
                    g.clients(&many, 2, 3, 5, 40 * x)
                };
                let faults = if faulty && g.r.chance(2, 3) {
                    g.hard()
                } else if g.r.chance(1, 4) {
                    g.soft()
                } else {
                    FaultCfg::none()
                };
                let recfg = if i > 0 && g.r.chance(1, 4) { g.recfg() } else { None };
                let racers = if faults.hard == 0 && g.r.chance(1, 4) { g.r.range(1, 2) as u32 } else { 0 };
                let audit_end = g.r.chance(1, 2);
                phases.push(Phase { clients: cl, audit_end, faults, recfg, racers, ..Default::default() });
            }
        }
        "C25" => {
            // several shards; one call at a time gets stuck
            g.c.nkeys = *g.r.pick(&[4, 8, 16]);
            g.c.threads = g.r.range(2, 3) as u32;
            if g.r.chance(1, 2) {
                g.c.expected = *g.r.pick(&[60_000, 60_000, 120_000]);
            }
            g.sizes(400, 4_000);
            let mut mix = KV.to_vec();
            if g.r.chance(1, 3) {
                // never split, always compacted
                g.c.shard = NO_SPLITS;
                g.c.compact = g.c.compact.min(600);
            } else {
                if g.r.chance(1, 2) {
                    mix.extend([(Flush, 1), (Stats, 1)]);
                }
            }
            if g.r.chance(1, 4) {
                g.c.nlists = 1;
                g.c.nqueues = 1;
                g.c.nitems = 4;
                g.c.shard = g.c.shard.max(1500);
                mix.extend_from_slice(LISTW);
                mix.extend_from_slice(QUEUEW);
            }
            let n = g.r.range(1, 3);
            for i in 0..n {
                let faults = if i > 0 || g.r.chance(1, 2) {
                    FaultCfg { mean: g.r.log(5, 300), hang: true, ..FaultCfg::none() }
                } else {
                    FaultCfg::none()
                };
                let cl = g.clients(&mix, 2, 5, 10, 60 * x);
                let audit_end = g.r.chance(1, 4);
                phases.push(Phase { clients: cl, audit_end, faults, ..Default::default() });
            }
        }
        "C27" => {
            g.exact = true;
            g.c.nkeys = *g.r.pick(&[2, 5, 20, 100]);
            g.c.threads = g.r.range(1, 4) as u32;
            if g.r.chance(1, 6) {
                g.sizes(400_000, 900_000);
                g.maxe = 65_280;
                g.vmode = 1;
            } else {
                g.sizes(400, 20_000);
            }
            let mut mix = join(&[KVW, &[(Stats, 2)]]);
            if g.r.chance(1, 3) {
                g.c.nlists = 1;
                g.c.nqueues = 1;
                g.c.nitems = 6;
                g.c.shard = g.c.shard.max(1500);
                g.maxe = g.maxe.min(30_000);
                mix.extend_from_slice(LISTW);
                mix.extend_from_slice(QUEUEW);
            }
            if g.r.chance(1, 3) {
                mix.push((Merge, 1));
            }
            if g.r.chance(1, 4) {
                mix.push((Clear, 1));
            }
            if g.r.chance(1, 4) {
                mix.extend([(Flush, 1)]);
            }
            let many: Vec<(K, u64)> = mix.iter().copied().filter(|x| x.0 != Clear).collect();
            let n = g.r.range(1, 3);
            for _ in 0..n {
                let cl = if g.r.chance(1, 2) {
                    let m = g.r.range(10, 150 * x);
                    vec![g.ops(&mix, m)]
                } else {
                    g.clients(&many, 2, 4, 5, 40 * x)
                };
                let end = if g.r.chance(1, 4) { End::Kill } else { End::Drop };
                phases.push(Phase { clients: cl, audit_end: g.r.chance(1, 5), audit_open: g.r.chance(1, 5), end, ..Default::default() });
            }
        }
        "C26" => {
            g.c.nkeys = *g.r.pick(&[3, 20, 100, 400]);
            if g.r.chance(1, 6) {
                g.sizes(150_000, 600_000);
                g.maxe = 30_000;
                g.vmode = 1;
            } else {
                g.sizes(600, 60_000);
            }
            if g.r.chance(1, 3) {
                g.c.keys = 1;
                g.c.shard = g.c.shard.max(3000);
                g.c.compact = g.c.compact.min(900);
                g.maxe = 300;
            }
            let mut mix = KV.to_vec();
            if g.r.chance(1, 2) {
                g.c.nlists = 1;
                g.c.nqueues = 1;
                g.c.nitems = *g.r.pick(&[4, 40, 150]);
                g.c.shard = g.c.shard.max(3000);
                mix.extend_from_slice(LISTW);
                mix.extend_from_slice(QUEUEW);
            }
            if g.r.chance(1, 4) {
                g.c.ntyped = 4;
                mix.extend([(TSet, 2), (TGet, 2), (TDel, 1), (TGoc, 1), (TRep, 1)]);
            }
            if g.r.chance(1, 3) {
                mix.extend([(Flush, 1), (Stats, 1), (Merge, 1)]);
            }
            let n = g.r.range(1, 2);
            for _ in 0..n {
                let m = g.r.range(20, 250 * x);
                let cl = if g.r.chance(1, 2) { vec![g.ops(&mix, m)] } else { g.clients(&mix, 2, 3, 10, 80 * x) };
                phases.push(Phase { clients: cl, audit_end: true, ..Default::default() });
            }
        }
        "C23" => {
            g.c.nkeys = g.r.range(1, 12) as u32;
            g.sizes(300, 4_000);
            let m = g.r.range(5, 80);
            let o = vec![g.ops(KVW, m)];
            let crashy = g.r.chance(1, 4);
            phases.push(Phase {
                clients: o,
                crash: if crashy { g.hazard(2000) } else { CrashAt::Never },
                end: if crashy { End::Kill } else { End::Drop },
                ..Default::default()
            });
            g.c.clear_unsup = g.r.chance(1, 4);
            let n = g.r.range(1, 3);
            for _ in 0..n {
                let mut o = vec![];
                if g.r.chance(3, 4) {
                    o.push(Op::new(Damage, g.r.below(1000) as u32, g.r.below(7) as u32, 0, 0));
                }
                let more = g.ops(KVW, 10);
                o.extend(more);
                let faults = if g.r.chance(1, 2) { g.soft() } else { FaultCfg::none() };
                let e = if g.r.chance(1, 4) { End::Kill } else { End::Drop };
                phases.push(Phase { clients: vec![o], faults, audit_open: true, audit_end: true, end: e, ..Default::default() });
            }
            phases.push(end(vec![]));
        }
        _ => panic!("unknown property {prop}"),
    }
    if aged && phases.len() > 1 {
        g.c.truncate = false;
        let i = g.r.range(1, phases.len() as u64 - 1) as usize;
        g.age(&mut phases[i]);
    }
    Scenario { prop: prop.into(), seed, cfg: g.c, sched, step_cap: 120_000_000, phases }
}

/// C20: each client has big keys of its own; crashes hit other operations only
fn bigs(g: &mut G, x: u64, phases: &mut Vec<Phase>) {
    let n = g.r.range(1, 2);
    for _ in 0..n {
        let single = g.r.chance(2, 3);
        let m = g.r.range(5, 30 * x);
        let mut cl = vec![];
        let other = join(&[KVW, &[(Merge, 1), (Stats, 1)]]);
        if single {
            cl.push(g.ops(&join(&[&[(BSet, 5), (BGet, 3), (BDel, 2)], &[(Set, 2), (Del, 1), (Merge, 1)]]), m));
        } else {
            for b in 0..g.c.nbig {
                let mut o = g.ops(&[(BSet, 5), (BGet, 3), (BDel, 2)], m);
                for q in o.iter_mut() {
                    q.a = b;
                }
                cl.push(o);
            }
            let o = g.ops(&other, 30);
            cl.push(o);
        }
        phases.push(Phase { clients: cl, audit_open: true, audit_end: true, ..Default::default() });
        if g.r.chance(1, 3) {
            let o = vec![g.ops(&other, 40)];
            let crash = g.hazard(800);
            phases.push(Phase { clients: o, crash, end: End::Kill, ..Default::default() });
        }
    }
    phases.push(Phase { audit_open: true, ..Default::default() });
}
