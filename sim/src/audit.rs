//! Looking at the whole store while nothing else happens, iterating over it, and looking at its directory.
use crate::exec::*;
use crate::rt::*;
use crate::scen::*;
use crate::stats::*;
use candystore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const AUDITOR: u32 = 99;

/// key index of a raw key yielded by iteration
pub fn key_of(k: &[u8]) -> u32 {
    match w().keyidx.get(k) {
        Some(&i) => i,
        None => viol("garbage", &format!("iteration yields a key that was never stored: {:02x?} ({} bytes)", &k[..k.len().min(40)], k.len())),
    }
}

/// lets background threads come to rest, so that nothing else happens while the caller reads
fn settle() -> Quiet {
    for _ in 0..200 {
        if rt().try_quiet() {
            break;
        }
        let _i = inside();
        rt().yield_now();
    }
    Quiet
}
struct Quiet;
impl Drop for Quiet {
    fn drop(&mut self) {
        rt().quiet = false;
    }
}

/// iterates over the whole store, recording what was seen; IterCk stops and resumes from the cookie every
/// `a`+1 entries
pub fn iterate(st: &Arc<CandyStore>, c: u32, op: Op, single: bool) {
    let s = &**st;
    let i = w().hist.len();
    let mut items = vec![];
    let calm = w().seq % 4 != 0;
    let r = record(c, op, single, || {
        let _q = (single && calm).then(settle);
        let mut it = s.iter();
        let mut n = 0usize;
        loop {
            match it.next() {
                Some(x) => {
                    let (k, v) = x?;
                    items.push((key_of(&k), intern(&v)));
                    n += 1;
                    if n > 200_000 {
                        viol("endless-iteration", "an iteration over the store does not end");
                    }
                    if op.k == K::IterCk && n % (op.a as usize + 1) == 0 {
                        let ck = it.cookie();
                        it = s.iter_from_cookie(ck);
                    }
                }
                None => {
                    if op.k == K::IterCk {
                        // resuming at the end stays at the end
                        let ck = it.cookie();
                        if let Some(x) = s.iter_from_cookie(ck).next() {
                            x?;
                            viol("iteration-restarts", "an iteration resumed from the cookie of a finished one starts over");
                        }
                    }
                    break;
                }
            }
        }
        Ok(Res::Num(n as u64))
    });
    if r.is_some() {
        let h = w().hist[i..].iter().find(|h| h.op == op && h.th == c).unwrap().clone();
        if !single {
            hit(P_ITER_MOVED);
        }
        w().iters.push(IterRec { inv: h.inv, ret: h.ret, items, exact: single, phase: h.phase });
    }
}

pub fn parse_span(n: &str) -> Option<(u32, u32)> {
    let (a, b) = n.strip_prefix("shard_")?.split_once('-')?;
    Some((u32::from_str_radix(a, 16).ok()?, u32::from_str_radix(b, 16).ok()?))
}

/// the names in the directory: the lock file and shards that partition the hash space, and nothing else
/// (None if injected I/O errors may have left obsolete files behind since the store began to be opened)
pub fn check_dir(st: &CandyStore, when: &str) -> Option<usize> {
    let x = st.stats(); // waits for compactions
    if w().sc.prop == "C27" {
        counters(&x);
    }
    let strict = rt().fs.hard_errs == w().open_errs;
    let names: Vec<String> = {
        let _i = inside();
        rt().fs.list(DIR).into_iter().map(|x| x.0).collect()
    };
    let mut spans = vec![];
    for n in &names {
        if n == ".lock" {
            continue;
        }
        match parse_span(n) {
            Some(x) => spans.push(x),
            None => {
                if strict {
                    viol("stray-file", &format!("{when}: {n} is left in the directory"));
                }
            }
        }
    }
    spans.sort_by_key(|x| (x.0, u32::MAX - x.1));
    let mut at = 0;
    for (a, b) in &spans {
        if !strict && *b <= at {
            continue;
        }
        if *a != at || b <= a {
            viol("shard-files", &format!("{when}: the shard files do not partition the hash space: {names:?}"));
        }
        at = *b;
    }
    if at != 0x10000 {
        viol("shard-files", &format!("{when}: the shard files do not cover the hash space: {names:?}"));
    }
    strict.then_some(spans.len())
}

/// a complete look at the store while nothing else uses it
pub fn audit(st: &Arc<CandyStore>, at_open: bool) {
    let cfg = w().sc.cfg.clone();
    let s = &**st;
    hit(P_AUDITS);
    let prop = w().sc.prop.clone();
    let faulty = w().hard_faults;
    let when = if at_open { "after opening" } else { "at a quiescent moment" };
    let o = |k, a, b| Op::new(k, a, b, 0, 0);
    let mut live: BTreeMap<u32, u32> = BTreeMap::new();
    let mut unsure = false;
    for i in 0..cfg.nkeys {
        let n = w().hist.len();
        do_op(st, AUDITOR, o(K::Get, i, 0), true);
        match &w().hist[n].res {
            Res::Val(Some(v)) => {
                live.insert(i, *v);
            }
            Res::Val(None) => {}
            _ => unsure = true,
        }
    }
    let multi = |st: &Arc<CandyStore>| {
        // how many entries the store needs for what is there
        let mut need = 0usize;
        let num = |k: K, x: u32| {
            let n = w().hist.len();
            do_op(st, AUDITOR, o(k, x, 0), true);
            match &w().hist[n].res {
                Res::Pairs(p) => p.len(),
                Res::IdxPairs(p) => p.len(),
                Res::Val(Some(_)) => 1,
                _ => 0,
            }
        };
        for l in 0..cfg.nlists {
            need += 1 + 2 * num(K::LIter, l);
            for k in [K::LIterB, K::LLen, K::LPeekH, K::LPeekT] {
                num(k, l);
            }
            for i in 0..cfg.nitems {
                do_op(st, AUDITOR, o(K::LGet, l, i), true);
            }
        }
        for q in 0..cfg.nqueues {
            need += 1 + num(K::QIter, q);
            for k in [K::QIterB, K::QLen, K::QRange, K::QPeekH, K::QPeekT] {
                num(k, q);
            }
        }
        for b in 0..cfg.nbig {
            // the queue of its chunks
            need += 1;
            let n = w().hist.len();
            do_op(st, AUDITOR, o(K::BGet, b, 0), true);
            if let Res::Val(Some(v)) = w().hist[n].res {
                need += w().valb[v as usize].len().div_ceil(MAX_VALUE_SIZE).max(1);
            }
        }
        for t in 0..cfg.ntyped {
            need += num(K::TGet, t);
        }
        need
    };
    // after a power failure entries that were never flushed may be unreadable, which spoils iterations
    if w().crashes.iter().any(|c| c.1) {
        multi(st);
        return;
    }
    // iteration and lookups have to agree
    let n = w().iters.len();
    iterate(st, AUDITOR, o(K::Iter, 0, 0), true);
    if w().iters.len() > n && !unsure {
        let items = w().iters[n].items.clone();
        let mut seen = BTreeSet::new();
        for (k, v) in &items {
            if !seen.insert(*k) {
                viol("iteration", &format!("{when}, iteration yields key {k} twice"));
            }
            match live.get(k) {
                None => viol("iteration", &format!("{when}, iteration yields key {k} = {}, a lookup does not find it", show(*v))),
                Some(x) if x != v => viol(
                    "iteration",
                    &format!("{when}, iteration yields key {k} = {}, a lookup yields {}", show(*v), show(*x)),
                ),
                _ => {}
            }
        }
        if let Some(k) = live.keys().find(|k| !seen.contains(k)) {
            viol("iteration", &format!("{when}, iteration does not yield key {k}, which is there"));
        }
    }
    if matches!(prop.as_str(), "C09" | "C04" | "C21") {
        iterate(st, AUDITOR, o(K::IterCk, (w().seq % 5) as u32, 0), true);
    }
    let need = live.len() + multi(st);
    let shards = check_dir(s, when);
    let stats = s.stats();
    if prop == "C27" {
        counters(&stats);
    }
    if let Some(shards) = shards {
        if stats.num_shards != shards {
            viol("stats", &format!("{when}: stats report {} shards, the directory has {shards}", stats.num_shards));
        }
    }
    let (mut n, mut bytes) = (0usize, 0usize);
    let _q = settle();
    for x in s.iter_raw() {
        match x {
            Ok((k, v)) => {
                n += 1;
                bytes += k.len() + v.len();
                if let Some((1, k)) = k.split_last() {
                    if !unsure && live.get(&key_of(k)) != Some(&intern(&v)) {
                        viol("iteration", &format!("{when}, raw iteration yields key {} with another value than a lookup", key_of(k)));
                    }
                }
            }
            Err(e) => {
                if !w().faults_on {
                    viol("unexpected-error", &format!("{when}: raw iteration failed: {e:#}"));
                }
                return;
            }
        }
    }
    // nothing may be left behind by what was removed or replaced
    if w().crashes.is_empty() && !faulty && !unsure && w().sc.cfg.capacity == 0 && matches!(prop.as_str(), "C15" | "C16" | "C17" | "C20" | "C22") {
        let disjoint = prop != "C20" || w().sc.phases.iter().all(|p| p.clients.len() <= 1);
        if n > need && disjoint {
            viol("leaked-entries", &format!("{when}: the store has {n} entries, what is in it needs at most {need}"));
        }
    }
    if stats.num_inserts < stats.num_removals || stats.num_entries() != n {
        viol(
            "stats",
            &format!("{when}: stats report {} inserts - {} removals, the store has {n} entries", stats.num_inserts, stats.num_removals),
        );
    }
    if stats.occupied_bytes < stats.wasted_bytes || stats.data_bytes() < bytes {
        viol(
            "stats",
            &format!("{when}: stats report {} occupied - {} wasted bytes, the entries need {bytes}", stats.occupied_bytes, stats.wasted_bytes),
        );
    }
    if w().crashes.is_empty() && !faulty && stats.data_bytes() != bytes {
        viol("stats", &format!("{when}: data_bytes() is {}, the live entries have {bytes} bytes", stats.data_bytes()));
    }
    drop(_q);
    let _ = format!("{stats}");
    if prop == "C24" {
        held(cfg.threads as usize, when);
    }
}

/// number of descriptors, of mappings, of deleted files kept in use, and of threads of this incarnation
fn resources() -> ([usize; 4], String) {
    let _i = inside();
    let r = rt();
    let fds = r.fs.fds.iter().filter(|f| f.is_some()).count() + r.fs.dirs.len();
    let maps = r.fs.inodes.iter().map(|i| i.maps as usize).sum();
    let dead: Vec<&str> = r.fs.inodes.iter().filter(|i| i.links == 0 && i.opens + i.maps > 0).map(|i| i.name.as_str()).collect();
    let threads = (0..r.threads.len())
        .filter(|&t| t != 0 && t as u32 != r.cur && r.threads[t].inc == r.inc && !matches!(r.threads[t].st, St::Finished | St::Zombie))
        .count();
    let used: Vec<&str> = r.fs.inodes.iter().filter(|i| i.opens + i.maps > 0).map(|i| i.name.as_str()).collect();
    ([fds, maps, dead.len(), threads], format!("files in use: {used:?}; deleted ones among them: {dead:?}; {}", r.describe()))
}

/// what an open store that nobody uses may hold on to
fn held(pool: usize, when: &str) {
    {
        let _q = settle();
        if !rt().quiet {
            return;
        }
    }
    let shards = {
        let _i = inside();
        rt().fs.list(DIR).into_iter().filter(|x| x.0.starts_with("shard_")).count()
    };
    let ([fds, maps, dead, threads], what) = resources();
    hit(P_HELD);
    // an I/O error may leave the target of an abandoned compaction behind in its shard
    let extra = if w().hard_faults { shards } else { 0 };
    if fds > 2 * shards + 4 + extra || maps > 2 * shards + 2 + extra || dead > extra || threads > pool + 2 {
        viol(
            "held-resources",
            &format!("{when}, with {shards} shards and nothing going on, the store holds {fds} descriptors, {maps} mappings, {dead} deleted files, {threads} threads: {what}"),
        );
    }
}

/// after an orderly close, or an open that failed: background threads end, and nothing is held
pub fn closed(when: &str) {
    if w().sc.prop != "C24" {
        return;
    }
    let before = snapshot();
    for _ in 0..200 {
        let idle = {
            let _i = inside();
            let r = rt();
            let me = r.cur as usize;
            let stuck = |t: &Th| t.st == St::Blocked && t.deadline == u64::MAX;
            r.threads.iter().enumerate().all(|(i, t)| i == 0 || i == me || t.inc != r.inc || stuck(t) || matches!(t.st, St::Finished | St::Zombie))
        };
        if idle {
            break;
        }
        let _i = inside();
        let dl = rt().now + 1_000_000_000;
        rt().block(0x4fff_0000, dl, "the harness");
    }
    hit(P_CLOSED);
    let (r, what) = resources();
    if r != [0; 4] {
        viol(
            "left-behind",
            &format!("{when}, {} descriptors, {} mappings, {} deleted files in use and {} threads remain: {what}", r[0], r[1], r[2], r[3]),
        );
    }
    if snapshot() != before {
        viol("late-change", &format!("the files of the store changed after it was closed: {when}"));
    }
}
fn snapshot() -> Vec<(String, u64)> {
    let _i = inside();
    let fs = &mut rt().fs;
    let names: Vec<String> = fs.list(DIR).into_iter().map(|x| x.0).collect();
    names
        .into_iter()
        .map(|n| {
            let c = fs.contents(&format!("{DIR}/{n}")).map(|d| hash_str(&d)).unwrap_or(0);
            (n, c)
        })
        .collect()
}

pub fn sip(seed: &[u8; 16], full_key: &[u8]) -> u64 {
    use siphasher::sip128::SipHasher24;
    SipHasher24::new_with_key(seed).hash(full_key).h1
}

pub fn list_hash(cfg: &Cfg, i: u32) -> u64 {
    let mut seed = [0u8; 16];
    seed[..8].copy_from_slice(&cfg.seed.to_le_bytes());
    seed[8..].copy_from_slice(&(cfg.seed ^ 0x5555).to_le_bytes());
    let mut f = list_name(cfg, i);
    f.push(3);
    sip(&seed, &f)
}

/// the number of the finest possible shard a key belongs to
pub fn slot_of(cfg: &Cfg, k: u32) -> u32 {
    (hash_of(cfg, k) >> 48) as u32
}
pub fn hash_of(cfg: &Cfg, k: u32) -> u64 {
    let mut seed = [0u8; 16];
    seed[..8].copy_from_slice(&cfg.seed.to_le_bytes());
    seed[8..].copy_from_slice(&(cfg.seed ^ 0x5555).to_le_bytes());
    let mut f = key_name(cfg, k);
    f.push(1);
    sip(&seed, &f)
}

/// The number of shards is a function of the data: a shard is only ever split when its live data plus the
/// garbage below the compaction threshold fills it. So the tree of spans that could ever have been split is
/// known from the keys and the largest sizes they ever had, and with it a bound on the directory's size once
/// every shard has had a chance to compact itself.
pub fn usage_bound(st: &Arc<CandyStore>) {
    let cfg = w().sc.cfg.clone();
    let cfg = &cfg;
    // let every shard notice its garbage: rewrite every key, waiting for compactions
    for round in 0..2u32 {
        for k in 0..cfg.nkeys {
            let n = w().hist.len();
            do_op(st, AUDITOR, Op::new(K::Get, k, 0, 0, 0), true);
            let len = match w().hist[n].res {
                Res::Val(Some(v)) => Some(w().valb[v as usize].len() as u32),
                _ => None,
            };
            do_op(st, AUDITOR, Op::new(K::Set, k, 0, 900_000 + round * 10_000 + k, len.unwrap_or(8)), true);
            let _ = st.stats();
            if len.is_none() {
                do_op(st, AUDITOR, Op::new(K::Del, k, 0, 0, 0), true);
                let _ = st.stats();
            }
        }
    }
    let w = w();
    let usage = {
        let _i = inside();
        rt().fs.usage(DIR).0
    };
    w.max_usage = w.max_usage.max(usage);
    let mut size: BTreeMap<u32, usize> = BTreeMap::new();
    for h in &w.hist {
        if matches!(h.op.k, K::Set | K::Rep | K::Goc) {
            let n = key_name(cfg, h.op.a).len() + 1 + w.valb[h.op.c as usize].len();
            let e = size.entry(h.op.a).or_default();
            *e = (*e).max(n);
        }
    }
    let maxe = size.values().copied().max().unwrap_or(0);
    let pts: Vec<(u32, usize)> = size
        .iter()
        .map(|(k, n)| (slot_of(cfg, *k), *n))
        .collect();
    // garbage below the threshold, entries of writers in flight, and what crashes may have leaked
    let slack = cfg.compact as usize + maxe * (8 + w.crashes.len() * 4);
    let per = cfg.shard as usize;
    fn count(lo: u32, hi: u32, pts: &[(u32, usize)], slack: usize, per: usize) -> usize {
        let live: usize = pts.iter().filter(|p| p.0 >= lo && p.0 < hi).map(|p| p.1).sum();
        if hi - lo <= 1 || live == 0 || live + slack <= per {
            return 1;
        }
        let mid = (lo + hi) / 2;
        count(lo, mid, pts, slack, per) + count(mid, hi, pts, slack, per)
    }
    let initial = if cfg.expected > 29_491 { 2 * (cfg.expected as usize / 29_491 + 1) } else { 1 };
    let shards = count(0, 0x10000, &pts, slack, per).max(initial);
    let header = Stats::FILE_HEADER_SIZE;
    let bound = shards * (header + per + slack);
    if usage > bound {
        viol(
            "disk-usage",
            &format!("after every shard had the chance to compact, the directory occupies {usage} bytes; with its data at most {bound} are needed"),
        );
    }
}

/// the number of I/O calls one operation makes: documented as one for lookups, removals and insertions, two for
/// replacements, and a constant for lists and queues - no matter how much is stored
pub fn cost(op: &Op, res: &Res, io: [u32; 5]) {
    let [r, w, o, compactions, halves] = io;
    if halves > 0 {
        // it split a shard
        return;
    }
    hit(P_COST);
    let (mr, mw) = match (op.k, res) {
        (K::Get | K::Has | K::TGet | K::Del | K::TDel | K::LGet, Res::Val(None) | Res::Bool(false)) => (0, 0),
        (K::Get | K::Has | K::TGet | K::Del | K::TDel | K::LGet, _) => (1, 0),
        (K::Set, Res::Val(None)) | (K::Goc, Res::Goc(Some(true), _)) => (0, 1),
        (K::Goc, Res::Goc(Some(false), _)) => (1, 0),
        (K::Rep, Res::Rep(2, _)) => (0, 0),
        (K::Rep, Res::Rep(1, _)) => (1, 0),
        (K::Set | K::Rep | K::Goc | K::TSet | K::TRep | K::TGoc, _) => (1, 1),
        (K::LSet | K::LRep, Res::Val(Some(_)) | Res::Rep(..) | Res::TRep(_)) => (2, 1),
        (K::LSet | K::LGoc | K::QPushH | K::QPushT, _) => (4, 4),
        (K::LDel | K::LPopH | K::LPopT, _) => (10, 2),
        (K::QDel | K::QPopH | K::QPopT, _) => (4, 2),
        (K::LPeekH | K::LPeekT | K::LLen | K::QPeekH | K::QPeekT | K::QLen | K::QRange, _) => (4, 0),
        _ => return,
    };
    if r > mr || w > mw || o > 12 * compactions {
        viol(
            "cost",
            &format!("{} -> {res:?} made {r} reads, {w} writes and {o} other calls (allowed: {mr}, {mw}, {})", op.text(), 12 * compactions),
        );
    }
}

/// the counters of operations against what the simulated kernel and the history say
pub fn counters(x: &candystore::Stats) {
    let c = &mut w().count;
    let cfg = &w().sc.cfg;
    hit(P_COUNTED);
    let same = |what: &str, reported: usize, actual: usize| {
        if reported != actual {
            viol("counters", &format!("stats report {what} {reported}, there were {actual}: {x}"));
        }
    };
    same("num_read_ops", x.num_read_ops, c.reads.0);
    same("num_read_bytes", x.num_read_bytes, c.reads.1);
    same("num_write_ops", x.num_write_ops, c.writes.0);
    same("num_write_bytes", x.num_write_bytes, c.writes.1);
    same("entries_under_128", x.entries_under_128, c.sizes[0]);
    same("entries_under_1k", x.entries_under_1k, c.sizes[1]);
    same("entries_under_8k", x.entries_under_8k, c.sizes[2]);
    same("entries_under_32k", x.entries_under_32k, c.sizes[3]);
    same("entries_over_32k", x.entries_over_32k, c.sizes[4]);
    same("num_compactions", x.num_compactions, c.compactions);
    if cfg.nlists + cfg.nqueues + cfg.nbig + cfg.ntyped == 0 {
        same("num_positive_lookups", x.num_positive_lookups, c.found);
        same("num_negative_lookups", x.num_negative_lookups, c.missing);
        same("num_updates", x.num_updates, c.updates);
    }
    if let Some(n) = c.shards {
        same("num_splits", x.num_splits, x.num_shards - n);
    }
    // the latest eight since the last look
    if !c.looked {
        // the latest eight since the last look
        same("last_compaction_stats of a number of compactions:", x.last_compaction_stats.len(), (c.compactions - c.seen.1).min(8));
        same("last_split_stats of a number of splits:", x.last_split_stats.len(), (x.num_splits - c.seen.0).min(8));
    }
    c.looked = false;
    c.seen = (x.num_splits, c.compactions);
}
