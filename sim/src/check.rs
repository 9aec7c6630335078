//! Oracles over the recorded history: just-in-time linearizability of every key, list, queue and big value
//! against small reference models, with operations cut off by a crash or failed by an I/O error optional;
//! and what concurrent iterations saw.
#![allow(static_mut_refs)]
use crate::exec::*;
use crate::scen::*;
use crate::stats::{self, *};
use std::collections::{BTreeMap, BTreeSet};

/// errors that are legitimate without any injected fault
pub fn may_fail(r: &Rec) -> bool {
    let w = w();
    // more entries with equal hashes than a row has places
    w.sc.prop == "C19" && w.sc.cfg.nkeys > 500 && matches!(r.op.k, K::Set | K::Goc)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Obj {
    Key(u32),
    Typed(u32),
    List(u32),
    Queue(u32),
    Big(u32),
}
fn obj_of(op: &Op) -> Option<Obj> {
    use K::*;
    Some(match op.k {
        Get | Has | Set | Rep | Goc | Del => Obj::Key(op.a),
        TSet | TGet | TDel | TGoc | TRep => Obj::Typed(op.a),
        LSet | LProm | LRep | LGoc | LGet | LDel | LPopH | LPopT | LPeekH | LPeekT | LLen | LIter | LIterB | LComp | LDisc => {
            Obj::List(op.a)
        }
        QPushH | QPushT | QPopH | QPopT | QPeekH | QPeekT | QDel | QLen | QRange | QIter | QIterB | QExt | QDisc => {
            Obj::Queue(op.a)
        }
        BSet | BGet | BDel => Obj::Big(op.a),
        _ => return None,
    })
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum S {
    Reg(Option<u32>),
    /// items in order; the second part: how many interrupted operations may have left the length too high
    List(Vec<(u32, u32)>, u32),
    Queue(Vec<(Option<u64>, u32)>, u32),
    /// anything may be there (after an interrupted operation documented as not crash-safe)
    Wild,
}

fn show_state(s: &S) -> String {
    match s {
        S::Reg(v) => show_opt(*v),
        S::List(l, n) => format!("[{}]~{n}", l.iter().map(|(i, v)| format!("{i}={}", show(*v))).collect::<Vec<_>>().join(" ")),
        S::Queue(q, n) => format!(
            "[{}]~{n}",
            q.iter()
                .map(|(i, v)| format!("{}={}", i.map(|i| format!("{}", i.wrapping_sub(1 << 63) as i64)).unwrap_or("?".into()), show(*v)))
                .collect::<Vec<_>>()
                .join(" ")
        ),
        S::Wild => "unknown".into(),
    }
}

fn is_queue(s: &S) -> bool {
    matches!(s, S::Queue(..))
}

/// appends to `out` every state the operation may lead to from `s`, given its result; nothing if its result
/// is impossible in `s`
fn step(s: &S, r: &Rec, out: &mut Vec<S>) {
    use K::*;
    let op = &r.op;
    let done = r.st == St8::Ok;
    if let S::Wild = s {
        out.push(S::Wild);
        return;
    }
    if !done {
        // may have had no effect
        out.push(s.clone());
    }
    if op.k == Clear {
        let e = match s {
            S::Reg(_) => S::Reg(None),
            S::List(..) => S::List(vec![], 0),
            _ => S::Queue(vec![], 0),
        };
        if !done && e == *s {
            return;
        }
        out.push(e);
        return;
    }
    match s {
        S::Reg(cur) => step_reg(*cur, r, done, out),
        S::List(l, n) => step_list(l, *n, r, done, out),
        S::Queue(q, n) => step_queue(q, *n, r, done, out),
        S::Wild => {}
    }
}

fn exp_ok(d: u32, cur: u32) -> bool {
    d == 0 || d - 1 == cur
}

fn step_reg(cur: Option<u32>, r: &Rec, done: bool, out: &mut Vec<S>) {
    use K::*;
    let op = &r.op;
    let v = op.c;
    match op.k {
        Get | TGet | BGet => {
            if !done {
                return;
            }
            let ok = match &r.res {
                Res::Val(x) => *x == cur,
                Res::Seen(x) => *x == cur,
                Res::Bool(b) => *b == cur.is_some(),
                _ => false,
            };
            if ok {
                out.push(S::Reg(cur));
            }
        }
        Has => {
            if done && r.res == Res::Bool(cur.is_some()) {
                out.push(S::Reg(cur));
            }
        }
        Set | TSet => {
            if !done || r.res == Res::Val(cur) {
                out.push(S::Reg(Some(v)));
            }
        }
        BSet => {
            if !done {
                // documented as not atomic
                out.push(S::Wild);
            } else if r.res == Res::Bool(cur.is_some()) {
                out.push(S::Reg(Some(v)));
            }
        }
        BDel => {
            if !done {
                out.push(S::Wild);
            } else if r.res == Res::Bool(cur.is_some()) {
                out.push(S::Reg(None));
            }
        }
        Rep | TRep => match (cur, &r.res) {
            (None, Res::Rep(2, _)) | (None, Res::TRep(None)) if done => out.push(S::Reg(None)),
            (None, _) => {
                // !done: no effect, already there
            }
            (Some(c), _) if !done => {
                if exp_ok(op.d, c) {
                    out.push(S::Reg(Some(v)));
                }
            }
            (Some(c), Res::Rep(0, p)) | (Some(c), Res::TRep(Some(p))) => {
                if exp_ok(op.d, c) && *p == c {
                    out.push(S::Reg(Some(v)));
                }
            }
            (Some(c), Res::Rep(1, p)) => {
                if !exp_ok(op.d, c) && *p == c {
                    out.push(S::Reg(cur));
                }
            }
            (Some(c), Res::TRep(None)) => {
                if !exp_ok(op.d, c) {
                    out.push(S::Reg(cur));
                }
            }
            _ => {}
        },
        Goc | TGoc => {
            if !done {
                if cur.is_none() {
                    out.push(S::Reg(Some(v)));
                }
                return;
            }
            match (cur, &r.res) {
                (None, Res::Goc(Some(true), x)) | (None, Res::Goc(None, x)) if *x == v => out.push(S::Reg(Some(v))),
                (Some(c), Res::Goc(Some(false), x)) | (Some(c), Res::Goc(None, x)) if *x == c => out.push(S::Reg(cur)),
                _ => {}
            }
        }
        Del | TDel => {
            // Unit: the key was lost with its shard, whatever it was
            if !done || r.res == Res::Val(cur) || r.res == Res::Unit {
                out.push(S::Reg(None));
            }
        }
        _ => {}
    }
}

fn step_list(l: &[(u32, u32)], slack: u32, r: &Rec, done: bool, out: &mut Vec<S>) {
    use K::*;
    let op = &r.op;
    let v = op.c;
    let pos = l.iter().position(|x| x.0 == op.b);
    let cur = pos.map(|p| l[p].1);
    // an emptied list is dropped, and its length starts afresh - unless holes are left behind
    let fin = |l: Vec<(u32, u32)>| S::List(l, slack);
    let interrupted = |l: Vec<(u32, u32)>| S::List(l, slack + 1);
    let same = || S::List(l.to_vec(), slack);
    let put = |promote: bool| {
        let mut n = l.to_vec();
        match pos {
            Some(p) if !promote => n[p].1 = v,
            Some(p) => {
                n.remove(p);
                n.push((op.b, v));
            }
            None => n.push((op.b, v)),
        }
        n
    };
    if !done {
        // even without a visible effect the header may already count the item
        out.push(interrupted(l.to_vec()));
        match op.k {
            LSet => out.push(interrupted(put(false))),
            LRep => {
                if cur.is_some_and(|c| exp_ok(op.d, c)) {
                    out.push(interrupted(put(false)))
                }
            }
            LGoc => {
                if cur.is_none() {
                    out.push(interrupted(put(false)))
                }
            }
            LProm => {
                out.push(S::List(put(true), slack + 2));
                if let Some(p) = pos {
                    let mut n = l.to_vec();
                    n.remove(p);
                    out.push(S::List(n, slack + 2));
                }
            }
            LDel => {
                if let Some(p) = pos {
                    let mut n = l.to_vec();
                    n.remove(p);
                    out.push(interrupted(n));
                }
            }
            LPopH if !l.is_empty() => out.push(interrupted(l[1..].to_vec())),
            LPopT if !l.is_empty() => out.push(interrupted(l[..l.len() - 1].to_vec())),
            LComp | LDisc => {
                out.clear();
                out.push(S::Wild);
            }
            _ => {}
        }
        return;
    }
    match op.k {
        LSet => {
            // (Unit: the second half of a promotion)
            if r.res == Res::Val(cur) || r.res == Res::Unit {
                out.push(fin(put(false)));
            }
        }
        LProm => {
            if r.res == Res::Unit {
                out.push(fin(put(true)));
            }
        }
        LRep => match (cur, &r.res) {
            (None, Res::Rep(2, _)) | (None, Res::TRep(None)) => out.push(same()),
            (Some(c), Res::Rep(0, p)) | (Some(c), Res::TRep(Some(p))) => {
                if exp_ok(op.d, c) && *p == c {
                    out.push(fin(put(false)));
                }
            }
            (Some(c), Res::Rep(1, p)) => {
                if !exp_ok(op.d, c) && *p == c {
                    out.push(same());
                }
            }
            (Some(c), Res::TRep(None)) => {
                if !exp_ok(op.d, c) {
                    out.push(same());
                }
            }
            _ => {}
        },
        LGoc => match (cur, &r.res) {
            (None, Res::Goc(Some(true), x)) | (None, Res::Goc(None, x)) if *x == v => out.push(fin(put(false))),
            (Some(c), Res::Goc(Some(false), x)) | (Some(c), Res::Goc(None, x)) if *x == c => out.push(same()),
            _ => {}
        },
        LGet => {
            if r.res == Res::Val(cur) || r.res == Res::Bool(cur.is_some()) {
                out.push(same());
            }
        }
        LDel => {
            if r.res == Res::Val(cur) || r.res == Res::Unit {
                let mut n = l.to_vec();
                if let Some(p) = pos {
                    n.remove(p);
                }
                out.push(fin(n));
            }
        }
        LPopH => match (&r.res, l.first()) {
            (Res::Kv(None), None) => out.push(same()),
            (Res::Kv(Some(x)), Some(y)) if x == y => out.push(fin(l[1..].to_vec())),
            _ => {}
        },
        LPopT => match (&r.res, l.last()) {
            (Res::Kv(None), None) => out.push(same()),
            (Res::Kv(Some(x)), Some(y)) if x == y => out.push(fin(l[..l.len() - 1].to_vec())),
            _ => {}
        },
        LPeekH => {
            if r.res == Res::Kv(l.first().copied()) {
                out.push(same());
            }
        }
        LPeekT => {
            if r.res == Res::Kv(l.last().copied()) {
                out.push(same());
            }
        }
        LLen => {
            if let Res::Num(n) = r.res {
                if n >= l.len() as u64 && n <= l.len() as u64 + slack as u64 {
                    out.push(same());
                }
            }
        }
        LIter | LIterB => {
            if !r.exact {
                out.push(same());
                return;
            }
            if let Res::Pairs(p) = &r.res {
                let mut p = p.clone();
                if op.k == LIterB {
                    p.reverse();
                }
                if p == l {
                    out.push(same());
                }
            }
        }
        LComp => out.push(same()),
        LDisc => {
            if r.res == Res::Bool(true) || l.is_empty() {
                out.push(S::List(vec![], 0));
            }
        }
        _ => {}
    }
}

fn step_queue(q: &[(Option<u64>, u32)], slack: u32, r: &Rec, done: bool, out: &mut Vec<S>) {
    use K::*;
    let op = &r.op;
    let v = op.c;
    let fin = |q: Vec<(Option<u64>, u32)>| S::Queue(q, slack);
    let same = || S::Queue(q.to_vec(), slack);
    let with = |i: Option<u64>, head: bool| {
        let mut n = q.to_vec();
        if head {
            n.insert(0, (i, v));
        } else {
            n.push((i, v));
        }
        n
    };
    let qdel_idx = ((op.b as u64) << 32) | (op.c ^ 0x4000_0000) as u64;
    if !done {
        let mut more = |n: Vec<(Option<u64>, u32)>| out.push(S::Queue(n, slack + 1));
        more(q.to_vec());
        match op.k {
            // the queue's header may tell of elements that are not there
            QExt => out[0] = S::Queue(q.to_vec(), slack + op.b),
            _ => {}
        }
        let mut more = |n: Vec<(Option<u64>, u32)>| out.push(S::Queue(n, slack + 1));
        match op.k {
            QPushH => more(with(None, true)),
            QPushT => more(with(None, false)),
            QPopH if !q.is_empty() => more(q[1..].to_vec()),
            QPopT if !q.is_empty() => more(q[..q.len() - 1].to_vec()),
            QDel => {
                for (i, e) in q.iter().enumerate() {
                    if e.0 == Some(qdel_idx) || e.0.is_none() {
                        let mut n = q.to_vec();
                        n.remove(i);
                        more(n);
                    }
                }
            }
            QExt => {
                let mut n = q.to_vec();
                for j in 0..op.b {
                    n.push((None, intern(&val_bytes(op.c + j, op.d))));
                    out.push(S::Queue(n.clone(), slack + op.b));
                }
            }
            QDisc => {
                out.clear();
                out.push(S::Wild);
            }
            _ => {}
        }
        return;
    }
    let above = |i: u64| q.iter().all(|e| e.0.is_none_or(|x| x < i));
    let below = |i: u64| q.iter().all(|e| e.0.is_none_or(|x| x > i));
    match op.k {
        QPushH => match r.res {
            Res::Num(i) if below(i) => out.push(fin(with(Some(i), true))),
            Res::Unit => out.push(fin(with(None, true))),
            _ => {}
        },
        QPushT => match r.res {
            Res::Num(i) if above(i) => out.push(fin(with(Some(i), false))),
            Res::Unit => out.push(fin(with(None, false))),
            _ => {}
        },
        QPopH | QPopT | QPeekH | QPeekT => {
            let head = matches!(op.k, QPopH | QPeekH);
            let pop = matches!(op.k, QPopH | QPopT);
            let e = if head { q.first() } else { q.last() };
            let (none, idx, val) = match &r.res {
                Res::IdxVal(None) | Res::IdxMaybe(None) => (true, None, 0),
                Res::IdxVal(Some((i, x))) => (false, Some(*i), *x),
                Res::IdxMaybe(Some(x)) => (false, None, *x),
                _ => return,
            };
            match e {
                None => {
                    if none {
                        out.push(same());
                    }
                }
                Some(e) => {
                    if none || val != e.1 || (idx.is_some() && e.0.is_some() && idx != e.0) {
                        return;
                    }
                    let mut n = q.to_vec();
                    let p = if head { 0 } else { n.len() - 1 };
                    if pop {
                        n.remove(p);
                    } else if let Some(i) = idx {
                        n[p].0 = Some(i);
                    }
                    out.push(fin(n));
                }
            }
        }
        QDel => match &r.res {
            Res::Val(None) => {
                if q.iter().all(|e| e.0 != Some(qdel_idx)) {
                    out.push(same());
                }
            }
            Res::Val(Some(x)) => {
                let known = q.iter().any(|e| e.0 == Some(qdel_idx));
                for (i, e) in q.iter().enumerate() {
                    if e.1 == *x && (e.0 == Some(qdel_idx) || (!known && e.0.is_none())) {
                        let mut n = q.to_vec();
                        n.remove(i);
                        out.push(fin(n));
                    }
                }
            }
            _ => {}
        },
        QLen => {
            if let Res::Num(n) = r.res {
                if n >= q.len() as u64 && n <= q.len() as u64 + slack as u64 {
                    out.push(same());
                }
            }
        }
        QRange => {
            if let Res::Range(a, b) = r.res {
                if a <= b && b - a >= q.len() as u64 && q.iter().all(|e| e.0.is_none_or(|i| i >= a && i < b)) {
                    out.push(same());
                }
            }
        }
        QIter | QIterB => {
            if !r.exact {
                out.push(same());
                return;
            }
            if let Res::IdxPairs(p) = &r.res {
                let mut p = p.clone();
                if op.k == QIterB {
                    p.reverse();
                }
                if p.len() == q.len()
                    && p.windows(2).all(|x| x[0].0 < x[1].0)
                    && p.iter().zip(q).all(|(x, e)| x.1 == e.1 && e.0.is_none_or(|i| i == x.0))
                {
                    out.push(fin(p.iter().map(|x| (Some(x.0), x.1)).collect()));
                }
            }
        }
        QExt => {
            if let Res::Range(a, b) = r.res {
                if b.wrapping_sub(a) == op.b as u64 && (a == b || above(a)) {
                    let mut n = q.to_vec();
                    for j in 0..op.b {
                        n.push((Some(a + j as u64), intern(&val_bytes(op.c + j, op.d))));
                    }
                    out.push(fin(n));
                }
            }
        }
        QDisc => {
            if q.is_empty() || !matches!(r.res, Res::Bool(false)) {
                out.push(S::Queue(vec![], 0));
            }
        }
        _ => {}
    }
}

fn rec_text(r: &Rec) -> String {
    let mut t = format!("{:?}", r.res);
    // values by name
    match &r.res {
        Res::Val(v) | Res::Seen(v) => t = show_opt(*v),
        Res::Rep(s, v) => t = format!("{} {}", ["replaced", "wrong value", "missing"][*s as usize], if *s < 2 { show(*v) } else { String::new() }),
        Res::TRep(v) => t = format!("replaced {}", show_opt(*v)),
        Res::Goc(c, v) => t = format!("{} {}", match c { Some(true) => "created", Some(false) => "exists", None => "" }, show(*v)),
        Res::Kv(x) => t = x.map(|(i, v)| format!("{i}={}", show(v))).unwrap_or("none".into()),
        Res::IdxVal(x) => t = x.map(|(i, v)| format!("#{}={}", i.wrapping_sub(1 << 63) as i64, show(v))).unwrap_or("none".into()),
        Res::IdxMaybe(v) => t = show_opt(*v),
        Res::Pairs(p) => t = p.iter().map(|(i, v)| format!("{i}={}", show(*v))).collect::<Vec<_>>().join(" "),
        Res::IdxPairs(p) => {
            t = p.iter().map(|(i, v)| format!("#{}={}", i.wrapping_sub(1 << 63) as i64, show(*v))).collect::<Vec<_>>().join(" ")
        }
        _ => {}
    }
    let who = if r.th == 99 { "audit".to_string() } else { format!("client {}", r.th) };
    let v = match r.op.k {
        K::Set | K::Rep | K::Goc | K::LSet | K::LRep | K::LGoc | K::LProm | K::QPushH | K::QPushT | K::BSet | K::TSet | K::TRep | K::TGoc => {
            format!(" {}", show(r.op.c))
        }
        _ => String::new(),
    };
    let e = if r.op.d > 0 && matches!(r.op.k, K::Rep | K::LRep | K::TRep) { format!(" expecting {}", show(r.op.d - 1)) } else { String::new() };
    let item = if matches!(r.op.k, K::LSet | K::LRep | K::LGoc | K::LProm | K::LGet | K::LDel) { format!(" item {}", r.op.b) } else { String::new() };
    let res = match r.st {
        St8::Pending => "(cut off by the crash)".to_string(),
        St8::Err => format!("error: {t}"),
        St8::Ok => t,
    };
    format!("[{}..{}] {who} phase {} {}{item}{v}{e} -> {res}", r.inv, if r.ret == u64::MAX { "".into() } else { r.ret.to_string() }, r.phase, r.op.k.name())
}

struct Fail {
    at: usize,
    states: Vec<S>,
}

/// A promotion is documented as a removal followed by an insertion: others may come in between. Returns which
/// operations have to follow the one before them.
fn split_promotions(recs: &mut Vec<Rec>) -> BTreeSet<usize> {
    let mut second = BTreeSet::new();
    let mut out = Vec::with_capacity(recs.len());
    for r in recs.drain(..) {
        if r.op.k != K::LProm || r.exact {
            out.push(r);
            continue;
        }
        let mut a = r.clone();
        a.op.k = K::LDel;
        out.push(a);
        let mut b = r;
        b.op.k = K::LSet;
        second.insert(out.len());
        out.push(b);
    }
    *recs = out;
    second
}

/// just-in-time linearization of one object's history (recs in order of invocation)
fn linearize(recs: &[Rec], second: &BTreeSet<usize>, init: S) -> Result<(), Fail> {
    // events: (time, is_return, rec)
    let mut ev: Vec<(u64, bool, usize)> = vec![];
    for (i, r) in recs.iter().enumerate() {
        ev.push((r.inv, false, i));
        if r.ret != u64::MAX {
            ev.push((r.ret, true, i));
        }
    }
    ev.sort();
    let mut slots: [Option<usize>; 64] = [None; 64];
    let mut slot_of: BTreeMap<usize, usize> = BTreeMap::new();
    let mut configs: BTreeSet<(u64, S)> = BTreeSet::new();
    configs.insert((0, init));
    let mut work = 0u64;
    let mut nexts = vec![];
    for (_, is_ret, i) in ev {
        if !is_ret {
            let Some(s) = slots.iter().position(|x| x.is_none()) else {
                hit(P_INCONCLUSIVE);
                return Ok(());
            };
            slots[s] = Some(i);
            slot_of.insert(i, s);
            continue;
        }
        let x = slot_of.remove(&i).unwrap();
        let bit = 1u64 << x;
        let mut res: BTreeSet<(u64, S)> = BTreeSet::new();
        let mut seen: BTreeSet<(u64, S)> = BTreeSet::new();
        let mut todo: Vec<(u64, S)> = configs.iter().cloned().collect();
        while let Some((m, s)) = todo.pop() {
            if m & bit != 0 {
                res.insert((m & !bit, s));
                continue;
            }
            if !seen.insert((m, s.clone())) {
                continue;
            }
            work += 1;
            if work > 400_000 {
                hit(P_INCONCLUSIVE);
                return Ok(());
            }
            for (j, sl) in slots.iter().enumerate() {
                let Some(o) = sl else { continue };
                if m & (1 << j) != 0 {
                    continue;
                }
                if second.contains(o) && slots.iter().position(|p| *p == Some(*o - 1)).is_some_and(|p| m & (1 << p) == 0) {
                    continue;
                }
                nexts.clear();
                step(&s, &recs[*o], &mut nexts);
                for n in nexts.drain(..) {
                    todo.push((m | (1 << j), n));
                }
            }
        }
        if res.is_empty() {
            let mut st: Vec<S> = configs.into_iter().map(|c| c.1).collect();
            st.dedup();
            return Err(Fail { at: i, states: st });
        }
        slots[x] = None;
        configs = res;
    }
    stats::add(P_STATES, work);
    if configs.iter().any(|c| c.1 == S::Wild) {
        hit(P_TAINTED);
    }
    Ok(())
}

fn class_of(o: Obj) -> &'static str {
    match o {
        Obj::Key(_) => "kv-history",
        Obj::Typed(_) => "typed-history",
        Obj::List(_) => "list-history",
        Obj::Queue(_) => "queue-history",
        Obj::Big(_) => "big-history",
    }
}

fn mutates(r: &Rec) -> bool {
    use K::*;
    matches!(r.op.k, Set | Rep | Goc | Del | Clear)
}
/// did this completed operation certainly change the key?
fn certainly(r: &Rec) -> bool {
    r.st == St8::Ok
        && match (&r.op.k, &r.res) {
            (K::Set, _) | (K::Clear, _) => true,
            (K::Rep, Res::Rep(0, _)) => true,
            (K::Goc, Res::Goc(Some(true), _)) => true,
            (K::Del, Res::Val(Some(_))) => true,
            _ => false,
        }
}
fn may_write(r: &Rec, v: u32) -> bool {
    match r.op.k {
        K::Set => r.op.c == v,
        K::Goc => r.op.c == v && (r.st != St8::Ok || certainly(r)),
        K::Rep => r.op.c == v && (r.st != St8::Ok || certainly(r)),
        _ => false,
    }
}

/// what iterations saw, turned into lookups where the key was not being changed
fn iterations(groups: &mut BTreeMap<Obj, Vec<Rec>>) {
    let w = w();
    for it in &w.iters {
        let mut by: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for (k, v) in &it.items {
            by.entry(*k).or_default().push(*v);
        }
        for (k, vs) in &by {
            if it.exact && vs.len() > 1 {
                viol("iteration", &format!("an undisturbed iteration yields key {k} {} times", vs.len()));
            }
        }
        // merging moves entries to other places; an iteration it happens in may miss some
        let merged = w.hist.iter().any(|h| h.op.k == K::Merge && h.inv < it.ret && (h.ret > it.inv || h.st == St8::Pending));
        let keys: Vec<u32> = (0..w.sc.cfg.nkeys).collect();
        for k in keys {
            let recs = groups.entry(Obj::Key(k)).or_default();
            let touched = recs.iter().any(|r| mutates(r) && r.inv < it.ret && r.ret > it.inv);
            let seen = by.get(&k);
            if !touched {
                // as good as a lookup
                let obs: Vec<Option<u32>> = match seen {
                    None if merged => vec![],
                    None => vec![None],
                    Some(vs) => vs.iter().map(|v| Some(*v)).collect(),
                };
                for v in obs {
                    let at = recs.partition_point(|r| r.inv <= it.inv);
                    recs.insert(
                        at,
                        Rec {
                            th: 98,
                            op: Op::new(K::Get, k, 0, 0, 0),
                            inv: it.inv,
                            ret: it.ret,
                            st: St8::Ok,
                            res: Res::Seen(v),
                            step: 0,
                            phase: it.phase,
                            exact: it.exact,
                        },
                    );
                }
            } else if let Some(vs) = seen {
                for v in vs {
                    let ok = recs.iter().any(|x| {
                        may_write(x, *v)
                            && x.inv < it.ret
                            && !recs.iter().any(|y| certainly(y) && y.inv > x.ret && y.ret < it.inv)
                    });
                    if !ok {
                        viol(
                            "iteration",
                            &format!("an iteration [{}..{}] yields key {k} = {}, which it did not have during that time", it.inv, it.ret, show(*v)),
                        );
                    }
                }
            }
        }
    }
}

/// the places the records give an element of a list: its item, and for the queue its index and value
fn made(r: &Rec) -> Vec<(u64, u32)> {
    if r.st != St8::Ok {
        return vec![];
    }
    match (r.op.k, &r.res) {
        (K::QPushH | K::QPushT, Res::Num(i)) => vec![(*i, r.op.c)],
        (K::QExt, Res::Range(x, _)) => (0..r.op.b).map(|j| (x + j as u64, intern(&val_bytes(r.op.c + j, r.op.d)))).collect(),
        _ => vec![],
    }
}
/// could this operation have removed the element of a queue, or (certain) did it?
fn unmakes(r: &Rec, i: u64, v: u32, certain: bool) -> bool {
    let ok = r.st == St8::Ok;
    match (r.op.k, &r.res) {
        (K::QDel, res) => {
            let idx = (r.op.c ^ 0x4000_0000) as u64 | (r.op.b as u64) << 32;
            idx == i && if ok { *res != Res::Val(None) } else { !certain }
        }
        (K::QPopH | K::QPopT, _) if !ok => !certain,
        (K::QPopH | K::QPopT, Res::IdxVal(x)) => x.is_some_and(|x| x.0 == i),
        (K::QPopH | K::QPopT, Res::IdxMaybe(x)) => !certain && *x == Some(v), // another one may be equal
        (K::QDisc | K::Clear, _) => ok || !certain,
        _ => false,
    }
}
/// could this operation have taken the item out of its list?
fn takes_out(r: &Rec, item: u32) -> bool {
    let ok = r.st == St8::Ok;
    match (r.op.k, &r.res) {
        (K::LDel, res) => r.op.b == item && !(ok && *res == Res::Val(None)),
        (K::LPopH | K::LPopT, Res::Kv(x)) if ok => x.is_some_and(|x| x.0 == item),
        (K::LPopH | K::LPopT | K::LDisc | K::Clear, _) => true,
        (K::LProm, _) => r.op.b == item && !ok,
        _ => false,
    }
}

/// iterations over lists and queues while they are modified: every yielded element had that value at some time
/// meanwhile; what is in the list or queue all the time and is not moved is yielded once, in order
fn list_iterations(o: Obj, recs: &[Rec]) {
    let calm = w().crashes.is_empty();
    for it in recs {
        if it.st != St8::Ok || it.exact {
            continue;
        }
        let usable = |r: &Rec| r.st == St8::Ok && r.ret < it.inv && (calm || r.phase == it.phase);
        match (&it.res, o) {
            (Res::Pairs(p), Obj::List(l)) => {
                let fwd = it.op.k == K::LIter;
                let mut pos: BTreeMap<u32, usize> = BTreeMap::new();
                for (n, (item, v)) in p.iter().enumerate() {
                    let dup = pos.insert(*item, n).is_some();
                    let untouched = !recs.iter().any(|r| {
                        r.inv < it.ret
                            && r.ret > it.inv
                            && match r.op.k {
                                K::LSet | K::LProm | K::LRep | K::LGoc | K::LDel => r.op.b == *item,
                                K::LPopH | K::LPopT | K::LDisc | K::LComp | K::Clear => true,
                                _ => false,
                            }
                    });
                    if dup && untouched {
                        viol("list-iteration", &format!("an iteration over list {l} yields item {item} twice although it was not touched"));
                    }
                    let wrote = recs.iter().any(|r| {
                        matches!(r.op.k, K::LSet | K::LProm | K::LRep | K::LGoc)
                            && r.op.b == *item
                            && r.op.c == *v
                            && r.inv < it.ret
                            && !recs.iter().any(|y| {
                                y.st == St8::Ok
                                    && y.inv > r.ret
                                    && y.ret < it.inv
                                    && match (&y.op.k, &y.res) {
                                        (K::LSet | K::LProm, _) => y.op.b == *item,
                                        (K::LRep, Res::Rep(0, _)) | (K::LRep, Res::TRep(Some(_))) => y.op.b == *item,
                                        (K::LDel, Res::Val(Some(_))) => y.op.b == *item,
                                        (K::LPopH | K::LPopT, Res::Kv(Some((i, _)))) => i == item,
                                        (K::LDisc | K::Clear, _) => true,
                                        _ => false,
                                    }
                            })
                    });
                    if !wrote {
                        viol(
                            "list-iteration",
                            &format!("{}: item {item} did not have the value {} during that time", rec_text(it), show(*v)),
                        );
                    }
                }
                let during = |r: &Rec| r.inv < it.ret && r.ret > it.inv;
                if recs.iter().any(|r| r.op.k == K::LComp && during(r)) {
                    continue; // all places change
                }
                // the items that are there all the time, with the operation that gave them their place if that is known
                let mut firm: Vec<(u32, Option<&Rec>)> = vec![];
                for item in 0..w().sc.cfg.nitems {
                    let of = |r: &Rec| matches!(r.op.k, K::LSet | K::LProm | K::LRep | K::LGoc) && r.op.b == item;
                    let stays = |from: &Rec| {
                        !recs.iter().any(|r| {
                            r.inv < it.ret
                                && ((r.ret > from.inv && takes_out(r, item)) || (r.op.k == K::LProm && r.op.b == item && during(r)))
                        })
                    };
                    let there = recs.iter().any(|r| {
                        usable(r) && of(r) && !matches!(r.res, Res::Rep(1 | 2, _) | Res::TRep(None)) && stays(r)
                    });
                    if !there {
                        continue;
                    }
                    let maker = recs.iter().find(|r| {
                        usable(r)
                            && of(r)
                            && matches!((r.op.k, &r.res), (K::LSet, Res::Val(None)) | (K::LGoc, Res::Goc(Some(true), _)) | (K::LProm, _))
                            && stays(r)
                            && !recs.iter().any(|x| x.inv != r.inv && of(x) && x.op.k == K::LProm && x.ret > r.inv && x.inv < it.ret)
                    });
                    firm.push((item, maker));
                    if !pos.contains_key(&item) {
                        viol("list-iteration", &format!("{} misses item {item}, which was in the list all the time", rec_text(it)));
                    }
                }
                for (a, x) in &firm {
                    for (b, y) in &firm {
                        if let (Some(x), Some(y)) = (x, y) {
                            if a != b && x.ret < y.inv && (pos[a] < pos[b]) != fwd {
                                viol("list-iteration", &format!("{} yields items {a} and {b} in the wrong order", rec_text(it)));
                            }
                        }
                    }
                }
            }
            (Res::IdxPairs(p), Obj::Queue(q)) => {
                let fwd = it.op.k == K::QIter;
                for x in p.windows(2) {
                    if (x[0].0 < x[1].0) != fwd || x[0].0 == x[1].0 {
                        viol("queue-iteration", &format!("an iteration over queue {q} yields indices out of order"));
                    }
                }
                for (i, v) in p {
                    let wrote = recs.iter().any(|r| {
                        r.inv < it.ret
                            && match (r.op.k, &r.res) {
                                (K::QPushH | K::QPushT | K::QExt, Res::Num(_) | Res::Range(..)) if r.st == St8::Ok => made(r).contains(&(*i, *v)),
                                (K::QPushH | K::QPushT, _) => r.op.c == *v,
                                (K::QExt, _) => (0..r.op.b).any(|j| intern(&val_bytes(r.op.c + j, r.op.d)) == *v),
                                _ => false,
                            }
                            && !recs.iter().any(|y| y.inv > r.ret && y.ret < it.inv && unmakes(y, *i, *v, true))
                    });
                    if !wrote {
                        viol("queue-iteration", &format!("{}: {} was not in queue {q} with index {i} during that time", rec_text(it), show(*v)));
                    }
                }
                for r in recs {
                    if usable(r) {
                        for (i, v) in made(r) {
                            if !p.contains(&(i, v)) && !recs.iter().any(|x| x.ret > r.inv && x.inv < it.ret && unmakes(x, i, v, false)) {
                                viol("queue-iteration", &format!("{} misses {} with index {i}, which was in the queue all the time", rec_text(it), show(v)));
                            }
                        }
                    } else if r.th == it.th && r.inv > it.inv && r.ret < it.ret {
                        // pushed by the iterating thread itself, at a place that never had an element
                        for (i, v) in made(r) {
                            let fresh = !recs.iter().any(|x| {
                                x.inv != r.inv
                                    && x.inv < it.ret
                                    && matches!(x.op.k, K::QPushH | K::QPushT | K::QExt)
                                    && (x.st != St8::Ok || x.res == Res::Unit || made(x).iter().any(|m| m.0 == i))
                            });
                            if fresh && p.contains(&(i, v)) {
                                viol("queue-iteration", &format!("{} yields {} with index {i}, which was pushed after it began", rec_text(it), show(v)));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// C22: a crash inside clear leaves everything or nothing
fn clear_atomic() {
    let w = w();
    for (i, c) in w.hist.iter().enumerate() {
        if c.op.k != K::Clear || c.st != St8::Pending {
            continue;
        }
        // alone: nothing else was in progress, and an audit came directly before
        if w.hist.iter().any(|h| h.inv != c.inv && h.inv < c.ret && h.ret > c.inv) {
            continue;
        }
        let val = |h: &Rec| -> Option<(String, String)> {
            use K::*;
            match h.op.k {
                Get | TGet | BGet | LGet | LIter | QIter => {
                    Some((format!("{:?} {} {}", h.op.k, h.op.a, if h.op.k == LGet { h.op.b } else { 0 }), format!("{:?}", h.res)))
                }
                _ => None,
            }
        };
        let mut before = BTreeMap::new();
        for h in w.hist[..i].iter() {
            if h.th == 99 && h.st == St8::Ok && h.phase == c.phase {
                if let Some((k, v)) = val(h) {
                    before.insert(k, v);
                }
            }
            if h.th != 99 && !matches!(h.op.k, K::Stats | K::Flush) && h.phase == c.phase {
                before.clear();
            }
        }
        if before.is_empty() {
            continue;
        }
        // the first look after the crash
        let mut after = BTreeMap::new();
        for h in w.hist[i + 1..].iter() {
            if h.th != 99 {
                break;
            }
            if let Some((k, v)) = val(h) {
                if after.contains_key(&k) {
                    break;
                }
                after.insert(k, v);
            }
        }
        let empty = |v: &str| matches!(v, "Val(None)" | "Pairs([])" | "IdxPairs([])");
        let (mut kept, mut lost) = (vec![], vec![]);
        for (k, v) in &after {
            let Some(b) = before.get(k) else { continue };
            if empty(b) {
                continue;
            }
            if v == b {
                kept.push(k.clone());
            } else {
                lost.push(k.clone());
            }
        }
        if !kept.is_empty() && !lost.is_empty() {
            viol(
                "clear-torn",
                &format!("after a crash inside clear() {} objects are still there ({} ..) and {} are gone ({} ..)", kept.len(), kept[0], lost.len(), lost[0]),
            );
        }
    }
}

pub fn check_all() {
    let w = w();
    let mut groups: BTreeMap<Obj, Vec<Rec>> = BTreeMap::new();
    let lossy = w.crashes.iter().any(|c| c.1);
    let clears: Vec<Rec> = w.hist.iter().filter(|h| h.op.k == K::Clear).cloned().collect();
    for h in &w.hist {
        let mutating = !matches!(
            h.op.k,
            K::Get | K::Has | K::TGet | K::BGet | K::LGet | K::LPeekH | K::LPeekT | K::LLen | K::LIter | K::LIterB | K::QPeekH
                | K::QPeekT | K::QLen | K::QRange | K::QIter | K::QIterB
        );
        // a failed or interrupted lookup says nothing, except after a power failure
        if h.st != St8::Ok && !mutating && !(lossy && h.st == St8::Err) {
            continue;
        }
        if let Some(o) = obj_of(&h.op) {
            groups.entry(o).or_default().push(h.clone());
        }
    }
    if !clears.is_empty() {
        for g in groups.values_mut() {
            g.extend(clears.iter().cloned());
            g.sort_by_key(|r| r.inv);
        }
    }
    power_filter(&mut groups);
    if lossy {
        for g in groups.values_mut() {
            g.retain(|r| r.st == St8::Ok || mutates(r) || !matches!(r.op.k, K::Get | K::Has));
        }
    }
    iterations(&mut groups);
    for (o, recs) in &mut groups {
        if matches!(o, Obj::List(_) | Obj::Queue(_)) {
            list_iterations(*o, recs);
            // the search below learns nothing from them
            recs.retain(|r| r.exact || !matches!(r.op.k, K::LIter | K::LIterB | K::QIter | K::QIterB));
        }
        // discarding removes the items one by one, and lookups don't wait for it
        let disc: Vec<(u64, u64)> = recs.iter().filter(|r| r.op.k == K::LDisc && !r.exact).map(|r| (r.inv, r.ret)).collect();
        if !disc.is_empty() {
            recs.retain(|r| r.op.k != K::LGet || !disc.iter().any(|d| r.inv < d.1 && r.ret > d.0));
        }
        let second = split_promotions(recs);
        let recs = &*recs;
        let init = match o {
            Obj::List(_) => S::List(vec![], 0),
            Obj::Queue(_) => S::Queue(vec![], 0),
            _ => S::Reg(None),
        };
        // big values are documented as not atomic: with overlapping operations on one nothing is promised
        if matches!(o, Obj::Big(_)) {
            let mut end = 0;
            let overlap = recs.iter().any(|r| {
                let x = r.inv < end;
                end = end.max(r.ret);
                x
            });
            if overlap {
                continue;
            }
        }
        if let Err(f) = linearize(recs, &second, init) {
            let bad = &recs[f.at];
            let mut msg = format!("{o:?}: no order of the operations explains {}", rec_text(bad));
            msg += &format!("\n  possible states before it: {}", f.states.iter().take(6).map(show_state).collect::<Vec<_>>().join(" | "));
            msg += "\n  operations on it before:";
            let mut lines: Vec<String> = recs
                .iter()
                .filter(|r| r.inv <= bad.ret && !(r.th >= 98 && r.ret < bad.inv && !matches!(r.op.k, K::Set | K::Del)) )
                .map(|r| format!("\n    {}", rec_text(r)))
                .collect();
            let n = lines.len().saturating_sub(14);
            for l in lines.drain(n..) {
                let l: String = l.chars().take(360).collect();
                msg += &l;
            }
            viol(class_of(*o), &msg);
        }
    }
    clear_atomic();
}

/// After a power failure only some keys are promised anything: with an explicit flush (C12) those whose
/// operations had all been acknowledged before a successful flush began, with flush aggregation (C13)
/// those without an operation in flight. Of the other keys nothing after the failure is checked.
fn power_filter(groups: &mut BTreeMap<Obj, Vec<Rec>>) {
    let w = w();
    let Some(loss) = w.crashes.iter().find(|c| c.1).map(|c| c.0) else { return };
    let agg = w.sc.prop == "C13";
    let flushes: Vec<(u64, u64)> =
        w.hist.iter().filter(|h| h.op.k == K::Flush && h.st == St8::Ok && h.ret < loss).map(|h| (h.inv, h.ret)).collect();
    // the flush that began last
    let flush = flushes.iter().map(|f| f.0).max().unwrap_or(0);
    for (o, recs) in groups.iter_mut() {
        // what a failed operation left is synced by the next flush, or (with aggregation) the next acknowledged set
        let key = matches!(o, Obj::Key(_));
        let set = recs.iter().filter(|r| key && r.op.k == K::Set && r.st == St8::Ok && r.ret < loss).map(|r| r.inv).max().unwrap_or(0);
        let protected = recs.iter().filter(|r| r.inv < loss && (mutates(r) || !key)).all(|r| {
            let failed = key && r.st == St8::Err;
            if agg {
                r.st == St8::Ok && r.ret < loss || failed && r.ret < set
            } else {
                (r.st == St8::Ok || failed) && r.ret < flush
            }
        });
        if protected {
            if let Some(r) = recs.iter().find(|r| r.inv > loss && r.st == St8::Err && !may_fail(r)) {
                viol("flushed-data", &format!("{o:?} had been flushed before a power failure, after it {}", rec_text(r)));
            }
            stats::add(P_PROTECTED, recs.iter().filter(|r| r.inv > loss).count() as u64);
        } else {
            recs.retain(|r| r.inv < loss);
        }
    }
    // iterations after the loss are only as good as the weakest key
    w.iters.retain(|i| i.inv < loss);
}
