//! Callbacks the compiler inserts into candystore (`-Zsanitizer=thread` code generation, without its
//! runtime): every atomic operation and every store to - optionally load from - a mapped shard header is
//! a scheduling point and a crash point, placed immediately before the access.
#![allow(non_snake_case)]
use crate::rt::*;
use std::sync::atomic::*;

#[inline(always)]
fn acc(a: usize, n: usize, kind: u32) {
    unsafe {
        if TID == NONE || INSIDE != 0 {
            return;
        }
    }
    let r = rt();
    if r.fs.in_arena(a) {
        access(r, a, n, kind);
    }
}
#[cold]
#[inline(never)]
fn access(r: &mut Rt, a: usize, n: usize, kind: u32) {
    if r.quiet && kind == K_LOAD {
        if let Err(e) = r.fs.check_access(a, n) {
            fatal("memory", &e);
        }
        return;
    }
    let _i = inside();
    match r.fs.check_access(a, n) {
        Ok(ino) => {
            if kind == K_STORE && r.trace_on {
                let name = r.fs.inodes[ino].name.clone();
                let off = (a - r.fs.arena) % crate::fs::SLOT;
                r.note(|| format!("store {} +{:#x} ({n} bytes)", name.trim_start_matches("/sim/"), off));
            }
        }
        Err(e) => fatal("memory", &e),
    }
    r.point(kind);
    if let Err(e) = r.fs.check_access(a, n) {
        fatal("memory", &e);
    }
}
fn atomic_point(a: usize, n: usize, write: bool) {
    unsafe {
        if TID == NONE || INSIDE != 0 {
            return;
        }
    }
    let r = rt();
    if r.fs.in_arena(a) {
        access(r, a, n, if write { K_STORE } else { K_ATOMIC });
    } else {
        let _i = inside();
        r.point(K_ATOMIC);
    }
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_p: usize) {
    unsafe {
        if TID != NONE && INSIDE == 0 {
            let r = rt();
            r.fuel += 1;
            if r.fuel > r.fuel_cap {
                let d = r.describe();
                fatal("livelock", &format!("call limit exceeded: {d}"));
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
macro_rules! plain { ($($n:literal $r:ident $w:ident $ur:ident $uw:ident $rw:ident $urw:ident $vr:ident $vw:ident $uvr:ident $uvw:ident;)*) => {$(
    #[no_mangle] pub extern "C" fn $r(a: usize) { acc(a, $n, K_LOAD) }
    #[no_mangle] pub extern "C" fn $ur(a: usize) { acc(a, $n, K_LOAD) }
    #[no_mangle] pub extern "C" fn $vr(a: usize) { acc(a, $n, K_LOAD) }
    #[no_mangle] pub extern "C" fn $uvr(a: usize) { acc(a, $n, K_LOAD) }
    #[no_mangle] pub extern "C" fn $w(a: usize) { acc(a, $n, K_STORE) }
    #[no_mangle] pub extern "C" fn $uw(a: usize) { acc(a, $n, K_STORE) }
    #[no_mangle] pub extern "C" fn $rw(a: usize) { acc(a, $n, K_STORE) }
    #[no_mangle] pub extern "C" fn $urw(a: usize) { acc(a, $n, K_STORE) }
    #[no_mangle] pub extern "C" fn $vw(a: usize) { acc(a, $n, K_STORE) }
    #[no_mangle] pub extern "C" fn $uvw(a: usize) { acc(a, $n, K_STORE) }
)*}}
plain! {
  1 __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 __tsan_read_write1 __tsan_unaligned_read_write1 __tsan_volatile_read1 __tsan_volatile_write1 __tsan_unaligned_volatile_read1 __tsan_unaligned_volatile_write1;
  2 __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_read_write2 __tsan_unaligned_read_write2 __tsan_volatile_read2 __tsan_volatile_write2 __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_write2;
  4 __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_read_write4 __tsan_unaligned_read_write4 __tsan_volatile_read4 __tsan_volatile_write4 __tsan_unaligned_volatile_read4 __tsan_unaligned_volatile_write4;
  8 __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_read_write8 __tsan_unaligned_read_write8 __tsan_volatile_read8 __tsan_volatile_write8 __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_write8;
  16 __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_read_write16 __tsan_unaligned_read_write16 __tsan_volatile_read16 __tsan_volatile_write16 __tsan_unaligned_volatile_read16 __tsan_unaligned_volatile_write16;
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, n: usize) {
    acc(a, n, K_LOAD)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, n: usize) {
    acc(a, n, K_STORE)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(_a: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_a: usize, _b: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
/// bulk copies into a mapping are not atomic: they are done in pieces with a point before each
unsafe fn pieces(d: usize, n: usize, mut f: impl FnMut(usize, usize)) {
    if n == 0 {
        return;
    }
    if TID == NONE || INSIDE != 0 || !rt().fs.in_arena(d) {
        f(0, n);
        return;
    }
    // at most 64 pieces
    let step = ((n + 63) / 64 + 7) & !7;
    let mut o = 0;
    while o < n {
        let k = step.min(n - o);
        acc(d + o, k, K_STORE);
        f(o, k);
        o += k;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    acc(s as usize, n, K_LOAD);
    pieces(d as usize, n, |o, k| std::ptr::copy_nonoverlapping(s.add(o), d.add(o), k));
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    acc(s as usize, n, K_LOAD);
    acc(d as usize, n, K_STORE);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    pieces(d as usize, n, |o, k| std::ptr::write_bytes(d.add(o), v as u8, k));
    d
}
macro_rules! atomics { ($($t:ty, $at:ty, $n:literal: $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cxs:ident $cxw:ident $cxv:ident;)*) => {$(
    #[no_mangle] pub unsafe extern "C" fn $load(a: *const $at, _o: i32) -> $t { atomic_point(a as usize, $n, false); (*a).load(Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $store(a: *const $at, v: $t, _o: i32) { atomic_point(a as usize, $n, true); (*a).store(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xchg(a: *const $at, v: $t, _o: i32) -> $t { atomic_point(a as usize, $n, true); (*a).swap(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $add(a: *const $at, v: $t, _o: i32) -> $t { atomic_point(a as usize, $n, true); (*a).fetch_add(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sub(a: *const $at, v: $t, _o: i32) -> $t { atomic_point(a as usize, $n, true); (*a).fetch_sub(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $and(a: *const $at, v: $t, _o: i32) -> $t { atomic_point(a as usize, $n, true); (*a).fetch_and(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(a: *const $at, v: $t, _o: i32) -> $t { atomic_point(a as usize, $n, true); (*a).fetch_or(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xor(a: *const $at, v: $t, _o: i32) -> $t { atomic_point(a as usize, $n, true); (*a).fetch_xor(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $nand(a: *const $at, v: $t, _o: i32) -> $t { atomic_point(a as usize, $n, true); (*a).fetch_nand(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cxs(a: *const $at, c: *mut $t, v: $t, _o: i32, _f: i32) -> i32 {
        atomic_point(a as usize, $n, true);
        match (*a).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
    #[no_mangle] pub unsafe extern "C" fn $cxw(a: *const $at, c: *mut $t, v: $t, o: i32, f: i32) -> i32 { $cxs(a, c, v, o, f) }
    #[no_mangle] pub unsafe extern "C" fn $cxv(a: *const $at, c: $t, v: $t, _o: i32, _f: i32) -> $t {
        atomic_point(a as usize, $n, true);
        match (*a).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) => x, Err(x) => x } }
)*}}
atomics! {
  u8, AtomicU8, 1: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
  u16, AtomicU16, 2: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
  u32, AtomicU32, 4: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
  u64, AtomicU64, 8: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    fence(Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
