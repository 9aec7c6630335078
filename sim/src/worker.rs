//! One process per run: the child simulates one scenario and reports through shared memory; workers hand
//! out seeds, and the parent collects the outcomes.
#![allow(static_mut_refs)]
use crate::rt::*;
use crate::scen::Scenario;
use crate::stats;

pub const S_NONE: u32 = 0;
pub const S_OK: u32 = 1;
pub const S_VIOL: u32 = 2;
pub const S_HARNESS: u32 = 3;
pub const S_TIMEOUT: u32 = 4;

const MEM: u64 = (3500u64 << 20) + (crate::fs::SLOT * crate::fs::MAX_INODES) as u64;
const MAXX: usize = 60_000;
const MAXF: usize = 4096;
const MAXT: usize = 8 << 20;

#[repr(C)]
struct Shm {
    status: u32,
    class_len: u32,
    msg_len: u32,
    nx: u32,
    nc: u32,
    nf: u32,
    trace_len: u32,
    over: u32,
    steps: u64,
    now: u64,
    hash: u64,
    switches: u64,
    points: [u64; NKINDS],
    counters: [u64; stats::N],
    crashes: [(u64, u64); 64],
    class: [u8; 64],
    msg: [u8; 6000],
    x: [(u64, u64); MAXX],
    f: [(u64, u64); MAXF],
    trace: [u8; MAXT],
}
static mut SHM: *mut Shm = std::ptr::null_mut();
static mut TRACE: bool = false;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub status: u32,
    pub class: String,
    pub msg: String,
    pub exceptions: Vec<(u64, u32)>,
    pub crashes: Vec<(u64, u32)>,
    pub faults: Vec<(u64, u32)>,
    pub steps: u64,
    pub now: u64,
    pub hash: u64,
    pub switches: u64,
    pub points: [u64; NKINDS],
    pub counters: Vec<u64>,
    pub trace: String,
    pub overflow: bool,
}

pub fn trace_wanted() -> bool {
    unsafe { TRACE }
}
/// must be called once in every process that runs scenarios
pub fn init_shm() {
    unsafe {
        let n = std::mem::size_of::<Shm>();
        let p = sys6(9, 0, n as u64, 3, (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as u64, u64::MAX, 0);
        assert!(!(-4096..0).contains(&p), "mmap of the result area failed");
        SHM = p as *mut Shm;
    }
}
fn put(dst: &mut [u8], s: &str) -> u32 {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    n as u32
}
fn finish(status: u32, class: &str, msg: &str) -> ! {
    unsafe {
        let s = &mut *SHM;
        s.class_len = put(&mut s.class, class);
        s.msg_len = put(&mut s.msg, msg);
        if !RT.is_null() {
            let r = rt();
            s.steps = r.step;
            s.now = r.now;
            s.hash = r.out.hash;
            s.switches = r.out.switches;
            s.points = r.out.points;
            s.over = (r.out.exceptions.len() > MAXX || r.out.faults.len() > MAXF || r.out.crashes.len() > 64) as u32;
            s.nx = r.out.exceptions.len().min(MAXX) as u32;
            for (i, e) in r.out.exceptions.iter().take(MAXX).enumerate() {
                s.x[i] = (e.0, e.1 as u64);
            }
            s.nf = r.out.faults.len().min(MAXF) as u32;
            for (i, e) in r.out.faults.iter().take(MAXF).enumerate() {
                s.f[i] = (e.0, e.1 as u64);
            }
            s.nc = r.out.crashes.len().min(64) as u32;
            for (i, e) in r.out.crashes.iter().take(64).enumerate() {
                s.crashes[i] = (e.0, e.1 as u64);
            }
            let mut o = 0;
            if r.trace_on {
                let total: usize = r.trace.iter().map(|l| l.len() + 1).sum();
                let mut skip = total.saturating_sub(MAXT);
                for l in &r.trace {
                    if skip > 0 {
                        skip = skip.saturating_sub(l.len() + 1);
                        continue;
                    }
                    let n = l.len();
                    if o + n + 1 > MAXT {
                        break;
                    }
                    s.trace[o..o + n].copy_from_slice(l.as_bytes());
                    s.trace[o + n] = b'\n';
                    o += n + 1;
                }
            }
            s.trace_len = o as u32;
        }
        s.counters = stats::C;
        std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
        std::ptr::write_volatile(&mut s.status, status);
        libc::_exit(0)
    }
}
pub fn child_fail(class: &str, msg: &str) -> ! {
    unsafe {
        if SHM.is_null() {
            libc::_exit(5);
        }
    }
    finish(if class == "harness" { S_HARNESS } else { S_VIOL }, class, msg)
}
extern "C" fn on_signal(sig: i32) {
    unsafe { INSIDE += 1 };
    let n = match sig {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        _ => "SIGABRT",
    };
    let d = if unsafe { RT.is_null() } || !simulated() { String::new() } else { rt().describe() };
    child_fail("signal", &format!("the process died with {n}: {d}"))
}
pub fn child_setup() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|info| {
        unsafe { INSIDE += 1 };
        let raw = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let loc = raw.trim_start_matches("/repo/");
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let d = if unsafe { RT.is_null() } || !simulated() {
            String::new()
        } else {
            let t = tid() as usize;
            let o = rt().threads[t].op.clone();
            if o.is_empty() { " in a background thread".into() } else { format!(" during {o}") }
        };
        // the harness's own files are the only ones compiled with a relative path
        let class = if raw.starts_with("src/") { "harness" } else { "panic" };
        child_fail(class, &format!("panic at {loc}: {m}{d}"))
    }));
}
/// runs a scenario in a child process and returns its outcome
pub fn run_child(sc: &Scenario, trace: bool, timeout: u32) -> Outcome {
    unsafe {
        let s = &mut *SHM;
        s.status = S_NONE;
        s.nx = 0;
        s.nf = 0;
        s.nc = 0;
        s.trace_len = 0;
        s.class_len = 0;
        s.msg_len = 0;
        let pid = libc::fork();
        if pid < 0 {
            return Outcome { status: S_HARNESS, msg: "fork failed".into(), ..Default::default() };
        }
        if pid == 0 {
            TRACE = trace;
            stats::C = [0; stats::N];
            libc::alarm(timeout);
            let lim = libc::rlimit { rlim_cur: MEM, rlim_max: MEM };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            child_setup();
            let sc = sc.clone();
            crate::exec::run(sc);
            crate::check::check_all();
            finish(S_OK, "", "");
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut o = Outcome { status: s.status, ..Default::default() };
        if s.status == S_NONE {
            if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
                o.status = S_TIMEOUT;
                o.class = "hang".into();
                o.msg = format!("no end after {timeout} s");
            } else {
                o.status = S_HARNESS;
                o.msg = format!("the run's process ended unexpectedly (status {st:#x})");
            }
            return o;
        }
        o.class = String::from_utf8_lossy(&s.class[..s.class_len as usize]).into_owned();
        o.msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned();
        o.steps = s.steps;
        o.now = s.now;
        o.hash = s.hash;
        o.switches = s.switches;
        o.points = s.points;
        o.overflow = s.over != 0;
        o.counters = s.counters.to_vec();
        if o.status != S_OK || trace {
            o.exceptions = s.x[..s.nx as usize].iter().map(|e| (e.0, e.1 as u32)).collect();
            o.trace = String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).into_owned();
        }
        o.faults = s.f[..s.nf as usize].iter().map(|e| (e.0, e.1 as u32)).collect();
        o.crashes = s.crashes[..s.nc as usize].iter().map(|e| (e.0, e.1 as u32)).collect();
        o
    }
}
