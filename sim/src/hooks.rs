//! The seam to the operating system: definitions of the libc entry points that std, fslock, memmap and
//! candystore call. For simulated threads they act on the simulated disk, clock and scheduler; for every
//! other thread, path or descriptor they pass straight through to the kernel.
#![allow(clippy::missing_safety_doc)]
use crate::fs::*;
use crate::rt::*;
use libc::*;
use std::ffi::CStr;

unsafe fn fail(e: i32) -> c_int {
    *__errno_location() = e;
    -1
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
macro_rules! pass { ($n:expr $(, $a:expr)*) => {{ let a: [u64; 6] = { let mut v = [0u64; 6]; let mut _i = 0; $( v[_i] = $a as u64; _i += 1; )* v }; ret(sys6($n as i64, a[0], a[1], a[2], a[3], a[4], a[5])) }} }

/// a path inside the simulated disk?
unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if !active() || p.is_null() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b.starts_with(b"/sim/") || b == b"/sim" {
        let s = String::from_utf8_lossy(b).into_owned();
        let mut out = String::new();
        for part in s.split('/') {
            if part.is_empty() || part == "." {
                continue;
            }
            out.push('/');
            out.push_str(part);
        }
        Some(out)
    } else {
        None
    }
}
fn sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE && active()
}
fn fd_name(fd: c_int) -> String {
    let f = &rt().fs;
    match f.ino_of(fd) {
        Ok(i) => f.inodes[i].name.clone(),
        Err(_) => String::new(),
    }
}
macro_rules! tri { ($e:expr) => { match $e { Ok(v) => v, Err(e) => return fail(e) as _ } } }

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(p) = sim_path(path) {
        let _i = inside();
        tri!(enter(C_OPEN, "open", &p, 0));
        let r = rt();
        let base = p.rsplit('/').next().unwrap_or("");
        if base.starts_with("compact_") && flags & O_CREAT == 0 && r.fs.names.contains_key(&p) {
            crate::stats::hit(crate::stats::P_RESUME);
        }
        if base.starts_with("compact_") && flags & O_CREAT != 0 {
            crate::stats::hit(crate::stats::P_COMPACT_BEGIN);
        }
        return tri!(r.fs.open(&p, flags));
    }
    pass!(SYS_openat, AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if sim_path(path).is_some() {
        return do_open(path, flags, mode);
    }
    pass!(SYS_openat, dfd, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat(dfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: c_uint) -> c_int {
    do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE && simulated() {
        let _i = inside();
        if let Err(e) = rt().fs.close(fd) {
            return fail(e);
        }
        rt().point(K_META);
        return 0;
    }
    pass!(SYS_close, fd) as c_int
}
unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: u64, name: &'static str) -> ssize_t {
    let lim = tri!(enter(C_READ, name, &fd_name(fd), n));
    let n = lim.unwrap_or(n).min(n);
    let k = tri!(rt().fs.pread(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), off));
    crate::fs::counted(false, k, off);
    k as ssize_t
}
unsafe fn do_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: u64, name: &'static str) -> ssize_t {
    let lim = tri!(enter(C_WRITE, name, &fd_name(fd), n));
    let n = lim.unwrap_or(n).min(n);
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    if n > 1 {
        // a write is not atomic: a kill (or another thread) may come in the middle of it
        let k = 1 + (hash_mix(rt().fs.io, n as u64) % (n as u64 - 1)) as usize;
        tri!(rt().fs.pwrite(fd, &b[..k], off));
        rt().point(K_DATA);
        tri!(rt().fs.pwrite(fd, &b[k..], off + k as u64));
        crate::fs::counted(true, n, off);
        return n as ssize_t;
    }
    let k = tri!(rt().fs.pwrite(fd, b, off));
    crate::fs::counted(true, k, off);
    k as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        let _i = inside();
        let pos = tri!(rt().fs.ofd_ref(fd)).pos;
        let k = do_pread(fd, buf, n, pos, "read");
        if k > 0 {
            rt().fs.ofd_ref(fd).unwrap().pos += k as u64;
        }
        return k;
    }
    pass!(SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if sim_fd(fd) {
        let _i = inside();
        return do_pread(fd, buf, n, off as u64, "pread");
    }
    pass!(SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        let _i = inside();
        let o = tri!(rt().fs.ofd_ref(fd)).clone();
        let pos = if o.append { o.ino.map(|i| rt().fs.lsize(i) as u64).unwrap_or(0) } else { o.pos };
        let k = do_pwrite(fd, buf, n, pos, "write");
        if k > 0 {
            rt().fs.ofd_ref(fd).unwrap().pos = pos + k as u64;
        }
        return k;
    }
    pass!(SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if sim_fd(fd) {
        let _i = inside();
        return do_pwrite(fd, buf, n, off as u64, "pwrite");
    }
    pass!(SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if sim_fd(fd) {
        if n < 1 {
            return 0;
        }
        return read(fd, (*v).iov_base, (*v).iov_len);
    }
    pass!(SYS_readv, fd, v, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if sim_fd(fd) {
        if n < 1 {
            return 0;
        }
        return write(fd, (*v).iov_base, (*v).iov_len);
    }
    pass!(SYS_writev, fd, v, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, v: *const iovec, n: c_int, off: i64) -> ssize_t {
    if sim_fd(fd) {
        if n < 1 {
            return 0;
        }
        return pwrite64(fd, (*v).iov_base, (*v).iov_len, off);
    }
    pass!(SYS_pwritev, fd, v, n, off, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, v: *const iovec, n: c_int, off: i64) -> ssize_t {
    if sim_fd(fd) {
        if n < 1 {
            return 0;
        }
        return pread64(fd, (*v).iov_base, (*v).iov_len, off);
    }
    pass!(SYS_preadv, fd, v, n, off, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if sim_fd(fd) {
        let _i = inside();
        let r = rt();
        let ino = tri!(r.fs.ino_of(fd));
        let size = r.fs.lsize(ino) as i64;
        let o = r.fs.ofd_ref(fd).unwrap();
        let p = match whence {
            SEEK_SET => off,
            SEEK_CUR => o.pos as i64 + off,
            SEEK_END => size + off,
            _ => -1,
        };
        if p < 0 {
            return fail(EINVAL) as i64;
        }
        o.pos = p as u64;
        return p;
    }
    pass!(SYS_lseek, fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        tri!(enter(C_TRUNC, "ftruncate", &fd_name(fd), len as usize));
        tri!(rt().fs.truncate(fd, len as u64));
        return 0;
    }
    pass!(SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn fake_falloc(fd: c_int, off: i64, len: i64) -> c_int {
    let end = (off + len) as u64;
    let ino = match rt().fs.ino_of(fd) {
        Ok(i) => i,
        Err(e) => return e,
    };
    if (rt().fs.lsize(ino) as u64) < end {
        if let Err(e) = rt().fs.truncate(fd, end) {
            return e;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: i64, len: i64) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        if let Err(e) = enter(C_TRUNC, "posix_fallocate", &fd_name(fd), len as usize) {
            return e;
        }
        return fake_falloc(fd, off, len);
    }
    let r = sys6(SYS_fallocate, fd as u64, 0, off as u64, len as u64, 0, 0);
    -r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: i64, len: i64) -> c_int {
    posix_fallocate(fd, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        tri!(enter(C_TRUNC, "fallocate", &fd_name(fd), len as usize));
        if mode & FALLOC_FL_PUNCH_HOLE != 0 {
            let ino = tri!(rt().fs.ino_of(fd));
            let s = rt().fs.slice(ino);
            let a = (off as usize).min(s.len());
            let b = ((off + len) as usize).min(s.len());
            s[a..b].fill(0);
            return 0;
        }
        if mode & FALLOC_FL_KEEP_SIZE != 0 {
            return 0;
        }
        let e = fake_falloc(fd, off, len);
        return if e == 0 { 0 } else { fail(e) };
    }
    pass!(SYS_fallocate, fd, mode, off, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    fallocate(fd, mode, off, len)
}

// ---- stat family ----
enum Node {
    Dir,
    File(usize, usize), // ino, size
}
fn node_of_path(p: &str) -> R<Node> {
    let f = &rt().fs;
    match f.names.get(p) {
        None => Err(ENOENT),
        Some(None) => Ok(Node::Dir),
        Some(Some(i)) => Ok(Node::File(*i, f.lsize(*i))),
    }
}
fn node_of_fd(fd: c_int) -> R<Node> {
    let f = &rt().fs;
    let o = f.ofd(fd)?;
    match f.ofds[o].as_ref().unwrap().ino {
        None => Ok(Node::Dir),
        Some(i) => Ok(Node::File(i, f.lsize(i))),
    }
}
unsafe fn fill_stat(n: Node, st: *mut stat64) -> c_int {
    std::ptr::write_bytes(st, 0, 1);
    match n {
        Node::Dir => {
            (*st).st_mode = S_IFDIR | 0o755;
            (*st).st_nlink = 2;
            (*st).st_ino = 1;
        }
        Node::File(i, s) => {
            (*st).st_mode = S_IFREG | 0o644;
            (*st).st_nlink = rt().fs.inodes[i].links as u64;
            (*st).st_ino = 100 + i as u64;
            (*st).st_size = s as i64;
            (*st).st_blocks = (s as i64 + 511) / 512;
        }
    }
    (*st).st_blksize = 4096;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        tri!(enter(C_STAT, "fstat", &fd_name(fd), 0));
        return fill_stat(tri!(node_of_fd(fd)), st);
    }
    pass!(SYS_fstat, fd, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut stat64) -> c_int {
    if let Some(p) = sim_path(path) {
        let _i = inside();
        tri!(enter(C_STAT, "stat", &p, 0));
        return fill_stat(tri!(node_of_path(&p)), st);
    }
    pass!(SYS_newfstatat, AT_FDCWD, path, st, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut stat64) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut stat64) -> c_int {
    if sim_path(path).is_some() {
        return stat64(path, st);
    }
    pass!(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut stat64) -> c_int {
    lstat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dfd: c_int, path: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    if sim_path(path).is_some() {
        return stat64(path, st);
    }
    if sim_fd(dfd) {
        let _i = inside();
        let p = tri!(at_path(dfd, path));
        return fill_stat(tri!(node_of_path(&p)), st);
    }
    pass!(SYS_newfstatat, dfd, path, st, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(dfd: c_int, path: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    fstatat64(dfd, path, st, flags)
}
unsafe fn at_path(dfd: c_int, path: *const c_char) -> R<String> {
    let f = &rt().fs;
    let o = f.ofd(dfd)?;
    let d = &f.ofds[o].as_ref().unwrap().dir;
    Ok(format!("{}/{}", d, CStr::from_ptr(path).to_string_lossy()))
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    let node = if let Some(p) = sim_path(path) {
        let _i = inside();
        tri!(enter(C_STAT, "statx", &p, 0));
        node_of_path(&p)
    } else if sim_fd(dfd) {
        let _i = inside();
        if path.is_null() || *path == 0 {
            tri!(enter(C_STAT, "statx", &fd_name(dfd), 0));
            node_of_fd(dfd)
        } else {
            at_path(dfd, path).and_then(|p| node_of_path(&p))
        }
    } else {
        return pass!(SYS_statx, dfd, path, flags, mask, buf) as c_int;
    };
    let n = tri!(node);
    std::ptr::write_bytes(buf, 0, 1);
    (*buf).stx_mask = STATX_BASIC_STATS;
    (*buf).stx_blksize = 4096;
    match n {
        Node::Dir => {
            (*buf).stx_mode = (S_IFDIR | 0o755) as u16;
            (*buf).stx_nlink = 2;
            (*buf).stx_ino = 1;
        }
        Node::File(i, s) => {
            (*buf).stx_mode = (S_IFREG | 0o644) as u16;
            (*buf).stx_nlink = rt().fs.inodes[i].links;
            (*buf).stx_ino = 100 + i as u64;
            (*buf).stx_size = s as u64;
            (*buf).stx_blocks = (s as u64 + 511) / 512;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let Some(p) = sim_path(path) {
        let _i = inside();
        tri!(node_of_path(&p));
        return 0;
    }
    pass!(SYS_faccessat, AT_FDCWD, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(p) = sim_path(path) {
        let _i = inside();
        if let Err(e) = node_of_path(&p) {
            fail(e);
            return std::ptr::null_mut();
        }
        let c = std::ffi::CString::new(p).unwrap();
        if out.is_null() {
            return strdup(c.as_ptr());
        }
        strcpy(out, c.as_ptr());
        return out;
    }
    let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(real(b"realpath\0"));
    f(path, out)
}

// ---- durability ----
unsafe fn do_sync(fd: c_int, name: &'static str) -> c_int {
    tri!(enter(C_SYNC, name, &fd_name(fd), 0));
    match rt().fs.ino_of(fd) {
        Ok(i) => rt().fs.sync(i),
        Err(EISDIR) => rt().fs.sync_dir(),
        Err(e) => return fail(e),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        return do_sync(fd, "fsync");
    }
    pass!(SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        return do_sync(fd, "fdatasync");
    }
    pass!(SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, _o: i64, _n: i64, _f: c_uint) -> c_int {
    if sim_fd(fd) {
        return 0; // gives no durability guarantee
    }
    pass!(SYS_sync_file_range, fd, _o, _n, _f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        tri!(enter(C_SYNC, "syncfs", &fd_name(fd), 0));
        let n = rt().fs.inodes.len();
        for i in 0..n {
            rt().fs.sync(i);
        }
        return 0;
    }
    pass!(SYS_syncfs, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn msync(addr: *mut c_void, len: size_t, flags: c_int) -> c_int {
    if active() && rt().fs.in_arena(addr as usize) {
        let _i = inside();
        let ino = (addr as usize - rt().fs.arena) / SLOT;
        if ino >= rt().fs.inodes.len() {
            return fail(ENOMEM);
        }
        let name = rt().fs.inodes[ino].name.clone();
        tri!(enter(C_SYNC, "msync", &name, len));
        if flags & MS_SYNC != 0 {
            rt().fs.sync(ino);
        }
        return 0;
    }
    pass!(SYS_msync, addr, len, flags) as c_int
}

// ---- names ----
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (sim_path(a), sim_path(b)) {
        let _i = inside();
        let both = format!("{x} -> {}", y.trim_start_matches("/sim/"));
        tri!(enter(C_RENAME, "rename", &both, 0));
        tri!(rt().fs.rename(&x, &y));
        rt().point(K_DIR);
        return 0;
    }
    pass!(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char) -> c_int {
    rename(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (sim_path(a), sim_path(b)) {
        let _i = inside();
        tri!(enter(C_RENAME, "link", &x, 0));
        tri!(rt().fs.link(&x, &y));
        return 0;
    }
    pass!(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    if sim_path(a).is_some() {
        return link(a, b);
    }
    pass!(SYS_linkat, d, a, e, b, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if let Some(p) = sim_path(a) {
        let _i = inside();
        tri!(enter(C_UNLINK, "unlink", &p, 0));
        tri!(rt().fs.unlink(&p));
        rt().point(K_DIR);
        return 0;
    }
    pass!(SYS_unlinkat, AT_FDCWD, a, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    if sim_path(a).is_some() {
        return if f & AT_REMOVEDIR != 0 { rmdir(a) } else { unlink(a) };
    }
    if sim_fd(d) {
        let p = {
            let _i = inside();
            tri!(at_path(d, a))
        };
        let c = std::ffi::CString::new(p).unwrap();
        return if f & AT_REMOVEDIR != 0 { rmdir(c.as_ptr()) } else { unlink(c.as_ptr()) };
    }
    pass!(SYS_unlinkat, d, a, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    if let Some(p) = sim_path(a) {
        let _i = inside();
        tri!(enter(C_STAT, "mkdir", &p, 0));
        tri!(rt().fs.mkdir(&p));
        return 0;
    }
    pass!(SYS_mkdirat, AT_FDCWD, a, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if let Some(p) = sim_path(a) {
        let _i = inside();
        tri!(enter(C_UNLINK, "rmdir", &p, 0));
        tri!(rt().fs.rmdir(&p));
        return 0;
    }
    pass!(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR) as c_int
}

// ---- directories ----
unsafe fn real(name: &[u8]) -> *mut c_void {
    dlsym(RTLD_NEXT, name.as_ptr() as *const c_char)
}
unsafe fn make_stream(p: &str, fd: i32) -> *mut DIR {
    let r = rt();
    let mut names = r.fs.list(p);
    // the order of directory entries is unspecified: shuffle
    let mut rng = Rng::new(r.misc.next());
    for i in (1..names.len()).rev() {
        let j = rng.below(i as u64 + 1) as usize;
        names.swap(i, j);
    }
    let b = Box::new(DirStream { names, pos: 0, ent: std::mem::zeroed(), fd });
    let ptr = Box::into_raw(b);
    r.fs.dirs.push(ptr as usize);
    ptr as *mut DIR
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    if let Some(p) = sim_path(path) {
        let _i = inside();
        if let Err(e) = enter(C_READDIR, "opendir", &p, 0) {
            fail(e);
            return std::ptr::null_mut();
        }
        match node_of_path(&p) {
            Ok(Node::Dir) => {}
            Ok(_) => {
                fail(ENOTDIR);
                return std::ptr::null_mut();
            }
            Err(e) => {
                fail(e);
                return std::ptr::null_mut();
            }
        }
        return make_stream(&p, -1);
    }
    let f: extern "C" fn(*const c_char) -> *mut DIR = std::mem::transmute(real(b"opendir\0"));
    f(path)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if sim_fd(fd) {
        let _i = inside();
        let o = match rt().fs.ofd(fd) {
            Ok(o) => o,
            Err(e) => {
                fail(e);
                return std::ptr::null_mut();
            }
        };
        let d = rt().fs.ofds[o].as_ref().unwrap().dir.clone();
        return make_stream(&d, fd);
    }
    let f: extern "C" fn(c_int) -> *mut DIR = std::mem::transmute(real(b"fdopendir\0"));
    f(fd)
}
unsafe fn is_stream(d: *mut DIR) -> bool {
    active() && rt().fs.dirs.contains(&(d as usize))
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if is_stream(d) {
        let _i = inside();
        let s = &mut *(d as *mut DirStream);
        if s.pos >= s.names.len() {
            return std::ptr::null_mut();
        }
        let (n, isdir) = s.names[s.pos].clone();
        s.pos += 1;
        s.ent.d_ino = 100;
        s.ent.d_off = s.pos as i64;
        s.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
        s.ent.d_type = if isdir { DT_DIR } else { DT_REG };
        for (i, b) in n.bytes().enumerate() {
            s.ent.d_name[i] = b as c_char;
        }
        s.ent.d_name[n.len()] = 0;
        return &mut s.ent;
    }
    let f: extern "C" fn(*mut DIR) -> *mut dirent64 = std::mem::transmute(real(b"readdir64\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut DIR) -> *mut dirent {
    readdir64(d) as *mut dirent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if is_stream(d) {
        let _i = inside();
        rt().fs.dirs.retain(|&x| x != d as usize);
        let b = Box::from_raw(d as *mut DirStream);
        if b.fd >= 0 {
            let _ = rt().fs.close(b.fd);
        }
        return 0;
    }
    let f: extern "C" fn(*mut DIR) -> c_int = std::mem::transmute(real(b"closedir\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if is_stream(d) {
        return (*(d as *mut DirStream)).fd;
    }
    let f: extern "C" fn(*mut DIR) -> c_int = std::mem::transmute(real(b"dirfd\0"));
    f(d)
}

// ---- descriptors, locks ----
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => tri!(rt().fs.dup(fd)),
            F_GETFD => {
                tri!(rt().fs.ofd(fd));
                FD_CLOEXEC
            }
            F_GETFL => {
                tri!(rt().fs.ofd(fd));
                O_RDWR
            }
            F_SETFD | F_SETFL => 0,
            _ => fail(EINVAL),
        };
    }
    pass!(SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sim_fd(fd) {
        let _i = inside();
        let r = rt();
        r.point(K_META);
        let ino = tri!(r.fs.ino_of(fd));
        let o = r.fs.ofd(fd).unwrap();
        let held = r.fs.inodes[ino].lock.is_some();
        r.note(|| format!("flock {op} held={held}"));
        if op & LOCK_UN != 0 {
            if r.fs.inodes[ino].lock == Some(o) {
                r.fs.inodes[ino].lock = None;
                r.wake(0x5000_0000 + ino, usize::MAX);
            }
            return 0;
        }
        loop {
            match r.fs.inodes[ino].lock {
                Some(h) if h != o => {
                    if op & LOCK_NB != 0 {
                        return fail(EWOULDBLOCK);
                    }
                    r.block(0x5000_0000 + ino, u64::MAX, "flock");
                }
                _ => break,
            }
        }
        r.fs.inodes[ino].lock = Some(o);
        return 0;
    }
    pass!(SYS_flock, fd, op) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    if sim_fd(a) || sim_fd(b) {
        return fail(EXDEV) as ssize_t; // callers fall back to read/write
    }
    pass!(SYS_copy_file_range, a, oa, b, ob, n, f) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if sim_fd(a) || sim_fd(b) {
        return fail(EINVAL) as ssize_t;
    }
    pass!(SYS_sendfile, a, b, o, n) as ssize_t
}

// ---- mappings ----
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    if sim_fd(fd) {
        let _i = inside();
        if let Err(e) = enter(C_MMAP, "mmap", &fd_name(fd), len) {
            fail(e);
            return MAP_FAILED;
        }
        let r = rt();
        let ino = match r.fs.ino_of(fd) {
            Ok(i) => i,
            Err(e) => {
                fail(e);
                return MAP_FAILED;
            }
        };
        if flags & MAP_PRIVATE != 0 {
            let p = mmap64(std::ptr::null_mut(), len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            let s = r.fs.slice(ino);
            let a = (off as usize).min(s.len());
            let n = len.min(s.len() - a);
            std::ptr::copy_nonoverlapping(s[a..].as_ptr(), p as *mut u8, n);
            return p;
        }
        r.fs.inodes[ino].maps += 1;
        return (r.fs.inodes[ino].base + off as usize) as *mut c_void;
    }
    pass!(SYS_mmap, addr, len, prot, flags, fd, off) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    mmap64(addr, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: size_t) -> c_int {
    if simulated() && rt().fs.in_arena(addr as usize) {
        let _i = inside();
        let r = rt();
        let ino = (addr as usize - r.fs.arena) / SLOT;
        if ino < r.fs.inodes.len() && r.fs.inodes[ino].maps > 0 {
            r.fs.inodes[ino].maps -= 1;
        }
        r.point(K_META);
        return 0;
    }
    pass!(SYS_munmap, addr, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mlock(addr: *const c_void, len: size_t) -> c_int {
    if simulated() && rt().fs.in_arena(addr as usize) {
        return 0;
    }
    pass!(SYS_mlock, addr, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn munlock(addr: *const c_void, len: size_t) -> c_int {
    if simulated() && rt().fs.in_arena(addr as usize) {
        return 0;
    }
    pass!(SYS_munlock, addr, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn madvise(addr: *mut c_void, len: size_t, adv: c_int) -> c_int {
    if simulated() && rt().fs.in_arena(addr as usize) {
        return 0;
    }
    pass!(SYS_madvise, addr, len, adv) as c_int
}

// ---- threads ----
struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: u32,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    thread_begin(s.tid);
    let r = (s.f)(s.arg);
    thread_end();
    r
}
type CreateFn = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let create: CreateFn = std::mem::transmute(real(b"pthread_create\0"));
    if !active() {
        return create(out, attr, f, arg);
    }
    let _i = inside();
    let t = rt().spawn_slot();
    let b = Box::into_raw(Box::new(Start { f, arg, tid: t })) as *mut c_void;
    let rc = create(out, attr, trampoline, b);
    if rc != 0 {
        fatal("harness", &format!("pthread_create: {rc}"));
    }
    rt().threads[t as usize].native = *out as u64;
    rt().log(4, t as u64, 0);
    rt().note(|| format!("thread t{t} created"));
    rt().point(K_THREAD);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, out: *mut *mut c_void) -> c_int {
    let join: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(real(b"pthread_join\0"));
    if active() {
        let _i = inside();
        let r = rt();
        r.point(K_THREAD);
        // handles are reused by the OS: the newest slot with this handle is the one meant
        let slot = r.threads.iter().rposition(|t| t.native == th as u64);
        if let Some(i) = slot {
            while r.threads[i].st != St::Finished {
                r.block(0x7000_0000 + i, u64::MAX, "join of a thread");
            }
            r.threads[i].native = u64::MAX;
        }
    }
    join(th, out)
}

// ---- time ----
unsafe fn sleep_ns(ns: u64) {
    let _i = inside();
    let r = rt();
    crate::stats::hit(crate::stats::SLEEPS);
    let dl = r.now.saturating_add(ns.max(1));
    r.log(5, ns, 0);
    r.block(0, dl, "sleep");
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    pass!(SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let ns = if flags & TIMER_ABSTIME != 0 { t.saturating_sub(rt().now) } else { t };
        sleep_ns(ns);
        return 0;
    }
    (-sys6(SYS_clock_nanosleep, clk as u64, flags as u64, req as u64, rem as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        let _i = inside();
        rt().yield_now();
        return 0;
    }
    pass!(SYS_sched_yield) as c_int
}
const EPOCH: u64 = 1_700_000_000_000_000_000;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if active() {
        let mut t = rt().now;
        if clk == CLOCK_REALTIME {
            t += EPOCH;
        }
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    pass!(SYS_clock_gettime, clk, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for x in b {
            *x = rt().misc.next() as u8;
        }
        return n as ssize_t;
    }
    pass!(SYS_getrandom, buf, n, flags) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if active() {
        return 4000 + rt().inc as i32;
    }
    pass!(SYS_getpid) as pid_t
}

unsafe fn futex(uaddr: *mut u32, op: c_int, val: u32, timeout: *const timespec, val2: u64) -> c_long {
    let _i = inside();
    let r = rt();
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            r.point(K_FUTEX);
            if std::ptr::read_volatile(uaddr) != val {
                return fail(EAGAIN) as c_long;
            }
            let dl = if timeout.is_null() {
                u64::MAX
            } else {
                let t = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                if cmd == 0 {
                    r.now.saturating_add(t)
                } else if op & 256 != 0 {
                    t.saturating_sub(EPOCH)
                } else {
                    t
                }
            };
            if r.block(uaddr as usize, dl, "a wait (futex)") {
                0
            } else {
                fail(ETIMEDOUT) as c_long
            }
        }
        1 | 10 => {
            let n = r.wake(uaddr as usize, val as usize);
            r.point(K_FUTEX);
            let _ = val2;
            n as c_long
        }
        _ => fatal("harness", &format!("futex operation {op} is not simulated")),
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
    if active() {
        match n {
            SYS_futex => return futex(a as *mut u32, b as c_int, c as u32, d as *const timespec, e),
            SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
            SYS_copy_file_range => {
                return copy_file_range(a as i32, b as *mut i64, c as i32, d as *mut i64, e as usize, f as u32) as c_long
            }
            SYS_statx => return statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut libc::statx) as c_long,
            SYS_renameat2 => return rename(b as *const c_char, d as *const c_char) as c_long,
            _ => {}
        }
    }
    ret(sys6(n, a, b, c, d, e, f)) as c_long
}

// ---- calls candystore does not make today, but a changed version reasonably could ----
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if sim_path(p).is_some() {
        return 0;
    }
    pass!(SYS_fchmodat, AT_FDCWD, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    pass!(SYS_fchmod, fd, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const timespec) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    pass!(SYS_utimensat, fd, 0, t, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, o: off_t, n: off_t, a: c_int) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    -sys6(SYS_fadvise64, fd as u64, o as u64, n as u64, a as u64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if sim_path(p).is_some() {
        return fail(EINVAL) as ssize_t; // there are no symbolic links
    }
    pass!(SYS_readlinkat, AT_FDCWD, p, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: i64) -> c_int {
    if sim_path(p).is_some() {
        let fd = do_open(p, O_WRONLY, 0);
        if fd < 0 {
            return -1;
        }
        let r = ftruncate64(fd, len);
        close(fd);
        return r;
    }
    pass!(SYS_truncate, p, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate(p: *const c_char, len: i64) -> c_int {
    truncate64(p, len)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char, f: c_uint) -> c_int {
    if let (Some(_), Some(y)) = (sim_path(a), sim_path(b)) {
        if f & 1 != 0 && rt().fs.names.contains_key(&y) {
            return fail(EEXIST);
        }
        return rename(a, b);
    }
    pass!(SYS_renameat2, _d, a, _e, b, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _z: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    let r = clock_gettime(CLOCK_REALTIME, &mut ts);
    if r == 0 && !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
