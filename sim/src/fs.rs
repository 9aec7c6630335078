//! The simulated disk: an in-memory file system with a page cache shared between `pwrite` and `mmap`,
//! process-crash and power-loss semantics, advisory locks, and injected faults.
use crate::rt::{hash_mix, hash_str, rt, Rng, K_DATA, K_DIR, K_META};
use crate::stats;
use std::collections::BTreeMap;

pub const FD_BASE: i32 = 1 << 20;
pub const SLOT: usize = 96 << 20; // address space reserved per file
pub const MAX_INODES: usize = 20_000;
pub const PAGE: usize = 4096;

// classes of file-system calls, for fault selection
pub const C_READ: u32 = 0;
pub const C_WRITE: u32 = 1;
pub const C_TRUNC: u32 = 2;
pub const C_OPEN: u32 = 3;
pub const C_RENAME: u32 = 4;
pub const C_UNLINK: u32 = 5;
pub const C_SYNC: u32 = 6;
pub const C_MMAP: u32 = 7;
pub const C_READDIR: u32 = 8;
pub const C_STAT: u32 = 9;

// fault actions
pub const F_EIO: u32 = 1;
pub const F_ENOSPC: u32 = 2;
pub const F_SHORT: u32 = 3;
pub const F_EINTR: u32 = 4;
pub const F_DELAY: u32 = 5;
pub const F_TORN: u32 = 6; // part of the write, then the process is killed
pub const F_HANG: u32 = 7; // this call takes very long
pub const FNAMES: [&str; 8] = ["", "EIO", "ENOSPC", "short", "EINTR", "delay", "torn-write+kill", "stuck"];

pub const STUCK: u64 = 1_000_000_000_000;

#[derive(Clone, Debug, PartialEq)]
pub struct FaultCfg {
    /// mean number of eligible calls between faults, 0 = none
    pub mean: u64,
    /// classes that may fail hard (EIO/ENOSPC)
    pub hard: u32,
    /// short transfers, EINTR, delays allowed
    pub soft: bool,
    /// at most this many hard faults
    pub max_hard: u32,
    /// once a hard fault fired, repeat it on every eligible call for this many calls
    pub burst: u32,
    /// calls on the file of one shard may get stuck (one at a time)
    pub hang: bool,
    /// explicit faults (replay): call number -> action
    pub list: BTreeMap<u64, u32>,
}
impl FaultCfg {
    pub fn none() -> Self {
        FaultCfg { mean: 0, hard: 0, soft: false, max_hard: 0, burst: 0, hang: false, list: BTreeMap::new() }
    }
}

pub struct Inode {
    pub base: usize,
    /// bytes that are really there
    pub size: usize,
    /// an area of zeros (offset, length) that takes no room: files of gigabytes
    pub hole: (usize, usize),
    pub links: u32,
    pub maps: u32,
    pub opens: u32,
    pub durable: Vec<u8>,
    pub truncated: bool, // shrunk since the last sync
    pub synced: bool,    // ever synced
    pub lock: Option<usize>,
    pub name: String, // last name, for messages
    pub id: u64,
}

#[derive(Clone, Debug)]
pub enum Meta {
    Link(String, usize),
    Unlink(String),
    Rename(String, String),
    Mkdir(String),
}

#[derive(Clone)]
pub struct Ofd {
    pub ino: Option<usize>, // None: a directory
    pub dir: String,
    pub pos: u64,
    pub append: bool,
    pub writable: bool,
    pub refs: u32,
}

pub struct DirStream {
    pub names: Vec<(String, bool)>,
    pub pos: usize,
    pub ent: libc::dirent64,
    pub fd: i32,
}

pub struct Fs {
    pub arena: usize,
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, Option<usize>>, // None: directory
    pub journal: Vec<Meta>,
    pub committed: usize,
    pub ofds: Vec<Option<Ofd>>,
    pub fds: Vec<Option<usize>>,
    pub dirs: Vec<usize>, // open DirStreams
    pub io: u64,
    pub faults: FaultCfg,
    pub fault_left: i64,
    pub burst_left: u32,
    /// a write was cut short because the next one is going to fail
    pub cut: bool,
    pub burst_act: u32,
    pub hard_fired: u32,
    pub frng: Rng,
    pub power_runs: bool, // power losses are possible in this run: keep durable copies
    /// calls failed so far, by injected errors or for want of space
    pub hard_errs: u64,
    pub capacity: usize, // total bytes of file data allowed, usize::MAX = unlimited
}

fn split(p: &str) -> (&str, &str) {
    match p.rfind('/') {
        Some(i) => (&p[..i], &p[i + 1..]),
        None => ("", p),
    }
}

pub type R<T> = Result<T, i32>;

impl Fs {
    pub fn new(seed: u64) -> Self {
        let len = SLOT * MAX_INODES;
        let p = unsafe {
            crate::rt::sys6(9, 0, len as u64, 3, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as u64, u64::MAX, 0)
        };
        if p < 0 && p > -4096 {
            eprintln!("harness: cannot reserve address space ({p})");
            std::process::exit(3);
        }
        let mut names = BTreeMap::new();
        names.insert("/sim".to_string(), None);
        Fs {
            arena: p as usize,
            inodes: vec![],
            names,
            journal: vec![],
            committed: 0,
            ofds: vec![],
            fds: vec![],
            dirs: vec![],
            io: 0,
            faults: FaultCfg::none(),
            fault_left: i64::MAX,
            burst_left: 0,
            cut: false,
            burst_act: 0,
            hard_fired: 0,
            frng: Rng::new(seed),
            power_runs: false,
            hard_errs: 0,
            capacity: usize::MAX,
        }
    }
    pub fn set_faults(&mut self, f: FaultCfg) {
        self.fault_left = if f.mean > 0 { self.frng.exp(f.mean) } else { i64::MAX };
        self.faults = f;
        self.burst_left = 0;
        self.cut = false;
        self.hard_fired = 0;
    }
    #[inline(always)]
    pub fn in_arena(&self, a: usize) -> bool {
        a.wrapping_sub(self.arena) < SLOT * MAX_INODES
    }
    /// Some(inode) if the address belongs to a mapped file
    pub fn check_access(&self, a: usize, n: usize) -> Result<usize, String> {
        let off = a - self.arena;
        let ino = off / SLOT;
        if ino >= self.inodes.len() {
            return Err("access to a mapping of no file (SIGSEGV)".into());
        }
        let i = &self.inodes[ino];
        if i.maps == 0 {
            return Err(format!("access to unmapped memory of {} (SIGSEGV)", i.name));
        }
        if off % SLOT + n > (i.size + PAGE - 1) / PAGE * PAGE {
            return Err(format!("access beyond the end of mapped file {} (SIGBUS)", i.name));
        }
        Ok(ino)
    }
    pub fn slice(&self, ino: usize) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.inodes[ino].base as *mut u8, self.inodes[ino].size) }
    }
    fn new_inode(&mut self, name: &str) -> R<usize> {
        let n = self.inodes.len();
        if n >= MAX_INODES {
            crate::rt::fatal("harness", "too many files");
        }
        self.inodes.push(Inode {
            base: self.arena + n * SLOT,
            size: 0,
            hole: (0, 0),
            links: 1,
            maps: 0,
            opens: 0,
            durable: vec![],
            truncated: false,
            synced: false,
            lock: None,
            name: name.to_string(),
            id: n as u64,
        });
        Ok(n)
    }
    fn meta(&mut self, m: Meta) {
        self.journal.push(m);
    }
    fn resize(&mut self, ino: usize, size: usize) -> R<()> {
        if size > SLOT {
            return Err(libc::EFBIG);
        }
        let old = self.inodes[ino].size;
        if size > old && self.capacity != usize::MAX {
            let used: usize = self.inodes.iter().filter(|i| i.links > 0).map(|i| i.size).sum();
            if used - old + size > self.capacity {
                self.hard_errs += 1;
                return Err(libc::ENOSPC);
            }
        }
        if size < old {
            // bytes beyond the end read as zero when the file grows again
            let s = self.slice(ino);
            s[size..].fill(0);
            self.inodes[ino].truncated = true;
        }
        self.inodes[ino].size = size;
        if size < self.inodes[ino].hole.0 {
            self.inodes[ino].hole = (0, 0);
        }
        Ok(())
    }
    /// the size as seen from outside
    pub fn lsize(&self, ino: usize) -> usize {
        self.inodes[ino].size + self.inodes[ino].hole.1
    }
    /// where an offset is, and how far one can go from there. None: in the hole
    fn place(&self, ino: usize, off: usize) -> (Option<usize>, usize) {
        let (at, len) = self.inodes[ino].hole;
        if len == 0 {
            (Some(off), usize::MAX)
        } else if off < at {
            (Some(off), at - off)
        } else if off < at + len {
            (None, at + len - off)
        } else {
            (Some(off - len), usize::MAX)
        }
    }
    /// an entry area that was used up to `end`, with nothing but abandoned entries after the present ones
    pub fn age(&mut self, ino: usize, end: u64) -> bool {
        let header = candystore::Stats::FILE_HEADER_SIZE as usize;
        let size = self.inodes[ino].size;
        if size <= header || self.inodes[ino].hole.1 != 0 {
            return false;
        }
        let field = &mut self.slice(ino)[24..32];
        let cur = u64::from_le_bytes(field.try_into().unwrap());
        if cur as usize != size - header || cur >= end {
            return false; // not what it was thought to be
        }
        field.copy_from_slice(&end.to_le_bytes());
        self.inodes[ino].hole = (size, (end - cur) as usize);
        self.sync(ino);
        true
    }
    fn alloc_fd(&mut self, ofd: usize) -> i32 {
        for (i, f) in self.fds.iter_mut().enumerate() {
            if f.is_none() {
                *f = Some(ofd);
                return FD_BASE + i as i32;
            }
        }
        self.fds.push(Some(ofd));
        FD_BASE + self.fds.len() as i32 - 1
    }
    pub fn ofd(&self, fd: i32) -> R<usize> {
        let i = (fd - FD_BASE) as usize;
        match self.fds.get(i) {
            Some(Some(o)) => Ok(*o),
            _ => Err(libc::EBADF),
        }
    }
    pub fn ofd_ref(&mut self, fd: i32) -> R<&mut Ofd> {
        let o = self.ofd(fd)?;
        Ok(self.ofds[o].as_mut().unwrap())
    }
    pub fn ino_of(&self, fd: i32) -> R<usize> {
        let o = self.ofd(fd)?;
        self.ofds[o].as_ref().unwrap().ino.ok_or(libc::EISDIR)
    }
    pub fn open(&mut self, path: &str, flags: i32) -> R<i32> {
        let acc = flags & libc::O_ACCMODE;
        let node = self.names.get(path).copied();
        let ofd = match node {
            Some(None) => {
                if acc != libc::O_RDONLY {
                    return Err(libc::EISDIR);
                }
                Ofd { ino: None, dir: path.to_string(), pos: 0, append: false, writable: false, refs: 1 }
            }
            Some(Some(ino)) => {
                if flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                    self.resize(ino, 0)?;
                }
                Ofd { ino: Some(ino), dir: String::new(), pos: 0, append: flags & libc::O_APPEND != 0, writable: acc != libc::O_RDONLY, refs: 1 }
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                let (d, _) = split(path);
                match self.names.get(d) {
                    Some(None) => {}
                    Some(Some(_)) => return Err(libc::ENOTDIR),
                    None => return Err(libc::ENOENT),
                }
                let ino = self.new_inode(path)?;
                self.names.insert(path.to_string(), Some(ino));
                self.meta(Meta::Link(path.to_string(), ino));
                Ofd { ino: Some(ino), dir: String::new(), pos: 0, append: flags & libc::O_APPEND != 0, writable: acc != libc::O_RDONLY, refs: 1 }
            }
        };
        if let Some(i) = ofd.ino {
            self.inodes[i].opens += 1;
        }
        self.ofds.push(Some(ofd));
        let o = self.ofds.len() - 1;
        Ok(self.alloc_fd(o))
    }
    pub fn close(&mut self, fd: i32) -> R<()> {
        let o = self.ofd(fd)?;
        self.fds[(fd - FD_BASE) as usize] = None;
        let e = self.ofds[o].as_mut().unwrap();
        e.refs -= 1;
        if e.refs == 0 {
            let ino = e.ino;
            self.ofds[o] = None;
            if let Some(i) = ino {
                self.inodes[i].opens -= 1;
                if self.inodes[i].lock == Some(o) {
                    self.inodes[i].lock = None;
                    rt().wake(0x5000_0000 + i, usize::MAX);
                }
            }
        }
        Ok(())
    }
    pub fn dup(&mut self, fd: i32) -> R<i32> {
        let o = self.ofd(fd)?;
        self.ofds[o].as_mut().unwrap().refs += 1;
        Ok(self.alloc_fd(o))
    }
    pub fn pread(&mut self, fd: i32, buf: &mut [u8], off: u64) -> R<usize> {
        let ino = self.ino_of(fd)?;
        let s = self.slice(ino);
        let (at, most) = self.place(ino, off as usize);
        let Some(off) = at else {
            let n = buf.len().min(most);
            buf[..n].fill(0);
            return Ok(n);
        };
        if off >= s.len() {
            return Ok(0);
        }
        let n = buf.len().min(s.len() - off).min(most);
        buf[..n].copy_from_slice(&s[off..off + n]);
        Ok(n)
    }
    pub fn pwrite(&mut self, fd: i32, buf: &[u8], off: u64) -> R<usize> {
        let ino = self.ino_of(fd)?;
        if !self.ofd_ref(fd)?.writable {
            return Err(libc::EBADF);
        }
        let (at, most) = self.place(ino, off as usize);
        let n = buf.len().min(most);
        let Some(off) = at else {
            return Ok(n); // lost
        };
        let end = off + n;
        if end > self.inodes[ino].size {
            self.resize(ino, end)?;
        }
        self.slice(ino)[off..end].copy_from_slice(&buf[..n]);
        Ok(n)
    }
    pub fn truncate(&mut self, fd: i32, size: u64) -> R<()> {
        let ino = self.ino_of(fd)?;
        if !self.ofd_ref(fd)?.writable {
            return Err(libc::EINVAL);
        }
        let size = match self.place(ino, size as usize).0 {
            Some(s) => s,
            None => self.inodes[ino].hole.0,
        };
        self.resize(ino, size)
    }
    pub fn rename(&mut self, a: &str, b: &str) -> R<()> {
        let Some(&src) = self.names.get(a) else { return Err(libc::ENOENT) };
        let Some(src) = src else { return Err(libc::EINVAL) };
        match self.names.get(b) {
            Some(None) => return Err(libc::EISDIR),
            Some(Some(old)) => {
                let old = *old;
                if old == src {
                    return Ok(());
                }
                self.inodes[old].links -= 1;
            }
            None => {
                let (d, _) = split(b);
                if self.names.get(d) != Some(&None) {
                    return Err(libc::ENOENT);
                }
            }
        }
        if a.contains("/compact_") && !crate::exec::w().opening {
            crate::exec::w().count.compactions += 1;
        }
        self.names.remove(a);
        self.names.insert(b.to_string(), Some(src));
        self.inodes[src].name = b.to_string();
        self.meta(Meta::Rename(a.to_string(), b.to_string()));
        let base = split(a).1;
        if base.starts_with("compact_") {
            stats::hit(stats::P_COMPACT);
        } else if base.starts_with("bottom_") {
            stats::hit(stats::P_SPLIT);
        } else if base.starts_with("merge_") {
            stats::hit(stats::P_MERGE);
        }
        Ok(())
    }
    pub fn link(&mut self, a: &str, b: &str) -> R<()> {
        let Some(&Some(src)) = self.names.get(a) else { return Err(libc::ENOENT) };
        if self.names.contains_key(b) {
            return Err(libc::EEXIST);
        }
        self.inodes[src].links += 1;
        self.names.insert(b.to_string(), Some(src));
        self.meta(Meta::Link(b.to_string(), src));
        Ok(())
    }
    pub fn unlink(&mut self, p: &str) -> R<()> {
        match self.names.get(p) {
            None => Err(libc::ENOENT),
            Some(None) => Err(libc::EISDIR),
            Some(Some(i)) => {
                let i = *i;
                self.inodes[i].links -= 1;
                self.names.remove(p);
                self.meta(Meta::Unlink(p.to_string()));
                Ok(())
            }
        }
    }
    pub fn mkdir(&mut self, p: &str) -> R<()> {
        let p = p.trim_end_matches('/');
        if self.names.contains_key(p) {
            return Err(libc::EEXIST);
        }
        let (d, _) = split(p);
        if self.names.get(d) != Some(&None) {
            return Err(libc::ENOENT);
        }
        self.names.insert(p.to_string(), None);
        self.meta(Meta::Mkdir(p.to_string()));
        Ok(())
    }
    pub fn rmdir(&mut self, p: &str) -> R<()> {
        if self.names.get(p) != Some(&None) {
            return Err(if self.names.contains_key(p) { libc::ENOTDIR } else { libc::ENOENT });
        }
        let pre = format!("{p}/");
        if self.names.keys().any(|k| k.starts_with(&pre)) {
            return Err(libc::ENOTEMPTY);
        }
        self.names.remove(p);
        self.meta(Meta::Unlink(p.to_string()));
        Ok(())
    }
    pub fn list(&self, dir: &str) -> Vec<(String, bool)> {
        let pre = format!("{}/", dir.trim_end_matches('/'));
        self.names
            .iter()
            .filter(|(k, _)| k.starts_with(&pre) && !k[pre.len()..].contains('/'))
            .map(|(k, v)| (k[pre.len()..].to_string(), v.is_none()))
            .collect()
    }
    pub fn sync(&mut self, ino: usize) {
        if !self.power_runs {
            return;
        }
        let s = self.slice(ino).to_vec();
        let i = &mut self.inodes[ino];
        i.durable = s;
        i.truncated = false;
        i.synced = true;
        self.committed = self.journal.len();
    }
    pub fn sync_dir(&mut self) {
        self.committed = self.journal.len();
    }
    /// What survives: a killed process loses only its descriptors, locks and mappings; after a power
    /// failure a prefix of the directory operations not yet committed and any subset of the unsynced
    /// pages survives.
    pub fn crash(&mut self, power: bool, r: &mut Rng) {
        self.fds.clear();
        self.ofds.clear();
        self.dirs.clear();
        for i in self.inodes.iter_mut() {
            i.lock = None;
            i.maps = 0;
            i.opens = 0;
        }
        if !power {
            return;
        }
        let extra = (self.journal.len() - self.committed) as u64;
        let keep = self.committed + if r.chance(1, 3) { extra } else { r.below(extra + 1) } as usize;
        let mut names: BTreeMap<String, Option<usize>> = BTreeMap::new();
        names.insert("/sim".to_string(), None);
        self.journal.truncate(keep);
        self.committed = keep;
        for m in &self.journal {
            match m {
                Meta::Link(p, i) => {
                    names.insert(p.clone(), Some(*i));
                }
                Meta::Unlink(p) => {
                    names.remove(p);
                }
                Meta::Rename(a, b) => {
                    if let Some(v) = names.remove(a) {
                        names.insert(b.clone(), v);
                    }
                }
                Meta::Mkdir(p) => {
                    names.insert(p.clone(), None);
                }
            }
        }
        for i in self.inodes.iter_mut() {
            i.links = 0;
        }
        for (k, v) in &names {
            if let Some(i) = v {
                self.inodes[*i].links += 1;
                self.inodes[*i].name = k.clone();
            }
        }
        self.names = names;
        // 0: nothing unsynced survives, 1: everything, 2..: each page decided at random
        let style = r.below(6);
        for ino in 0..self.inodes.len() {
            let cur = self.slice(ino).to_vec();
            let old = std::mem::take(&mut self.inodes[ino].durable);
            if cur == old {
                self.inodes[ino].durable = old;
                continue;
            }
            let truncated = self.inodes[ino].truncated;
            let new = if truncated && (style == 0 || (style >= 2 && r.chance(1, 2))) {
                old
            } else {
                let base: &[u8] = if truncated { &[] } else { &old };
                let n = base.len().max(cur.len());
                let pages = (n + PAGE - 1) / PAGE;
                let mut out = vec![0u8; n];
                let mut size = base.len();
                let p_new = 1 + r.below(9);
                for pg in 0..pages {
                    let (a, b) = (pg * PAGE, ((pg + 1) * PAGE).min(n));
                    let o: &[u8] = if a < base.len() { &base[a..b.min(base.len())] } else { &[] };
                    let c: &[u8] = if a < cur.len() { &cur[a..b.min(cur.len())] } else { &[] };
                    let take_new = o != c
                        && match style {
                            0 => false,
                            1 => true,
                            _ => r.chance(p_new, 10),
                        };
                    let s = if take_new { c } else { o };
                    out[a..a + s.len()].copy_from_slice(s);
                    if take_new {
                        size = size.max(a + c.len());
                    }
                }
                // the size is metadata: it may have been committed even though no page of the growth was
                if cur.len() > size && (style == 1 || (style >= 2 && r.chance(1, 2))) {
                    size = cur.len();
                }
                out.resize(size, 0);
                out
            };
            let oldsize = self.inodes[ino].size;
            let base = self.inodes[ino].base;
            let all = unsafe { std::slice::from_raw_parts_mut(base as *mut u8, oldsize.max(new.len())) };
            all.fill(0);
            all[..new.len()].copy_from_slice(&new);
            self.inodes[ino].size = new.len();
            self.inodes[ino].durable = new;
            self.inodes[ino].truncated = false;
        }
    }
    /// total size of the files that have a name, and their number
    pub fn usage(&self, dir: &str) -> (usize, Vec<(String, usize)>) {
        let l = self.list(dir);
        let mut v = vec![];
        let mut tot = 0;
        for (n, d) in l {
            if !d {
                let i = self.names[&format!("{dir}/{n}")].unwrap();
                tot += self.inodes[i].size;
                v.push((n, self.inodes[i].size));
            }
        }
        (tot, v)
    }
    pub fn contents(&self, path: &str) -> Option<Vec<u8>> {
        let i = (*self.names.get(path)?)?;
        Some(self.slice(i).to_vec())
    }
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let ino = match self.names.get(path) {
            Some(Some(i)) => *i,
            _ => {
                let i = self.new_inode(path).unwrap();
                self.names.insert(path.to_string(), Some(i));
                self.meta(Meta::Link(path.to_string(), i));
                i
            }
        };
        let _ = self.resize(ino, data.len());
        self.slice(ino).copy_from_slice(data);
        self.sync(ino);
    }
    pub fn remove(&mut self, path: &str) {
        let _ = self.unlink(path);
    }
    /// decides whether the I/O call about to run is disturbed
    fn fault(&mut self, class: u32, path: &str) -> u32 {
        self.io += 1;
        if let Some(&a) = self.faults.list.get(&self.io) {
            return a;
        }
        if self.faults.mean == 0 || path.ends_with("/.lock") {
            return 0;
        }
        if self.faults.hang {
            if crate::rt::rt().hang.is_some() || shard_of(class, path).is_none() {
                return 0;
            }
            self.fault_left -= 1;
            if self.fault_left > 0 {
                return 0;
            }
            self.fault_left = self.frng.exp(self.faults.mean);
            return F_HANG;
        }
        let hard_ok = self.faults.hard & (1 << class) != 0;
        if self.cut && class == C_WRITE {
            self.cut = false;
            return self.burst_act;
        }
        if self.burst_left > 0 && hard_ok {
            self.burst_left -= 1;
            return self.burst_act;
        }
        let soft_ok = self.faults.soft;
        if !hard_ok && !soft_ok {
            return 0;
        }
        self.fault_left -= 1;
        if self.fault_left > 0 {
            return 0;
        }
        self.fault_left = self.frng.exp(self.faults.mean);
        let hard = hard_ok && self.hard_fired < self.faults.max_hard && (!soft_ok || self.frng.chance(2, 3));
        if hard {
            self.hard_fired += 1;
            let a = if matches!(class, C_WRITE | C_TRUNC | C_OPEN) && self.frng.chance(1, 2) { F_ENOSPC } else { F_EIO };
            self.burst_left = self.faults.burst;
            self.burst_act = a;
            if class == C_WRITE && self.frng.chance(1, 3) {
                // part of it gets written
                self.cut = true;
                return F_SHORT;
            }
            return a;
        }
        if soft_ok {
            let c = self.frng.below(4);
            return match (class, c) {
                (C_READ | C_WRITE, 0 | 1) => F_SHORT,
                (C_READ | C_WRITE | C_OPEN | C_SYNC, 2) => F_EINTR,
                _ => F_DELAY,
            };
        }
        0
    }
}

/// the span of slots whose operations may have to wait for this call
fn shard_of(class: u32, path: &str) -> Option<(u32, u32)> {
    let r = crate::rt::rt();
    let background = class == C_RENAME && r.threads[r.cur as usize].op.is_empty();
    if !(background || matches!(class, C_READ | C_WRITE | C_SYNC | C_TRUNC | C_OPEN)) || !crate::exec::w().serving {
        return None;
    }
    let name = path.rsplit('/').next()?;
    let (kind, span) = name.split_once('_')?;
    let (lo, hi) = span.split_once('-')?;
    let (lo, hi) = (u32::from_str_radix(lo, 16).ok()?, u32::from_str_radix(hi, 16).ok()?);
    match kind {
        "shard" | "compact" => Some((lo, hi)),
        // the halves of a shard that is being split
        "bottom" => Some((lo, hi + (hi - lo))),
        "top" => Some(((2 * lo).saturating_sub(hi), hi)),
        _ => None,
    }
}

/// every simulated file-system call starts here: scheduling point, latency, fault decision.
/// Err(errno): the call fails. Ok(Some(n)): transfer at most n bytes. Ok(None): no disturbance.
pub fn enter(class: u32, name: &'static str, path: &str, len: usize) -> R<Option<usize>> {
    let r = rt();
    let kind = match class {
        C_READ | C_WRITE | C_STAT => K_DATA,
        C_RENAME | C_UNLINK => K_DIR,
        _ => K_META,
    };
    r.point(kind);
    r.now += 1000;
    r.log(16 + class as u64, hash_str(path.as_bytes()), len as u64);
    {
        let io = &mut r.threads[r.cur as usize].io;
        match class {
            C_READ => io[0] += 1,
            C_WRITE => io[1] += 1,
            _ => io[2] += 1,
        }
        if class == C_OPEN && path.contains("/compact_") {
            io[3] += 1;
        }
        if class == C_OPEN && (path.contains("/bottom_") || path.contains("/top_")) {
            io[4] += 1;
        }
    }
    if crate::rt::rt().trace_on && class != C_STAT {
        let p = path.trim_start_matches("/sim/").to_string();
        r.note(|| format!("{name} {p} len={len}"));
    }
    stats::hit(stats::IO_BASE + class as usize);
    let a = r.fs.fault(class, path);
    if a == 0 {
        return Ok(None);
    }
    let io = r.fs.io;
    r.out.faults.push((io, a));
    r.note(|| format!("    !! fault {} on {name}", FNAMES[a as usize & 7]));
    stats::hit(stats::FAULT_BASE + (a & 7) as usize);
    r.log(3, io, a as u64);
    match a & 7 {
        F_EIO => {
            r.fs.hard_errs += 1;
            Err(libc::EIO)
        }
        F_ENOSPC => {
            r.fs.hard_errs += 1;
            Err(libc::ENOSPC)
        }
        F_EINTR => {
            if matches!(class, C_READ | C_WRITE | C_OPEN | C_SYNC) {
                Err(libc::EINTR)
            } else {
                Ok(None)
            }
        }
        F_SHORT => {
            if len > 1 {
                // derived, not drawn, so that replaying the list gives the same length
                Ok(Some(1 + (hash_mix(io, len as u64) % (len as u64 - 1)) as usize))
            } else {
                Ok(None)
            }
        }
        F_DELAY => {
            let d = 1_000_000 * (1 + hash_mix(io, 7) % 200);
            let dl = r.now + d;
            if r.frozen == 0 {
                r.block(0, dl, "slow disk");
            }
            Ok(None)
        }
        F_HANG => {
            if let (Some((lo, hi)), 0, None) = (shard_of(class, path), r.frozen, r.hang) {
                let dl = r.now + STUCK;
                r.hang = Some((dl, lo, hi, r.threads[r.cur as usize].op.is_empty()));
                r.block(0, dl, "stuck disk");
                r.hang = None;
            }
            Ok(None)
        }
        F_TORN => Ok(None),
        _ => Ok(None),
    }
}

/// an entry was read or written
pub fn counted(write: bool, len: usize, off: u64) {
    if off < candystore::Stats::FILE_HEADER_SIZE as u64 {
        return;
    }
    let c = &mut crate::exec::w().count;
    let x = if write { &mut c.writes } else { &mut c.reads };
    *x = (x.0 + 1, x.1 + len);
    if write {
        c.sizes[[128, 1024, 8192, 32768].iter().filter(|x| len >= **x).count()] += 1;
    }
}
