//! libc calls the node reaches through std, interposed in this executable.
//!
//! * `getrandom` seeds std's hash maps: within a simulated run it is a function of the run's seed.
//! * `open64`, `write`, `ftruncate64`, `fdatasync`, `fsync`, `close`: files of the simulated node go
//!   through a per-thread disk which journals every mutation and injects faults and crash points.
//!   All other files, and all threads that do not run a simulated node, get the plain system call.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::CStr;

thread_local! {
    static HASHSEED: Cell<u64> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static DISK: RefCell<Disk> = RefCell::new(Disk::default());
}

pub fn set_hash_seed(seed: u64) {
    HASHSEED.with(|c| c.set(seed | 1));
}

/// One mutation of a simulated file.
#[derive(Clone, Debug)]
pub enum Mutation {
    Write { off: u64, data: Vec<u8> },
    Truncate { len: u64 },
    /// The file was replaced (renamed over) by one with this content.
    /// `loose`: parts of it were never synced.
    Replace { data: Vec<u8>, loose: bool },
}

#[derive(Default, Debug)]
pub struct SimFile {
    /// Content considered durable (at open, or at the last sync).
    pub base: Vec<u8>,
    /// Mutations since.
    pub journal: Vec<Mutation>,
    /// Mutations folded into the base by syncs.
    pub synced: u64,
}

impl SimFile {
    pub fn content(&self, upto: usize) -> Vec<u8> {
        let mut c = self.base.clone();
        for m in self.journal.iter().take(upto) {
            apply(&mut c, m);
        }
        c
    }
}

pub fn apply(c: &mut Vec<u8>, m: &Mutation) {
    match m {
        Mutation::Write { off, data } => {
            let end = *off as usize + data.len();
            if c.len() < end {
                c.resize(end, 0);
            }
            c[*off as usize..end].copy_from_slice(data);
        }
        Mutation::Truncate { len } => c.resize(*len as usize, 0),
        Mutation::Replace { data, .. } => *c = data.clone(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DiskFault {
    /// The process dies inside this operation; `u32` bytes of the write reach the file.
    Crash(u32),
    /// The operation fails with this errno; nothing is written.
    Errno(i32),
    /// Only this many bytes are written (a legal short write).
    Short(u32),
    /// Interrupted (EINTR), nothing written; legal and retried by std.
    Intr,
}

#[derive(Default)]
pub struct Disk {
    pub root: String,
    pub fds: BTreeMap<i32, String>,
    pub files: BTreeMap<String, SimFile>,
    /// Mutating operations seen in this incarnation.
    pub ops: u64,
    /// Fault armed for the operation with this number.
    pub plan: BTreeMap<u64, DiskFault>,
    /// The process is dead: nothing reaches the disk any more.
    pub dead: bool,
    /// Bytes (or operations) that failed: the file may lack them legitimately.
    pub fired: Vec<(u64, DiskFault, String)>,
    /// All further writes fail with ENOSPC while set.
    pub full: bool,
    /// Total mutation count, for statistics.
    pub total_ops: u64,
}

/// Start tracking files below `root` in this thread (a new incarnation of the node).
pub fn disk_start(root: &str) {
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        *d = Disk { root: root.to_string(), ..Disk::default() };
    });
    ACTIVE.with(|a| a.set(true));
}

pub fn disk_stop() {
    ACTIVE.with(|a| a.set(false));
}

pub fn with_disk<T>(f: impl FnOnce(&mut Disk) -> T) -> T {
    let was = ACTIVE.with(|a| a.replace(false));
    let r = DISK.with(|d| f(&mut d.borrow_mut()));
    ACTIVE.with(|a| a.set(was));
    r
}

/// Run harness I/O without the simulated disk in the way.
pub fn bypass<T>(f: impl FnOnce() -> T) -> T {
    let was = ACTIVE.with(|a| a.replace(false));
    let r = f();
    ACTIVE.with(|a| a.set(was));
    r
}

fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn raw_write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    let seed = HASHSEED.try_with(|c| c.get()).unwrap_or(0);
    if seed != 0 {
        let mut r = crate::rng::Rng::new(seed);
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for b in out.iter_mut() {
            *b = r.next() as u8;
        }
        return len as isize;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    if active() && (flags & (libc::O_CREAT | libc::O_TRUNC)) != 0 && DISK.with(|d| d.borrow().dead) {
        set_errno(libc::EIO);
        return -1;
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode as libc::c_uint) as i32;
    if fd >= 0 && active() {
        let p = CStr::from_ptr(path).to_string_lossy().into_owned();
        ACTIVE.with(|a| a.set(false));
        DISK.with(|d| {
            let mut d = d.borrow_mut();
            if !d.root.is_empty() && p.starts_with(&d.root) && (flags & libc::O_ACCMODE) != libc::O_RDONLY {
                let name = p.rsplit('/').next().unwrap_or("").to_string();
                let base = std::fs::read(&p).unwrap_or_default();
                d.fds.insert(fd, name.clone());
                if flags & libc::O_TRUNC != 0 {
                    if let Some(f) = d.files.get_mut(&name) {
                        f.journal.push(Mutation::Truncate { len: 0 });
                    }
                }
                d.files.entry(name).or_insert_with(|| SimFile { base, ..SimFile::default() });
            }
        });
        ACTIVE.with(|a| a.set(true));
    }
    fd
}

enum Act {
    Plain,
    Drop,
    Do(usize, Option<i32>, bool),
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    if let Some(r) = crate::kernel::kernel_write(fd, buf, n) {
        return r;
    }
    if !active() {
        return match crate::wallet::disk_op(n) {
            None => raw_write(fd, buf, n),
            Some(Ok(m)) => {
                let r = raw_write(fd, buf, m);
                if m < n && r >= 0 {
                    set_errno(libc::EIO);
                    return -1;
                }
                r
            }
            Some(Err(e)) => {
                set_errno(e);
                -1
            }
        };
    }
    ACTIVE.with(|a| a.set(false));
    let act = DISK.with(|d| {
        let mut d = d.borrow_mut();
        let Some(name) = d.fds.get(&fd).cloned() else { return Act::Plain };
        if d.dead {
            return Act::Drop;
        }
        if d.full {
            let k = d.ops;
            d.ops += 1;
            d.fired.push((k, DiskFault::Errno(libc::ENOSPC), name));
            return Act::Do(0, Some(libc::ENOSPC), false);
        }
        d.ops += 1;
        d.total_ops += 1;
        let k = d.ops - 1;
        match d.plan.remove(&k) {
            None => Act::Do(n, None, false),
            Some(f) => {
                d.fired.push((k, f, name));
                match f {
                    DiskFault::Crash(b) => {
                        d.dead = true;
                        Act::Do((b as usize).min(n), None, true)
                    }
                    DiskFault::Errno(e) => Act::Do(0, Some(e), false),
                    DiskFault::Short(b) => Act::Do((b as usize).clamp(1, n.max(1)), None, false),
                    DiskFault::Intr => Act::Do(0, Some(libc::EINTR), false),
                }
            }
        }
    });
    let r = match act {
        Act::Plain => raw_write(fd, buf, n),
        Act::Drop => n as isize,
        Act::Do(m, err, crash) => {
            if let Some(e) = err {
                set_errno(e);
                -1
            } else {
                if m > 0 {
                    let r = raw_write(fd, buf, m);
                    assert!(r == m as isize, "harness: real disk refused a write");
                    let end = libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_CUR) as u64;
                    let data = std::slice::from_raw_parts(buf as *const u8, m).to_vec();
                    DISK.with(|d| {
                        let mut d = d.borrow_mut();
                        let name = d.fds[&fd].clone();
                        let off = end - m as u64;
                        d.files.get_mut(&name).unwrap().journal.push(Mutation::Write { off, data });
                    });
                }
                if crash { n as isize } else { m as isize }
            }
        }
    };
    ACTIVE.with(|a| a.set(true));
    r
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if !active() {
        if let Some(r) = crate::wallet::disk_op(8) {
            if r.map_or(true, |m| m == 0) {
                set_errno(r.err().unwrap_or(libc::EIO));
                return -1;
            }
        }
        return libc::syscall(libc::SYS_ftruncate, fd, len) as i32;
    }
    ACTIVE.with(|a| a.set(false));
    let mut err = 0;
    let mut go = true;
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        let Some(name) = d.fds.get(&fd).cloned() else { return };
        if d.dead {
            go = false;
            return;
        }
        d.ops += 1;
        d.total_ops += 1;
        let k = d.ops - 1;
        if let Some(f) = d.plan.remove(&k) {
            d.fired.push((k, f, name.clone()));
            match f {
                DiskFault::Crash(b) => {
                    d.dead = true;
                    if b == 0 {
                        go = false;
                        return;
                    }
                }
                DiskFault::Errno(e) => {
                    err = e;
                    go = false;
                    return;
                }
                DiskFault::Short(_) => {}
                DiskFault::Intr => {
                    err = libc::EINTR;
                    go = false;
                    return;
                }
            }
        }
        d.files.get_mut(&name).unwrap().journal.push(Mutation::Truncate { len: len as u64 });
    });
    let r = if err != 0 {
        set_errno(err);
        -1
    } else if go {
        libc::syscall(libc::SYS_ftruncate, fd, len) as i32
    } else {
        0
    };
    ACTIVE.with(|a| a.set(true));
    r
}

unsafe fn sync(fd: i32) -> i32 {
    if !active() {
        if let Some(Err(e)) = crate::wallet::disk_op(8) {
            set_errno(e);
            return -1;
        }
        return 0;
    }
    ACTIVE.with(|a| a.set(false));
    let mut err = 0;
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        let Some(name) = d.fds.get(&fd).cloned() else { return };
        if d.dead {
            return;
        }
        d.ops += 1;
        let k = d.ops - 1;
        if let Some(f) = d.plan.remove(&k) {
            d.fired.push((k, f, name.clone()));
            match f {
                DiskFault::Crash(_) => {
                    d.dead = true;
                    return;
                }
                DiskFault::Errno(e) => {
                    err = e;
                    return;
                }
                DiskFault::Intr => {
                    err = libc::EINTR;
                    return;
                }
                DiskFault::Short(_) => {}
            }
        }
        let f = d.files.get_mut(&name).unwrap();
        let n = f.journal.len();
        f.base = f.content(n);
        f.journal.clear();
        f.synced += n as u64;
    });
    ACTIVE.with(|a| a.set(true));
    if err != 0 {
        set_errno(err);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    sync(fd)
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    sync(fd)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if crate::kernel::kernel_close(fd) {
        return 0;
    }
    if active() {
        ACTIVE.with(|a| a.set(false));
        DISK.with(|d| {
            if let Ok(mut d) = d.try_borrow_mut() {
                d.fds.remove(&fd);
            }
        });
        ACTIVE.with(|a| a.set(true));
    }
    libc::syscall(libc::SYS_close, fd) as i32
}

/// Only the wallet's database removes files.
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> i32 {
    if let Some(r) = crate::wallet::disk_op(8) {
        if r.map_or(true, |m| m == 0) {
            set_errno(r.err().unwrap_or(libc::EIO));
            return -1;
        }
    }
    libc::syscall(libc::SYS_unlink, path) as i32
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const libc::c_char, to: *const libc::c_char) -> i32 {
    if active() {
        let src = CStr::from_ptr(from).to_string_lossy().into_owned();
        let dst = CStr::from_ptr(to).to_string_lossy().into_owned();
        let root = with_disk(|d| d.root.clone());
        if !root.is_empty() && src.starts_with(&root) && dst.starts_with(&root) {
            let mut err = 0;
            let mut go = true;
            with_disk(|d| {
                if d.dead {
                    go = false;
                    return;
                }
                d.ops += 1;
                d.total_ops += 1;
                let k = d.ops - 1;
                let sn = src.rsplit('/').next().unwrap_or("").to_string();
                let dn = dst.rsplit('/').next().unwrap_or("").to_string();
                if let Some(f) = d.plan.remove(&k) {
                    d.fired.push((k, f, dn.clone()));
                    match f {
                        DiskFault::Crash(b) => {
                            d.dead = true;
                            if b == 0 {
                                go = false;
                                return;
                            }
                        }
                        DiskFault::Errno(e) => {
                            err = e;
                            go = false;
                            return;
                        }
                        _ => {}
                    }
                }
                let old = std::fs::read(&dst).unwrap_or_default();
                // Renaming makes the name durable at best, never unsynced data.
                let (content, loose) = match d.files.remove(&sn) {
                    Some(f) => {
                        let n = f.journal.len();
                        (f.content(n), n > 0)
                    }
                    None => (std::fs::read(&src).unwrap_or_default(), false),
                };
                for v in d.fds.values_mut() {
                    if *v == sn {
                        *v = dn.clone();
                    }
                }
                let f = d.files.entry(dn).or_insert_with(|| SimFile { base: old, ..SimFile::default() });
                f.journal.push(Mutation::Replace { data: content, loose });
            });
            if err != 0 {
                set_errno(err);
                return -1;
            }
            if !go {
                return 0;
            }
        }
    }
    libc::syscall(libc::SYS_rename, from, to) as i32
}

/// Number of mutations of a file so far in this incarnation.
pub fn file_version(name: &str) -> u64 {
    with_disk(|d| d.files.get(name).map(|f| f.journal.len() as u64 + f.synced).unwrap_or(0))
}

/// A disk operation of this incarnation failed.
pub fn errored() -> bool {
    with_disk(|d| d.full || d.fired.iter().any(|(_, f, _)| matches!(f, DiskFault::Errno(_))))
}
