//! The process's own randomness and its disk, behind the system calls that the standard library makes.
//!
//! `getrandom` answers from a seed of the current thread (so every hash map of a simulated process
//! depends on that seed only). File calls on paths below a session's directory are counted, may fail,
//! be cut short or end the process there, and are recorded so that a crash can be materialised: data
//! that was not synced may be lost or torn, and directory changes survive as a prefix of their order.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};

thread_local! {
    static RANDOM: Cell<Option<u64>> = const { Cell::new(None) };
    static DISK: RefCell<Option<Disk>> = const { RefCell::new(None) };
    /// whether this thread has a session; read first so that other threads stay untouched
    static ON: Cell<bool> = const { Cell::new(false) };
    static PID: Cell<Option<c_int>> = const { Cell::new(None) };
    static RELAY: RefCell<Option<(Arc<Relay>, usize)>> = const { RefCell::new(None) };
}

/// The process number the current thread's simulated process sees.
pub fn set_pid(p: Option<c_int>) {
    PID.with(|x| x.set(p))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpid() -> c_int {
    PID.try_with(|p| p.get()).ok().flatten().unwrap_or_else(|| unsafe { libc::syscall(libc::SYS_getpid) as c_int })
}

/// Lets several simulated processes share one disk: one runs at a time, and before each operation on
/// the disk a seeded choice says who goes on.
pub struct Relay {
    at: Mutex<Turn>,
    moved: Condvar,
}
struct Turn {
    disk: Option<Disk>,
    now: usize,
    ended: Vec<bool>,
    rng: simkit::Rng,
    /// in 1 of so many operations another process goes on
    every: u64,
    switches: u64,
}
impl Relay {
    /// Takes the disk that the current thread has opened.
    pub fn new(n: usize, every: u64, rng: simkit::Rng) -> Arc<Self> {
        let disk = close_disk();
        Arc::new(Relay { at: Mutex::new(Turn { disk: Some(disk), now: 0, ended: vec![false; n], rng, every, switches: 0 }), moved: Condvar::new() })
    }
    fn take(self: &Arc<Self>, me: usize) {
        let mut t = self.at.lock().unwrap();
        while t.now != me || t.disk.is_none() {
            t = self.moved.wait(t).unwrap();
        }
        let d = t.disk.take();
        drop(t);
        DISK.with(|x| *x.borrow_mut() = d);
    }
    fn give(self: &Arc<Self>, ended: Option<usize>) {
        let d = DISK.with(|x| x.borrow_mut().take());
        let mut t = self.at.lock().unwrap();
        t.disk = d;
        if let Some(me) = ended {
            t.ended[me] = true;
        }
        let open: Vec<usize> = (0..t.ended.len()).filter(|i| !t.ended[*i]).collect();
        if !open.is_empty() {
            let k = t.rng.below(open.len() as u64) as usize;
            if t.now != open[k] {
                t.switches += 1;
            }
            t.now = open[k];
        }
        drop(t);
        self.moved.notify_all();
    }
    /// Runs as process `me`, from the first time it is its turn.
    pub fn run<T>(self: &Arc<Self>, me: usize, f: impl FnOnce() -> T) -> T {
        self.take(me);
        ON.with(|o| o.set(true));
        RELAY.with(|r| *r.borrow_mut() = Some((self.clone(), me)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        RELAY.with(|r| *r.borrow_mut() = None);
        ON.with(|o| o.set(false));
        self.give(Some(me));
        r.unwrap_or_else(|p| std::panic::resume_unwind(p))
    }
    /// The disk, once all have ended, and how often they took turns.
    pub fn finish(&self) -> (Disk, u64) {
        let mut t = self.at.lock().unwrap();
        (t.disk.take().expect("a process still runs"), t.switches)
    }
    fn pass(self: &Arc<Self>, me: usize) {
        let yes = {
            let mut t = self.at.lock().unwrap();
            let every = t.every;
            t.rng.below(every) == 0
        };
        if yes {
            self.give(None);
            self.take(me);
        }
    }
}
/// A point where another process sharing the disk may go on.
fn pass() {
    let r = RELAY.try_with(|r| r.try_borrow().ok().and_then(|r| r.clone())).ok().flatten();
    if let Some((r, me)) = r {
        r.pass(me);
    }
}

/// Makes the system's randomness on this thread a function of a seed.
pub fn seed_random(s: Option<u64>) {
    RANDOM.with(|r| r.set(s))
}
fn mix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if let Ok(Some(mut s)) = RANDOM.try_with(|r| r.get()) {
        let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
        for c in out.chunks_mut(8) {
            let v = mix(&mut s).to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        let _ = RANDOM.try_with(|r| r.set(Some(s)));
        return len as isize;
    }
    unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize }
}

#[derive(Clone, Debug, Default)]
struct Inode {
    live: Vec<u8>,
    /// content known to be on the medium
    durable: Vec<u8>,
    /// size at the last change of length, to tear between
    dirty: bool,
}
#[derive(Clone, Debug)]
enum Meta {
    Create(PathBuf, usize),
    Rename(PathBuf, PathBuf),
    Link(PathBuf, PathBuf),
    Unlink(PathBuf),
    Mkdir(PathBuf),
    Rmdir(PathBuf),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// input/output error
    Io,
    /// no space left; a write may first store a part
    Full,
    /// less than asked for is written or read
    Short,
    /// interrupted, to be repeated
    Intr,
}
/// Which operations go wrong.
#[derive(Clone, Debug, Default)]
pub struct Faults {
    /// the process ends at this operation (counted over all operations of the session)
    pub crash_at: Option<u64>,
    /// (operation, what)
    pub bad: Vec<(u64, Bad)>,
    /// from this operation on the disk is full
    pub full_from: Option<u64>,
    /// and until this one
    pub full_until: Option<u64>,
    /// operations are counted from the first one on a path containing one of these
    pub after: &'static [&'static str],
}
#[derive(Default)]
pub struct Disk {
    root: PathBuf,
    faults: Faults,
    ops: u64,
    armed: Option<u64>,
    dead: bool,
    inodes: Vec<Inode>,
    names: BTreeMap<PathBuf, usize>,
    fds: HashMap<c_int, Fd>,
    meta: Vec<Meta>,
    /// directory changes known to be on the medium
    meta_durable: usize,
    start: (BTreeMap<PathBuf, usize>, Vec<PathBuf>),
    pub log: Vec<String>,
    pub fired: BTreeMap<&'static str, u64>,
}
#[derive(Clone)]
struct Fd {
    ino: Option<usize>,
    path: PathBuf,
}

/// What is on the disk after a crash.
#[derive(Clone, Debug)]
pub struct Image {
    pub files: BTreeMap<PathBuf, Vec<u8>>,
    pub dirs: Vec<PathBuf>,
}

/// Starts a session on `root`, whose present content is on the medium.
pub fn open_disk(root: &Path, faults: Faults) {
    let mut d = Disk { root: root.to_path_buf(), faults, ..Disk::default() };
    let mut stack = vec![root.to_path_buf()];
    let mut dirs = vec![];
    while let Some(p) = stack.pop() {
        for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
            let q = e.path();
            if q.is_dir() {
                dirs.push(q.clone());
                stack.push(q);
            } else {
                let b = std::fs::read(&q).unwrap_or_default();
                d.names.insert(q, d.inodes.len());
                d.inodes.push(Inode { live: b.clone(), durable: b, dirty: false });
            }
        }
    }
    dirs.sort();
    d.start = (d.names.clone(), dirs);
    DISK.with(|x| *x.borrow_mut() = Some(d));
    ON.with(|o| o.set(true));
}
pub fn set_faults(f: Faults) {
    DISK.with(|x| {
        if let Some(d) = x.borrow_mut().as_mut() {
            d.faults = f;
        }
    })
}
pub fn ops() -> u64 {
    DISK.with(|x| x.borrow().as_ref().map_or(0, |d| d.ops))
}
pub fn crashed() -> bool {
    DISK.with(|x| x.borrow().as_ref().is_some_and(|d| d.dead))
}
/// Faults met so far.
pub fn fired() -> BTreeMap<&'static str, u64> {
    DISK.with(|x| x.borrow().as_ref().map_or(BTreeMap::new(), |d| d.fired.clone()))
}
/// Ends a session.
pub fn close_disk() -> Disk {
    ON.with(|o| o.set(false));
    DISK.with(|x| x.borrow_mut().take()).expect("no disk session")
}
/// All regular files below a directory.
pub fn read_all(root: &Path) -> Image {
    let mut files = BTreeMap::new();
    let mut dirs = vec![];
    let mut stack = vec![root.to_path_buf()];
    while let Some(p) = stack.pop() {
        for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
            let q = e.path();
            let rel = q.strip_prefix(root).unwrap().to_path_buf();
            if q.is_dir() {
                dirs.push(rel);
                stack.push(q);
            } else {
                files.insert(rel, std::fs::read(&q).unwrap_or_default());
            }
        }
    }
    dirs.sort();
    Image { files, dirs }
}
pub fn write_all(root: &Path, img: &Image) {
    for d in &img.dirs {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    for (p, b) in &img.files {
        let q = root.join(p);
        std::fs::create_dir_all(q.parent().unwrap()).unwrap();
        std::fs::write(q, b).unwrap();
    }
}

impl Disk {
    pub fn operations(&self) -> u64 {
        self.ops
    }
    pub fn unsynced(&self) -> usize {
        self.meta.len() - self.meta_durable
    }
    /// The content after a power loss at this point; `r` decides what of the unsynced part survives.
    pub fn crash_image(&self, r: &mut simkit::Rng) -> Image {
        let keep = self.meta_durable + r.idx(self.meta.len() - self.meta_durable + 1);
        let (mut names, mut dirs) = self.start.clone();
        for m in &self.meta[..keep] {
            match m {
                Meta::Create(p, i) => {
                    names.insert(p.clone(), *i);
                }
                Meta::Rename(a, b) => {
                    if let Some(i) = names.remove(a) {
                        names.insert(b.clone(), i);
                    }
                }
                Meta::Link(a, b) => {
                    if let Some(i) = names.get(a).copied() {
                        names.insert(b.clone(), i);
                    }
                }
                Meta::Unlink(p) => {
                    names.remove(p);
                }
                Meta::Mkdir(p) => dirs.push(p.clone()),
                Meta::Rmdir(p) => dirs.retain(|d| d != p),
            }
        }
        // one fate per inode
        let mut content: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        let mut files = BTreeMap::new();
        for (p, i) in names {
            let Ok(rel) = p.strip_prefix(&self.root) else { continue };
            let n = &self.inodes[i];
            let c = content
                .entry(i)
                .or_insert_with(|| {
                    if !n.dirty {
                        return n.live.clone();
                    }
                    match r.below(5) {
                        0 => n.durable.clone(),
                        1 => n.live.clone(),
                        2 => {
                            // a prefix arrived
                            let k = r.idx(n.live.len() + 1);
                            n.live[..k].to_vec()
                        }
                        3 => {
                            // the length arrived, the data did not
                            let mut v = vec![0; n.live.len()];
                            let k = n.durable.len().min(v.len());
                            v[..k].copy_from_slice(&n.durable[..k]);
                            v
                        }
                        _ => {
                            // some blocks are missing
                            let mut v = n.live.clone();
                            for b in v.chunks_mut(512) {
                                if r.below(3) == 0 {
                                    b.fill(0);
                                }
                            }
                            v
                        }
                    }
                })
                .clone();
            files.insert(rel.to_path_buf(), c);
        }
        let dirs = dirs.into_iter().filter_map(|d| d.strip_prefix(&self.root).ok().map(|x| x.to_path_buf())).collect();
        Image { files, dirs }
    }
    fn hit(&mut self, k: &'static str) {
        *self.fired.entry(k).or_default() += 1;
    }
    /// Counts an operation: an error number if it must fail.
    fn step(&mut self, what: &str, path: &Path, write: bool) -> Result<Option<Bad>, c_int> {
        if self.dead {
            // the machine is down for every process that shares the disk
            if RELAY.with(|r| r.borrow().is_some()) {
                simrt::doom("crash");
            }
            return Err(libc::EIO);
        }
        let k = self.ops;
        self.ops += 1;
        if self.log.len() < 400 {
            self.log.push(format!("{k} {what} {}", path.strip_prefix(&self.root).unwrap_or(path).display()));
        }
        if self.armed.is_none() {
            let p = path.to_string_lossy();
            if !self.faults.after.is_empty() && !self.faults.after.iter().any(|m| p.contains(m)) {
                return Ok(None);
            }
            self.armed = Some(if self.faults.after.is_empty() { 0 } else { k });
        }
        let k = k - self.armed.unwrap();
        if self.faults.crash_at == Some(k) {
            self.dead = true;
            self.hit("crash");
            simrt::doom("crash");
            return Err(libc::EIO);
        }
        let full = self.faults.full_from.is_some_and(|f| k >= f) && self.faults.full_until.is_none_or(|u| k < u);
        if full && write {
            self.hit("disk-full");
            return Err(libc::ENOSPC);
        }
        if let Some((_, b)) = self.faults.bad.iter().find(|(i, _)| *i == k) {
            return match b {
                Bad::Io => {
                    self.hit("io-error");
                    Err(libc::EIO)
                }
                Bad::Full if write => {
                    self.hit("no-space");
                    Ok(Some(Bad::Full))
                }
                Bad::Full => Ok(None),
                x => Ok(Some(*x)),
            };
        }
        Ok(None)
    }
}

fn fail(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}
fn with<T>(f: impl FnOnce(&mut Disk) -> T) -> Option<T> {
    DISK.try_with(|d| d.try_borrow_mut().ok().and_then(|mut d| d.as_mut().map(f))).ok().flatten()
}
fn path_of(p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let c = unsafe { CStr::from_ptr(p) };
    PathBuf::from(std::ffi::OsStr::from_bytes(c.to_bytes()))
}
/// The session's view of a path; `None` if it lies elsewhere.
fn ours(p: *const c_char) -> Option<PathBuf> {
    if !on() || p.is_null() {
        return None;
    }
    let q = path_of(p);
    with(|d| q.starts_with(&d.root)).filter(|x| *x)?;
    pass();
    Some(q)
}
unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long) -> c_long {
    unsafe { libc::syscall(n, a, b, c, d) }
}

unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let real = || unsafe { raw(libc::SYS_openat, dir as c_long, p as c_long, flags as c_long, mode as c_long) as c_int };
    let Some(path) = ours(p) else { return real() };
    let creating = flags & libc::O_CREAT != 0;
    let existed = with(|d| d.names.contains_key(&path)).unwrap_or(false);
    let r = with(|d| d.step(if creating { "create" } else { "open" }, &path, creating && !existed));
    match r {
        Some(Err(e)) => return fail(e),
        Some(Ok(Some(Bad::Full))) => return fail(libc::ENOSPC),
        Some(Ok(Some(Bad::Intr))) => {
            with(|d| d.hit("interrupted"));
            return fail(libc::EINTR);
        }
        _ => {}
    }
    let fd = real();
    if fd >= 0 {
        with(|d| {
            let ino = match d.names.get(&path).copied() {
                Some(i) => Some(i),
                None if creating => {
                    let i = d.inodes.len();
                    d.inodes.push(Inode::default());
                    d.names.insert(path.clone(), i);
                    d.meta.push(Meta::Create(path.clone(), i));
                    Some(i)
                }
                None => None,
            };
            if let (Some(i), true) = (ino, flags & libc::O_TRUNC != 0) {
                if !d.inodes[i].live.is_empty() {
                    d.inodes[i].live.clear();
                    d.inodes[i].dirty = true;
                }
            }
            d.fds.insert(fd, Fd { ino, path });
        });
    }
    fd
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(dir, p, flags, mode) }
}
fn fd_of(fd: c_int) -> Option<Fd> {
    if !on() {
        return None;
    }
    let f = with(|d| d.fds.get(&fd).cloned()).flatten()?;
    pass();
    Some(f)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if on() {
        with(|d| d.fds.remove(&fd));
    }
    unsafe { raw(libc::SYS_close, fd as c_long, 0, 0, 0) as c_int }
}
/// How many bytes of a write of `len` to let through, or an error.
fn plan_write(f: &Fd, len: usize) -> Result<usize, c_int> {
    match with(|d| d.step("write", &f.path, true)) {
        Some(Err(e)) => Err(e),
        Some(Ok(Some(Bad::Full))) => {
            // a part fits; the next attempt finds the disk full
            let k = with(|d| {
                let k = d.ops - d.armed.unwrap_or(0);
                d.faults.full_from = Some(k);
                d.faults.full_until.get_or_insert(k + 3);
                len / 2
            })
            .unwrap_or(0);
            if k == 0 { Err(libc::ENOSPC) } else { Ok(k) }
        }
        Some(Ok(Some(Bad::Short))) if len > 1 => {
            with(|d| d.hit("short-write"));
            Ok(len / 2)
        }
        Some(Ok(Some(Bad::Intr))) => {
            with(|d| d.hit("interrupted"));
            Err(libc::EINTR)
        }
        _ => Ok(len),
    }
}
fn wrote(f: &Fd, off: u64, data: &[u8]) {
    if let Some(i) = f.ino {
        with(|d| {
            let n = &mut d.inodes[i];
            let end = off as usize + data.len();
            if n.live.len() < end {
                n.live.resize(end, 0);
            }
            n.live[off as usize..end].copy_from_slice(data);
            n.dirty = true;
        });
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    let go = |n: usize| unsafe { raw(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0) as isize };
    let Some(f) = fd_of(fd) else { return go(len) };
    match plan_write(&f, len) {
        Err(e) => fail(e) as isize,
        Ok(n) => {
            let r = go(n);
            if r > 0 {
                let end = unsafe { raw(libc::SYS_lseek, fd as c_long, 0, libc::SEEK_CUR as c_long, 0) };
                wrote(&f, (end - r as c_long) as u64, unsafe { std::slice::from_raw_parts(buf as *const u8, r as usize) });
            }
            r
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if fd_of(fd).is_none() {
        return unsafe { raw(libc::SYS_writev, fd as c_long, iov as c_long, n as c_long, 0) as isize };
    }
    // a vectored write may store its first part only
    let v = unsafe { std::slice::from_raw_parts(iov, n as usize) };
    match v.iter().find(|x| x.iov_len > 0) {
        Some(x) => unsafe { write(fd, x.iov_base, x.iov_len) },
        None => 0,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: usize, off: i64) -> isize {
    let go = |n: usize| unsafe { raw(libc::SYS_pwrite64, fd as c_long, buf as c_long, n as c_long, off as c_long) as isize };
    let Some(f) = fd_of(fd) else { return go(len) };
    match plan_write(&f, len) {
        Err(e) => fail(e) as isize,
        Ok(n) => {
            let r = go(n);
            if r > 0 {
                wrote(&f, off as u64, unsafe { std::slice::from_raw_parts(buf as *const u8, r as usize) });
            }
            r
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    let go = |n: usize| unsafe { raw(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0) as isize };
    let Some(f) = fd_of(fd) else { return go(len) };
    match with(|d| d.step("read", &f.path, false)) {
        Some(Err(e)) => fail(e) as isize,
        Some(Ok(Some(Bad::Short))) if len > 64 => {
            with(|d| d.hit("short-read"));
            go(64)
        }
        Some(Ok(Some(Bad::Intr))) => {
            with(|d| d.hit("interrupted"));
            fail(libc::EINTR) as isize
        }
        _ => go(len),
    }
}
fn sync(fd: c_int, nr: c_long) -> c_int {
    let go = || unsafe { raw(nr, fd as c_long, 0, 0, 0) as c_int };
    let Some(f) = fd_of(fd) else { return go() };
    match with(|d| d.step("sync", &f.path, true)) {
        Some(Err(e)) => fail(e),
        Some(Ok(Some(Bad::Full))) => fail(libc::ENOSPC),
        Some(Ok(Some(Bad::Intr))) => {
            with(|d| d.hit("interrupted"));
            fail(libc::EINTR)
        }
        _ => {
            with(|d| {
                match f.ino {
                    Some(i) => {
                        let n = &mut d.inodes[i];
                        n.durable = n.live.clone();
                        n.dirty = false;
                        // a file's own creation goes with it, and directory changes keep their order
                        let k = d.meta.iter().rposition(|m| matches!(m, Meta::Create(_, x) if *x == i)).map_or(0, |k| k + 1);
                        d.meta_durable = d.meta_durable.max(k);
                    }
                    None => d.meta_durable = d.meta.len(),
                }
            });
            0
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fsync)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fdatasync)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let go = || unsafe { raw(libc::SYS_ftruncate, fd as c_long, len as c_long, 0, 0) as c_int };
    let Some(f) = fd_of(fd) else { return go() };
    match with(|d| d.step("truncate", &f.path, true)) {
        Some(Err(e)) => fail(e),
        _ => {
            let r = go();
            if r == 0 {
                if let Some(i) = f.ino {
                    with(|d| {
                        d.inodes[i].live.resize(len as usize, 0);
                        d.inodes[i].dirty = true;
                    });
                }
            }
            r
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let go = || unsafe { raw(libc::SYS_rename, a as c_long, b as c_long, 0, 0) as c_int };
    let (Some(pa), Some(pb)) = (ours(a), ours(b)) else { return go() };
    match with(|d| d.step("rename", &pb, true)) {
        Some(Err(e)) => return fail(e),
        Some(Ok(Some(Bad::Full))) => return fail(libc::ENOSPC),
        _ => {}
    }
    let r = go();
    if r == 0 {
        with(|d| {
            if let Some(i) = d.names.remove(&pa) {
                d.names.insert(pb.clone(), i);
            }
            d.meta.push(Meta::Rename(pa, pb));
        });
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    unsafe { linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_int) -> c_int {
    let go = || unsafe { libc::syscall(libc::SYS_linkat, da, a, db, b, fl) as c_int };
    let (Some(pa), Some(pb)) = (ours(a), ours(b)) else { return go() };
    match with(|d| d.step("link", &pb, true)) {
        Some(Err(e)) => return fail(e),
        Some(Ok(Some(Bad::Full))) => return fail(libc::ENOSPC),
        _ => {}
    }
    let r = go();
    if r == 0 {
        with(|d| {
            if let Some(i) = d.names.get(&pa).copied() {
                d.names.insert(pb.clone(), i);
            }
            d.meta.push(Meta::Link(pa, pb));
        });
    }
    r
}
fn remove(p: *const c_char, go: impl FnOnce() -> c_int, dir: bool) -> c_int {
    let Some(path) = ours(p) else { return go() };
    if let Some(Err(e)) = with(|d| d.step(if dir { "rmdir" } else { "unlink" }, &path, false)) {
        return fail(e);
    }
    let r = go();
    if r == 0 {
        with(|d| {
            d.names.remove(&path);
            d.meta.push(if dir { Meta::Rmdir(path) } else { Meta::Unlink(path) });
        });
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    remove(p, || unsafe { raw(libc::SYS_unlink, p as c_long, 0, 0, 0) as c_int }, false)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    remove(p, || unsafe { raw(libc::SYS_rmdir, p as c_long, 0, 0, 0) as c_int }, true)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    let go = || unsafe { raw(libc::SYS_mkdir, p as c_long, mode as c_long, 0, 0) as c_int };
    let Some(path) = ours(p) else { return go() };
    match with(|d| d.step("mkdir", &path, true)) {
        Some(Err(e)) => return fail(e),
        Some(Ok(Some(Bad::Full))) => return fail(libc::ENOSPC),
        _ => {}
    }
    let r = go();
    if r == 0 {
        with(|d| d.meta.push(Meta::Mkdir(path)));
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, len: usize, fl: c_uint) -> isize {
    if fd_of(a).is_some() || fd_of(b).is_some() {
        return fail(libc::ENOSYS) as isize;
    }
    unsafe { libc::syscall(libc::SYS_copy_file_range, a, oa, b, ob, len, fl) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, len: usize) -> isize {
    if fd_of(o).is_some() || fd_of(i).is_some() {
        return fail(libc::ENOSYS) as isize;
    }
    unsafe { libc::syscall(libc::SYS_sendfile, o, i, off, len) as isize }
}

/// A directory for one simulated disk, removed when dropped.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let shm = Path::new("/dev/shm");
        let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
        let p = base.join(format!("simhost-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// Removes what earlier processes left behind.
pub fn sweep() {
    for e in std::fs::read_dir("/dev/shm").into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if let Some(pid) = n.strip_prefix("simhost-").and_then(|s| s.split('-').next()).and_then(|s| s.parse::<u32>().ok()) {
            if !Path::new(&format!("/proc/{pid}")).exists() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}
