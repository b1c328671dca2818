//! The simulated operating-system boundary. These definitions take the place of libc's for the
//! whole executable (std is linked statically against them), so the code under test runs
//! unmodified on a disk whose every call the simulator decides. They act only on threads that
//! are executing simulated code and only on paths below the run's scratch directory; everything
//! else is forwarded to the kernel.
#![allow(invalid_runtime_symbol_definitions)]
use crate::sim;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
}

unsafe fn kernel(num: c_long, a: [c_long; 6]) -> c_long {
    let r: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") num => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack),
    );
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        return -1;
    }
    r
}
macro_rules! syscall {
    ($n:expr) => { kernel($n, [0; 6]) };
    ($n:expr, $a:expr) => { kernel($n, [$a as c_long, 0, 0, 0, 0, 0]) };
    ($n:expr, $a:expr, $b:expr) => { kernel($n, [$a as c_long, $b as c_long, 0, 0, 0, 0]) };
    ($n:expr, $a:expr, $b:expr, $c:expr) => { kernel($n, [$a as c_long, $b as c_long, $c as c_long, 0, 0, 0]) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr) => { kernel($n, [$a as c_long, $b as c_long, $c as c_long, $d as c_long, 0, 0]) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => { kernel($n, [$a as c_long, $b as c_long, $c as c_long, $d as c_long, $e as c_long, 0]) };
}

const SYS_FUTEX: c_long = 202;

/// How std's locks wait: a simulated thread that waits inside the code under test gives its turn
/// away until the value has changed.
#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    // FUTEX_WAIT and FUTEX_WAIT_BITSET without a time limit.
    if num == SYS_FUTEX && d == 0 && matches!(b & 0x7f, 0 | 9) && crate::sched::futex_wait(a as usize, c as u32) {
        return 0;
    }
    kernel(num, [a, b, c, d, e, f])
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_CLOSE: c_long = 3;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD64: c_long = 17;
const SYS_READV: c_long = 19;
const SYS_NEWFSTATAT: c_long = 262;
const SYS_STATX: c_long = 332;
const AT_EMPTY_PATH: c_long = 0x1000;
const AT_SYMLINK_NOFOLLOW: c_long = 0x100;
const SYS_OPENAT: c_long = 257;
const SYS_GETRANDOM: c_long = 318;
const AT_FDCWD: c_int = -100;

const ENOENT: c_int = 2;
const EINTR: c_int = 4;
const EIO: c_int = 5;
const ENOMEM: c_int = 12;
const EACCES: c_int = 13;
const EMFILE: c_int = 24;
const ESTALE: c_int = 116;

const MAXFD: usize = 4096;
static SIM_FD: [AtomicBool; MAXFD] = [const { AtomicBool::new(false) }; MAXFD];

#[derive(Default)]
pub struct Fs {
    root: Vec<u8>,
    /// A transparent fault (interruption, short read) fires on average every `n` calls; 0 = never.
    eintr_every: u32,
    short_every: u32,
    permute: bool,
    no_types: bool,
    stale_size: bool,
    /// Files and directories that may be open at a time.
    max_open: usize,
    open: usize,
    peak_open: usize,
    opened_for_writing: u64,
    /// Calls that create, alter or remove something.
    altering: Vec<&'static str>,
    /// The hard fault fires at this call (counted from 0), if any.
    hard_at: Option<u64>,
    calls: u64,
    pub hard: Vec<&'static str>,
    pub hard_errno: Option<c_int>,
    /// Every hard fault so far hit a read at end of file (all data already delivered).
    pub hard_only_at_eof: bool,
    pub stdout_bytes: u64,
    dirs: Vec<DirState>,
}

struct DirState {
    ptr: usize,
    entries: Vec<Box<[u64; 40]>>,
    next: usize,
}

static FS: Mutex<Option<Fs>> = Mutex::new(None);

/// The simulated disk, locked; what is allocated meanwhile is the simulator's.
struct Disk(std::sync::MutexGuard<'static, Option<Fs>>, #[allow(dead_code)] crate::alloc::Uncounted);
impl std::ops::Deref for Disk {
    type Target = Option<Fs>;
    fn deref(&self) -> &Option<Fs> {
        &self.0
    }
}
impl std::ops::DerefMut for Disk {
    fn deref_mut(&mut self) -> &mut Option<Fs> {
        &mut self.0
    }
}
fn fs() -> Disk {
    let u = crate::alloc::uncounted();
    match FS.lock() {
        Ok(g) => Disk(g, u),
        Err(p) => Disk(p.into_inner(), u),
    }
}

pub struct FsConfig {
    pub root: String,
    pub eintr_every: u32,
    pub short_every: u32,
    pub permute: bool,
    /// Listings do not tell what kind of file an entry is.
    pub no_types: bool,
    /// Inquiries about a file give a size it had once (it is still growing), or none.
    pub stale_size: bool,
    /// Files and directories that may be open at a time.
    pub max_open: usize,
    pub hard_at: Option<u64>,
}

pub fn fs_begin(c: FsConfig) {
    *fs() = Some(Fs {
        root: c.root.into_bytes(),
        eintr_every: c.eintr_every,
        short_every: c.short_every,
        permute: c.permute,
        no_types: c.no_types,
        stale_size: c.stale_size,
        max_open: c.max_open,
        hard_at: c.hard_at,
        hard_only_at_eof: true,
        ..Default::default()
    });
}

pub struct FsReport {
    pub calls: u64,
    pub hard: Vec<&'static str>,
    pub hard_errno: Option<c_int>,
    pub hard_only_at_eof: bool,
    pub stdout_bytes: u64,
    /// Files and directories open now, and at most so far.
    pub open: usize,
    pub peak_open: usize,
    pub opened_for_writing: u64,
    pub altering: Vec<&'static str>,
}

pub fn fs_end() -> FsReport {
    match fs().take() {
        Some(f) => FsReport {
            calls: f.calls,
            hard_errno: f.hard_errno,
            hard_only_at_eof: f.hard_only_at_eof,
            hard: f.hard,
            stdout_bytes: f.stdout_bytes,
            open: f.open,
            peak_open: f.peak_open,
            opened_for_writing: f.opened_for_writing,
            altering: f.altering,
        },
        None => FsReport {
            calls: 0,
            hard_errno: None,
            hard: vec![],
            hard_only_at_eof: true,
            stdout_bytes: 0,
            open: 0,
            peak_open: 0,
            opened_for_writing: 0,
            altering: vec![],
        },
    }
}

pub fn errno() -> c_int {
    unsafe { *__errno_location() }
}
pub unsafe fn set_errno(e: c_int) {
    *__errno_location() = e;
}

enum Verdict {
    Pass,
    Errno(c_int),
    Short,
}

/// One system call on the simulated disk: decides what happens to it.
fn decide(kind: &'static str, hard: &'static str, errs: &[c_int], transparent: bool, at_eof: bool) -> Verdict {
    crate::sched::quiet_point();
    let _u = crate::alloc::uncounted();
    let (eintr, short, hit) = {
        let mut g = fs();
        let f = match g.as_mut() {
            Some(f) => f,
            None => return Verdict::Pass,
        };
        let n = f.calls;
        f.calls += 1;
        let hit = f.hard_at == Some(n);
        if hit {
            f.hard.push(hard);
            if !at_eof {
                f.hard_only_at_eof = false;
            }
        }
        (f.eintr_every, f.short_every, hit)
    };
    sim::ev(kind, &[]);
    if hit {
        sim::fault(hard);
        if at_eof && kind != "sys.stat" {
            sim::count("probe.hard_fault_at_eof");
        }
        let e = sim::pick(errs);
        if let Some(f) = fs().as_mut() {
            f.hard_errno = Some(e);
        }
        return Verdict::Errno(e);
    }
    if transparent {
        if eintr > 0 && sim::chance(1, eintr) {
            sim::fault("fault.disk.eintr");
            return Verdict::Errno(EINTR);
        }
        if kind == "sys.read" && short > 0 && sim::chance(1, short) {
            return Verdict::Short;
        }
    }
    Verdict::Pass
}

fn under_root(path: *const c_char) -> bool {
    if !sim::in_sim() {
        return false;
    }
    let g = fs();
    match g.as_ref() {
        Some(f) => unsafe { CStr::from_ptr(path) }.to_bytes().starts_with(&f.root),
        None => false,
    }
}

/// One more file or directory is open; false if there are too many.
fn may_open() -> bool {
    let _u = crate::alloc::uncounted();
    let full = fs().as_ref().map_or(false, |f| f.open >= f.max_open);
    if full {
        sim::fault("fault.disk.too_many_open");
        if let Some(f) = fs().as_mut() {
            f.hard.push("fault.disk.too_many_open");
            f.hard_only_at_eof = false;
        }
    }
    !full
}
fn opened() {
    if let Some(f) = fs().as_mut() {
        f.open += 1;
        f.peak_open = f.peak_open.max(f.open);
    }
}
fn closed() {
    if let Some(f) = fs().as_mut() {
        f.open = f.open.saturating_sub(1);
    }
}

/// O_WRONLY, O_RDWR, O_CREAT, O_TRUNC.
const WRITING: c_int = 3 | 0o100 | 0o1000;

fn special(path: *const c_char) -> bool {
    let p = unsafe { CStr::from_ptr(path) }.to_bytes();
    p.starts_with(b"/dev/") || p.starts_with(b"/proc/")
}

/// The code under test is about to create, alter or remove something: noted, and refused (false) if that lies
/// outside the directory of this run.
fn altering(what: &'static str, path: *const c_char) -> bool {
    if !crate::alloc::mine() {
        return true;
    }
    let _u = crate::alloc::uncounted();
    let mut g = fs();
    let f = match g.as_mut() {
        Some(f) => f,
        None => return true,
    };
    f.altering.push(what);
    if path.is_null() {
        return true;
    }
    let p = unsafe { CStr::from_ptr(path) }.to_bytes();
    let end = f.root.iter().rposition(|b| *b == b'/').unwrap_or(0);
    let ok = end > 0 && p.starts_with(&f.root[..=end]) && !p.windows(3).any(|w| w == b"/..");
    drop(g);
    if !ok {
        unsafe { set_errno(EACCES) };
    }
    ok
}

macro_rules! altering_calls {
    ($($name:ident $num:literal ($($a:ident: $t:ty),*) $path:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if !altering(stringify!($name), $path as *const c_char) {
                return -1;
            }
            syscall!($num as c_long, $($a),*) as c_int
        }
    )*};
}
const NO_PATH: usize = 0;
altering_calls! {
    rename 82 (a: *const c_char, b: *const c_char) b;
    mkdir 83 (a: *const c_char, m: c_uint) a;
    rmdir 84 (a: *const c_char) a;
    link 86 (a: *const c_char, b: *const c_char) b;
    unlink 87 (a: *const c_char) a;
    symlink 88 (a: *const c_char, b: *const c_char) b;
    chmod 90 (a: *const c_char, m: c_uint) a;
    fchmod 91 (fd: c_int, m: c_uint) NO_PATH;
    truncate64 76 (a: *const c_char, n: c_long) a;
    ftruncate64 77 (fd: c_int, n: c_long) NO_PATH;
    unlinkat 263 (d: c_int, a: *const c_char, f: c_int) a;
    linkat 265 (d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) b;
    utimensat 280 (d: c_int, a: *const c_char, t: *const c_void, f: c_int) a;
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const c_void) -> c_int {
    let _ = altering("futimens", std::ptr::null());
    syscall!(280 as c_long, fd, 0, t, 0) as c_int
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let mine = under_root(path);
    if mine {
        if let Verdict::Errno(e) = decide(
            "sys.open",
            "fault.disk.open_error",
            &[EIO, ENOENT, EACCES, EMFILE, ENOMEM],
            true,
            false,
        ) {
            set_errno(e);
            return -1;
        }
        if !may_open() {
            set_errno(EMFILE);
            return -1;
        }
        if flags & WRITING != 0 {
            if let Some(f) = fs().as_mut() {
                f.opened_for_writing += 1;
            }
        }
    } else if flags & WRITING != 0 && !special(path) && !altering("open for writing", path) {
        return -1;
    }
    let fd = syscall!(SYS_OPENAT, dirfd as c_long, path, flags as c_long, mode as c_long) as c_int;
    if mine && fd >= 0 && (fd as usize) < MAXFD {
        SIM_FD[fd as usize].store(true, Relaxed);
        opened();
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dirfd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < MAXFD {
        if SIM_FD[fd as usize].swap(false, Relaxed) {
            closed();
        }
    }
    syscall!(SYS_CLOSE, fd as c_long) as c_int
}

fn is_sim_fd(fd: c_int) -> bool {
    fd >= 0 && (fd as usize) < MAXFD && sim::in_sim() && SIM_FD[fd as usize].load(Relaxed)
}

unsafe fn fd_at_eof(fd: c_int) -> bool {
    let cur = syscall!(SYS_LSEEK, fd as c_long, 0 as c_long, 1 as c_long);
    let end = syscall!(SYS_LSEEK, fd as c_long, 0 as c_long, 2 as c_long);
    if cur < 0 || end < 0 {
        return false;
    }
    syscall!(SYS_LSEEK, fd as c_long, cur, 0 as c_long);
    cur >= end
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let mut len = n;
    if is_sim_fd(fd) {
        let eof = fd_at_eof(fd);
        match decide("sys.read", "fault.disk.read_error", &[EIO, ESTALE, ENOMEM], true, eof) {
            Verdict::Errno(e) => {
                set_errno(e);
                return -1;
            }
            Verdict::Short if n > 1 && !eof => {
                len = short_len(n);
                sim::fault("fault.disk.short_read");
            }
            _ => {}
        }
    }
    syscall!(SYS_READ, fd as c_long, buf, len) as isize
}

fn short_len(n: usize) -> usize {
    let lim = n.min(1 << 20) as u32;
    match sim::choose(3) {
        0 => (1 + sim::choose(64.min(lim - 1)) as usize).min(n),
        1 => 1 + sim::choose(lim - 1) as usize,
        _ => (16 * (1 + sim::choose((lim / 16).max(1)) as usize)).min(n),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if is_sim_fd(fd) {
        if let Verdict::Errno(e) = decide("sys.pread", "fault.disk.read_error", &[EIO, ESTALE], true, false) {
            set_errno(e);
            return -1;
        }
    }
    syscall!(SYS_PREAD64, fd as c_long, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const c_void, n: c_int) -> isize {
    if is_sim_fd(fd) {
        let eof = fd_at_eof(fd);
        if let Verdict::Errno(e) = decide("sys.readv", "fault.disk.read_error", &[EIO, ESTALE], true, eof) {
            set_errno(e);
            return -1;
        }
    }
    syscall!(SYS_READV, fd as c_long, iov, n as c_long) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd == 1 && sim::in_sim() {
        if let Some(f) = fs().as_mut() {
            f.stdout_bytes += n as u64;
        }
        return n as isize;
    }
    syscall!(SYS_WRITE, fd as c_long, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    if sim::in_sim() {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for c in out.chunks_mut(8) {
            let w = sim::next_hash_word().to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&w[..l]);
        }
        sim::count("fault.hash_seed_chosen");
        return n as isize;
    }
    syscall!(SYS_GETRANDOM, buf, n, flags as c_long) as isize
}

type OpendirFn = unsafe extern "C" fn(*const c_char) -> *mut c_void;
type ReaddirFn = unsafe extern "C" fn(*mut c_void) -> *mut c_void;
type ClosedirFn = unsafe extern "C" fn(*mut c_void) -> c_int;

unsafe fn next_sym(name: &CStr) -> *mut c_void {
    let p = dlsym(-1isize as *mut c_void, name.as_ptr());
    assert!(!p.is_null());
    p
}

unsafe fn real_readdir(d: *mut c_void) -> *mut c_void {
    let f: ReaddirFn = std::mem::transmute(next_sym(c"readdir64"));
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let _u = crate::alloc::uncounted();
    let real: OpendirFn = std::mem::transmute(next_sym(c"opendir"));
    if !under_root(path) {
        return real(path);
    }
    if let Verdict::Errno(e) = decide(
        "sys.opendir",
        "fault.disk.opendir_error",
        &[EIO, EACCES, EMFILE, ENOMEM],
        false,
        false,
    ) {
        set_errno(e);
        return std::ptr::null_mut();
    }
    if !may_open() {
        set_errno(EMFILE);
        return std::ptr::null_mut();
    }
    let d = real(path);
    if d.is_null() {
        return d;
    }
    opened();
    let mut entries: Vec<Box<[u64; 40]>> = vec![];
    loop {
        let e = real_readdir(d);
        if e.is_null() {
            break;
        }
        let reclen = (*(e.cast::<u8>().add(16) as *const u16)) as usize;
        let mut b = Box::new([0u64; 40]);
        std::ptr::copy_nonoverlapping(e.cast::<u8>(), b.as_mut_ptr().cast::<u8>(), reclen.min(320));
        entries.push(b);
    }
    // The kernel's own order is not reproducible: fix it by name first, then permute.
    fn name(b: &[u64; 40]) -> &[u8] {
        unsafe { CStr::from_ptr((b.as_ptr() as *const c_char).add(19)) }.to_bytes()
    }
    entries.sort_by(|a, b| name(a).cmp(name(b)));
    let permute = fs().as_ref().map(|f| f.permute).unwrap_or(false);
    if permute {
        let mut moved = false;
        for i in (1..entries.len()).rev() {
            let j = i - sim::choose(i as u32 + 1) as usize;
            if i != j {
                entries.swap(i, j);
                moved = true;
            }
        }
        if moved {
            sim::fault("fault.disk.listing_order_permuted");
        }
    }
    if fs().as_ref().map_or(false, |f| f.no_types) && !entries.is_empty() {
        for b in entries.iter_mut() {
            unsafe { *b.as_mut_ptr().cast::<u8>().add(18) = 0 };
        }
        sim::fault("fault.disk.entry_types_unknown");
    }
    if let Some(f) = fs().as_mut() {
        f.dirs.push(DirState {
            ptr: d as usize,
            entries,
            next: 0,
        });
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    let _u = crate::alloc::uncounted();
    let mine = sim::in_sim() && fs().as_ref().map_or(false, |f| f.dirs.iter().any(|s| s.ptr == d as usize));
    if !mine {
        return real_readdir(d);
    }
    if let Verdict::Errno(e) = decide("sys.readdir", "fault.disk.readdir_error", &[EIO, ENOMEM, ESTALE], false, false) {
        // The failed call may or may not have consumed an entry.
        if sim::chance(1, 2) {
            if let Some(f) = fs().as_mut() {
                if let Some(s) = f.dirs.iter_mut().find(|s| s.ptr == d as usize) {
                    s.next += 1;
                }
            }
        }
        set_errno(e);
        return std::ptr::null_mut();
    }
    let mut g = fs();
    let st = g.as_mut().unwrap().dirs.iter_mut().find(|s| s.ptr == d as usize).unwrap();
    let i = st.next;
    if i >= st.entries.len() {
        return std::ptr::null_mut();
    }
    st.next += 1;
    st.entries[i].as_mut_ptr().cast()
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut c_void {
    readdir64(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if let Some(f) = fs().as_mut() {
        let n = f.dirs.len();
        f.dirs.retain(|s| s.ptr != d as usize);
        f.open = f.open.saturating_sub(n - f.dirs.len());
    }
    let f: ClosedirFn = std::mem::transmute(next_sym(c"closedir"));
    f(d)
}

/// A failing inquiry about a file: whoever asks may give up or do without the answer.
unsafe fn stat_fails(mine: bool) -> bool {
    if mine {
        if let Verdict::Errno(e) = decide("sys.stat", "fault.disk.stat_error", &[EIO, EACCES, ESTALE, ENOMEM], false, true) {
            set_errno(e);
            return true;
        }
    }
    false
}
unsafe fn outdate(mode: u32, size: *mut u64) {
    let _u = crate::alloc::uncounted();
    if mode & 0o170000 != 0o100000 || *size == 0 || !fs().as_ref().map_or(false, |f| f.stale_size) {
        return;
    }
    *size = match sim::choose(4) {
        0 => return,
        1 => 0,
        2 => sim::choose((*size).min(1 << 30) as u32) as u64,
        _ => *size & !15 & !4095,
    };
    sim::fault("fault.disk.outdated_size");
}
fn path_or_fd(fd: c_int, path: *const c_char) -> bool {
    under_root(path) || (unsafe { *path } == 0 && is_sim_fd(fd))
}

#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    // A null path or buffer asks whether the call exists.
    if !path.is_null() && !buf.is_null() && stat_fails(path_or_fd(fd, path)) {
        return -1;
    }
    let r = syscall!(SYS_STATX, fd as c_long, path, flags as c_long, mask as c_long, buf) as c_int;
    if r == 0 && !path.is_null() && !buf.is_null() && path_or_fd(fd, path) {
        let b = buf as *mut u8;
        outdate(*(b.add(28) as *const u16) as u32, b.add(40) as *mut u64);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    if stat_fails(is_sim_fd(fd)) {
        return -1;
    }
    let r = syscall!(SYS_NEWFSTATAT, fd as c_long, c"".as_ptr(), buf, AT_EMPTY_PATH) as c_int;
    if r == 0 && is_sim_fd(fd) {
        let b = buf as *mut u8;
        outdate(*(b.add(24) as *const u32), b.add(48) as *mut u64);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut c_void) -> c_int {
    if stat_fails(under_root(path)) {
        return -1;
    }
    let r = syscall!(SYS_NEWFSTATAT, AT_FDCWD as c_long, path, buf, 0 as c_long) as c_int;
    if r == 0 && under_root(path) {
        let b = buf as *mut u8;
        outdate(*(b.add(24) as *const u32), b.add(48) as *mut u64);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut c_void) -> c_int {
    if stat_fails(under_root(path)) {
        return -1;
    }
    let r = syscall!(SYS_NEWFSTATAT, AT_FDCWD as c_long, path, buf, AT_SYMLINK_NOFOLLOW) as c_int;
    if r == 0 && under_root(path) {
        let b = buf as *mut u8;
        outdate(*(b.add(24) as *const u32), b.add(48) as *mut u64);
    }
    r
}

/// Keeps every definition above in the executable.
pub fn install() -> usize {
    let t: [*const (); 19] = [
        open64 as *const (),
        open as *const (),
        openat as *const (),
        openat64 as *const (),
        close as *const (),
        read as *const (),
        pread64 as *const (),
        readv as *const (),
        write as *const (),
        getrandom as *const (),
        opendir as *const (),
        readdir64 as *const (),
        readdir as *const (),
        closedir as *const (),
        statx as *const (),
        syscall as *const (),
        fstat64 as *const (),
        stat64 as *const (),
        lstat64 as *const (),
    ];
    t.iter().map(|p| *p as usize & 1).sum()
}

/// A scratch directory of this process; created empty on demand.
pub struct Scratch {
    pub path: std::path::PathBuf,
}
static SCRATCH: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);
pub fn set_scratch(p: &std::path::Path) {
    *SCRATCH.lock().unwrap() = Some(p.to_path_buf());
}
/// Empties and returns the run's scratch directory.
pub fn scratch() -> std::path::PathBuf {
    sim::outside(|| {
        let p = SCRATCH.lock().unwrap().clone().expect("scratch not set").join("disk");
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("create scratch");
        p
    })
}
