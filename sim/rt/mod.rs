//! The simulator runtime: allocator, scheduler, clock, hash keys, environment.
//!
//! Code under test runs in LIB mode. In LIB mode every allocation, release,
//! callback and instrumented basic block is a numbered step at which the
//! simulator may act: fail the allocation, panic in the callback, hand the only
//! processor to another thread, or stop the thread for good. Nothing here
//! allocates, reads a clock or draws random numbers by itself: all decisions are
//! in the configuration handed to it.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::{addr_of_mut, null_mut};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const HAR: u8 = 0;
pub const LIB: u8 = 1;

pub const NTH: usize = 24;
pub const CTRL: usize = NTH - 1; // the controller's own slot

// exit codes of a world process
pub const X_BUDGET: i32 = 71;
pub const X_CORRUPT: i32 = 72;
pub const X_DEADLOCK: i32 = 73;

// counters
pub const K_ALLOC_FAIL: usize = 0;
pub const K_CB_PANIC: usize = 1;
pub const K_SWITCH: usize = 2;
pub const K_STALL: usize = 3;
pub const K_BLOCK: usize = 4;
pub const K_CLOCK: usize = 5;
pub const K_RANDOM: usize = 6;
pub const K_GETENV: usize = 7;
pub const K_YIELD: usize = 8;
pub const K_REUSE: usize = 9;
pub const K_FILE: usize = 10;
pub const NK: usize = 11;
pub const KNAMES: [&str; NK] = [
    "alloc_failed", "callback_panicked", "thread_switch", "thread_stalled_for_good", "futex_block", "clock_read",
    "random_read", "getenv_read", "yield_or_sleep", "address_reused", "file_looked_for",
];

/// What interrupted an operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Inj {
    Alloc,
    Callback,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Ready,
    Blocked,
    Stalled,
    Done,
}

pub struct Th {
    pub id: usize,
    pub st: St,
    pub points: u64,
    pub allocs: u64,
    pub ticks: u64,
    next_ev: u64,
    pub limit: u64,
    pub alloc_limit: u64,
    pub stall_at: u64,
    pub fail_at: u64,
    pub cb_at: u64,
    pub fired: u32,
    pub wait_addr: usize,
    has_timeout: bool,
    timed_out: bool,
    go: AtomicU32,
}

const TH0: Th = Th {
    id: 0,
    st: St::Unused,
    points: 0,
    allocs: 0,
    ticks: 0,
    next_ev: u64::MAX,
    limit: u64::MAX,
    alloc_limit: u64::MAX,
    stall_at: u64::MAX,
    fail_at: 0,
    cb_at: 0,
    fired: 0,
    wait_addr: 0,
    has_timeout: false,
    timed_out: false,
    go: AtomicU32::new(0),
};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub arena_off: u64,
    pub policy: u8,
    pub pad_seed: u64,
    pub hash_seed: u64,
    pub clock0: u64,
    pub clock_step: u64,
    pub env_mode: u8,
    /// note where state of the code under test changes
    pub probe: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { arena_off: 0, policy: 0, pad_seed: 1, hash_seed: 1, clock0: 1_700_000_000_000_000_000, clock_step: 1000, env_mode: 0, probe: false }
    }
}

pub struct Sim {
    pub th: [Th; NTH],
    pub n: usize,
    pub cur: usize,
    pub multi: bool,
    sw: *const (u32, u8),
    nsw: usize,
    pub sw_i: usize,
    gap_end: u64,
    pub trace: u64,
    pub clock: u64,
    pub clock_step: u64,
    hash_state: u64,
    hash_seed: u64,
    env_mode: u8,
    pub k: [u64; NK],
    pub exited: i64,
    pub deadlock: bool,
}

static mut SIM: Sim = Sim {
    th: [const { TH0 }; NTH],
    n: 0,
    cur: CTRL,
    multi: false,
    sw: std::ptr::null(),
    nsw: 0,
    sw_i: 0,
    gap_end: 0,
    trace: 0,
    clock: 0,
    clock_step: 0,
    hash_state: 0,
    hash_seed: 0,
    env_mode: 0,
    k: [0; NK],
    exited: -1,
    deadlock: false,
};

pub fn sim() -> &'static mut Sim {
    unsafe { &mut *addr_of_mut!(SIM) }
}

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(HAR) };
    static TH: Cell<*mut Th> = const { Cell::new(null_mut()) };
}

/// Shared with the parent so that a world that dies still says where it was.
#[repr(C)]
pub struct Page {
    pub step: u32,
    pub what: u32,
}
pub static mut PAGE: *mut Page = null_mut();
pub fn mark(step: u32) {
    unsafe {
        if !PAGE.is_null() {
            (*PAGE).step = step
        }
    }
}

/// Blocks of the code under test that ran, one byte each, shared by all runs.
pub static mut COV: *mut u8 = null_mut();
pub const COV_N: usize = 1 << 16;
/// the second part of the map: places where faults and switches landed
pub const COV_ALL: usize = COV_N + (1 << 20);
static mut GUARDS: u32 = 0;
pub fn guards() -> u32 {
    unsafe { GUARDS }
}
pub const AT_RUN: u8 = 1;
pub const AT_FAULT: u8 = 2;
pub const AT_SWITCH: u8 = 4;
/// The last four blocks that ran: where the code under test is.
static mut WHERE: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        GUARDS += 1;
        *a = GUARDS;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if MODE.get() != LIB {
        return;
    }
    WHERE = WHERE << 16 | (*g as u64 & 0xffff);
    if !COV.is_null() && (*g as usize) < COV_N {
        *COV.add(*g as usize) |= AT_RUN;
    }
    point();
}
fn cov_mark(bit: u8) {
    unsafe {
        if !COV.is_null() {
            *COV.add(COV_N + (mix(0, WHERE) >> 44) as usize) |= bit;
        }
    }
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29)
}

pub fn die(code: i32) -> ! {
    unsafe { libc::_exit(code) }
}

#[inline(always)]
fn point() {
    let th = TH.get();
    if th.is_null() {
        return;
    }
    unsafe {
        (*th).points += 1;
        if (*th).points >= (*th).next_ev {
            slow(th)
        }
    }
}

#[inline(never)]
unsafe fn slow(th: *mut Th) {
    let t = &mut *th;
    if PROBE {
        changed(t, false)
    }
    if t.points >= t.limit {
        (*addr_of_mut!(SIM)).exited = t.id as i64;
        die(X_BUDGET)
    }
    if t.points >= t.stall_at {
        t.stall_at = u64::MAX;
        t.st = St::Stalled;
        sim().k[K_STALL] += 1;
        cov_mark(AT_FAULT);
        reschedule(t.id);
    } else if sim().multi && t.points >= sim().gap_end {
        next_switch(t.id);
    }
    arm(t);
}

fn arm(t: &mut Th) {
    t.next_ev = t.limit.min(t.stall_at);
    if sim().multi {
        t.next_ev = t.next_ev.min(sim().gap_end)
    }
    if unsafe { PROBE } {
        t.next_ev = 0
    }
}

/// The current switch entry is due: consume it and hand over.
fn next_switch(me: usize) {
    let s = sim();
    if s.sw_i >= s.nsw {
        s.gap_end = u64::MAX;
        return;
    }
    let (_, tgt) = unsafe { *s.sw.add(s.sw_i) };
    s.sw_i += 1;
    let ready = ready_list();
    let to = ready.1[tgt as usize % ready.0.max(1)];
    if ready.0 > 0 && to != me {
        cov_mark(AT_SWITCH);
        hand_over(me, to);
    } else {
        set_gap(me);
    }
}
fn set_gap(me: usize) {
    let s = sim();
    s.gap_end = if s.sw_i < s.nsw {
        s.th[me].points + unsafe { (*s.sw.add(s.sw_i)).0 } as u64
    } else {
        u64::MAX
    };
}

fn ready_list() -> (usize, [usize; NTH]) {
    let s = sim();
    let mut a = [0; NTH];
    let mut n = 0;
    for i in 0..s.n {
        if s.th[i].st == St::Ready {
            a[n] = i;
            n += 1
        }
    }
    (n, a)
}

/// `me` cannot go on: give the processor to somebody else.
fn reschedule(me: usize) {
    let s = sim();
    let mut r = ready_list();
    if r.0 == 0 {
        for i in 0..s.n {
            if s.th[i].st == St::Blocked && s.th[i].has_timeout {
                s.th[i].st = St::Ready;
                s.th[i].timed_out = true;
                s.clock += 1_000_000_000;
                r = ready_list();
                break;
            }
        }
    }
    if r.0 == 0 {
        hand_over(me, CTRL);
        return;
    }
    let pick = if s.sw_i < s.nsw { unsafe { (*s.sw.add(s.sw_i)).1 as usize } } else { 0 };
    let to = r.1[pick % r.0];
    if to != me {
        hand_over(me, to)
    }
}

fn futex(addr: &AtomicU32, op: i64, val: u32) -> i64 {
    unsafe { raw_syscall(libc::SYS_futex, addr as *const _ as i64, op, val as i64, 0, 0, 0) }
}

fn wait_go(me: usize) {
    let go = &sim().th[me].go;
    while go.swap(0, SeqCst) == 0 {
        futex(go, 128, 0); // FUTEX_WAIT | PRIVATE
    }
}

fn hand_over(me: usize, to: usize) {
    let s = sim();
    let left = s.th[me].points;
    s.trace = mix(mix(s.trace, (me * 32 + to) as u64), left);
    if to != CTRL {
        s.k[K_SWITCH] += 1;
    }
    give(me, to);
    wait_go(me);
    arm(&mut sim().th[me]);
}
fn give(_me: usize, to: usize) {
    let s = sim();
    s.cur = to;
    if to != CTRL {
        set_gap(to);
    }
    s.th[to].go.store(1, SeqCst);
    futex(&s.th[to].go, 129, 1); // FUTEX_WAKE | PRIVATE
}

pub fn set_env_mode(m: u8) {
    sim().env_mode = m;
    surroundings()
}

/// The program's arguments as they are handed to it.
static mut ARGV: (i32, *mut *const libc::c_char) = (0, null_mut());
extern "C" fn keep_argv(n: i32, v: *mut *const libc::c_char, _e: *mut *const libc::c_char) {
    unsafe { ARGV = (n, v) }
}
#[used]
#[link_section = ".init_array"]
static KEEP_ARGV: extern "C" fn(i32, *mut *const libc::c_char, *mut *const libc::c_char) = keep_argv;

/// Arguments, list of variables and directory of the process. Called outside
/// LIB mode; setting 0 leaves them as they are.
fn surroundings() {
    const NV: usize = 8;
    static mut VARS: [*const libc::c_char; NV + 1] = [std::ptr::null(); NV + 1];
    let m = sim().env_mode as usize % ENV_MODES;
    if m == 0 {
        return;
    }
    const MORE: [&std::ffi::CStr; NV] = [c"CALCU=1", c"DEBUG=1", c"NO_COLOR=1", c"LANG=tr_TR.UTF-8", c"LC_ALL=C", c"RUST_LOG=trace", c"HOME=/", c"CI=true"];
    unsafe {
        let mut k = 0;
        for (i, v) in MORE.iter().enumerate() {
            if (m * 37 >> (i % 6)) & 1 == 1 {
                VARS[k] = v.as_ptr();
                k += 1
            }
        }
        VARS[k] = std::ptr::null();
        environ = (&raw const VARS).cast();
        if ARGV.0 > 1 {
            *ARGV.1.add(1) = [c"", c"--debug", c"-v", c"test", c"--exact", c"bench", c"", c"--quiet"][m].as_ptr();
        }
        libc::chdir([c"/", c"/", c"/usr", c"/", c"/proc", c"/usr", c"/", c"/dev"][m].as_ptr());
    }
}
fn setting() -> Option<usize> {
    match sim().env_mode as usize % ENV_MODES {
        m if m > 0 && MODE.get() == LIB => Some(m),
        _ => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if let Some(m) = setting() {
        return (m & 1) as i32;
    }
    let mut t: libc::termios = std::mem::zeroed();
    (raw_syscall(libc::SYS_ioctl, fd as i64, libc::TCGETS as i64, &raw mut t as i64, 0, 0, 0) == 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if let Some(m) = setting() {
        std::ptr::write_bytes(set, 0, n);
        for i in 0..[1, 1, 2, 3, 64, 1, 16, 8][m] {
            *set.add(i / 8) |= 1 << (i % 8)
        }
        return 0;
    }
    let r = raw_syscall(libc::SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r < 0 {
        return ret(r) as i32;
    }
    if (r as usize) < n {
        std::ptr::write_bytes(set.add(r as usize), 0, n - r as usize);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
    match setting() {
        Some(m) => [0, 0, 1000, 1, 65534, 0, 1000, 501][m],
        None => raw_syscall(libc::SYS_getuid, 0, 0, 0, 0, 0, 0) as u32,
    }
}
/// A file that the library would look for: there or not, whatever it is.
unsafe fn sim_file(path: *const libc::c_char) -> Option<bool> {
    let m = setting()?;
    let own = |p: &std::ffi::CStr| libc::strncmp(path, p.as_ptr(), p.to_bytes().len()) == 0;
    if own(c"/proc/") || own(c"/sys/") || own(c"/dev/") {
        return None;
    }
    sim().k[K_FILE] += 1;
    Some(m & 1 == 1)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    match sim_file(path) {
        Some(false) => ret(-(libc::ENOENT as i64)) as i32,
        Some(true) => {
            let fd = libc::memfd_create(c"sim".as_ptr(), 0);
            let text = b"1\n";
            raw_syscall(libc::SYS_pwrite64, fd as i64, text.as_ptr() as i64, text.len() as i64, 0, 0, 0);
            fd
        }
        None => ret(raw_syscall(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64 | libc::O_LARGEFILE as i64, mode as i64, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, path: *const libc::c_char, flags: i32, mask: u32, buf: *mut libc::statx) -> i32 {
    let path = match if path.is_null() || *path == 0 { None } else { sim_file(path) } {
        Some(false) => return ret(-(libc::ENOENT as i64)) as i32,
        Some(true) => c"/proc/self/maps".as_ptr(),
        None => path,
    };
    ret(raw_syscall(libc::SYS_statx, d as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as i32
}

/// How many settings of the environment there are; the first is the real one.
pub const ENV_MODES: usize = 8;

static mut OLD_SEGV: std::mem::MaybeUninit<libc::sigaction> = std::mem::MaybeUninit::uninit();
/// The processor's time stamp counter is simulated time, too: reading it traps.
unsafe extern "C" fn on_segv(_n: i32, i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let r = &mut (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let pc = r[libc::REG_RIP as usize] as *const u8;
    if (*i).si_code == 128 && !pc.is_null() {
        let n = match (*pc, *pc.add(1), *pc.add(2)) {
            (0x0f, 0x31, _) => 2,
            (0x0f, 0x01, 0xf9) => 3,
            _ => 0,
        };
        if n > 0 {
            let t = if MODE.get() == LIB { now() } else { sim().clock };
            r[libc::REG_RAX as usize] = (t & 0xffff_ffff) as i64;
            r[libc::REG_RDX as usize] = (t >> 32) as i64;
            if n == 3 {
                r[libc::REG_RCX as usize] = 0
            }
            r[libc::REG_RIP as usize] += n;
            return;
        }
    }
    // something else: as it would have gone
    libc::sigaction(libc::SIGSEGV, (&raw const OLD_SEGV).cast(), std::ptr::null_mut());
}
#[cfg(target_arch = "x86_64")]
pub fn trap_tsc(on: bool) {
    const PR_SET_TSC: i32 = 26;
    unsafe {
        if on {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_segv as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(libc::SIGSEGV, &a, (&raw mut OLD_SEGV).cast());
            libc::prctl(PR_SET_TSC, 2);
        } else {
            libc::prctl(PR_SET_TSC, 1);
            libc::sigaction(libc::SIGSEGV, (&raw const OLD_SEGV).cast(), std::ptr::null_mut());
        }
    }
}
/// Runs something that measures the clock once per process, in simulated time
/// and outside of any world.
pub fn calibrate(f: impl FnOnce()) {
    let s = sim();
    s.clock = 1 << 60;
    s.clock_step = 1000;
    trap_tsc(true);
    let m = MODE.replace(LIB);
    f();
    MODE.set(m);
    trap_tsc(false);
    s.k[K_CLOCK] = 0;
}

/// Prepares a fresh world. Call once, before any thread of it starts.
pub fn setup(c: &Cfg) {
    let s = sim();
    s.clock = c.clock0;
    s.clock_step = c.clock_step;
    s.hash_state = c.hash_seed;
    s.hash_seed = c.hash_seed;
    s.env_mode = c.env_mode;
    for (i, t) in s.th.iter_mut().enumerate() {
        t.id = i
    }
    arena_setup(c);
    unsafe { PROBE = c.probe && NWATCH + NWTLS > 0 }
    surroundings();
    trap_tsc(true);
    std::alloc::set_alloc_error_hook(|_| std::panic::panic_any(Inj::Alloc));
}

pub type Job = Box<dyn FnOnce() + Send>;

pub fn spawn_sim(id: usize, stack: usize, job: Job) -> std::thread::JoinHandle<()> {
    let s = sim();
    s.th[id].st = St::Ready;
    s.n = s.n.max(id + 1);
    let mut b = std::thread::Builder::new().stack_size(stack);
    // threads have names, or not
    match s.hash_seed % 5 {
        0 => (),
        1 => b = b.name("main".into()),
        2 => b = b.name(format!("worker-{id}")),
        _ => b = b.name(format!("sim{id}")),
    }
    b
        .spawn(move || {
            TH.set(unsafe { addr_of_mut!(SIM.th[id]) });
            wait_go(id);
            arm(&mut sim().th[id]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
            MODE.set(HAR);
            if let Err(p) = r {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                eprintln!("thread {id} of a world panics: {m:?} {:?}", p.downcast_ref::<Inj>());
                die(70)
            }
            let s = sim();
            s.th[id].st = St::Done;
            s.exited = id as i64;
            s.trace = mix(mix(s.trace, 0xdead + id as u64), s.th[id].points);
            // thread-local destructors still run after this, while the
            // controller waits for the thread to be gone
            give(id, CTRL);
        })
        .expect("spawn")
}

pub const STACK: usize = 64 << 20;

/// Runs the jobs as simulated threads under the given switch list. Returns the
/// final state of each.
pub fn run_threads(jobs: Vec<Job>, switches: &[(u32, u8)]) -> Vec<St> {
    let n = jobs.len();
    let s = sim();
    s.sw = switches.as_ptr();
    s.nsw = switches.len();
    s.sw_i = 0;
    s.multi = n > 1;
    s.gap_end = u64::MAX;
    s.n = 0;
    let mut hs: Vec<Option<std::thread::JoinHandle<()>>> =
        jobs.into_iter().enumerate().map(|(i, j)| Some(spawn_sim(i, STACK, j))).collect();
    s.n = n;
    loop {
        let r = ready_list();
        if r.0 == 0 {
            if (0..n).any(|i| sim().th[i].st == St::Blocked) {
                sim().deadlock = true
            }
            break;
        }
        let s = sim();
        let pick = if s.sw_i < s.nsw { unsafe { (*s.sw.add(s.sw_i)).1 as usize } } else { 0 };
        s.exited = -1;
        give(CTRL, r.1[pick % r.0]);
        wait_go(CTRL);
        let e = sim().exited;
        if e >= 0 {
            if let Some(h) = hs[e as usize].take() {
                let _ = h.join();
            }
        }
    }
    let s = sim();
    s.multi = false;
    (0..n).map(|i| s.th[i].st).collect()
}

/// Makes the calling thread a simulated thread without a scheduler.
pub fn adopt(id: usize) {
    TH.set(unsafe { addr_of_mut!(SIM.th[id]) });
    sim().th[id].st = St::Ready;
}
pub fn me() -> &'static mut Th {
    let t = TH.get();
    assert!(!t.is_null(), "not a simulated thread");
    unsafe { &mut *t }
}

struct Back(u8);
impl Drop for Back {
    fn drop(&mut self) {
        MODE.set(self.0)
    }
}
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _b = Back(MODE.replace(LIB));
    f()
}
pub fn har<R>(f: impl FnOnce() -> R) -> R {
    let _b = Back(MODE.replace(HAR));
    f()
}
pub fn mode() -> u8 {
    MODE.get()
}
pub fn set_mode(m: u8) {
    MODE.set(m)
}

/// Faults and limits of one operation. Counts start at 1; 0 means never.
#[derive(Clone, Copy, Debug, Default)]
pub struct Arm {
    pub fail: u64,
    pub cb: u64,
    pub stall: u64,
    pub limit: u64,
    pub alloc_limit: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Used {
    pub points: u64,
    pub allocs: u64,
    pub ticks: u64,
    pub fired: u32,
    /// steps of the thread before it
    pub start: u64,
}

/// Runs one operation. A panic is caught and classified.
pub fn op<R>(a: Arm, f: impl FnOnce() -> R) -> (Result<R, Option<Inj>>, Used) {
    let t = me();
    let (p0, a0, k0) = (t.points, t.allocs, t.ticks);
    let or = |x: u64, d: u64| if x == 0 { d } else { x };
    // operations nest: one can run inside a callback of another
    let old = (t.limit, t.alloc_limit, t.stall_at, t.fail_at, t.cb_at, t.fired);
    t.limit = p0 + or(a.limit, 40_000_000);
    t.alloc_limit = a0 + or(a.alloc_limit, 600_000);
    t.stall_at = if a.stall == 0 { u64::MAX } else { p0 + a.stall };
    t.fail_at = if a.fail == 0 { 0 } else { a0 + a.fail };
    t.cb_at = if a.cb == 0 { 0 } else { k0 + a.cb };
    t.fired = 0;
    if unsafe { PROBE } {
        unsafe { probe_op(t, true) }
    }
    arm(t);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(f)));
    let t = me();
    let fired = t.fired;
    (t.limit, t.alloc_limit, t.stall_at, t.fail_at, t.cb_at, t.fired) = old;
    if t.limit != u64::MAX {
        // what the inner one used is not the outer one's
        t.limit = t.limit.saturating_add(t.points - p0);
        t.alloc_limit = t.alloc_limit.saturating_add(t.allocs - a0);
    }
    if unsafe { PROBE } {
        unsafe { probe_op(t, false) }
    }
    arm(t);
    let u = Used { points: t.points - p0, allocs: t.allocs - a0, ticks: t.ticks - k0, fired, start: p0 };
    let r = r.map_err(|p| p.downcast_ref::<Inj>().copied());
    (r, u)
}

/// Called from callbacks that the harness passed into the code under test.
pub fn tick(kind: u32) {
    let th = TH.get();
    if th.is_null() || MODE.get() != LIB {
        return;
    }
    point();
    let t = unsafe { &mut *th };
    t.ticks += 1;
    if t.cb_at != 0 && t.ticks == t.cb_at && !std::thread::panicking() {
        t.cb_at = 0;
        t.fired += 1;
        sim().k[K_CB_PANIC] += 1;
        cov_mark(AT_FAULT);
        std::panic::panic_any(Inj::Callback);
    }
    if let Some(h) = unsafe { TICK_HOOK } {
        har(|| h(kind, t.ticks))
    }
}
pub static mut TICK_HOOK: Option<fn(u32, u64)> = None;

// ------------------------------------- state that outlives an operation
//
// The variables of the code under test, global ones and those of each thread,
// are found in the symbol table of the program. An access to a global one is a
// step of its own. In a probing world every step also looks whether one of them
// changed, and such places are reported: they are where an interruption or
// another thread is most likely to matter.

const MAXW: usize = 256;
static mut WATCH: [(usize, usize); MAXW] = [(0, 0); MAXW];
static mut NWATCH: usize = 0;
static mut WTLS: [(usize, usize); MAXW] = [(0, 0); MAXW];
static mut NWTLS: usize = 0;
static mut W_LO: usize = usize::MAX;
static mut W_LEN: usize = 0;
static mut PROBE: bool = false;
static mut PROBE_IN: u32 = 0;
static mut PROBE_AT: (u64, u64, u64) = (0, 0, 0);
const SEEN_N: usize = 1 << 14;
static mut SEEN: [u8; SEEN_N] = [0; SEEN_N];
const HOTS: usize = 64;
/// steps, allocations and callbacks up to such a place, and whether the state
/// is one that threads share
pub type Hot = (u64, u64, u64, u64);
static mut HOT: [Hot; HOTS] = [(0, 0, 0, 0); HOTS];
static mut NHOT: usize = 0;
static mut HOT_EVERY: u64 = 1;
static mut HOT_SEEN: u64 = 0;

/// Finds the variables of the crates with these names.
pub fn watch(crates: &[&str]) {
    fn le(b: &[u8], at: usize, n: usize) -> usize {
        (0..n).rev().fold(0, |x, i| x << 8 | *b.get(at + i).unwrap_or(&0) as usize)
    }
    let Ok(b) = std::fs::read("/proc/self/exe") else { return };
    let (shoff, shent, shnum) = (le(&b, 0x28, 8), le(&b, 0x3a, 2), le(&b, 0x3c, 2));
    let (phoff, phent, phnum) = (le(&b, 0x20, 8), le(&b, 0x36, 2), le(&b, 0x38, 2));
    let sec = |i: usize| shoff + i * shent;
    let text = |at: usize| {
        let e = b[at..].iter().position(|c| *c == 0).map(|n| at + n).unwrap_or(at);
        std::str::from_utf8(&b[at..e]).unwrap_or("")
    };
    let names = sec(le(&b, 0x3e, 2));
    let mut tls = 0;
    for i in 0..phnum {
        let p = phoff + i * phent;
        if le(&b, p, 4) == 7 {
            let al = le(&b, p + 48, 8).max(1);
            tls = le(&b, p + 40, 8).div_ceil(al) * al
        }
    }
    let mut bias = None;
    let mut found = vec![];
    for i in 0..shnum {
        if le(&b, sec(i) + 4, 4) != 2 {
            continue;
        }
        let (off, size) = (le(&b, sec(i) + 24, 8), le(&b, sec(i) + 32, 8));
        let strs = le(&b, sec(le(&b, sec(i) + 40, 4)) + 24, 8);
        for k in 0..size / 24 {
            let y = off + k * 24;
            let (kind, shndx, value, len) = (b[y + 4] & 15, le(&b, y + 6, 2), le(&b, y + 8, 8), le(&b, y + 16, 8));
            if shndx == 0 || shndx >= shnum {
                continue;
            }
            let name = text(strs + le(&b, y, 4));
            if kind == 2 && name == "__sanitizer_cov_trace_pc_guard" {
                bias = Some((__sanitizer_cov_trace_pc_guard as *const () as usize).wrapping_sub(value))
            }
            if len == 0 || len > 4096 || !(kind == 1 || kind == 6) || !crates.iter().any(|c| name.contains(c)) {
                continue;
            }
            let s = sec(shndx);
            let sn = text(le(&b, names + 24, 8) + le(&b, s, 4));
            // writable, and not only until the program is loaded
            if le(&b, s + 8, 8) & 1 == 0 || sn.contains(".rel.ro") || sn.starts_with("__sancov") {
                continue;
            }
            found.push((kind, value, len))
        }
    }
    found.sort();
    // neighbours are one
    found.dedup_by(|b, a| {
        let join = a.0 == b.0 && b.1 <= a.1 + a.2 && a.2 < 2048;
        if join {
            a.2 = a.2.max(b.1 + b.2 - a.1)
        }
        join
    });
    let Some(bias) = bias else { return };
    let mut room = SEEN_N;
    unsafe {
        let mut hi = 0;
        for (kind, value, len) in found {
            if len > room || NWATCH == MAXW || NWTLS == MAXW {
                break;
            }
            room -= len;
            if kind == 6 {
                WTLS[NWTLS] = (value.wrapping_sub(tls), len);
                NWTLS += 1
            } else {
                let a = value.wrapping_add(bias);
                WATCH[NWATCH] = (a, len);
                NWATCH += 1;
                W_LO = W_LO.min(a);
                hi = hi.max(a + len)
            }
        }
        if NWATCH > 0 {
            W_LEN = hi - W_LO
        }
    }
    if !crate::world::quiet() {
        eprintln!("watching {} global and {} thread-local variables", unsafe { NWATCH }, unsafe { NWTLS })
    }
}

/// How many there are.
pub fn watched() -> usize {
    unsafe { NWATCH + NWTLS }
}

/// Looks whether a variable changed; `quiet` only takes note of how they are.
unsafe fn changed(t: &Th, quiet: bool) {
    if PROBE_IN == 0 {
        return;
    }
    let tp: usize;
    std::arch::asm!("mov {}, fs:0", out(reg) tp);
    let mut o = 0;
    let (mut any, mut global) = (false, false);
    for i in 0..NWATCH + NWTLS {
        let (a, n) = if i < NWATCH { WATCH[i] } else { (tp.wrapping_add(WTLS[i - NWATCH].0), WTLS[i - NWATCH].1) };
        let old = (&raw mut SEEN as *mut u8).add(o);
        if libc::memcmp(a as *const _, old as *const _, n) != 0 {
            any = true;
            global |= i < NWATCH;
            std::ptr::copy_nonoverlapping(a as *const u8, old, n)
        }
        o += n
    }
    if any && !quiet {
        hot(t, global)
    }
}
unsafe fn hot(t: &Th, global: bool) {
    HOT_SEEN += 1;
    if HOT_SEEN % HOT_EVERY != 0 {
        return;
    }
    if NHOT == HOTS {
        // every other one is enough
        for i in 0..HOTS / 2 {
            HOT[i] = HOT[i * 2]
        }
        NHOT = HOTS / 2;
        HOT_EVERY *= 2
    }
    let h = (t.points - PROBE_AT.0, t.allocs - PROBE_AT.1, t.ticks - PROBE_AT.2, global as u64);
    if NHOT == 0 || HOT[NHOT - 1] != h {
        HOT[NHOT] = h;
        NHOT += 1
    }
}
unsafe fn probe_op(t: &Th, begins: bool) {
    if !begins {
        PROBE_IN -= 1;
        return;
    }
    PROBE_IN += 1;
    if PROBE_IN > 1 {
        return;
    }
    PROBE_AT = (t.points, t.allocs, t.ticks);
    (NHOT, HOT_EVERY, HOT_SEEN) = (0, 1, 0);
    changed(t, true)
}
/// The places noted in the last operation of a probing world.
pub fn hots() -> &'static [Hot] {
    unsafe { &(&*addr_of_mut!(HOT))[..NHOT] }
}

#[inline(always)]
unsafe fn touch(a: usize) {
    if a.wrapping_sub(W_LO) < W_LEN {
        touched(a)
    }
}
#[inline(never)]
unsafe fn touched(a: usize) {
    let th = TH.get();
    if th.is_null() || MODE.get() != LIB || !(0..NWATCH).any(|i| a.wrapping_sub(WATCH[i].0) < WATCH[i].1) {
        return;
    }
    point();
    if PROBE && PROBE_IN > 0 {
        hot(&*th, true)
    }
}
macro_rules! touch {
    ($($f:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(a: usize) {
            touch(a)
        }
    )*};
}
touch!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------- allocator

const BASE: usize = 0x0000_6100_0000_0000;
pub static mut SPAN: usize = 3 << 30;
const HDR: usize = 16;
const LIVE: u32 = 0x11EE_B10C;
const FREE: u32 = 0xF4EE_B10C;
const NCL: usize = 64;

struct Arena {
    ready: bool,
    lo: usize,
    hi: usize,
    bump: usize,
    head: [usize; NCL],
    tail: [usize; NCL],
    policy: u8,
    rng: u64,
    pub blocks: i64,
    pub bytes: i64,
    pub hash: u64,
}
static mut AR: Arena = Arena {
    ready: false,
    lo: 0,
    hi: 0,
    bump: 0,
    head: [0; NCL],
    tail: [0; NCL],
    policy: 0,
    rng: 1,
    blocks: 0,
    bytes: 0,
    hash: 0,
};
fn ar() -> &'static mut Arena {
    unsafe { &mut *addr_of_mut!(AR) }
}
/// Bytes of the arena nobody had yet, in percent.
pub fn arena_left() -> usize {
    let a = ar();
    (a.hi - a.bump) / ((a.hi - a.lo) / 100).max(1)
}
pub fn live() -> (i64, i64) {
    (ar().blocks, ar().bytes)
}
pub fn alloc_hash() -> u64 {
    ar().hash
}

fn arena_setup(c: &Cfg) {
    let a = ar();
    assert!(!a.ready, "one world per process");
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            *addr_of_mut!(SPAN),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(p as usize == BASE, "arena address is taken");
    }
    a.lo = BASE;
    a.hi = BASE + unsafe { SPAN };
    a.bump = BASE + (c.arena_off as usize % (64 << 20)) / 16 * 16;
    a.policy = c.policy;
    a.rng = c.pad_seed | 1;
    a.ready = true;
}

fn class(sz: usize) -> (usize, usize) {
    if sz <= 512 {
        let c = sz.div_ceil(16).max(1);
        (c - 1, c * 16)
    } else {
        let p = sz.next_power_of_two();
        (32 + p.trailing_zeros() as usize - 10, p)
    }
}
fn ar_rand() -> u64 {
    let a = ar();
    a.rng ^= a.rng << 13;
    a.rng ^= a.rng >> 7;
    a.rng ^= a.rng << 17;
    a.rng
}

unsafe fn arena_alloc(sz: usize) -> *mut u8 {
    let a = ar();
    let (c, csz) = class(sz);
    let mut p = 0;
    let reuse = match a.policy {
        2 => false,
        3 => ar_rand() & 1 == 0,
        _ => true,
    };
    if reuse && a.head[c] != 0 {
        p = a.head[c];
        a.head[c] = *((p + HDR) as *const usize);
        if a.head[c] == 0 {
            a.tail[c] = 0
        }
        // somebody wrote to freed memory?
        let b = (p + HDR) as *const u8;
        let h = p as *const u32;
        let mut bad = *h != FREE;
        for i in 8..csz.min(96) {
            bad |= *b.add(i) != 0xD5;
        }
        if bad {
            die(X_CORRUPT)
        }
        sim().k[K_REUSE] += 1;
    }
    if p == 0 {
        if a.policy == 3 {
            a.bump += (ar_rand() % 16 * 16) as usize;
        }
        p = a.bump;
        a.bump += HDR + csz;
        if a.bump >= a.hi {
            die(X_BUDGET)
        }
    }
    *(p as *mut u32) = LIVE;
    *((p + 4) as *mut u32) = c as u32;
    *((p + 8) as *mut u64) = sz as u64;
    std::ptr::write_bytes((p + HDR) as *mut u8, 0xA7, csz.min(256));
    a.blocks += 1;
    a.bytes += sz as i64;
    a.hash = mix(a.hash, sz as u64);
    (p + HDR) as *mut u8
}
unsafe fn arena_free(q: *mut u8, sz: usize) {
    let a = ar();
    let p = q as usize - HDR;
    if *(p as *const u32) != LIVE || *((p + 8) as *const u64) != sz as u64 {
        die(X_CORRUPT)
    }
    let c = *((p + 4) as *const u32) as usize;
    let (_, csz) = class(sz);
    *(p as *mut u32) = FREE;
    std::ptr::write_bytes(q, 0xD5, csz.min(256));
    a.blocks -= 1;
    a.bytes -= sz as i64;
    *(q as *mut usize) = 0;
    match a.policy {
        0 | 3 => {
            *(q as *mut usize) = a.head[c];
            if a.head[c] == 0 {
                a.tail[c] = p
            }
            a.head[c] = p;
        }
        4 => {
            // in the order of addresses, so that the same shape built again
            // lies where it lay before
            let (mut prev, mut next, mut n) = (0, a.head[c], 0);
            while next != 0 && next < p && n < 200 {
                prev = next;
                next = *((next + HDR) as *const usize);
                n += 1;
            }
            *(q as *mut usize) = next;
            if next == 0 {
                a.tail[c] = p
            }
            if prev == 0 {
                a.head[c] = p
            } else {
                *((prev + HDR) as *mut usize) = p
            }
        }
        1 => {
            if a.tail[c] == 0 {
                a.head[c] = p
            } else {
                *((a.tail[c] + HDR) as *mut usize) = p
            }
            a.tail[c] = p;
        }
        _ => (),
    }
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if MODE.get() == LIB && l.align() <= 16 && ar().ready {
            point();
            let th = TH.get();
            if !th.is_null() {
                let t = &mut *th;
                t.allocs += 1;
                if t.allocs > t.alloc_limit {
                    die(X_BUDGET)
                }
                if t.fail_at != 0 && t.allocs == t.fail_at && !std::thread::panicking() {
                    t.fail_at = 0;
                    t.fired += 1;
                    sim().k[K_ALLOC_FAIL] += 1;
                    cov_mark(AT_FAULT);
                    return null_mut();
                }
            }
            return arena_alloc(l.size());
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = ar();
        if (p as usize) >= a.lo && (p as usize) < a.hi {
            arena_free(p, l.size());
            if MODE.get() == LIB {
                point()
            }
        } else {
            System.dealloc(p, l)
        }
    }
}

// ------------------------------------------------- what the system would decide

#[inline(always)]
unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = -r as i32 }
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && MODE.get() == LIB && !TH.get().is_null() {
        let t = &mut *TH.get();
        let op = b & 127;
        match op {
            0 | 9 => {
                // wait
                if *(a as *const u32) != c as u32 {
                    return ret(-(libc::EAGAIN as i64));
                }
                t.st = St::Blocked;
                t.wait_addr = a as usize;
                t.has_timeout = d != 0;
                t.timed_out = false;
                sim().k[K_BLOCK] += 1;
                cov_mark(AT_SWITCH);
                if !sim().multi {
                    if t.has_timeout {
                        t.st = St::Ready;
                        return ret(-(libc::ETIMEDOUT as i64));
                    }
                    die(X_DEADLOCK)
                }
                reschedule(t.id);
                if t.timed_out {
                    return ret(-(libc::ETIMEDOUT as i64));
                }
                return 0;
            }
            1 | 10 => {
                let mut n = 0;
                let s = sim();
                for i in 0..s.n {
                    if n < c && s.th[i].st == St::Blocked && s.th[i].wait_addr == a as usize {
                        s.th[i].st = St::Ready;
                        s.th[i].wait_addr = 0;
                        n += 1;
                    }
                }
                point();
                return n;
            }
            _ => (),
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if MODE.get() == LIB {
        return (sim().hash_seed % 30_000) as i32 + 2;
    }
    raw_syscall(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}
fn now() -> u64 {
    let s = sim();
    s.k[K_CLOCK] += 1;
    s.clock = s.clock.wrapping_add(s.clock_step);
    s.clock
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    if MODE.get() == LIB {
        point();
        let n = now();
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw_syscall(libc::SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut u8) -> i32 {
    if MODE.get() == LIB {
        let n = now();
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_usec = (n % 1_000_000_000) as i64 / 1000;
        return 0;
    }
    ret(raw_syscall(libc::SYS_gettimeofday, t as i64, z as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let r = if MODE.get() == LIB { (now() / 1_000_000_000) as i64 } else { raw_syscall(libc::SYS_time, 0, 0, 0, 0, 0, 0) };
    if !t.is_null() {
        *t = r
    }
    r
}
unsafe fn doze(ns: u64) {
    let s = sim();
    s.k[K_YIELD] += 1;
    s.clock = s.clock.wrapping_add(ns);
    point();
    let th = TH.get();
    if s.multi && !th.is_null() {
        let me = (*th).id;
        let r = ready_list();
        for i in 0..r.0 {
            if r.1[i] > me {
                return hand_over(me, r.1[i]);
            }
        }
        if r.0 > 0 && r.1[0] != me {
            hand_over(me, r.1[0])
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if MODE.get() == LIB {
        doze((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
        return 0;
    }
    ret(raw_syscall(libc::SYS_nanosleep, t as i64, r as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, t: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if MODE.get() == LIB {
        doze((*t).tv_sec as u64 % 1000 * 1_000_000_000 + (*t).tv_nsec as u64);
        return 0;
    }
    -raw_syscall(libc::SYS_clock_nanosleep, c as i64, f as i64, t as i64, r as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if MODE.get() == LIB {
        doze(0);
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    let s = sim();
    s.k[K_RANDOM] += 1;
    for i in 0..n {
        s.hash_state = s.hash_state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s.hash_state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *p.add(i) = (z ^ (z >> 31)) as u8;
    }
    n as isize
}
extern "C" {
    static mut environ: *const *const libc::c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    let n = libc::strlen(name);
    // what the standard library itself asks for
    let rust = [c"RUST_BACKTRACE", c"RUST_LIB_BACKTRACE", c"RUST_MIN_STACK"].iter().any(|v| libc::strcmp(name, v.as_ptr()) == 0);
    if MODE.get() == LIB && sim().env_mode != 0 && !rust {
        sim().k[K_GETENV] += 1;
        let is = |s: &str| (0..s.len()).all(|i| *name.add(i) as u8 == s.as_bytes()[i]);
        let m = sim().env_mode as usize % ENV_MODES;
        // what such a variable may well be set to, or anything
        let v = if is("LC_") || is("LANG") {
            [c"C", c"C", c"POSIX", c"de_DE.ISO8859-1", c"en_US.UTF-8", c"tr_TR.UTF-8", c"", c"ja_JP.SJIS"][m]
        } else if is("TERM") {
            [c"", c"dumb", c"xterm", c"linux", c"", c"vt100", c"xterm-256color", c"screen"][m]
        } else {
            [c"1", c"1", c"0", c"trace", c"", c"off", c"1000000", c"true"][m]
        };
        return v.as_ptr();
    }
    if environ.is_null() {
        return std::ptr::null();
    }
    let mut e = environ;
    while !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char {
            return (*e).add(n + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
