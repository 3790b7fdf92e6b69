//! The controlled scheduler and the choice recorder. Lives in a forked child that runs one execution.
//!
//! Exactly one scenario thread runs at a time (it holds the baton), so the structures below are plain
//! memory accessed by the baton holder only; the baton hand-off (a futex) orders the accesses.
use super::sys;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXC: usize = 60_000;
pub const MAXT: usize = 16;

/// Cost classes of a choice alternative.
pub const FREE: u8 = 0;
pub const PREEMPT: u8 = 1;
pub const TIME: u8 = 2;
pub const FAULT: u8 = 3;
pub const CRASH: u8 = 4;
pub const NCLASS: usize = 5;

/// Choice kinds.
pub const K_SCHED: u8 = 1;
pub const K_DATA: u8 = 2;
pub const K_FAULT: u8 = 3;
pub const K_CRASH: u8 = 4;

#[repr(C)]
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Rec {
    pub kind: u8,
    pub n: u8,
    pub chosen: u8,
    pub _pad: u8,
    /// class of alternative i in nibble min(i,7)
    pub classes: u32,
}
impl Rec {
    pub fn class(&self, alt: usize) -> u8 {
        ((self.classes >> (4 * alt.min(7))) & 15) as u8
    }
}

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_ENGINE: u32 = 3;
pub const ST_CRASHED: u32 = 4;

pub const MSG_CAP: usize = 1 << 16;
pub const LOG_CAP: usize = 1 << 21;
pub const ACK_CAP: usize = 1 << 16;

#[repr(C)]
pub struct Shared {
    // input
    pub prefix_len: u32,
    pub verbose: u32,
    pub allow_time: u32,
    pub horizon: u32,
    pub strict: u32,
    pub prefix: [Rec; MAXC],
    // output
    pub status: u32,
    pub n: u32,
    pub recs: [Rec; MAXC],
    pub digest: u64,
    pub points: u64,
    pub ops: u64,
    pub msg_len: u32,
    pub msg: [u8; MSG_CAP],
    /// Number of processes that died before this one.
    pub round: u32,
    pub ack_len: u32,
    pub ack: [u8; ACK_CAP],
    pub log_len: u32,
    pub log: [u8; LOG_CAP],
    // state hashes at data choices: (choice index, hash)
    pub fault: [u8; 64],
    pub nfaults: u32,
    pub nstates: u32,
    pub states: [(u32, u64); 64],
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Free,
    Runnable,
    Futex { addr: usize, bitset: u32, deadline: u64 },
    LockWait { epoch: u64 },
    Sleep { until: u64, sql_epoch: u64, in_sql: bool },
    Join { tid: usize },
    Done,
}

struct Thread {
    baton: AtomicU32,
    st: St,
    timed_out: bool,
    pthread: u64,
    in_sql: bool,
    quiet: u32,
    rand_ctr: u64,
    name: [u8; 8],
}

pub struct Sched {
    pub active: bool,
    threads: [Thread; MAXT],
    nthreads: usize,
    pub clock_ns: u64,
    /// How far the time of day is ahead of the clock that timeouts go by.
    pub wall_ns: i64,
    pub lock_epoch: u64,
    pub sql_epoch: u64,
    steps: u64,
    sql_steps: u64,
    /// Enabled classes of crash and fault injection: bit per fd class.
    pub crash_mask: u32,
    pub fault_mask: u32,
    /// Which fault kinds are enabled (bit per `faults::*`).
    pub fault_kinds: u32,
    /// 0: every faultable call may fail; 1: those of the main thread may, which are counted; 2: the one of the same
    /// number as the one that failed then fails.
    pub fault_pair: u8,
    pub fault_seq: u32,
    pub fault_at: u32,
    pub fault_err: i32,
    pub fault_what: &'static str,
    /// When set, only these syscalls classes are scheduling points.
    pub rand_collide: bool,
    /// No scheduling choices (set-up and wind-down phases).
    pub calm: bool,
    /// Opening the manifest for writing just failed with this error.
    pub open_fails: i32,
    /// FICLONE into a values file fails with this error.
    pub clone_fails: i32,
}

struct Glob(UnsafeCell<Sched>);
unsafe impl Sync for Glob {}
const T0: Thread = Thread {
    baton: AtomicU32::new(0),
    st: St::Free,
    timed_out: false,
    pthread: 0,
    in_sql: false,
    quiet: 0,
    rand_ctr: 0,
    name: [0; 8],
};
static G: Glob = Glob(UnsafeCell::new(Sched {
    active: false,
    threads: [T0; MAXT],
    nthreads: 0,
    clock_ns: 0,
    wall_ns: 0,
    lock_epoch: 0,
    sql_epoch: 0,
    steps: 0,
    sql_steps: 0,
    crash_mask: 0,
    fault_mask: 0,
    fault_kinds: 0,
    fault_pair: 0,
    fault_seq: 0,
    fault_at: 0,
    fault_err: 0,
    fault_what: "",
    rand_collide: false,
    calm: false,
    open_fails: 0,
    clone_fails: 0,
}));
static mut SHARED: *mut Shared = std::ptr::null_mut();

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
}

#[allow(clippy::mut_from_ref)]
pub fn g() -> &'static mut Sched {
    unsafe { &mut *G.0.get() }
}
pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}
pub fn set_shared(p: *mut Shared) {
    unsafe { SHARED = p }
}
pub fn has_shared() -> bool {
    unsafe { !SHARED.is_null() }
}
/// The id of the running scenario thread, if the scheduler controls it and it is not in quiet mode.
#[inline]
pub fn me() -> Option<usize> {
    let t = TID.with(|t| t.get());
    if t < 0 || !g().active {
        None
    } else {
        Some(t as usize)
    }
}
#[inline]
pub fn me_loud() -> Option<usize> {
    me().filter(|&t| g().threads[t].quiet == 0)
}
/// Runs harness code whose system calls are neither scheduling points nor fault or crash points.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let Some(t) = me() else { return f() };
    g().threads[t].quiet += 1;
    struct Un(usize);
    impl Drop for Un {
        fn drop(&mut self) {
            g().threads[self.0].quiet -= 1;
        }
    }
    let _u = Un(t);
    f()
}

pub const CLOCK_BASE: u64 = 1_700_000_000_000_000_000;

pub fn start_main() {
    let s = g();
    for t in s.threads.iter_mut() {
        *t = T0;
    }
    s.threads[0].st = St::Runnable;
    s.nthreads = 1;
    s.clock_ns = CLOCK_BASE;
    s.wall_ns = 0;
    s.lock_epoch = 0;
    s.sql_epoch = 0;
    s.steps = 0;
    s.sql_steps = 0;
    s.crash_mask = 0;
    s.fault_mask = 0;
    s.fault_kinds = 0;
    s.fault_pair = 0;
    s.calm = false;
    s.open_fails = 0;
    s.rand_collide = false;
    TID.with(|t| t.set(0));
    s.active = true;
}

pub fn log(args: std::fmt::Arguments) {
    if !has_shared() {
        return;
    }
    let sh = shared();
    if sh.verbose == 0 {
        return;
    }
    struct W<'a>(&'a mut Shared);
    impl std::fmt::Write for W<'_> {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            let n = self.0.log_len as usize;
            let k = s.len().min(LOG_CAP - n);
            self.0.log[n..n + k].copy_from_slice(&s.as_bytes()[..k]);
            self.0.log_len += k as u32;
            Ok(())
        }
    }
    use std::fmt::Write;
    let t = TID.with(|t| t.get());
    let ns = g().clock_ns.wrapping_sub(CLOCK_BASE);
    let _ = writeln!(W(sh), "[t{} +{}.{:06}s #{}] {}", t, ns / 1_000_000_000, ns / 1000 % 1_000_000, sh_n(), args);
}
fn sh_n() -> u32 {
    shared().n
}
#[macro_export]
macro_rules! ev { ($($a:tt)*) => { if $crate::rt::sched::verbose() { $crate::rt::sched::log(format_args!($($a)*)) } } }
pub fn verbose() -> bool {
    has_shared() && shared().verbose != 0
}

fn put_msg(m: &str) {
    let sh = shared();
    let k = m.len().min(MSG_CAP);
    sh.msg[..k].copy_from_slice(&m.as_bytes()[..k]);
    sh.msg_len = k as u32;
}
/// Ends the execution. `tag` is the property-independent class of the violation.
pub fn violation(tag: &str, m: &str) -> ! {
    log(format_args!("VIOLATION {tag}: {m}"));
    put_msg(&format!("{tag}\u{1}{m}"));
    shared().status = ST_VIOLATION;
    sys::exit_now(0)
}
pub fn engine_error(m: &str) -> ! {
    put_msg(m);
    shared().status = ST_ENGINE;
    sys::exit_now(0)
}
pub fn finish_ok() -> ! {
    shared().status = ST_OK;
    sys::exit_now(0)
}

/// Records (or replays) a choice among n alternatives.
pub fn choose(kind: u8, n: usize, classes: u32) -> usize {
    if n <= 1 {
        return 0;
    }
    let sh = shared();
    let i = sh.n as usize;
    if i >= MAXC {
        engine_error("too many choice points");
    }
    let mut chosen = 0;
    if i < sh.prefix_len as usize {
        let p = sh.prefix[i];
        if p.kind != kind || p.n as usize != n || p.chosen as usize >= n {
            engine_error(&format!("replay divergence at choice {i}: expected {p:?}, got kind {kind} n {n}"));
        }
        chosen = p.chosen as usize;
    }
    sh.recs[i] = Rec { kind, n: n as u8, chosen: chosen as u8, _pad: 0, classes };
    sh.n += 1;
    chosen
}
/// A free (data) choice of the scenario.
pub fn data(n: usize) -> usize {
    choose(K_DATA, n, 0)
}
/// Declares the canonical state before the next data choice.
pub fn state(hash: u64) {
    let sh = shared();
    let k = sh.nstates as usize;
    if k < sh.states.len() {
        sh.states[k] = (sh.n, hash);
        sh.nstates += 1;
    }
}
pub fn digest(h: u64) {
    let sh = shared();
    sh.digest = sh.digest.rotate_left(5).wrapping_mul(0x9E3779B97F4A7C15) ^ h;
}

fn enabled(s: &Sched, t: usize) -> bool {
    match s.threads[t].st {
        St::Runnable => true,
        St::LockWait { epoch } => s.lock_epoch > epoch,
        St::Sleep { sql_epoch, in_sql, .. } => in_sql && s.sql_epoch > sql_epoch,
        St::Join { tid } => s.threads[tid].st == St::Done,
        _ => false,
    }
}
fn deadline(s: &Sched, t: usize) -> Option<u64> {
    match s.threads[t].st {
        St::Futex { deadline, .. } if deadline != u64::MAX => Some(deadline),
        St::Sleep { until, .. } => Some(until),
        _ => None,
    }
}

fn hand_to(s: &mut Sched, t: usize) {
    s.threads[t].baton.store(1, SeqCst);
    unsafe { sys::futex_wake(s.threads[t].baton.as_ptr()) }
}
fn wait_baton(t: usize) {
    let b = &g().threads[t].baton;
    while b.swap(0, SeqCst) == 0 {
        unsafe { sys::futex_wait(b.as_ptr(), 0) }
    }
}

/// Picks the next thread to run; may advance the clock. `cur_enabled` threads come first.
fn pick(cur: usize) -> usize {
    let s = g();
    s.steps += 1;
    let sh = shared();
    sh.points += 1;
    if s.steps > sh.horizon as u64 {
        violation("livelock", &format!("no termination within {} scheduling steps: {}", sh.horizon, states(s)));
    }
    let mut alts = [0usize; MAXT * 2];
    let mut n = 0;
    let mut classes = 0u32;
    let cur_en = enabled(s, cur);
    if cur_en {
        alts[0] = cur;
        n = 1;
    }
    for t in 0..s.nthreads {
        if t != cur && enabled(s, t) {
            if cur_en || (sh.strict != 0 && n > 0) {
                classes |= (PREEMPT as u32) << (4 * n.min(7));
            }
            alts[n] = t;
            n += 1;
        }
    }
    let plain = n;
    if s.calm && n > 0 {
        let t = alts[0];
        s.threads[t].st = St::Runnable;
        return t;
    }
    if n == 0 {
        // Let time pass.
        let next = (0..s.nthreads).filter_map(|t| deadline(s, t).map(|d| (d, t))).min();
        let Some((d, t)) = next else {
            violation("deadlock", &states(s));
        };
        if d > CLOCK_BASE + 100_000_000_000_000 {
            violation("livelock", &format!("virtual time ran away: {}", states(s)));
        }
        s.clock_ns = s.clock_ns.max(d);
        if let St::Futex { .. } = s.threads[t].st {
            s.threads[t].timed_out = true;
        }
        s.threads[t].st = St::Runnable;
        return t;
    }
    if sh.allow_time != 0 {
        for t in 0..s.nthreads {
            if !enabled(s, t) && deadline(s, t).is_some() {
                classes |= (TIME as u32) << (4 * n.min(7));
                alts[n] = t;
                n += 1;
            }
        }
    }
    let c = choose(K_SCHED, n, classes);
    let t = alts[c];
    if c >= plain {
        s.clock_ns = s.clock_ns.max(deadline(s, t).unwrap());
        if let St::Futex { .. } = s.threads[t].st {
            s.threads[t].timed_out = true;
        }
    }
    s.threads[t].st = St::Runnable;
    t
}
pub fn states(s: &Sched) -> String {
    let mut o = String::new();
    for t in 0..s.nthreads {
        let nm = s.threads[t].name;
        let l = nm.iter().position(|&c| c == 0).unwrap_or(8);
        o += &format!("t{t}{} {}; ", if l > 0 { format!("({})", String::from_utf8_lossy(&nm[..l])) } else { "".into() },
            match s.threads[t].st { St::Futex { deadline, .. } => if deadline == u64::MAX { "waits on a mutex or channel".to_string() } else { "timed wait".into() },
                St::LockWait { .. } => "waits for a file lock".into(), ref o => format!("{o:?}") });
    }
    o
}

/// The current thread has updated its state; run whoever comes next and return when it is our turn.
fn reschedule(cur: usize) {
    let t = pick(cur);
    if t != cur {
        hand_to(g(), t);
        wait_baton(cur);
    }
}
/// A scheduling point.
#[inline]
pub fn point() {
    if let Some(t) = me_loud() {
        reschedule(t);
    }
}
pub fn name_me(n: &str) {
    if let Some(t) = me() {
        let b = n.as_bytes();
        let k = b.len().min(8);
        g().threads[t].name[..k].copy_from_slice(&b[..k]);
    }
}

// ---- futexes ----
pub fn futex_wait(t: usize, addr: usize, val: u32, bitset: u32, dl: Option<u64>) -> i64 {
    let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
    if cur != val {
        return -(libc::EAGAIN as i64);
    }
    let s = g();
    if let Some(d) = dl {
        if d <= s.clock_ns {
            return -(libc::ETIMEDOUT as i64);
        }
    }
    s.threads[t].timed_out = false;
    s.threads[t].st = St::Futex { addr, bitset, deadline: dl.unwrap_or(u64::MAX) };
    reschedule(t);
    if s.threads[t].timed_out {
        -(libc::ETIMEDOUT as i64)
    } else {
        0
    }
}
pub fn futex_wake(addr: usize, n: u32, bits: u32) -> i64 {
    let s = g();
    let mut k = 0;
    for t in 0..s.nthreads {
        if k == n {
            break;
        }
        if let St::Futex { addr: a, bitset, .. } = s.threads[t].st {
            if a == addr && bitset & bits != 0 {
                s.threads[t].st = St::Runnable;
                k += 1;
            }
        }
    }
    k as i64
}
// ---- file locks ----
pub fn wait_for_lock(t: usize) {
    let s = g();
    s.threads[t].st = St::LockWait { epoch: s.lock_epoch };
    reschedule(t);
}
pub fn lock_released() {
    g().lock_epoch += 1;
}
// ---- time ----
pub fn sleep_ns(t: usize, ns: u64) {
    let s = g();
    let in_sql = s.threads[t].in_sql;
    s.threads[t].st = St::Sleep { until: s.clock_ns + ns, sql_epoch: s.sql_epoch, in_sql };
    reschedule(t);
}
pub fn calm(v: bool) {
    g().calm = v;
}
pub fn now_ns() -> u64 {
    g().clock_ns
}
pub fn wall_ns() -> u64 {
    let s = g();
    s.clock_ns.saturating_add_signed(s.wall_ns)
}
/// Somebody sets the time of day.
pub fn leap_ms(ms: i64) {
    const YEAR: i64 = 365 * 86_400 * 1_000_000_000;
    let s = g();
    s.wall_ns = s.wall_ns.saturating_add(ms.saturating_mul(1_000_000)).clamp(-50 * YEAR, 250 * YEAR);
}
/// Advances the virtual clock without running anyone (scenario operation).
pub fn tick_ms(ms: u64) {
    g().clock_ns += ms * 1_000_000;
}
/// Lets every other thread run until nothing more can happen within `ms` of virtual time.
pub fn settle_ms(ms: u64) {
    if let Some(t) = me() {
        sleep_ns(t, ms * 1_000_000);
    }
}
// ---- sqlite ----
pub fn set_in_sql(t: usize, v: bool) {
    g().threads[t].in_sql = v;
}
pub fn sql_progress() {
    g().sql_epoch += 1;
}
// ---- randomness ----
pub fn rand_u64(t: Option<usize>) -> u64 {
    let s = g();
    let mut z = match t {
        Some(t) => {
            let c = s.threads[t].rand_ctr;
            s.threads[t].rand_ctr += 1;
            if s.rand_collide { c } else { ((t as u64 + 1) << 32) + ((shared().round as u64) << 24) + c }
        }
        None => 77,
    };
    z = z.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
// ---- threads ----
pub fn new_thread() -> usize {
    let s = g();
    let t = s.nthreads;
    if t >= MAXT {
        engine_error("too many threads");
    }
    s.nthreads += 1;
    s.threads[t] = T0;
    s.threads[t].st = St::Runnable;
    t
}
pub fn set_pthread(t: usize, p: u64) {
    g().threads[t].pthread = p;
}
pub fn begin_thread(t: usize) {
    TID.with(|c| c.set(t as i32));
    wait_baton(t);
}
pub fn end_thread(t: usize) {
    let s = g();
    s.threads[t].st = St::Done;
    TID.with(|c| c.set(-1));
    let n = pick(t);
    hand_to(s, n);
}
pub fn join_thread(t: usize, p: u64) {
    let s = g();
    if let Some(x) = (0..s.nthreads).rev().find(|&x| s.threads[x].pthread == p && s.threads[x].st != St::Free) {
        s.threads[t].st = St::Join { tid: x };
        reschedule(t);
    }
}
pub fn live_threads() -> usize {
    let s = g();
    (0..s.nthreads).filter(|&t| s.threads[t].st != St::Done).count()
}
/// Counts SQLite steps so that an endless loop of them is noticed.
pub fn count_sql() {
    let s = g();
    s.sql_steps += 1;
    if s.sql_steps > 200_000 {
        violation("livelock", "200000 SQLite steps in one execution");
    }
}
pub fn note_fault(what: &str, n: i32) {
    let sh = shared();
    let m = format!("{what}:{n}");
    let k = m.len().min(sh.fault.len());
    sh.fault = [0; 64];
    sh.fault[..k].copy_from_slice(&m.as_bytes()[..k]);
    sh.nfaults += 1;
}

/// The crate's mutexes call back before each acquisition.
pub fn init_hook() {
    possum::concurrency::mc::set_hook(point);
}
