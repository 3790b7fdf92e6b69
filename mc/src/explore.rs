//! Stateless exploration: a master expands choice prefixes breadth-first by deviation cost; worker
//! processes run each prefix in a freshly forked child with a fresh directory.
use crate::rt::sched::*;
use crate::rt::{shim, sys};
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// OFD range locks (cloning unsupported).
    Seg,
    /// Emulated FICLONE.
    Clone,
    /// POSSUM_EMULATE_FREEBSD: flock.
    Flock,
}
impl Mode {
    pub fn name(self) -> &'static str {
        match self {
            Mode::Seg => "seg",
            Mode::Clone => "clone",
            Mode::Flock => "flock",
        }
    }
}
pub const ALL_MODES: [Mode; 3] = [Mode::Seg, Mode::Clone, Mode::Flock];

pub type Body = Box<dyn Fn(&Path) + Send + Sync>;

pub struct Scenario {
    pub name: String,
    pub mode: Mode,
    /// Maximum number of deviations per class (FREE is unbounded).
    pub bounds: [u32; NCLASS],
    /// Maximum total number of deviations.
    pub total: u32,
    pub horizon: u32,
    pub body: Body,
    /// Run in a new process after an injected crash, on the directory it left.
    pub recover: Option<Body>,
    /// Start from an initialised empty store rather than an absent directory.
    pub template: bool,
    /// Canonical states declared by the body are explored once per remaining depth.
    pub dedup: bool,
    /// Which thread runs when the current one blocks is a deviation too.
    pub strict: bool,
}
impl Scenario {
    pub fn new(name: impl Into<String>, mode: Mode, body: impl Fn(&Path) + Send + Sync + 'static) -> Self {
        Scenario {
            name: name.into(),
            mode,
            bounds: [0, 2, 1, 1, 1],
            total: 0,
            horizon: 20_000,
            body: Box::new(body),
            recover: None,
            template: true,
            dedup: false,
            strict: false,
        }
    }
    pub fn preempt(mut self, n: u32) -> Self {
        self.bounds[PREEMPT as usize] = n;
        self.bounds[TIME as usize] = 0;
        self.total = n;
        self
    }
    pub fn horizon(mut self, n: u32) -> Self {
        self.horizon = n;
        self
    }
    pub fn strict(mut self) -> Self {
        self.strict = true;
        self
    }
    pub fn time(mut self, n: u32) -> Self {
        self.bounds[TIME as usize] = n;
        self.total += n;
        self
    }
    pub fn faults(mut self, n: u32) -> Self {
        self.bounds = [0, 0, 0, n, 0];
        self.total = n;
        self
    }
    pub fn crashes(mut self, n: u32, r: impl Fn(&Path) + Send + Sync + 'static) -> Self {
        self.bounds = [0, 0, 0, 0, n];
        self.total = n;
        self.recover = Some(Box::new(r));
        self
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Step {
    pub kind: u8,
    pub n: u8,
    pub chosen: u8,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: u32,
    pub trace: Vec<Rec>,
    pub digest: u64,
    pub points: u64,
    pub ops: u64,
    pub msg: String,
    pub fault: String,
    pub nfaults: u32,
    pub states: Vec<(u32, u64)>,
    pub log: String,
    pub signal: i32,
}

// ---------------------------------------------------------------- one execution
pub struct Slot {
    pub root: PathBuf,
    sh: *mut Shared,
}

pub fn scratch_base() -> PathBuf {
    let b = if Path::new("/dev/shm").is_dir() && writable("/dev/shm") { "/dev/shm" } else { "/tmp" };
    PathBuf::from(b)
}
fn writable(p: &str) -> bool {
    let c = std::ffi::CString::new(p).unwrap();
    unsafe { libc::access(c.as_ptr(), libc::W_OK) == 0 }
}
/// Fixed-length path, so that nothing depends on its length.
pub fn slot_path(master: u32, k: usize) -> PathBuf {
    scratch_base().join(format!("possum-mc-{master:08}-{k:02}"))
}

impl Slot {
    pub fn new(root: PathBuf) -> Slot {
        let sh = unsafe {
            libc::mmap64(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
        } as *mut Shared;
        assert!(sh as isize != -1);
        set_shared(sh);
        Slot { root, sh }
    }
    fn clean(&self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
    fn fork(&self, sc: &Scenario, body: &Body, allow_crash: bool) -> (i32, bool) {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            child(sc, body, &self.root, allow_crash);
        }
        let mut status = 0i32;
        unsafe {
            libc::alarm(30);
            loop {
                let r = libc::waitpid(pid, &mut status, 0);
                if r == pid {
                    libc::alarm(0);
                    return (status, false);
                }
                // interrupted by the alarm: hung
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
                return (status, true);
            }
        }
    }
    pub fn run(&self, sc: &Scenario, prefix: &[Step], verbose: bool, templates: &Templates) -> Outcome {
        let o = self.run_once(sc, prefix, verbose, templates);
        // A machine that's busy or out of memory says nothing about the code.
        if o.status == ST_VIOLATION && (o.msg.starts_with("hang\u{1}") || o.msg.ends_with("killed by signal 9")) {
            return self.run_once(sc, prefix, verbose, templates);
        }
        o
    }
    fn run_once(&self, sc: &Scenario, prefix: &[Step], verbose: bool, templates: &Templates) -> Outcome {
        self.clean();
        let sh = unsafe { &mut *self.sh };
        sh.prefix_len = prefix.len() as u32;
        sh.verbose = verbose as u32;
        sh.allow_time = (sc.bounds[TIME as usize] > 0) as u32;
        sh.horizon = sc.horizon;
        sh.strict = sc.strict as u32;
        for (i, s) in prefix.iter().enumerate() {
            sh.prefix[i] = Rec { kind: s.kind, n: s.n, chosen: s.chosen, _pad: 0, classes: 0 };
        }
        sh.status = ST_RUNNING;
        sh.n = 0;
        sh.digest = 0;
        sh.points = 0;
        sh.ops = 0;
        sh.msg_len = 0;
        sh.ack_len = 0;
        sh.round = 0;
        sh.log_len = 0;
        sh.nstates = 0;
        sh.nfaults = 0;
        sh.fault = [0; 64];
        std::fs::create_dir_all(&self.root).unwrap();
        if sc.template {
            templates.put(sc.mode, &self.root.join("d"));
        }
        let (mut st, mut hung) = self.fork(sc, &sc.body, true);
        let sh = unsafe { &mut *self.sh };
        let mut rounds = 0;
        while sh.status == ST_CRASHED && !hung && libc::WIFEXITED(st) {
            rounds += 1;
            let Some(r) = &sc.recover else {
                break;
            };
            sh.status = ST_RUNNING;
            sh.round = rounds;
            log_raw(sh, &format!("---- process died; recovery {rounds}\n"));
            (st, hung) = self.fork(sc, r, true);
        }
        let mut signal = 0;
        if hung {
            sh.status = ST_VIOLATION;
            let m = "hang\u{1}no answer within 30 s of real time";
            sh.msg[..m.len()].copy_from_slice(m.as_bytes());
            sh.msg_len = m.len() as u32;
        } else if libc::WIFSIGNALED(st) {
            signal = libc::WTERMSIG(st);
            sh.status = ST_VIOLATION;
            let m = format!("signal\u{1}process killed by signal {signal}");
            sh.msg[..m.len()].copy_from_slice(m.as_bytes());
            sh.msg_len = m.len() as u32;
        } else if sh.status == ST_RUNNING {
            sh.status = ST_ENGINE;
            let m = format!("child ended without a result (status {st:#x})");
            sh.msg[..m.len()].copy_from_slice(m.as_bytes());
            sh.msg_len = m.len() as u32;
        }
        let fl = sh.fault.iter().position(|&b| b == 0).unwrap_or(64);
        Outcome {
            status: sh.status,
            trace: sh.recs[..sh.n as usize].to_vec(),
            digest: sh.digest,
            points: sh.points,
            ops: sh.ops,
            msg: String::from_utf8_lossy(&sh.msg[..sh.msg_len as usize]).into_owned(),
            fault: String::from_utf8_lossy(&sh.fault[..fl]).into_owned(),
            nfaults: sh.nfaults,
            states: sh.states[..sh.nstates as usize].to_vec(),
            log: String::from_utf8_lossy(&sh.log[..sh.log_len as usize]).into_owned(),
            signal,
        }
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        self.clean();
    }
}
fn log_raw(sh: &mut Shared, m: &str) {
    if sh.verbose != 0 {
        let n = sh.log_len as usize;
        let k = m.len().min(LOG_CAP - n);
        sh.log[n..n + k].copy_from_slice(&m.as_bytes()[..k]);
        sh.log_len += k as u32;
    }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        // Line numbers are for the reader; they are not part of any signature.
        let msg = format!("{m} (at {loc})");
        if loc.starts_with("src/") {
            engine_error(&format!("harness panic: {msg}"));
        }
        violation("panic", &msg);
    }));
}

fn child(sc: &Scenario, body: &Body, root: &Path, _crash: bool) -> ! {
    unsafe {
        libc::alarm(0);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        if std::env::var_os("MC_STDERR").is_none() {
            let c = std::ffi::CString::new("/dev/null").unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_WRONLY);
            libc::dup2(fd, 2);
            libc::dup2(fd, 1);
            libc::close(fd);
        }
    }
    match sc.mode {
        Mode::Flock => std::env::set_var("POSSUM_EMULATE_FREEBSD", "1"),
        _ => std::env::remove_var("POSSUM_EMULATE_FREEBSD"),
    }
    shim::set_clone_support(sc.mode == Mode::Clone);
    shim::set_root(root.to_str().unwrap());
    // The body runs in a thread of its own so that no thread-local state predates the execution.
    install_panic_hook();
    let b: &'static Body = unsafe { std::mem::transmute(body) };
    let r: &'static Path = unsafe { std::mem::transmute(root) };
    std::thread::spawn(move || {
        start_main();
        b(&r.join("d"));
        finish_ok();
    });
    loop {
        unsafe { libc::pause() };
    }
}

// ---------------------------------------------------------------- templates
#[derive(Default)]
pub struct Templates {
    files: HashMap<u8, Vec<(String, Vec<u8>)>>,
}
impl Templates {
    /// Builds an initialised empty store once per mode by running the real initialisation.
    pub fn build(slot: &Slot) -> Templates {
        let mut t = Templates::default();
        for mode in ALL_MODES {
            let mut sc = Scenario::new("template", mode, |d: &Path| {
                let h = possum::Handle::new(d.to_owned()).expect("template store");
                let done = h.get_value_puncher_done();
                drop(h);
                done.wait();
            });
            sc.template = false;
            let o = slot.run(&sc, &[], false, &t);
            assert!(o.status == ST_OK, "template: {o:?}");
            let mut v = vec![];
            for e in std::fs::read_dir(slot.root.join("d")).unwrap() {
                let e = e.unwrap();
                v.push((e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap()));
            }
            t.files.insert(mode as u8, v);
        }
        t
    }
    fn put(&self, mode: Mode, d: &Path) {
        std::fs::create_dir_all(d).unwrap();
        for (n, b) in &self.files[&(mode as u8)] {
            std::fs::write(d.join(n), b).unwrap();
        }
    }
}

// ---------------------------------------------------------------- workers
struct Enc(Vec<u8>);
impl Enc {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn b(&mut self, v: &[u8]) {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v);
    }
}
struct Dec<'a>(&'a [u8]);
impl Dec<'_> {
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
}
fn send(f: &mut std::fs::File, v: &[u8]) -> std::io::Result<()> {
    f.write_all(&(v.len() as u64).to_le_bytes())?;
    f.write_all(v)
}
fn recv(f: &mut std::fs::File) -> std::io::Result<Vec<u8>> {
    let mut l = [0u8; 8];
    f.read_exact(&mut l)?;
    let mut v = vec![0; u64::from_le_bytes(l) as usize];
    f.read_exact(&mut v)?;
    Ok(v)
}

struct Worker {
    pid: i32,
    tx: std::fs::File,
    rx: std::fs::File,
}

fn worker_main(k: usize, scs: &[Scenario], mut rx: std::fs::File, mut tx: std::fs::File, root: PathBuf) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        libc::CPU_SET(k % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
        extern "C" fn on_alarm(_: i32) {}
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_alarm as *const () as usize;
        libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
    }
    let slot = Slot::new(root);
    let templates = Templates::build(&slot);
    while let Ok(m) = recv(&mut rx) {
        let mut d = Dec(&m);
        let sc = &scs[d.u() as usize];
        let verbose = d.u() != 0;
        let p = d.b();
        let prefix: Vec<Step> = p.chunks(3).map(|c| Step { kind: c[0], n: c[1], chosen: c[2] }).collect();
        let o = slot.run(sc, &prefix, verbose, &templates);
        let mut e = Enc(vec![]);
        e.u(o.status as u64);
        e.u(o.digest);
        e.u(o.points);
        e.u(o.ops);
        e.u(o.nfaults as u64);
        e.u(o.signal as u64);
        e.b(o.msg.as_bytes());
        e.b(o.fault.as_bytes());
        e.b(o.log.as_bytes());
        let mut t = Vec::with_capacity(o.trace.len() * 7);
        for r in &o.trace {
            t.extend_from_slice(&[r.kind, r.n, r.chosen]);
            t.extend_from_slice(&r.classes.to_le_bytes());
        }
        e.b(&t);
        let mut s = vec![];
        for (i, h) in &o.states {
            s.extend_from_slice(&i.to_le_bytes());
            s.extend_from_slice(&h.to_le_bytes());
        }
        e.b(&s);
        if send(&mut tx, &e.0).is_err() {
            break;
        }
    }
    drop(slot);
    sys::exit_now(0)
}

pub struct Pool<'a> {
    scs: &'a [Scenario],
    workers: Vec<Worker>,
    roots: Vec<PathBuf>,
}
fn pipe() -> (std::fs::File, std::fs::File) {
    let mut p = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    unsafe { (std::fs::File::from_raw_fd(p[0]), std::fs::File::from_raw_fd(p[1])) }
}
impl<'a> Pool<'a> {
    pub fn new(scs: &'a [Scenario], n: usize) -> Pool<'a> {
        let me = std::process::id();
        let mut workers: Vec<Worker> = vec![];
        let mut roots = vec![];
        for k in 0..n {
            let (r1, w1) = pipe();
            let (r2, w2) = pipe();
            let root = slot_path(me, k);
            roots.push(root.clone());
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0);
            if pid == 0 {
                drop(w1);
                drop(r2);
                workers.clear(); // closes the other workers' pipes
                worker_main(k, scs, r1, w2, root);
            }
            workers.push(Worker { pid, tx: w1, rx: r2 });
        }
        Pool { scs, workers, roots }
    }
    fn submit(&mut self, w: usize, sc: usize, prefix: &[Step], verbose: bool) {
        let mut e = Enc(vec![]);
        e.u(sc as u64);
        e.u(verbose as u64);
        let p: Vec<u8> = prefix.iter().flat_map(|s| [s.kind, s.n, s.chosen]).collect();
        e.b(&p);
        send(&mut self.workers[w].tx, &e.0).expect("worker gone");
    }
    fn collect(&mut self, w: usize) -> Outcome {
        let m = recv(&mut self.workers[w].rx).expect("worker died");
        let mut d = Dec(&m);
        let status = d.u() as u32;
        let digest = d.u();
        let points = d.u();
        let ops = d.u();
        let nfaults = d.u() as u32;
        let signal = d.u() as i32;
        let msg = String::from_utf8_lossy(&d.b()).into_owned();
        let fault = String::from_utf8_lossy(&d.b()).into_owned();
        let log = String::from_utf8_lossy(&d.b()).into_owned();
        let trace = d.b().chunks(7).map(|c| Rec { kind: c[0], n: c[1], chosen: c[2], _pad: 0, classes: u32::from_le_bytes(c[3..7].try_into().unwrap()) }).collect();
        let states = d.b().chunks(12).map(|c| (u32::from_le_bytes(c[..4].try_into().unwrap()), u64::from_le_bytes(c[4..].try_into().unwrap()))).collect();
        Outcome { status, trace, digest, points, ops, msg, fault, nfaults, states, log, signal }
    }
    fn wait_any(&mut self, busy: &[bool]) -> usize {
        let mut fds: Vec<libc::pollfd> = vec![];
        let mut idx = vec![];
        use std::os::fd::AsRawFd;
        for (i, w) in self.workers.iter().enumerate() {
            if busy[i] {
                fds.push(libc::pollfd { fd: w.rx.as_raw_fd(), events: libc::POLLIN, revents: 0 });
                idx.push(i);
            }
        }
        loop {
            let r = unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, -1) };
            if r > 0 {
                for (k, f) in fds.iter().enumerate() {
                    if f.revents != 0 {
                        return idx[k];
                    }
                }
            }
        }
    }
    pub fn run_one(&mut self, sc: usize, prefix: &[Step], verbose: bool) -> Outcome {
        self.submit(0, sc, prefix, verbose);
        self.collect(0)
    }
}
impl Drop for Pool<'_> {
    fn drop(&mut self) {
        for w in self.workers.drain(..) {
            drop(w.tx);
            drop(w.rx);
            unsafe {
                libc::kill(w.pid, libc::SIGKILL);
                let mut s = 0;
                libc::waitpid(w.pid, &mut s, 0);
            }
        }
        for r in &self.roots {
            let _ = std::fs::remove_dir_all(r);
        }
    }
}

// ---------------------------------------------------------------- exploration
#[derive(Clone)]
struct Node {
    sc: u32,
    parent: Option<Arc<Vec<Step>>>,
    at: u32,
    alt: u8,
    used: [u8; NCLASS],
}
impl Node {
    fn prefix(&self) -> Vec<Step> {
        match &self.parent {
            None => vec![],
            Some(p) => {
                let mut v = p[..=self.at as usize].to_vec();
                v[self.at as usize].chosen = self.alt;
                v
            }
        }
    }
}

/// Executions to do at one level of deviation. All of them are done unless time runs out; the order spreads
/// over scenarios and over the choices within them.
struct Todo {
    by: Vec<Vec<Node>>,
    active: Vec<u32>,
    turn: usize,
    x: u64,
}
impl Todo {
    fn new(n: usize) -> Todo {
        Todo { by: (0..n).map(|_| vec![]).collect(), active: vec![], turn: 0, x: 88172645463325252 }
    }
    fn push(&mut self, n: Node) {
        if self.by[n.sc as usize].is_empty() {
            self.active.push(n.sc);
        }
        self.by[n.sc as usize].push(n);
    }
    fn is_empty(&self) -> bool {
        self.active.is_empty()
    }
    fn pop(&mut self) -> Option<Node> {
        if self.active.is_empty() {
            return None;
        }
        self.turn += 1;
        let a = self.turn % self.active.len();
        let v = &mut self.by[self.active[a] as usize];
        self.x ^= self.x << 13;
        self.x ^= self.x >> 7;
        self.x ^= self.x << 17;
        let n = v.swap_remove((self.x % v.len() as u64) as usize);
        if v.is_empty() {
            self.active.swap_remove(a);
        }
        Some(n)
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: usize,
    pub trace: Vec<Step>,
    pub tag: String,
    pub msg: String,
    pub log: String,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub executions: u64,
    pub points: u64,
    pub transitions: u64,
    pub choices: u64,
    pub ops: u64,
    pub faults: u64,
    pub distinct: HashSet<(u32, u64)>,
    pub states: HashSet<(u32, u64)>,
    pub completed_cost: i64,
    pub capped: bool,
    pub max_depth: usize,
    pub per_scenario: Vec<u64>,
    pub samples: Vec<String>,
    pub fault_sites: HashSet<String>,
    pub deduped: u64,
    pub wall: f64,
}

pub enum Verdict {
    Clean,
    Violation(Vec<Found>),
    Engine(String),
}

fn steps(t: &[Rec]) -> Vec<Step> {
    t.iter().map(|r| Step { kind: r.kind, n: r.n, chosen: r.chosen }).collect()
}

/// Explores all scenarios up to their bounds. `known` says whether a violation is a listed finding.
pub fn explore(scs: &[Scenario], workers: usize, budget: Duration, mut known: impl FnMut(&Found) -> bool, stats: &mut Stats, max_found: usize) -> Verdict {
    let t0 = Instant::now();
    let mut pool = Pool::new(scs, workers);
    let mut buckets: Vec<Todo> = vec![Todo::new(scs.len())];
    for i in (0..scs.len()).rev() {
        buckets[0].push(Node { sc: i as u32, parent: None, at: 0, alt: 0, used: [0; NCLASS] });
    }
    stats.per_scenario = vec![0; scs.len()];
    stats.completed_cost = -1;
    let mut visited: HashMap<(u32, u64, [u8; NCLASS]), u32> = HashMap::new();
    let mut found: Vec<Found> = vec![];
    let mut level = 0;
    let mut busy = vec![false; workers];
    let mut job: Vec<Option<(Node, Vec<Step>)>> = vec![None; workers];
    let mut inflight = 0;
    'outer: loop {
        // hand out
        if t0.elapsed() < budget {
            for w in 0..workers {
                if !busy[w] {
                    if let Some(n) = buckets[level].pop() {
                        let p = n.prefix();
                        pool.submit(w, n.sc as usize, &p, false);
                        job[w] = Some((n, p));
                        busy[w] = true;
                        inflight += 1;
                    }
                }
            }
        } else if buckets.iter().skip(level).any(|b| !b.is_empty()) {
            stats.capped = true;
        }
        if inflight == 0 {
            if stats.capped {
                break 'outer;
            }
            if buckets[level].is_empty() {
                stats.completed_cost = level as i64;
                level += 1;
                if level >= buckets.len() {
                    break 'outer;
                }
            }
            continue;
        }
        let w = pool.wait_any(&busy);
        let o = pool.collect(w);
        busy[w] = false;
        inflight -= 1;
        let (node, prefix) = job[w].take().unwrap();
        stats.executions += 1;
        stats.points += o.points;
        stats.choices += o.trace.len() as u64;
        stats.transitions += o.trace.len() as u64 - prefix.len().min(o.trace.len()) as u64 + (prefix.len() > 0) as u64;
        stats.ops += o.ops;
        stats.faults += o.nfaults as u64;
        if o.nfaults > 0 {
            stats.fault_sites.insert(o.fault.clone());
        }
        stats.max_depth = stats.max_depth.max(o.trace.len());
        stats.per_scenario[node.sc as usize] += 1;
        match o.status {
            ST_ENGINE => return Verdict::Engine(format!("{}: {}", scs[node.sc as usize].name, o.msg)),
            ST_VIOLATION => {
                let (tag, msg) = o.msg.split_once('\u{1}').unwrap_or(("?", &o.msg));
                let mut f = Found { scenario: node.sc as usize, trace: steps(&o.trace), tag: tag.into(), msg: msg.into(), log: String::new() };
                // Replay twice: the same schedule must fail every time.
                if found.len() < max_found {
                    // drain the worker we use
                    if busy[0] {
                        // use the worker that just became free
                    }
                    for _ in 0..2 {
                        pool.submit(w, f.scenario, &f.trace, true);
                        let o2 = pool.collect(w);
                        if o2.status != ST_VIOLATION || (o2.msg != o.msg && tag != "hang") {
                            return Verdict::Engine(format!("violation did not replay in {}: first {:?}, then status {} {:?}", scs[f.scenario].name, o.msg, o2.status, o2.msg));
                        }
                        f.log = o2.log;
                    }
                    if !known(&f) {
                        found.push(f);
                        if found.len() >= max_found {
                            break 'outer;
                        }
                    }
                }
                // Explore on from here: the prefix of a failed execution still has alternatives.
            }
            _ => {}
        }
        stats.distinct.insert((node.sc, o.digest));
        if stats.samples.len() < 3 || (stats.samples.len() < 6 && node.used.iter().any(|&u| u > 0)) {
            let data: Vec<u8> = o.trace.iter().filter(|r| r.kind == K_DATA).map(|r| r.chosen).collect();
            let dev: Vec<String> = o.trace.iter().enumerate().filter(|(_, r)| r.kind != K_DATA && r.chosen > 0).map(|(i, r)| format!("{}@{i}={}", ["", "thread", "", "fault", "crash"][r.kind as usize], r.chosen)).collect();
            stats.samples.push(format!("{}: scenario choices {data:?}, deviations {dev:?} of {} choice points {}-> {}", scs[node.sc as usize].name, o.trace.len(),
                if o.fault.is_empty() { String::new() } else { format!("({}) ", o.fault) }, match o.status { ST_OK => "ok", ST_CRASHED => "crashed", _ => "violation" }));
        }
        // expand
        let sc = &scs[node.sc as usize];
        let base = prefix.len();
        let tr = Arc::new(steps(&o.trace));
        let mut cut = o.trace.len();
        for &(i, h) in &o.states {
            let key = (node.sc, h, node.used);
            stats.states.insert((node.sc, h));
            if sc.dedup && (i as usize) > base.saturating_sub(1) && (i as usize) < cut {
                // remaining depth is encoded by the body in the hash
                if visited.insert(key, 1).is_some() && (i as usize) >= base {
                    stats.deduped += 1;
                    cut = cut.min(i as usize);
                }
            }
        }
        for i in base..o.trace.len().min(cut) {
            let r = o.trace[i];
            for alt in 1..r.n as usize {
                let c = r.class(alt);
                let mut used = node.used;
                if c != FREE {
                    used[c as usize] += 1;
                    if used[c as usize] as u32 > sc.bounds[c as usize] {
                        continue;
                    }
                }
                let tot: u32 = used.iter().map(|&x| x as u32).sum();
                if tot > sc.total {
                    continue;
                }
                let n = Node { sc: node.sc, parent: Some(tr.clone()), at: i as u32, alt: alt as u8, used };
                while buckets.len() <= tot as usize {
                    buckets.push(Todo::new(scs.len()));
                }
                buckets[tot as usize].push(n);
            }
        }
    }
    stats.wall = t0.elapsed().as_secs_f64();
    drop(pool);
    if found.is_empty() {
        Verdict::Clean
    } else {
        Verdict::Violation(found)
    }
}
