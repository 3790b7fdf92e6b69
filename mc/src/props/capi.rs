//! C21: the C functions drive one store, the native ones a twin; results and stores have to agree.
use crate::explore::*;
use crate::rt::sched::{self, data, quiet};
use crate::util::*;
use crate::world::Key;
use crate::{ev, fail, must, Tier};
use positioned_io::ReadAt;
use possum::{BatchWriter, Handle, Limits, SnapshotValue, Value, ValueWriter};
use std::ffi::{c_char, c_void, CString};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::ptr::{null, null_mut};
use COp::*;

/// Ends an execution in which the two sides cannot be compared because the failing call of one has no counterpart on the other.
macro_rules! same {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            comparable();
            $crate::util::fail("C21", format!($($a)*))
        }
    };
}
fn comparable() {
    let g = sched::g();
    if g.fault_pair == 2 && g.fault_at != 0 && g.fault_seq < g.fault_at {
        ev!("not comparable: the call that failed has no counterpart");
        sched::finish_ok();
    }
}

// The header's view of the library.
#[repr(C)]
#[derive(Clone, Copy)]
struct Buf {
    ptr: *const c_char,
    size: usize,
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct Stamp {
    secs: i64,
    nanos: u32,
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct Stat {
    last_used: Stamp,
    size: u64,
}
#[repr(C)]
struct CItem {
    key: Buf,
    stat: Stat,
}
#[repr(C)]
struct CLimits {
    max: u64,
    no_punch: bool,
}
type P = *mut c_void;
extern "C" {
    fn possum_new(path: *const c_char) -> P;
    fn possum_start_new_value(w: P, v: *mut P) -> i32;
    fn possum_value_writer_fd(v: P) -> isize;
    fn possum_writer_rename(w: P, v: P, k: Buf) -> i32;
    fn possum_reader_add(r: P, k: Buf, v: *mut P) -> i32;
    fn possum_reader_begin(r: P) -> i32;
    fn possum_reader_end(r: P);
    fn possum_value_read_at(v: P, b: *mut Buf, off: u64) -> i32;
    fn possum_value_stat(v: P, s: *mut Stat);
    fn possum_reader_list_items(r: P, p: Buf, o: *mut *mut CItem, n: *mut usize) -> i32;
    fn possum_writer_commit(w: P) -> i32;
    fn possum_writer_stage(w: P, k: Buf, v: P) -> i32;
    fn possum_drop(h: P);
    fn possum_set_instance_limits(h: P, l: *const CLimits) -> i32;
    fn possum_cleanup_snapshots(h: P) -> i32;
    fn possum_single_write_buf(h: P, k: Buf, v: Buf) -> usize;
    fn possum_new_writer(h: P) -> P;
    fn possum_single_stat(h: P, k: Buf, s: *mut Stat) -> bool;
    fn possum_list_items(h: P, p: Buf, o: *mut *mut CItem, n: *mut usize) -> i32;
    fn possum_single_read_at(h: P, k: Buf, b: *mut Buf, off: u64) -> i32;
    fn possum_single_delete(h: P, k: Buf, s: *mut Stat) -> i32;
    fn possum_reader_new(h: P, r: *mut P) -> i32;
    fn possum_handle_move_prefix(h: P, f: Buf, t: Buf) -> i32;
    fn possum_handle_delete_prefix(h: P, p: Buf) -> i32;
}
const OK: i32 = 0;
const NO_SUCH_KEY: i32 = 1;
const NO_STAT: Stat = Stat { last_used: Stamp { secs: -7, nanos: 77 }, size: 0xdead };
const MARK: P = 0x5a5a5a as P;

trait Code {
    fn code(&self) -> i32;
}
impl Code for possum::Error {
    fn code(&self) -> i32 {
        match self {
            possum::Error::NoSuchKey => 1,
            possum::Error::Sqlite(_) => 2,
            possum::Error::Io(_) => 3,
            possum::Error::Anyhow(_) => 4,
            possum::Error::UnsupportedFilesystem => 5,
        }
    }
}
impl Code for rusqlite::Error {
    fn code(&self) -> i32 {
        2
    }
}
impl Code for std::io::Error {
    fn code(&self) -> i32 {
        3
    }
}
impl Code for anyhow::Error {
    fn code(&self) -> i32 {
        4
    }
}
fn code<T, E: Code>(r: &Result<T, E>) -> i32 {
    r.as_ref().map(|_| 0).unwrap_or_else(|e| e.code())
}
/// Buffers of nothing have a null pointer if asked for.
fn buf(b: &[u8], null_empty: bool) -> Buf {
    Buf { ptr: if b.is_empty() && null_empty { null() } else { b.as_ptr() as _ }, size: b.len() }
}
fn stat_of(v: &Value) -> Stat {
    Stat { last_used: stamp(&v.last_used()), size: v.length() }
}
fn stamp(t: &possum::Timestamp) -> Stamp {
    Stamp { secs: t.timestamp(), nanos: t.timestamp_subsec_nanos() }
}
/// Takes a C listing apart and frees it.
unsafe fn take_items(l: *mut CItem, n: usize) -> Vec<(Vec<u8>, Stat)> {
    let mut v = vec![];
    for k in 0..n {
        let i = &*l.add(k);
        let key = if i.key.size == 0 { vec![] } else { std::slice::from_raw_parts(i.key.ptr as *const u8, i.key.size).to_vec() };
        v.push((key, i.stat));
        libc::free(i.key.ptr as _);
    }
    libc::free(l as _);
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
fn native_items(v: Vec<NItem>, prefix: usize) -> Vec<(Vec<u8>, Stat)> {
    let mut v: Vec<_> = v.iter().map(|i| (i.0[prefix..].to_vec(), stat_of(&i.1))).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum COp {
    Write(Key, usize),
    Stat_(Key),
    List(Key),
    /// key, buffer size, offset
    ReadAt(Key, usize, u64),
    /// With or without a place for the status.
    Delete(Key, bool),
    DelPrefix(Key),
    MovePrefix(Key, Key),
    Limit(u64, bool),
    Cleanup,
    NewWriter,
    /// This many items, each a write of its own.
    Many(usize),
    /// Starts a value and writes this much through its descriptor.
    Value(usize),
    /// A value of this length whose middle is a hole.
    Big(u64),
    Stage(Key),
    /// Renames the n-th value of the reader.
    Rename(usize, Key),
    Commit,
    NewReader,
    Add(Key),
    RList(Key),
    VStat(usize),
    Begin,
    /// n-th value, buffer size, offset
    VRead(usize, usize, u64),
    End,
    /// Closes the handle whatever else is open, and opens another.
    Reopen,
    Tick,
    /// Others, with handles of their own, write or delete.
    OtherWrite(Key, usize),
    OtherDelete(Key),
    /// The table of keys vanishes.
    Break,
    /// The values files vanish.
    Lose,
}

type NItem = (Vec<u8>, Value);
enum NReader {
    Open(Box<dyn NR>, Vec<Value>),
    Begun(Vec<SnapshotValue<Value>>),
}
/// A native reader, whatever its transaction's type.
trait NR {
    fn add(&mut self, k: &[u8]) -> rusqlite::Result<Option<Value>>;
    fn list(&self, p: &[u8]) -> Result<Vec<NItem>, possum::Error>;
    fn begin(self: Box<Self>) -> anyhow::Result<possum::Snapshot>;
}
struct Wrap<R, F, G, H>(R, F, G, H);
impl<R, F, G, H> NR for Wrap<R, F, G, H>
where
    F: Fn(&mut R, &[u8]) -> rusqlite::Result<Option<Value>>,
    G: Fn(&R, &[u8]) -> Result<Vec<NItem>, possum::Error>,
    H: Fn(R) -> anyhow::Result<possum::Snapshot>,
{
    fn add(&mut self, k: &[u8]) -> rusqlite::Result<Option<Value>> {
        (self.1)(&mut self.0, k)
    }
    fn list(&self, p: &[u8]) -> Result<Vec<NItem>, possum::Error> {
        (self.2)(&self.0, p)
    }
    fn begin(self: Box<Self>) -> anyhow::Result<possum::Snapshot> {
        let s = *self;
        (s.3)(s.0)
    }
}
fn wrap<R: 'static>(
    r: R,
    add: impl Fn(&mut R, &[u8]) -> rusqlite::Result<Option<Value>> + 'static,
    list: impl Fn(&R, &[u8]) -> Result<Vec<NItem>, possum::Error> + 'static,
    begin: impl Fn(R) -> anyhow::Result<possum::Snapshot> + 'static,
) -> Box<dyn NR> {
    Box::new(Wrap(r, add, list, begin))
}

struct Twin {
    cd: PathBuf,
    nd: PathBuf,
    ch: P,
    nh: *mut Handle,
    /// Handles still needed by readers and writers.
    old: Vec<*mut Handle>,
    cw: P,
    nw: Option<BatchWriter<&'static Handle>>,
    cv: P,
    nv: Option<ValueWriter>,
    cr: P,
    cvals: Vec<P>,
    nr: Option<NReader>,
    id: u32,
    null_empty: bool,
    broken: bool,
    lost: bool,
    /// System calls may fail, on both sides alike.
    failing: bool,
}
impl Twin {
    fn new(d: &Path, null_empty: bool) -> Twin {
        let nd = d.to_owned();
        let cd = d.parent().unwrap().join("d2");
        let mut t = Twin {
            cd, nd, ch: null_mut(), nh: null_mut(), old: vec![], cw: null_mut(), nw: None, cv: null_mut(), nv: None, cr: null_mut(), cvals: vec![], nr: None, id: 0,
            null_empty, broken: false, lost: false, failing: false,
        };
        t.open();
        t
    }
    fn open(&mut self) {
        let p = CString::new(self.cd.to_str().unwrap()).unwrap();
        self.phase(1);
        self.ch = unsafe { possum_new(p.as_ptr()) };
        self.phase(2);
        let n = Handle::new(self.nd.clone());
        self.phase(0);
        match n {
            Ok(n) => {
                same!( !self.ch.is_null(), "possum_new returns null");
                self.nh = Box::into_raw(Box::new(n));
            }
            Err(e) => {
                same!( self.ch.is_null(), "possum_new returns a handle where Handle::new fails: {e}");
                sched::digest(99);
                sched::finish_ok();
            }
        }
    }
    fn n(&self) -> &'static mut Handle {
        unsafe { &mut *self.nh }
    }
    fn b(&self, k: &[u8]) -> Buf {
        buf(k, self.null_empty)
    }
    fn applicable(&self, op: &COp) -> bool {
        let reading = self.nr.is_some();
        // Within a reader's transaction everything else waits for it.
        let in_tx = matches!(self.nr, Some(NReader::Open(..)));
        let nvals = match &self.nr {
            Some(NReader::Open(_, v)) => v.len(),
            Some(NReader::Begun(v)) => v.len(),
            None => 0,
        };
        match op {
            Write(..) | Many(_) | List(_) | ReadAt(..) | Delete(..) | DelPrefix(_) | MovePrefix(..) | Limit(..) | Cleanup => !in_tx,
            // Known to abort on errors.
            Stat_(_) => !in_tx && !self.broken && !self.lost,
            NewWriter => self.nw.is_none(),
            Value(_) | Big(_) => self.nw.is_some() && self.nv.is_none(),
            Stage(_) => self.nv.is_some() && self.nw.is_some(),
            Commit => self.nw.is_some() && !in_tx,
            Rename(k, _) => self.nw.is_some() && *k < nvals,
            NewReader => !reading,
            Add(_) | RList(_) | Begin => in_tx,
            VStat(k) => *k < nvals,
            VRead(k, ..) => !in_tx && *k < nvals,
            End => reading,
            Reopen => !in_tx,
            Tick | OtherWrite(..) | OtherDelete(_) => true,
            Break => !self.broken && !in_tx,
            Lose => !self.lost,
        }
    }
    fn read_both(&self, what: &str, n: usize, c: impl FnOnce(*mut Buf) -> i32, nat: impl FnOnce(&mut [u8]) -> (i32, usize)) {
        let mut cb = vec![0xAAu8; n];
        let mut b = Buf { ptr: if n == 0 && self.null_empty { null() } else { cb.as_mut_ptr() as _ }, size: n };
        let p0 = b.ptr;
        let cc = c(&mut b);
        self.phase(2);
        let mut nb = vec![0xAAu8; n];
        let (nc, k) = nat(&mut nb);
        same!( cc == nc, "{what} returns {cc} instead of {nc}");
        same!( b.ptr == p0, "{what} changed the buffer's pointer");
        let want = if nc == OK { k } else { n };
        same!( b.size == want, "{what} leaves size {} instead of {want}", b.size);
        same!( cb == nb, "{what}: {}", diff(&cb, &nb));
    }
    fn list_both(&self, what: &str, p: &[u8], c: impl FnOnce(*mut *mut CItem, *mut usize) -> i32, nat: impl FnOnce() -> Result<Vec<NItem>, possum::Error>) {
        let (mut l, mut n) = (MARK as *mut CItem, 0x77usize);
        let cc = c(&mut l, &mut n);
        self.phase(2);
        let nat = nat();
        let nc = code(&nat);
        same!( cc == nc, "{what} returns {cc} instead of {nc}");
        match nat {
            Ok(v) => {
                let want = native_items(v, p.len());
                let got = unsafe { take_items(l, n) };
                same!( got == want, "{what} lists {got:?} instead of {want:?}");
            }
            Err(_) => same!( l as P == MARK && n == 0x77, "{what} failed and wrote its results"),
        }
    }
    fn phase(&self, n: u8) {
        if self.failing {
            let g = sched::g();
            g.fault_mask = if n == 0 { 0 } else { 0b111110 };
            if n == 0 {
                comparable();
            } else if n == 1 {
                g.fault_at = 0;
            }
            g.fault_pair = n;
            g.fault_seq = 0;
        }
    }
    fn apply(&mut self, op: COp) {
        if !matches!(op, Reopen | Tick | OtherWrite(..) | OtherDelete(_) | Break | Lose) {
            self.phase(1);
        }
        self.apply_(op);
        self.phase(0);
    }
    fn apply_(&mut self, op: COp) {
        ev!("==== op {:?}", op);
        sched::shared().ops += 1;
        let what = format!("{op:?}");
        let ch = self.ch;
        unsafe {
            match op {
                Write(k, n) => {
                    self.id += 1;
                    let v = vbytes(self.id, n);
                    let r = possum_single_write_buf(ch, self.b(k), self.b(&v));
                    self.phase(2);
                    let want = match self.n().single_write_from(k.to_vec(), &v[..]) {
                        Ok((n, _)) => n as usize,
                        Err(_) => usize::MAX,
                    };
                    same!( r == want, "{what} returns {r} instead of {want}");
                }
                Many(n) => {
                    for i in 0..n {
                        let k = format!("m{i:04}").into_bytes();
                        self.id += 1;
                        let v = vbytes(self.id, i % 4 * 50);
                        let r = possum_single_write_buf(ch, self.b(&k), self.b(&v));
                        let (w, _) = ok("single_write_from", self.n().single_write_from(k, &v[..]));
                        same!(r == w as usize, "{what} returns {r} instead of {w}");
                    }
                }
                Stat_(k) => {
                    let mut s = NO_STAT;
                    let r = possum_single_stat(ch, self.b(k), &mut s);
                    let v = ok("read_single", self.n().read_single(k));
                    same!( r == v.is_some(), "{what} returns {r}");
                    let want = v.map(|v| stat_of(&v)).unwrap_or(NO_STAT);
                    same!( s == want, "{what} gives {s:?} instead of {want:?}");
                }
                List(p) => {
                    let nat = || self.n().list_items(p).map(|v| v.into_iter().map(|i| (i.key, i.value)).collect());
                    self.list_both(&what, p, |l, n| possum_list_items(ch, self.b(p), l, n), nat)
                }
                ReadAt(k, n, off) => self.read_both(
                    &what,
                    n,
                    |b| possum_single_read_at(ch, self.b(k), b, off),
                    |b| match self.n().read_single(k) {
                        Ok(Some(v)) => match v.read_at(off, b) {
                            Ok(k) => (OK, k),
                            Err(e) => (e.code(), 0),
                        },
                        Ok(None) => (NO_SUCH_KEY, 0),
                        Err(e) => (e.code(), 0),
                    },
                ),
                Delete(k, with) => {
                    let mut s = NO_STAT;
                    let r = possum_single_delete(ch, self.b(k), if with { &mut s } else { null_mut() });
                    self.phase(2);
                    let (want, ws) = match self.n().single_delete(k) {
                        Ok(Some(v)) => {
                            (OK, Stat { last_used: Stamp { secs: v.last_used.secs, nanos: v.last_used.nanos }, size: v.size })
                        }
                        Ok(None) => (NO_SUCH_KEY, NO_STAT),
                        Err(e) => (e.code(), NO_STAT),
                    };
                    same!( r == want, "{what} returns {r} instead of {want}");
                    let ws = if with { ws } else { NO_STAT };
                    same!( s == ws, "{what} gives {s:?} instead of {ws:?}");
                }
                DelPrefix(p) => {
                    let r = possum_handle_delete_prefix(ch, self.b(p));
                    self.phase(2);
                    let want = code(&self.n().delete_prefix(p));
                    same!( r == want, "{what} returns {r} instead of {want}");
                }
                MovePrefix(a, b) => {
                    let r = possum_handle_move_prefix(ch, self.b(a), self.b(b));
                    self.phase(2);
                    let want = code(&self.n().move_prefix(a, b));
                    same!( r == want, "{what} returns {r} instead of {want}");
                }
                Limit(max, no_punch) => {
                    let r = possum_set_instance_limits(ch, &CLimits { max, no_punch });
                    self.phase(2);
                    let l = Limits { max_value_length_sum: if max == u64::MAX { None } else { Some(max) }, disable_hole_punching: no_punch };
                    let want = code(&self.n().set_instance_limits(l));
                    same!( r == want, "{what} returns {r} instead of {want}");
                }
                Cleanup => {
                    let r = possum_cleanup_snapshots(ch);
                    self.phase(2);
                    let want = code(&self.n().cleanup_snapshots());
                    same!( r == want, "{what} returns {r} instead of {want}");
                }
                NewWriter => {
                    self.cw = possum_new_writer(ch);
                    same!( !self.cw.is_null(), "{what} returns null");
                    self.nw = Some(ok("new_writer", self.n().new_writer()));
                }
                Value(n) => {
                    let mut v = MARK;
                    let r = possum_start_new_value(self.cw, &mut v);
                    self.phase(2);
                    let nat = self.nw.as_mut().unwrap().new_value().begin();
                    let want = code(&nat);
                    same!( r == want, "{what} returns {r} instead of {want}");
                    if let Ok(mut nv) = nat {
                        same!( v != MARK && !v.is_null(), "{what} gives no value");
                        self.id += 1;
                        let bytes = vbytes(self.id, n);
                        let fd = possum_value_writer_fd(v) as i32;
                        same!( libc::fcntl(fd, libc::F_GETFD) >= 0, "{what}: descriptor {fd} is not open");
                        // In two writes.
                        for part in [&bytes[..n / 2], &bytes[n / 2..]] {
                            let k = libc::write(fd, part.as_ptr() as _, part.len());
                            same!( k == part.len() as isize, "{what}: write returns {k}");
                        }
                        nv.write_all(&bytes).unwrap();
                        self.cv = v;
                        self.nv = Some(nv);
                    } else {
                        same!( v == MARK, "{what} failed and wrote its result");
                    }
                }
                Big(n) => {
                    let mut v = MARK;
                    let r = possum_start_new_value(self.cw, &mut v);
                    let mut nv = ok("begin", self.nw.as_mut().unwrap().new_value().begin());
                    same!( r == OK, "{what} returns {r}");
                    self.id += 1;
                    let bytes = vbytes(self.id, 5000);
                    let nf = std::os::fd::AsRawFd::as_raw_fd(&*ok("get_file", nv.get_file()));
                    for fd in [possum_value_writer_fd(v) as i32, nf] {
                        // The end of the file is where the value starts.
                        let at = quiet(|| libc::lseek64(fd, 0, libc::SEEK_END));
                        let k = libc::write(fd, bytes.as_ptr() as _, bytes.len());
                        same!( k == 5000, "{what}: write returns {k}");
                        quiet(|| libc::ftruncate64(fd, at + n as i64 - 5000));
                        let k = libc::write(fd, bytes.as_ptr() as _, bytes.len());
                        same!( k == 5000, "{what}: write returns {k}");
                    }
                    self.cv = v;
                    self.nv = Some(nv);
                }
                Stage(k) => {
                    let r = possum_writer_stage(self.cw, self.b(k), std::mem::replace(&mut self.cv, null_mut()));
                    self.phase(2);
                    let want = code(&self.nw.as_mut().unwrap().stage_write(k.to_vec(), self.nv.take().unwrap()));
                    same!( r == want, "{what} returns {r} instead of {want}");
                }
                Rename(i, k) => {
                    let r = possum_writer_rename(self.cw, self.cvals[i], self.b(k));
                    self.phase(2);
                    let v = match self.nr.as_ref().unwrap() {
                        NReader::Open(_, v) => v[i],
                        NReader::Begun(v) => *v[i],
                    };
                    self.nw.as_mut().unwrap().rename_value(v, k.to_vec());
                    same!( r == OK, "{what} returns {r}");
                }
                Commit => {
                    // An unfinished value goes with it.
                    self.forget_value();
                    let r = possum_writer_commit(std::mem::replace(&mut self.cw, null_mut()));
                    self.phase(2);
                    let want = code(&self.nw.take().unwrap().commit());
                    same!( r == want, "{what} returns {r} instead of {want}");
                }
                NewReader => {
                    let mut p = MARK;
                    let r = possum_reader_new(ch, &mut p);
                    self.phase(2);
                    let nat = self.n().read();
                    let want = code(&nat);
                    same!( r == want, "{what} returns {r} instead of {want}");
                    match nat {
                        Ok(n) => {
                            same!( p != MARK && !p.is_null(), "{what} gives no reader");
                            self.cr = p;
                            self.cvals.clear();
                            self.nr = Some(NReader::Open(wrap(n, |r, k| r.add(k), |r, p| Ok(r.list_items(p)?.into_iter().map(|i| (i.key, i.value)).collect()), |r| Ok(r.begin()?)), vec![]));
                        }
                        Err(_) => same!( p == MARK, "{what} failed and wrote its result"),
                    }
                }
                Add(k) => {
                    let mut v = MARK;
                    let r = possum_reader_add(self.cr, self.b(k), &mut v);
                    self.phase(2);
                    let Some(NReader::Open(n, vs)) = &mut self.nr else { unreachable!() };
                    let nat = n.add(k);
                    let want = match &nat {
                        Ok(Some(_)) => OK,
                        Ok(None) => NO_SUCH_KEY,
                        Err(e) => e.code(),
                    };
                    same!( r == want, "{what} returns {r} instead of {want}");
                    match nat {
                        Ok(Some(x)) => {
                            same!( v != MARK && !v.is_null(), "{what} gives no value");
                            vs.push(x);
                            self.cvals.push(v);
                        }
                        _ => same!( v == MARK, "{what} failed and wrote its result"),
                    }
                }
                RList(p) => {
                    let Some(NReader::Open(n, _)) = &self.nr else { unreachable!() };
                    let nat = || n.list(p);
                    let cr = self.cr;
                    self.list_both(&what, p, |l, n| possum_reader_list_items(cr, self.b(p), l, n), nat)
                }
                VStat(i) => {
                    let mut s = NO_STAT;
                    possum_value_stat(self.cvals[i], &mut s);
                    let want = match self.nr.as_ref().unwrap() {
                        NReader::Open(_, v) => stat_of(&v[i]),
                        NReader::Begun(v) => stat_of(&v[i]),
                    };
                    same!( s == want, "{what} gives {s:?} instead of {want:?}");
                }
                Begin => {
                    let r = possum_reader_begin(self.cr);
                    self.phase(2);
                    let Some(NReader::Open(n, vs)) = self.nr.take() else { unreachable!() };
                    let nat = n.begin();
                    let want = code(&nat);
                    same!( r == want, "{what} returns {r} instead of {want}");
                    match nat {
                        Ok(s) => self.nr = Some(NReader::Begun(vs.into_iter().map(|v| s.value(v)).collect())),
                        Err(_) => {
                            possum_reader_end(self.cr);
                            self.cr = null_mut();
                            self.cvals.clear();
                        }
                    }
                }
                VRead(i, n, off) => {
                    let Some(NReader::Begun(vs)) = &self.nr else { unreachable!() };
                    let v = &vs[i];
                    self.read_both(
                        &what,
                        n,
                        |b| possum_value_read_at(self.cvals[i], b, off),
                        |b| match v.read_at(off, b) {
                            Ok(k) => (OK, k),
                            Err(e) => (e.code(), 0),
                        },
                    )
                }
                End => {
                    possum_reader_end(std::mem::replace(&mut self.cr, null_mut()));
                    self.cvals.clear();
                    self.nr = None;
                }
                Reopen => {
                    possum_drop(ch);
                    // The native handle has to outlive what borrows it; the C one is counted.
                    if self.nw.is_some() || self.nr.is_some() {
                        self.old.push(self.nh);
                    } else {
                        drop(Box::from_raw(self.nh));
                    }
                    self.open();
                }
                Tick => sched::tick_ms(1234),
                OtherWrite(k, n) => {
                    self.id += 1;
                    let v = vbytes(self.id, n);
                    let (c, n) = self.others(|h| code(&h.single_write_from(k.to_vec(), &v[..])));
                    same!( c == n, "{what} meanwhile returns {c} on the C store, {n} on the native one");
                }
                OtherDelete(k) => {
                    let (c, n) = self.others(|h| match h.single_delete(k) {
                        Ok(Some(_)) => OK,
                        Ok(None) => NO_SUCH_KEY,
                        Err(e) => e.code(),
                    });
                    same!( c == n, "{what} meanwhile returns {c} on the C store, {n} on the native one");
                }
                Break => {
                    self.broken = true;
                    quiet(|| {
                        for d in [&self.cd, &self.nd] {
                            let c = rusqlite::Connection::open(d.join("manifest.db")).unwrap();
                            c.execute_batch("drop table keys").unwrap();
                        }
                    });
                }
                Lose => {
                    self.lost = true;
                    quiet(|| {
                        for d in [&self.cd, &self.nd] {
                            for e in std::fs::read_dir(d).unwrap() {
                                let p = e.unwrap().path();
                                if p.file_name().unwrap().to_string_lossy().starts_with("values-") {
                                    std::fs::remove_file(p).unwrap();
                                }
                            }
                        }
                    });
                }
            }
        }
    }
    /// The same with another handle on either store. Handles of one process share no lock, so this may be refused.
    fn others(&self, f: impl Fn(&Handle) -> i32) -> (i32, i32) {
        let go = |d: &Path| {
            let h = ok("new", Handle::new(d.to_owned()));
            let r = f(&h);
            drop(h);
            r
        };
        let r = (go(&self.cd), go(&self.nd));
        sched::settle_ms(30);
        r
    }
    fn forget_value(&mut self) {
        // There is no function to give up a value: it can only be staged. Stage it both ways.
        if self.nv.is_some() {
            self.apply(Stage(b"unfinished"));
        }
    }
    /// The stores hold the same.
    fn compare(&self) {
        if self.broken || matches!(self.nr, Some(NReader::Open(..))) {
            return;
        }
        quiet(|| {
            // Looking must not change the times of either.
            let look = |d: &Path| {
                let c = rusqlite::Connection::open(d.join("manifest.db")).unwrap();
                let mut s = c.prepare("select key, value_length, file_offset is null, last_used from keys order by key").unwrap();
                let v: Vec<(Vec<u8>, i64, bool, i64)> =
                    s.query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?, r.get(3)?))).unwrap().map(|r| r.unwrap()).collect();
                v
            };
            let (c, n) = (look(&self.cd), look(&self.nd));
            same!( c == n, "the store driven through C holds {c:?}, the native one {n:?}");
            if self.lost {
                return;
            }
            let bytes = |d: &Path| {
                let c = rusqlite::Connection::open(d.join("manifest.db")).unwrap();
                let mut s = c.prepare("select file_id, file_offset, value_length from keys where value_length > 0 order by key").unwrap();
                let v: Vec<Option<Vec<u8>>> = s
                    .query_map([], |r| {
                        let (f, o, l): (u32, u64, u64) = (r.get(0)?, r.get(1)?, r.get(2)?);
                        // The middle of giants is a hole.
                        let p = d.join(format!("values-{f:08x}"));
                        let n = l.min(1 << 20);
                        Ok((|| Some([raw_read(&p, o, n as usize)?, raw_read(&p, o + l - n, n as usize)?].concat()))())
                    })
                    .unwrap()
                    .map(|r| r.unwrap())
                    .collect();
                v
            };
            let (c, n) = (bytes(&self.cd), bytes(&self.nd));
            same!( c == n, "the values of the store driven through C differ from the native ones'");
            same!( c.iter().all(|v| v.is_some()), "values are missing");
        })
    }
    fn close(mut self, order: usize) {
        // Whatever is open, in several orders.
        let mut what = [0, 1, 2];
        what.rotate_left(order % 3);
        if order >= 3 {
            what.reverse();
        }
        let in_tx = matches!(self.nr, Some(NReader::Open(..)));
        if in_tx && what.iter().position(|&x| x == 1) < what.iter().position(|&x| x == 2) {
            // Committing would wait for the reader.
            what = [2, 1, 0];
        }
        for w in what {
            match w {
                0 => unsafe { possum_drop(std::mem::replace(&mut self.ch, null_mut())) },
                1 if self.nw.is_some() => self.apply(Commit),
                2 if self.nr.is_some() => self.apply(End),
                _ => {}
            }
        }
        self.compare();
        drop(unsafe { Box::from_raw(self.nh) });
        for h in self.old.drain(..) {
            drop(unsafe { Box::from_raw(h) });
        }
    }
}

fn capi(name: &str, mode: Mode, setup: Vec<COp>, ops: Vec<COp>, depth: usize, null_empty: bool, orders: usize) -> Scenario {
    capi_(name, mode, setup, ops, depth, null_empty, orders, 0)
}
fn capi_(name: &str, mode: Mode, setup: Vec<COp>, ops: Vec<COp>, depth: usize, null_empty: bool, orders: usize, faults: u32) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let mut t = Twin::new(d, null_empty);
        for &op in &setup {
            t.apply(op);
            t.apply(Tick);
        }
        for _ in 0..depth {
            let av: Vec<COp> = ops.iter().filter(|o| t.applicable(o)).cloned().collect();
            if av.is_empty() {
                break;
            }
            let op = av[data(av.len())];
            sched::tick_ms(1003);
            t.failing = faults > 0;
            t.apply(op);
            t.failing = false;
            t.compare();
            sched::settle_ms(30);
        }
        let order = if orders > 1 && t.nw.is_some() && t.nr.is_some() { data(orders) } else if orders > 1 && (t.nw.is_some() || t.nr.is_some()) { data(2) * 3 } else { 0 };
        let (nd, cd) = (t.nd.clone(), t.cd.clone());
        let usable = !t.broken && !t.lost;
        t.close(order);
        sched::settle_ms(1500);
        if usable {
            // Everything reads back natively from the store that C wrote.
            quiet(|| {
                let a = unsafe { Box::from_raw(crate::world::open(&cd)) };
                let b = unsafe { Box::from_raw(crate::world::open(&nd)) };
                let ka = ok("list_items", a.list_items(b""));
                for i in &ka {
                    let x = ok("read_single", a.read_single(&i.key)).unwrap();
                    let Some(y) = ok("read_single", b.read_single(&i.key)) else { fail!("C21", "the native store lacks {}", esc(&i.key)) };
                    let part = |b: &[u8]| [&b[..b.len().min(1 << 20)], &b[b.len() - b.len().min(1 << 20)..]].concat();
                    same!( x.length() == y.length(), "length of {} at the end: {} instead of {}", esc(&i.key), x.length(), y.length());
                    let (x, y) = (ok("view", x.view(part)), ok("view", y.view(part)));
                    same!( x == y, "value of {} at the end: {}", esc(&i.key), diff(&x, &y));
                }
                sched::digest(ka.len() as u64);
                for i in &ka {
                    sched::digest(hash(&i.key) ^ i.value.length());
                }
            });
        }
    })
    .preempt(0)
    .faults(faults)
    .strict()
}
/// Directories that cannot be opened.
fn c21_open() -> Scenario {
    Scenario::new("open/seg", Mode::Seg, move |d| {
        let k = data(4);
        let d2 = d.parent().unwrap().join("d2");
        quiet(|| {
            for p in [d, &d2] {
                let _ = std::fs::remove_dir_all(p);
                match k {
                    0 => {}
                    1 => std::fs::write(p, b"a file").unwrap(),
                    2 => {
                        std::fs::create_dir(p).unwrap();
                        std::fs::create_dir(p.join("manifest.db")).unwrap();
                    }
                    _ => {
                        std::fs::create_dir(p).unwrap();
                        std::fs::write(p.join("manifest.db"), vec![7u8; 5000]).unwrap();
                    }
                }
            }
        });
        let t = Twin::new(d, true);
        t.compare();
        t.close(0);
    })
    .preempt(0)
}

pub fn c21(t: Tier) -> Vec<Scenario> {
    const E: Key = b"";
    const A: Key = b"a";
    const AB: Key = b"ab";
    const B: Key = b"b";
    const BIN: Key = b"\0\xff";
    let mut scs = vec![c21_open()];
    for mode in ALL_MODES {
        let all = mode == Mode::Seg || t == Tier::Thorough;
        let singles = vec![
            Write(A, 0), Write(A, 10), Write(AB, 5000), Write(E, 7), Write(BIN, 1), Stat_(A), Stat_(E), Stat_(AB), List(E), List(A), List(AB), List(b"zz"),
            ReadAt(A, 4, 3), ReadAt(A, 1, 3), ReadAt(A, 100, 8), ReadAt(AB, 0, 0), ReadAt(AB, 5000, 0), ReadAt(AB, 100, 4950), ReadAt(AB, 10, u64::MAX), ReadAt(E, 5, 0), Delete(A, true),
            Delete(A, false), Delete(E, true), Delete(B, true), DelPrefix(A), DelPrefix(E), MovePrefix(A, B), MovePrefix(E, A), MovePrefix(AB, A), Limit(20, false), Limit(u64::MAX, false),
            Limit(0, true), Limit(u64::MAX, true), Cleanup, Reopen, Break, Lose,
        ];
        scs.push(capi("single", mode, vec![Write(A, 10), Write(AB, 6000)], singles.clone(), if all { t.pick(2, 3) } else { 1 }, true, 1));
        scs.push(capi("single-empty", mode, vec![], singles.clone(), t.pick(2, 2), false, 1));
        let reader = vec![
            NewReader, Add(A), Add(AB), Add(B), RList(E), RList(A), VStat(0), VStat(1), Begin, VRead(0, 100, 0), VRead(1, 100, 4950), VRead(0, 0, 5), End, Write(A, 20), Delete(AB, true),
            Reopen,
        ];
        scs.push(capi("reader", mode, vec![Write(A, 10), Write(AB, 5000)], reader, if all { t.pick(4, 5) } else { 3 }, true, 6));
        let begun = vec![
            VRead(0, 100, 0), VRead(0, 5, 8), VRead(0, 1, 9), VRead(1, 100, 4950), VRead(1, 5000, 0), VStat(1), End, Write(A, 20), Delete(AB, true), DelPrefix(E), Cleanup, Reopen, Rename(0, B), Rename(1, A),
            NewWriter, Commit, Limit(0, false), Lose, Break,
        ];
        let others = vec![Add(A), Add(AB), RList(E), Begin, VRead(0, 100, 0), VRead(1, 100, 4950), End, OtherWrite(A, 20), OtherDelete(AB), OtherDelete(A)];
        scs.push(capi("others", mode, vec![Write(A, 10), Write(AB, 5000), NewReader], others, if all { t.pick(4, 5) } else { 3 }, true, 1));
        scs.push(capi("begun", mode, vec![Write(A, 10), Write(AB, 5000), NewReader, Add(A), Add(AB), Begin], begun, if all { t.pick(3, 4) } else { 2 }, true, 6));
        let writer = vec![NewWriter, Value(0), Value(10), Value(5001), Stage(A), Stage(E), Stage(B), Commit, Write(A, 20), Delete(A, true), Reopen, NewReader, Add(A), Begin, Rename(0, B), End, Break];
        scs.push(capi("writer", mode, vec![Write(A, 10), NewWriter], writer, if all { t.pick(4, 5) } else { 3 }, true, 6));
        // Sizes and offsets beyond 4 GiB.
        const G: u64 = 1 << 32;
        let big = vec![
            Stat_(A), List(E), List(A), ReadAt(A, 100, G - 50), ReadAt(A, 100, G + 5), ReadAt(A, 5000, G + 10), ReadAt(B, 100, 0), Delete(A, true), Limit(G, false), Limit(G + 5020, false), NewReader, Add(A),
            RList(E), VStat(0), Begin, VRead(0, 100, G - 50), VRead(0, 6000, 3), End,
        ];
        scs.push(capi("big", mode, vec![Write(AB, 5000), NewWriter, Big(G + 20), Stage(A), Value(300), Stage(B), Commit], big, if all { t.pick(3, 4) } else { 2 }, true, 1));
        // Many items, large values and long keys.
        let long: Key = &[b'l'; 70_000];
        let mid: Key = &[b'm'; 256];
        let items = vec![
            List(E), List(b"m01"), List(b"l"), DelPrefix(b"m01"), MovePrefix(b"m", b"n"), DelPrefix(E), Limit(5000, false), NewReader, RList(E), RList(b"m02"), Add(b"m0007"), Add(long), Begin, VRead(0, 70_000, 0), End,
            Write(A, (1 << 20) + 1), Write(long, 65536), Write(mid, 65537), ReadAt(A, 1 << 20, 0), ReadAt(A, 65537, 65536), ReadAt(A, 2 << 20, 1), ReadAt(long, 65536, 0), Stat_(long), Delete(long, true), Delete(mid, true), MovePrefix(mid, long),
        ];
        scs.push(capi("items", mode, vec![Many(300), Write(A, 1 << 20), Write(long, 10)], items, if all { t.pick(2, 3) } else { 1 }, true, 1));
        // A reader of many values.
        let mut setup = vec![Write(A, 10), Write(AB, 5000), NewReader];
        setup.extend([Add(A), Add(AB)].repeat(20));
        let many = vec![VStat(0), VStat(15), VStat(39), Begin, VRead(0, 100, 0), VRead(17, 100, 4950), VRead(39, 100, 4950), Add(A), End];
        scs.push(capi("many", mode, setup, many, 3, true, 1));
        // Failing system calls.
        let failing = vec![
            Write(A, 10), Write(AB, 5000), List(E), ReadAt(A, 4, 3), ReadAt(AB, 100, 4950), Delete(A, true), Delete(B, true), DelPrefix(A), MovePrefix(A, B), Limit(20, false), Cleanup, Reopen,
        ];
        scs.push(capi_("failing", mode, vec![Write(A, 10), Write(AB, 6000)], failing, if all { t.pick(1, 2) } else { 1 }, true, 1, 1));
        let failing = vec![Add(A), RList(E), Begin, VRead(0, 100, 0), VRead(0, 5, 8), End];
        scs.push(capi_("failing-reader", mode, vec![Write(A, 10), Write(AB, 5000), NewReader], failing, if all { t.pick(3, 4) } else { 3 }, true, 1, 1));
        let failing = vec![NewReader, End];
        scs.push(capi_("failing-new", mode, vec![Write(A, 10)], failing, 2, true, 1, 1));
        let failing = vec![Value(10), Stage(A), Stage(E), Commit, NewWriter];
        scs.push(capi_("failing-writer", mode, vec![Write(A, 10), NewWriter], failing, if all { t.pick(3, 4) } else { 3 }, true, 1, 1));
    }
    scs
}
