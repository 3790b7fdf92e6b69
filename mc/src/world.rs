//! The real store next to a boring reference model, driven by a sequence of operations, with the oracles
//! of the sequential properties.
use crate::rt::sched::{self, quiet};
use crate::util::*;
use crate::{ev, fail, must};
use positioned_io::ReadAt;
use possum::{BatchWriter, Handle, Limits, ReadTransaction, SnapshotValue, Value, ValueLocation};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};

pub type Key = &'static [u8];
/// (values file name, offset, length)
pub type Loc = (String, u64, u64);

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub id: u32,
    pub len: usize,
    /// milliseconds
    pub used: i64,
    pub loc: Option<Loc>,
}
impl Ent {
    pub fn bytes(&self) -> Vec<u8> {
        vbytes(self.id, self.len)
    }
}
pub type Map = BTreeMap<Vec<u8>, Ent>;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// Write through single_write_from.
    Put(Key, usize),
    /// Write through a batch of one value written in several pieces.
    PutPieces(Key, usize),
    /// Write a whole file in through clone_from_file.
    PutFile(Key, usize),
    Del(Key),
    /// Deletes every key of a prefix, each in its own transaction.
    DelEach(Key),
    /// Like Snap, of some keys in one session.
    SnapN(&'static [Key]),
    Get(Key),
    /// Read session that is dropped without begin.
    GetDropped(Key),
    List(Key),
    DelPrefix(Key),
    MovePrefix(Key, Key),
    Rename(Key, Key),
    /// Several values in one batch.
    Batch(&'static [(Key, usize)]),
    /// A batch that stages values and is dropped.
    BatchDropped(&'static [(Key, usize)]),
    /// Stage into the batch kept open across operations.
    Stage(Key, usize),
    /// Begin a value in the open batch, write some of it, drop the value writer.
    PartialValue(usize),
    /// Begin a value in the open batch, write it and keep the value writer.
    Begin(usize),
    /// Write more to the value begun.
    More(usize),
    /// Stage the value begun.
    StageBegun(Key),
    DropBegun,
    Commit,
    Abort,
    /// Remember the value of a key for a later rename within a batch.
    Peek(Key),
    /// Rename the remembered value in the open batch.
    StageRename(Key),
    /// Peek and rename in a batch of its own.
    BatchRename(Key, Key),
    /// Keep a snapshot of every key.
    Snap,
    DropSnap,
    /// Drops the oldest value held of those in a snapshot.
    DropOne,
    ReadSnaps,
    Reopen,
    /// Open a second handle and use it from now on, or switch to the other handle.
    Second,
    CloseCur,
    Settle(u64),
    Tick(u64),
    /// The time of day changes by this many seconds.
    Leap(i64),
    /// Writes this many values at once, each in a file of its own, of growing length.
    Spread(Key, usize),
    Limit(u64),
    NoLimit,
    NoPunch,
    Cleanup,
    /// Leave what a crashed process may leave in the directory, and foreign files.
    Stale,
    /// Close everything, mark the manifest as written by an older format version, open again.
    OldVersion,
    Nop,
}
use Op::*;

pub struct Snap {
    pub what: String,
    pub v: SnapshotValue<Value>,
    pub want: Vec<u8>,
    /// The values file it lies in.
    pub file: Option<String>,
}
struct Begun {
    v: possum::ValueWriter,
    id: u32,
    len: usize,
    /// The batch it was begun in is still open.
    open: bool,
}
enum StagedOp {
    Write(Vec<u8>, u32, usize),
    Rename { loc: Option<Loc>, to: Vec<u8> },
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Dead {
    pub loc: Loc,
    /// The live value to the right when it died.
    pub right: Option<Loc>,
}

#[derive(Clone)]
pub struct Opts {
    /// After every operation read all keys through the store (touches them).
    pub read_all: bool,
    /// Compare last-used times after every operation.
    pub times: bool,
    /// Raw bytes of reachable values.
    pub raw: bool,
    pub storage: bool,
    /// Read every snapshot by every means after every operation.
    pub snaps: bool,
    pub reclaim: bool,
    /// Close at once at the end; once the puncher of every handle reports to be done, so it must be.
    pub hasty: bool,
    /// Milliseconds of virtual time before every operation.
    pub tick: u64,
    /// After every operation compare the listings of these prefixes.
    pub prefixes: &'static [Key],
    /// Compare the snapshot directories on disk with the live snapshots after a cleanup.
    pub snapdirs: bool,
    /// Random names of all threads come from one sequence each starting at the same point.
    pub collide: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { read_all: false, times: false, raw: false, storage: false, snaps: true, reclaim: false, hasty: false, tick: 0, prefixes: &[], snapdirs: false, collide: false }
    }
}

pub struct World {
    pub dir: PathBuf,
    pub hs: Vec<Option<*mut Handle>>,
    /// Limit of each open handle.
    pub limits: Vec<Option<u64>>,
    pub punching: Vec<bool>,
    pub cur: usize,
    pub m: Map,
    pub next_id: u32,
    pub snaps: Vec<Snap>,
    batch: Option<(usize, BatchWriter<&'static Handle>)>,
    begun: Option<Begun>,
    staged: Vec<StagedOp>,
    staged_disk: Vec<(Loc, u64)>,
    peeked: Option<Value>,
    disk: BTreeMap<Loc, u64>,
    pub dead: BTreeSet<Dead>,
    /// Extents that died while hole punching was off.
    pub never: BTreeMap<Loc, u64>,
    waits: Vec<Box<dyn FnOnce()>>,
    pub o: Opts,
    pub known_keys: BTreeSet<Vec<u8>>,
    stale: bool,
}

pub fn now_ms() -> i64 {
    (sched::wall_ns() / 1_000_000) as i64
}
pub fn loc_of(v: &Value) -> Option<Loc> {
    match v.location {
        ValueLocation::ZeroLength => None,
        ValueLocation::Nonzero(n) => Some((n.file_id.values_file_path().to_string_lossy().into_owned(), n.file_offset, n.length)),
    }
}
pub fn used_of(v: &Value) -> i64 {
    v.last_used().timestamp_millis()
}
/// Whether time `a` that the store reports is the expected `b`.
fn same_time(a: i64, b: i64) -> bool {
    // SQLite computes the stored time in floating point, which may round a millisecond down.
    a == b || a == ((b as f64 / 1000.0) * 1e3) as i64
}

/// Reads a snapshot value by all means and compares.
pub fn check_snap_value(tags: &[&str], what: &str, v: &SnapshotValue<Value>, want: &[u8]) {
    let r = v.view(|b| b.to_vec());
    match r {
        Err(e) => fail_any(tags, format!("{what}: view failed: {e:?}")),
        Ok(b) => must_any(tags, b == want, || format!("{what}: view: {}", diff(&b, want))),
    }
    let mut b = vec![];
    match v.new_reader().read_to_end(&mut b) {
        Err(e) => fail_any(tags, format!("{what}: reader failed: {e:?}")),
        Ok(_) => must_any(tags, b == want, || format!("{what}: sequential reader: {}", diff(&b, want))),
    }
    let mut b = vec![0u8; want.len() + 7];
    match v.read_at(0, &mut b) {
        Err(e) => fail_any(tags, format!("{what}: read_at failed: {e:?}")),
        Ok(n) => must_any(tags, b[..n] == *want, || format!("{what}: read_at: {}", diff(&b[..n], want))),
    }
    let mut b = vec![0u8; want.len() + 7];
    match v.read(&mut b) {
        Err(e) => fail_any(tags, format!("{what}: read failed: {e:?}")),
        Ok(n) => must_any(tags, b[..n] == *want, || format!("{what}: read: {}", diff(&b[..n], want))),
    }
}
pub fn fail_any(tags: &[&str], m: String) -> ! {
    let t = tags.iter().find(|t| enabled(t)).unwrap_or(&tags[0]);
    fail(t, m)
}
pub fn must_any(tags: &[&str], c: bool, m: impl FnOnce() -> String) {
    if !c {
        fail_any(tags, m())
    }
}

pub fn open(dir: &Path) -> *mut Handle {
    Box::into_raw(Box::new(ok("Handle::new", Handle::new(dir.to_owned()))))
}

impl World {
    pub fn new(dir: &Path, o: Opts) -> World {
        let mut w = World {
            dir: dir.to_owned(),
            hs: vec![],
            limits: vec![],
            punching: vec![],
            cur: 0,
            m: Map::new(),
            next_id: 1,
            snaps: vec![],
            batch: None,
            begun: None,
            staged: vec![],
            staged_disk: vec![],
            peeked: None,
            disk: BTreeMap::new(),
            dead: BTreeSet::new(),
            never: BTreeMap::new(),
            waits: vec![],
            o,
            known_keys: BTreeSet::new(),
            stale: false,
        };
        sched::g().rand_collide = w.o.collide;
        w.open_handle();
        w
    }
    pub fn open_handle(&mut self) -> usize {
        self.hs.push(Some(open(&self.dir)));
        self.limits.push(None);
        self.punching.push(true);
        self.cur = self.hs.len() - 1;
        self.cur
    }
    pub fn h(&self) -> &'static Handle {
        unsafe { &*self.hs[self.cur].unwrap() }
    }
    fn hmut(&self) -> &'static mut Handle {
        unsafe { &mut *self.hs[self.cur].unwrap() }
    }
    pub fn close(&mut self, i: usize) {
        if self.batch.as_ref().is_some_and(|b| b.0 == i) {
            self.drop_batch();
        }
        if let Some(p) = self.hs[i].take() {
            let d = unsafe { &*p }.get_value_puncher_done();
            self.waits.push(Box::new(move || d.wait()));
            drop(unsafe { Box::from_raw(p) });
        }
    }
    fn drop_batch(&mut self) {
        self.batch = None;
        self.begun.iter_mut().for_each(|b| b.open = false);
        self.staged.clear();
        self.staged_disk.clear();
    }
    fn fresh(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id - 1
    }
    fn set(&mut self, k: &[u8], id: u32, len: usize) {
        self.m.insert(k.to_vec(), Ent { id, len, used: now_ms(), loc: None });
    }
    fn touch(&mut self, k: &[u8]) {
        if let Some(e) = self.m.get_mut(k) {
            e.used = now_ms();
        }
    }
    fn open_batch(&mut self) -> &mut BatchWriter<&'static Handle> {
        if self.batch.is_none() {
            self.batch = Some((self.cur, ok("new_writer", self.h().new_writer())));
        }
        &mut self.batch.as_mut().unwrap().1
    }
    /// Whether an operation makes sense now (others are skipped, so that no sequence is explored twice).
    pub fn applicable(&self, op: &Op) -> bool {
        match op {
            Commit | Abort => self.batch.is_some(),
            Begin(_) => self.begun.is_none(),
            More(_) | StageBegun(_) => self.begun.as_ref().is_some_and(|b| b.open),
            DropBegun => self.begun.is_some(),
            StageRename(_) => self.peeked.is_some(),
            Peek(k) => self.m.contains_key(*k),
            DropSnap | DropOne | ReadSnaps => !self.snaps.is_empty(),
            CloseCur => self.hs.iter().flatten().count() > 1,
            BatchRename(a, _) => self.m.contains_key(*a),
            OldVersion => self.snaps.is_empty(),
            Stale => !self.stale,
            _ => true,
        }
    }

    pub fn apply(&mut self, op: &Op) {
        if self.o.collide {
            // Every thread draws the same random names, so use one thread per operation.
            struct P(*mut World);
            unsafe impl Send for P {}
            let p = P(self);
            let op = op.clone();
            let t = std::thread::spawn(move || {
                let p = p;
                unsafe { &mut *p.0 }.apply_here(&op)
            });
            t.join().unwrap();
        } else {
            self.apply_here(op)
        }
    }
    fn apply_here(&mut self, op: &Op) {
        ev!("==== op {:?}", op);
        if self.o.tick > 0 {
            sched::tick_ms(self.o.tick);
        }
        sched::shared().ops += 1;
        let h = self.h();
        // tags of content deviations seen after this operation, and whether the operation commits
        let mut tags: Vec<&str> = vec!["C01"];
        let mut commits = false;
        match *op {
            Put(k, n) => {
                let id = self.fresh();
                let (w, c) = ok("single_write_from", h.single_write_from(k.to_vec(), &vbytes(id, n)[..]));
                must!("C01", w == n as u64, "write of {n} bytes reports {w}");
                must!("C01", c.count() == 1, "write of one value reports {} values", c.count());
                self.set(k, id, n);
                commits = true;
            }
            PutPieces(k, n) => {
                let id = self.fresh();
                let b = vbytes(id, n);
                let mut bw = ok("new_writer", h.new_writer());
                let mut v = ok("begin", bw.new_value().begin());
                let (x, y) = (n / 3, n / 3 + n / 2);
                ok("write", v.write_all(&b[..x]));
                let c = ok("copy_from", v.copy_from(Dribble(&b[x..y], 0)));
                must!("C01", c == (y - x) as u64, "copy_from of {} bytes reports {c}", y - x);
                ok("write", v.write_all(&b[y..]));
                let l = ok("value_length", v.value_length());
                must!("C01", l == n as u64, "value_length {l} after writing {n} bytes");
                ok("stage_write", bw.stage_write(k.to_vec(), v));
                ok("commit", bw.commit());
                self.set(k, id, n);
                commits = true;
            }
            PutFile(k, n) => {
                tags.push("C15");
                let id = self.fresh();
                let p = self.dir.parent().unwrap().join(format!("src-{id}"));
                let mut f = quiet(|| {
                    std::fs::write(&p, vbytes(id, n)).unwrap();
                    std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap()
                });
                let r = ok("clone_from_file", self.hmut().clone_from_file(k.to_vec(), &mut f));
                must!("C15", r == n as u64, "clone_from_file of {n} bytes reports {r}");
                quiet(|| {
                    // Later changes to the source must not show.
                    use std::os::unix::fs::FileExt;
                    f.write_all_at(&vec![0x55; n + 10], 0).unwrap();
                    drop(f);
                    std::fs::remove_file(&p).unwrap();
                });
                self.set(k, id, n);
                commits = true;
            }
            Del(k) => {
                let want = self.m.get(k).cloned();
                let r = ok("single_delete", h.single_delete(k));
                match (&r, &want) {
                    (Some(s), Some(e)) => {
                        must!("C01", s.size == e.len as u64, "deleting {} reports size {}, it has {}", esc(k), s.size, e.len);
                        let t = s.last_used.secs * 1000 + s.last_used.nanos as i64 / 1_000_000;
                        if self.o.times {
                            must!("C07", same_time(t, e.used), "deleting {} reports last used {t}, expected {}", esc(k), e.used);
                        }
                    }
                    (None, None) => {}
                    _ => fail!("C01", "delete of {} reports {}, expected {}", esc(k), r.is_some(), want.is_some()),
                }
                self.m.remove(k);
                commits = want.is_some();
            }
            DelEach(p) => {
                for k in self.m.keys().filter(|k| k.starts_with(p)).cloned().collect::<Vec<_>>() {
                    let r = ok("single_delete", h.single_delete(&k));
                    must!("C01", r.is_some(), "{} is absent", esc(&k));
                    self.m.remove(&k);
                }
                commits = true;
            }
            Get(k) => {
                self.get(k);
                commits = self.m.contains_key(k);
            }
            GetDropped(k) => {
                let mut r = ok("read", h.read());
                let v = ok("add", r.add(k));
                must!("C01", v.is_some() == self.m.contains_key(k), "read session finds {}: {}", esc(k), v.is_some());
                drop(r);
            }
            List(p) => {
                let l = ok("list_items", h.list_items(p));
                let got: BTreeMap<Vec<u8>, u64> = l.iter().map(|i| (i.key.clone(), i.value.length())).collect();
                let want: BTreeMap<Vec<u8>, u64> = self.m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, e)| (k.clone(), e.len as u64)).collect();
                must!("C08", got == want && l.len() == want.len(), "listing prefix {} gives {}, expected {}", esc(p), show(&got), show(&want));
            }
            DelPrefix(p) => {
                tags = vec!["C08"];
                ok("delete_prefix", h.delete_prefix(p));
                self.m.retain(|k, _| !k.starts_with(p));
                commits = true;
            }
            MovePrefix(a, b) => {
                tags = vec!["C08"];
                let sel: Vec<Vec<u8>> = self.m.keys().filter(|k| k.starts_with(a)).cloned().collect();
                let to: Vec<Vec<u8>> = sel.iter().map(|k| [b, &k[a.len()..]].concat()).collect();
                let foreign = to.iter().any(|t| self.m.contains_key(t) && !sel.contains(t));
                let overlap = a != b && to.iter().any(|t| sel.contains(t));
                let r = h.move_prefix(a, b);
                ev!("move_prefix -> {:?}", r.as_ref().map_err(|e| trim(&format!("{e:?}"))));
                match r {
                    Ok(()) => {
                        self.check_sum();
                        must!("C08", !foreign, "moving prefix {} to {} onto taken keys succeeded", esc(a), esc(b));
                        let moved: Vec<(Vec<u8>, Ent)> = sel.iter().zip(to).map(|(k, t)| (t, self.m.remove(k).unwrap())).collect();
                        self.m.extend(moved);
                        commits = true;
                    }
                    Err(e) => must!("C08", foreign || overlap, "moving prefix {} to {} failed: {}", esc(a), esc(b), trim(&format!("{e:?}"))),
                }
            }
            Rename(a, b) => {
                tags = vec!["C09"];
                let r = self.hmut().rename_item(a, b);
                ev!("rename_item -> {:?}", r.as_ref().map_err(|e| trim(&format!("{e:?}"))));
                match self.m.get(a).cloned() {
                    None => must!("C09", matches!(r, Err(possum::Error::NoSuchKey)), "renaming absent {} gives {:?}", esc(a), r.map_err(|e| trim(&format!("{e:?}")))),
                    Some(e) if a != b && self.m.contains_key(b) => {
                        let _ = e;
                        if r.is_ok() {
                            self.check_sum();
                        }
                        must!("C09", r.is_err(), "renaming {} onto taken {} succeeded", esc(a), esc(b))
                    }
                    Some(e) => match r {
                        Err(x) => fail!("C09", "renaming {} to free {} failed: {}", esc(a), esc(b), trim(&format!("{x:?}"))),
                        Ok(t) => {
                            if self.o.times {
                                must_any(&["C07", "C09"], same_time(t.timestamp_millis(), e.used), || format!("renaming reports last used {}, expected {}", t.timestamp_millis(), e.used));
                            }
                            self.m.remove(a);
                            self.m.insert(b.to_vec(), e);
                            commits = true;
                        }
                    },
                }
            }
            Batch(vs) => {
                tags.push("C02");
                let mut bw = ok("new_writer", h.new_writer());
                let mut done = vec![];
                for &(k, n) in vs {
                    let id = self.fresh();
                    let mut v = ok("begin", bw.new_value().begin());
                    ok("write", v.write_all(&vbytes(id, n)));
                    ok("stage_write", bw.stage_write(k.to_vec(), v));
                    done.push((k, id, n));
                }
                let c = ok("commit", bw.commit());
                must!("C01", c.count() == vs.len(), "batch of {} reports {}", vs.len(), c.count());
                for (k, id, n) in done {
                    self.set(k, id, n);
                }
                commits = true;
            }
            BatchDropped(vs) => {
                tags.push("C02");
                let mut bw = ok("new_writer", h.new_writer());
                for &(k, n) in vs {
                    let id = self.fresh();
                    let mut v = ok("begin", bw.new_value().begin());
                    ok("write", v.write_all(&vbytes(id, n)));
                    ok("stage_write", bw.stage_write(k.to_vec(), v));
                }
                drop(bw);
            }
            Stage(k, n) => {
                tags.push("C02");
                let id = self.fresh();
                let bw = self.open_batch();
                let mut v = ok("begin", bw.new_value().begin());
                ok("write", v.write_all(&vbytes(id, n)));
                ok("stage_write", bw.stage_write(k.to_vec(), v));
                self.staged.push(StagedOp::Write(k.to_vec(), id, n));
                if self.o.raw && n > 0 {
                    if let Some(l) = self.find_raw(&vbytes(id, n)) {
                        let hh = hash(&vbytes(id, n));
                        self.staged_disk.push((l, hh));
                    }
                }
            }
            PartialValue(n) => {
                let id = self.fresh();
                let bw = self.open_batch();
                let mut v = ok("begin", bw.new_value().begin());
                ok("write", v.write_all(&vbytes(id, n)));
                drop(v);
            }
            Begin(n) => {
                tags.push("C02");
                let id = self.fresh();
                let bw = self.open_batch();
                let mut v = ok("begin", bw.new_value().begin());
                ok("write", v.write_all(&vbytes(id, n)));
                self.begun = Some(Begun { v, id, len: n, open: true });
            }
            More(n) => {
                let b = self.begun.as_mut().unwrap();
                let all = vbytes(b.id, b.len + n);
                let r = ok("copy_from", b.v.copy_from(Dribble(&all[b.len..], 0)));
                must!("C01", r == n as u64, "copying {n} bytes into a value reports {r}");
                b.len += n;
                let l = ok("value_length", b.v.value_length());
                must!("C01", l == b.len as u64, "value_length {l} after {} bytes", b.len);
            }
            StageBegun(k) => {
                tags.push("C02");
                let b = self.begun.take().unwrap();
                let loc = if self.o.raw { self.find_raw(&vbytes(b.id, b.len)) } else { None };
                let bw = self.open_batch();
                ok("stage_write", bw.stage_write(k.to_vec(), b.v));
                self.staged_disk.extend(loc.map(|l| (l, hash(&vbytes(b.id, b.len)))));
                self.staged.push(StagedOp::Write(k.to_vec(), b.id, b.len));
            }
            DropBegun => self.begun = None,
            Commit => {
                tags.push("C02");
                let (i, bw) = self.batch.take().unwrap();
                self.begun.iter_mut().for_each(|b| b.open = false);
                let staged = std::mem::take(&mut self.staged);
                self.check_staged();
                ok("commit", bw.commit());
                self.cur = i;
                self.staged_disk.clear();
                if staged.iter().any(|s| matches!(s, StagedOp::Rename { .. })) {
                    tags = vec!["C09", "C02"];
                }
                for s in &staged {
                    if let StagedOp::Write(k, id, n) = s {
                        self.set(k, *id, *n);
                    }
                }
                for s in staged {
                    if let StagedOp::Rename { loc, to } = s {
                        self.model_rename(loc, &to);
                    }
                }
                commits = true;
            }
            Abort => {
                tags.push("C02");
                self.check_staged();
                self.drop_batch();
            }
            Peek(k) => {
                let mut r = ok("read", h.read());
                let v = ok("add", r.add(k));
                must!("C01", v.is_some(), "read session does not find {}", esc(k));
                self.peeked = v;
                ok("begin", r.begin());
                self.touch(k);
                commits = true;
            }
            StageRename(k) => {
                let v = self.peeked.unwrap();
                let bw = self.open_batch();
                bw.rename_value(v, k.to_vec());
                self.staged.push(StagedOp::Rename { loc: loc_of(&v), to: k.to_vec() });
            }
            BatchRename(a, b) => {
                tags = vec!["C09", "C02"];
                let mut r = ok("read", h.read());
                let v = ok("add", r.add(a));
                must!("C01", v.is_some(), "read session does not find {}", esc(a));
                let v = v.unwrap();
                ok("begin", r.begin());
                self.touch(a);
                let mut bw = ok("new_writer", h.new_writer());
                bw.rename_value(v, b.to_vec());
                ok("commit", bw.commit());
                if v.length() == 0 {
                    // A value without storage has no identity to rename by.
                    let got = ok("list_items", h.list_items(b""));
                    let has_a = got.iter().any(|i| i.key == a);
                    if a != b {
                        must!("C09", !has_a, "zero-length value of {} was not renamed to {} (silently ignored)", esc(a), esc(b));
                        let e = self.m.remove(a).unwrap();
                        self.m.insert(b.to_vec(), e);
                    }
                } else {
                    self.model_rename(loc_of(&v), b);
                }
                commits = true;
            }
            Snap | SnapN(_) => {
                let mut r = ok("read", h.read());
                let mut vs = vec![];
                let keys: Vec<Vec<u8>> = self.m.keys().filter(|k| if let SnapN(ks) = op { ks.contains(&&k[..]) } else { true }).cloned().collect();
                for k in &keys {
                    let v = ok("add", r.add(k));
                    must!("C01", v.is_some(), "read session does not find {}", esc(k));
                    vs.push((k.clone(), v.unwrap()));
                }
                let s = ok("begin", r.begin());
                for (k, v) in vs {
                    self.touch(&k);
                    let want = self.m[&k].bytes();
                    let n = self.snaps.len();
                    self.snaps.push(Snap { what: format!("snapshot value {n} of {}", esc(&k)), v: s.value(v), want, file: loc_of(&v).map(|l| l.0) });
                }
                commits = true;
            }
            DropSnap => {
                self.snaps.clear();
            }
            DropOne => {
                self.snaps.remove(0);
            }
            ReadSnaps => self.check_snaps(),
            Reopen => {
                tags.push("C22");
                self.close(self.cur);
                self.open_handle();
            }
            Second => {
                tags.push("C22");
                let open: Vec<usize> = (0..self.hs.len()).filter(|&i| self.hs[i].is_some()).collect();
                if open.len() == 1 {
                    self.open_handle();
                } else {
                    self.cur = open[(open.iter().position(|&i| i == self.cur).unwrap() + 1) % open.len()];
                }
            }
            CloseCur => {
                tags.push("C22");
                self.close(self.cur);
                self.cur = (0..self.hs.len()).find(|&i| self.hs[i].is_some()).unwrap();
            }
            Settle(ms) => sched::settle_ms(ms),
            Tick(ms) => sched::tick_ms(ms),
            Leap(s) => sched::leap_ms(s * 1000),
            Spread(p, n) => {
                let mut ws = vec![];
                for i in 0..n {
                    let id = self.fresh();
                    let (k, len) = ([p, format!("{i:04}").as_bytes()].concat(), 1 + i * 61);
                    let mut w = ok("new_writer", h.new_writer());
                    let mut v = ok("begin", w.new_value().begin());
                    ok("write", v.write_all(&vbytes(id, len)));
                    ok("stage_write", w.stage_write(k.clone(), v));
                    ws.push((w, k, id, len));
                }
                for (w, k, id, len) in ws {
                    ok("commit", w.commit());
                    self.set(&k, id, len);
                }
                commits = true;
            }
            Limit(n) => {
                tags = vec!["C06"];
                self.limits[self.cur] = Some(n);
                let l = Limits { max_value_length_sum: Some(n), disable_hole_punching: !self.punching[self.cur] };
                ok("set_instance_limits", self.hmut().set_instance_limits(l));
                commits = true;
            }
            NoLimit => {
                tags = vec!["C06"];
                self.limits[self.cur] = None;
                let l = Limits { max_value_length_sum: None, disable_hole_punching: !self.punching[self.cur] };
                ok("set_instance_limits", self.hmut().set_instance_limits(l));
            }
            NoPunch => {
                self.punching[self.cur] = false;
                let l = Limits { max_value_length_sum: self.limits[self.cur], disable_hole_punching: true };
                ok("set_instance_limits", self.hmut().set_instance_limits(l));
            }
            Cleanup => {
                let before = self.snapshot_files();
                let other = self.other_entries();
                ok("cleanup_snapshots", h.cleanup_snapshots());
                let after = self.snapshot_files();
                for (p, used) in &before {
                    if *used {
                        must!("C19", after.contains_key(p), "{p} was removed although a live snapshot uses it");
                    }
                }
                for (p, used) in &after {
                    must!("C19", *used, "{p} is not removed although nobody uses it");
                }
                let gone: Vec<String> = other.difference(&self.other_entries()).cloned().collect();
                must!("C19", gone.is_empty(), "cleanup removed {gone:?}");
                self.stale = false;
            }
            Stale => {
                self.stale = true;
                quiet(|| {
                    for d in ["snapshot-dead1", "snapshot-dead2", "snapshot-dead3"] {
                        std::fs::create_dir(self.dir.join(d)).ok();
                    }
                    for f in ["snapshot-dead1/values-00000001", "snapshot-dead3/values-00000001", "snapshot-dead3/values-00000002", "foreign", "snapshot.txt"] {
                        std::fs::write(self.dir.join(f), b"x").unwrap();
                    }
                    std::fs::create_dir(self.dir.join("foreign-dir")).ok();
                    std::fs::write(self.dir.join("foreign-dir/values-00000001"), b"x").unwrap();
                })
            }
            OldVersion => {
                tags = vec!["C22"];
                self.drop_batch();
                for i in 0..self.hs.len() {
                    self.close(i);
                }
                for w in std::mem::take(&mut self.waits) {
                    w();
                }
                quiet(|| {
                    let c = rusqlite::Connection::open(self.dir.join("manifest.db")).unwrap();
                    c.pragma_update(None, "user_version", 2).unwrap();
                });
                self.open_handle();
                self.m.clear();
                self.disk.clear();
                self.dead.clear();
                self.never.clear();
                quiet(|| {
                    for e in std::fs::read_dir(&self.dir).unwrap() {
                        let n = e.unwrap().file_name().into_string().unwrap();
                        must!("C22", !n.starts_with("values-"), "{n} is left behind by the reset of an older format version");
                    }
                });
            }
            Nop => {}
        }
        self.after(&tags, commits);
    }
    fn model_rename(&mut self, loc: Option<Loc>, to: &[u8]) {
        let Some(loc) = loc else { return };
        let Some(k) = self.m.iter().find(|(_, e)| e.loc.as_ref() == Some(&loc)).map(|(k, _)| k.clone()) else { return };
        if k != to {
            let e = self.m.remove(&k).unwrap();
            self.m.insert(to.to_vec(), e);
        }
    }
    pub fn get(&mut self, k: &[u8]) {
        let r = ok("read_single", self.h().read_single(k));
        match (r, self.m.get(k).cloned()) {
            (None, None) => {}
            (Some(v), Some(e)) => {
                let b = match v.view(|b| b.to_vec()) {
                    Ok(b) => b,
                    Err(x) => fail!("C01", "reading {} failed: {x:?}", esc(k)),
                };
                let want = e.bytes();
                must!("C01", b == want, "reading {}: {}", esc(k), diff(&b, &want));
                must!("C01", v.length() == want.len() as u64, "length of {}: {} instead of {}", esc(k), v.length(), want.len());
                if self.o.times {
                    must!("C07", same_time(used_of(&v), now_ms()), "reading {} reports last used {}, now is {}", esc(k), used_of(&v), now_ms());
                }
                self.touch(k);
            }
            (None, Some(_)) => fail!("C01", "{} reads as absent", esc(k)),
            (Some(v), None) => fail!("C01", "{} was deleted or never written but reads as {} bytes", esc(k), v.length()),
        }
    }
    fn check_snaps(&self) {
        for s in &self.snaps {
            check_snap_value(&["C03"], &s.what, &s.v, &s.want);
        }
    }
    fn check_staged(&self) {
        for (l, hh) in &self.staged_disk {
            let r = raw_read(&self.dir.join(&l.0), l.1, l.2 as usize);
            must!("C04", r.as_ref().map(|b| hash(b)) == Some(*hh), "staged data at {l:?} was {} before its batch committed", if r.is_none() { "removed" } else { "altered" });
        }
    }
    fn find_raw(&self, pat: &[u8]) -> Option<Loc> {
        quiet(|| {
            for e in std::fs::read_dir(&self.dir).ok()? {
                let e = e.ok()?;
                let n = e.file_name().into_string().ok()?;
                if n.starts_with("values-") {
                    let b = std::fs::read(e.path()).ok()?;
                    if let Some(i) = b.windows(pat.len()).rposition(|w| w == pat) {
                        return Some((n, i as u64, pat.len() as u64));
                    }
                }
            }
            None
        })
    }

    /// Compares the store with the model.
    pub fn after(&mut self, tags: &[&str], commits: bool) {
        let h = self.h();
        let items = quiet(|| ok("list_items", h.list_items(b"")));
        let mut real: BTreeMap<Vec<u8>, (Value, Option<Loc>)> = BTreeMap::new();
        for i in &items {
            let prev = real.insert(i.key.clone(), (i.value, loc_of(&i.value)));
            must_any(tags, prev.is_none(), || format!("key {} listed twice", esc(&i.key)));
        }
        let limit = self.limits[self.cur].filter(|_| commits);
        for k in real.keys() {
            must_any(tags, self.m.contains_key(k), || format!("key {} is listed but should not exist; {}", esc(k), self.show()));
        }
        let gone: Vec<Vec<u8>> = self.m.keys().filter(|k| !real.contains_key(*k)).cloned().collect();
        if let Some(max) = limit {
            let total: u64 = real.values().map(|v| v.0.length()).sum();
            must!("C06", total <= max, "total value size {total} exceeds the maximum {max}");
            let newest_gone = gone.iter().map(|k| self.m[k].used).max();
            if let Some(t) = newest_gone {
                for k in real.keys() {
                    must!("C06", self.m[k].used >= t, "{} was evicted although {} was used longer ago", gone.iter().map(|k| esc(k)).collect::<Vec<_>>().join(", "), esc(k));
                }
                let smallest = gone.iter().filter(|k| self.m[*k].used == t).map(|k| self.m[k].len as u64).max().unwrap();
                must!("C06", total + smallest > max, "evicted more than needed: total {total}, maximum {max}, last evicted item had {smallest} bytes");
            }
        } else {
            must_any(tags, gone.is_empty(), || format!("key {} has disappeared", esc(&gone[0])));
        }
        for k in &gone {
            self.m.remove(k);
        }
        // Renaming and moving keep the time of last use.
        let mut times = vec!["C07"];
        times.extend(tags.iter().filter(|t| ["C08", "C09"].contains(t)));
        // lengths, locations
        let mut live: BTreeSet<Loc> = BTreeSet::new();
        for (k, (v, loc)) in &real {
            let e = self.m.get_mut(k).unwrap();
            must_any(tags, v.length() == e.len as u64, || format!("{} is listed with {} bytes instead of {}", esc(k), v.length(), e.len));
            e.loc = loc.clone();
            if self.o.times {
                must_any(&times, same_time(used_of(v), e.used), || format!("{} has last-used time {} instead of {}", esc(k), used_of(v), e.used));
                e.used = used_of(v);
            }
            if let Some(l) = loc {
                live.insert(l.clone());
            }
        }
        let died: Vec<Loc> = self.disk.keys().filter(|l| !live.contains(*l)).cloned().collect();
        for l in died {
            let hh = self.disk.remove(&l).unwrap();
            if self.punching[self.cur] {
                let right = live.iter().filter(|x| x.0 == l.0 && x.1 >= l.1 + l.2).min_by_key(|x| x.1).cloned();
                self.dead.insert(Dead { loc: l, right });
            } else {
                self.never.insert(l, hh);
            }
        }
        if self.o.storage {
            self.check_storage(&real);
        }
        for l in &live {
            match self.disk.get(l) {
                None => {
                    let r = if self.o.raw { raw_read(&self.dir.join(&l.0), l.1, l.2 as usize) } else { None };
                    self.disk.insert(l.clone(), r.map(|b| hash(&b)).unwrap_or(0));
                }
                Some(&hh) if self.o.raw => {
                    let r = raw_read(&self.dir.join(&l.0), l.1, l.2 as usize);
                    must!("C04", r.as_ref().map(|b| hash(b)) == Some(hh), "live value at {l:?} was {}", if r.is_none() { "removed or truncated" } else { "altered" });
                }
                _ => {}
            }
        }
        if self.o.raw {
            self.check_staged();
        }
        if self.o.snaps && !self.snaps.is_empty() {
            self.check_snaps();
        }
        for p in self.o.prefixes {
            let l = quiet(|| ok("list_items", h.list_items(p)));
            let got: BTreeMap<Vec<u8>, u64> = l.iter().map(|i| (i.key.clone(), i.value.length())).collect();
            let want: BTreeMap<Vec<u8>, u64> = self.m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, e)| (k.clone(), e.len as u64)).collect();
            must!("C08", got == want && l.len() == want.len(), "listing prefix {} gives {}, expected {}", esc(p), show(&got), show(&want));
        }
        if self.o.read_all {
            self.read_all();
        }
        sched::digest(self.state_hash());
        sched::state(self.state_hash());
    }
    pub fn read_all(&mut self) {
        let keys: Vec<Vec<u8>> = self.known_keys.iter().chain(self.m.keys()).cloned().collect::<BTreeSet<_>>().into_iter().collect();
        for k in keys {
            self.get(&k);
        }
    }
    fn check_storage(&self, real: &BTreeMap<Vec<u8>, (Value, Option<Loc>)>) {
        let mut by: Vec<(Loc, &Vec<u8>)> = real.iter().filter_map(|(k, v)| v.1.clone().map(|l| (l, k))).collect();
        by.sort();
        for w in by.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            must!("C14", a.0 .0 != b.0 .0 || a.0 .1 + a.0 .2 <= b.0 .1, "values of {} and {} share storage: {:?} {:?}", esc(a.1), esc(b.1), a.0, b.0);
        }
        for (l, k) in &by {
            let len = quiet(|| std::fs::metadata(self.dir.join(&l.0)).map(|m| m.len()));
            match len {
                Err(_) => fail!("C14", "values file {} of {} does not exist", l.0, esc(k)),
                Ok(n) => must!("C14", n >= l.1 + l.2, "{} lies at {:?} beyond the end {n} of its file", esc(k), l),
            }
        }
        let sum = quiet(|| ok("sum_value_length", ok("start_deferred_transaction_for_read", self.h().start_deferred_transaction_for_read()).sum_value_length()));
        let want: u64 = real.values().map(|v| v.0.length()).sum();
        must!("C14", sum == want, "accounted total value size is {sum}, the values have {want}");
    }
    /// The accounted size, while an operation that should have failed may have changed what is stored.
    fn check_sum(&self) {
        if self.o.storage {
            let (sum, want) = quiet(|| {
                let t = ok("start_deferred_transaction_for_read", self.h().start_deferred_transaction_for_read());
                (ok("sum_value_length", t.sum_value_length()), ok("list_items", t.list_items(b"")).iter().map(|i| i.value.length()).sum::<u64>())
            });
            must!("C14", sum == want, "accounted total value size is {sum}, the values have {want}");
        }
    }
    pub fn state_hash(&self) -> u64 {
        let mut x = 7u64;
        let mut files: BTreeMap<&str, u64> = BTreeMap::new();
        for (k, e) in &self.m {
            x = mix(x, hash(k));
            x = mix(x, e.len as u64);
            if let Some(l) = &e.loc {
                let n = files.len() as u64;
                let f = *files.entry(&l.0).or_insert(n);
                x = mix(mix(x, f), l.1);
            }
        }
        x = mix(x, self.snaps.len() as u64);
        x = mix(x, self.staged.len() as u64 + 10 * self.batch.is_some() as u64 + 20 * self.begun.as_ref().map_or(0, |b| b.len as u64 + b.open as u64));
        mix(x, self.dead.len() as u64 * 100 + self.hs.len() as u64)
    }
    fn show(&self) -> String {
        format!("expected keys {}", self.m.keys().map(|k| esc(k)).collect::<Vec<_>>().join(" "))
    }

    /// Everything that died with punching on and is not pinned any more has been given back.
    pub fn check_reclaimed(&self, when: &str, except: &BTreeSet<String>) {
        let live: Vec<&Loc> = self.m.values().filter_map(|e| e.loc.as_ref()).collect();
        for d in self.dead.iter().filter(|d| !except.contains(&d.loc.0)) {
            let l = &d.loc;
            let Some((len, data)) = data_regions(&self.dir.join(&l.0)) else { continue };
            let bs = BS as u64;
            let mut a = l.1.div_ceil(bs) * bs;
            let mut b = (l.1 + l.2) / bs * bs;
            if let Some(r) = &d.right {
                if live.contains(&r) {
                    let prev = live.iter().filter(|x| x.0 == l.0 && x.1 + x.2 <= l.1).map(|x| x.1 + x.2).max().unwrap_or(0);
                    a = prev.div_ceil(bs) * bs;
                    b = r.1 / bs * bs;
                }
            }
            let b = b.min(len.div_ceil(bs) * bs);
            let mut o = a;
            while o < b {
                let used = live.iter().any(|x| x.0 == l.0 && x.1 < o + bs && x.1 + x.2 > o);
                must!("C05", used || !has_data(&data, o, o + bs), "{when}: block {o} of {} in the former extent {}+{} or its gap is still allocated (data {data:?})", l.0, l.1, l.2);
                o += bs;
            }
        }
        if self.dead.is_empty() {
            for l in self.never.keys() {
                let p = self.dir.join(&l.0);
                let Some((_, data)) = data_regions(&p) else { fail!("C05", "values file {} was removed although hole punching is disabled", l.0) };
                let bs = BS as u64;
                let mut o = l.1 / bs * bs;
                while o < l.1 + l.2 {
                    must!("C05", has_data(&data, o, o + bs), "block {o} of {} was released although hole punching is disabled", l.0);
                    o += bs;
                }
            }
        }
    }
    /// Ends the history: releases everything, closes, waits for the background work, looks again.
    pub fn finish(mut self, reopen: bool) {
        ev!("==== finish");
        if self.o.snaps && !self.snaps.is_empty() {
            // Anything the background threads still do must not affect the snapshots either.
            self.check_snaps();
            sched::settle_ms(1500);
            self.check_snaps();
        }
        if self.o.reclaim && !self.snaps.is_empty() && self.batch.is_none() && self.begun.is_none() {
            // A snapshot holds back no file but its own.
            let pinned: BTreeSet<String> = self.snaps.iter().filter_map(|s| s.file.clone()).collect();
            if self.dead.iter().any(|d| !pinned.contains(&d.loc.0)) {
                sched::settle_ms(3500);
                self.check_reclaimed("while a snapshot of other values is held", &pinned);
                self.check_snaps();
            }
        }
        self.snaps.clear();
        if self.o.raw {
            if !self.staged_disk.is_empty() {
                sched::settle_ms(2500);
            }
            self.check_staged();
        }
        self.drop_batch();
        self.begun = None;
        if self.o.reclaim && !self.o.hasty {
            sched::settle_ms(3500);
            self.after(&["C01"], false);
            self.check_reclaimed("after settling", &BTreeSet::new());
        }
        for i in 0..self.hs.len() {
            self.close(i);
        }
        for w in std::mem::take(&mut self.waits) {
            w();
        }
        if self.o.reclaim {
            self.check_reclaimed("after closing", &BTreeSet::new());
        }
        if self.stale {
            self.open_handle();
            self.apply(&Cleanup);
            self.close(self.cur);
        }
        self.check_no_snapshots();
        if reopen {
            self.open_handle();
            self.after(&["C01", "C22"], false);
            self.read_all();
            let d = self.h().get_value_puncher_done();
            self.close(self.cur);
            d.wait();
        }
    }
    /// Snapshot directories and files, and whether somebody uses them.
    fn snapshot_files(&self) -> BTreeMap<String, bool> {
        use std::os::fd::AsRawFd;
        quiet(|| {
            let mut m = BTreeMap::new();
            for e in std::fs::read_dir(&self.dir).unwrap().flatten() {
                let n = e.file_name().into_string().unwrap();
                if !n.starts_with("snapshot-") || !e.path().is_dir() {
                    continue;
                }
                let mut any = false;
                for f in std::fs::read_dir(e.path()).unwrap().flatten() {
                    let p = f.path();
                    let file = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
                    let used = unsafe {
                        let mut l: libc::flock64 = std::mem::zeroed();
                        l.l_type = libc::F_WRLCK as i16;
                        let a = libc::fcntl(file.as_raw_fd(), libc::F_OFD_GETLK, &mut l) == 0 && l.l_type != libc::F_UNLCK as i16;
                        let b = libc::flock(file.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) != 0;
                        a || b
                    };
                    any |= used;
                    m.insert(format!("{n}/{}", f.file_name().to_string_lossy()), used);
                }
                m.insert(n, any);
            }
            m
        })
    }
    fn other_entries(&self) -> BTreeSet<String> {
        let live: BTreeSet<&str> = self.m.values().filter_map(|e| e.loc.as_ref()).map(|l| l.0.as_str()).collect();
        quiet(|| {
            let mut s = BTreeSet::new();
            for d in ["", "foreign-dir"] {
                for e in std::fs::read_dir(self.dir.join(d)).into_iter().flatten().flatten() {
                    let n = e.file_name().into_string().unwrap();
                    let skip = d.is_empty() && (n.starts_with("snapshot-") || n.starts_with("values-") && !live.contains(n.as_str()) || n.starts_with("manifest.db-"));
                    if !skip {
                        s.insert(format!("{d}/{n}"));
                    }
                }
            }
            s
        })
    }
    pub fn check_no_snapshots(&self) {
        quiet(|| {
            for e in std::fs::read_dir(&self.dir).unwrap() {
                let n = e.unwrap().file_name().into_string().unwrap();
                must!("C19", !n.starts_with("snapshot-"), "{n} is left behind although nobody uses it");
                must!("C19", !n.starts_with(".clone_test"), "{n} is left behind");
            }
        })
    }
    /// Chooses and applies `depth` operations out of `ops`, in every way.
    pub fn explore(&mut self, ops: &[Op], depth: usize) {
        for _ in 0..depth {
            let av: Vec<&Op> = ops.iter().filter(|o| self.applicable(o)).collect();
            let i = sched::data(av.len());
            let op = av[i].clone();
            self.apply(&op);
        }
    }
}
fn show(m: &BTreeMap<Vec<u8>, u64>) -> String {
    m.iter().map(|(k, n)| format!("{}:{n}", esc(k))).collect::<Vec<_>>().join(" ")
}
