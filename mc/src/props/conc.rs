//! Concurrent operations: all interleavings up to a preemption bound; results must be those of some order
//! consistent with the calls and returns, and the store must hold what that order leaves.
use crate::explore::*;
use crate::rt::sched::{self, quiet};
use crate::rt::tool;
use crate::util::*;
use crate::world::{check_snap_value, loc_of, open, Key, Loc};
use crate::{ev, fail, must, Tier};
use possum::{Handle, Limits, SnapshotValue, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use COp::*;

#[derive(Clone, Debug, PartialEq)]
pub enum COp {
    Put(Key, usize),
    /// Written in two pieces, dropped in between by nothing.
    Put2(Key, usize),
    PutFile(Key, usize),
    Del(Key),
    Get(Key),
    /// Several keys in one read session.
    GetN(&'static [Key]),
    /// As GetN, kept and read again at the end.
    Hold(&'static [Key]),
    List(Key),
    DelPre(Key),
    MovePre(Key, Key),
    Rename(Key, Key),
    Batch(&'static [(Key, usize)]),
    /// Stages and gives up.
    BatchDrop(&'static [(Key, usize)]),
    /// Reads a key and renames its value within a batch.
    BatchRen(Key, Key),
    /// As BatchRen, in a batch that also writes a value.
    BatchMix(Key, Key, Key, usize),
    /// Opens another handle, reads a key with it, closes it.
    OpenGet(Key),
    /// Opens another handle, writes a key with it, closes it.
    OpenPut(Key, usize),
    Cleanup,
    /// Closes this thread's own handle (last operation).
    Close,
    Limit(u64),
    Settle(u64),
    Walk,
    /// Runs the command line tool (at most one per program).
    Tool(Cmd),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cmd {
    Punch,
    Print,
    List(Key),
    Read(Key),
    Write(Key, usize),
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Unit,
    Size(Option<u64>),
    Vals(Vec<Option<u32>>),
    Items(BTreeMap<Vec<u8>, u64>),
    Keys(std::collections::BTreeSet<Vec<u8>>),
    Moved(Result<(), String>),
    Renamed(Result<(), String>),
    BatchRen(Option<u32>),
}
#[derive(Clone, Debug)]
struct Ev {
    thread: usize,
    op: COp,
    id: u32,
    call: u64,
    ret: u64,
    res: Res,
}
type M = BTreeMap<Vec<u8>, (u32, usize)>;

struct Held {
    what: String,
    v: SnapshotValue<Value>,
    want: Vec<u8>,
}

#[derive(Clone, Copy)]
pub struct H(pub *mut Handle);
unsafe impl Send for H {}
unsafe impl Sync for H {}
impl H {
    pub fn get(&self) -> &'static Handle {
        unsafe { &*self.0 }
    }
    fn get_mut(&self) -> &'static mut Handle {
        unsafe { &mut *self.0 }
    }
    pub fn close(self) {
        drop(unsafe { Box::from_raw(self.0) })
    }
}

struct Ctx {
    dir: std::path::PathBuf,
    clock: AtomicU64,
    evs: Mutex<Vec<Ev>>,
    held: Mutex<Vec<Held>>,
    /// Length of each value id.
    lens: Vec<usize>,
    waits: Mutex<Vec<Box<dyn FnOnce() + Send>>>,
    tag: &'static str,
}
impl Ctx {
    fn identify(&self, what: &str, b: &[u8]) -> u32 {
        for (id, &n) in self.lens.iter().enumerate() {
            if n == b.len() && (n == 0 || b == vbytes(id as u32, n)) {
                // Empty values are all alike: any id of length 0 stands for them.
                return id as u32;
            }
        }
        let near = self.lens.iter().enumerate().filter(|(_, &n)| n == b.len()).map(|(id, &n)| diff(b, &vbytes(id as u32, n))).next();
        fail!(self.tag, "{what} returned {} bytes that no operation wrote ({})", b.len(), near.unwrap_or_else(|| "no value has that length".into()))
    }
    fn bytes(&self, v: &SnapshotValue<Value>) -> Vec<u8> {
        ok("view", v.view(|b| b.to_vec()))
    }
}

#[derive(Clone)]
pub struct Conc {
    pub init: Vec<(Key, usize)>,
    /// Each tuple of values becomes a batch (one file); default all in one.
    pub kill: Vec<Key>,
    pub threads: Vec<Vec<COp>>,
    /// Handle index of each thread.
    pub handles: Vec<usize>,
    pub limit: Option<u64>,
    pub tag: &'static str,
    pub reclaim: bool,
    pub linear: bool,
    /// Nothing is reclaimed by the handles, and the initial values are in two files.
    pub keep: bool,
}

fn mutates(o: &COp) -> bool {
    matches!(o, Put(..) | Put2(..) | PutFile(..) | OpenPut(..) | Tool(Cmd::Write(..)))
}

impl Conc {
    /// Ids: initial values 1.., then one block of ids per operation.
    fn ids(&self) -> (Vec<usize>, Vec<Vec<u32>>) {
        let mut lens = vec![usize::MAX];
        lens.extend(self.init.iter().map(|x| x.1));
        let mut first = vec![];
        for t in &self.threads {
            let mut v = vec![];
            for o in t {
                v.push(lens.len() as u32);
                match o {
                    o if mutates(o) => {
                        let (Put(_, n) | Put2(_, n) | PutFile(_, n) | OpenPut(_, n) | Tool(Cmd::Write(_, n))) = o else { unreachable!() };
                        lens.push(*n)
                    }
                    BatchMix(_, _, _, n) => lens.push(*n),
                    Batch(vs) | BatchDrop(vs) => lens.extend(vs.iter().map(|x| x.1)),
                    _ => {}
                }
            }
            first.push(v);
        }
        (lens, first)
    }
    pub fn run(&self, dir: &Path) {
        sched::calm(true);
        let nh = self.handles.iter().max().unwrap() + 1;
        let hs: Vec<H> = (0..nh).map(|_| H(open(dir))).collect();
        let (lens, first) = self.ids();
        let ctx = Arc::new(Ctx { dir: dir.to_owned(), clock: AtomicU64::new(1), evs: Default::default(), held: Default::default(), lens, waits: Default::default(), tag: self.tag });
        for h in &hs {
            let d = h.get().get_value_puncher_done();
            // ValuePuncherDone is Sync enough for this: a channel end behind a mutex.
            struct S<T>(T);
            unsafe impl<T> Send for S<T> {}
            let s = S(d);
            ctx.waits.lock().unwrap().push(Box::new(move || {
                let s = s;
                s.0.wait()
            }));
        }
        if self.keep {
            for h in &hs {
                ok("set_instance_limits", h.get_mut().set_instance_limits(Limits { max_value_length_sum: None, disable_hole_punching: true }));
            }
        }
        let mut m0 = M::new();
        if !self.init.is_empty() {
            let mut bws: Vec<_> = (0..1 + self.keep as usize).map(|_| ok("new_writer", hs[0].get().new_writer())).collect();
            for (i, &(k, n)) in self.init.iter().enumerate() {
                let bw = &mut bws[i % (1 + self.keep as usize)];
                let mut v = ok("begin", bw.new_value().begin());
                ok("write", v.write_all(&vbytes(i as u32 + 1, n)));
                ok("stage_write", bw.stage_write(k.to_vec(), v));
                m0.insert(k.to_vec(), (i as u32 + 1, n));
            }
            for bw in bws {
                ok("commit", bw.commit());
            }
        }
        let locs0: Vec<Loc> = quiet(|| ok("list_items", hs[0].get().list_items(b""))).iter().filter_map(|i| loc_of(&i.value)).collect();
        for k in &self.kill {
            // Dead, its space still in the queue of the punching thread.
            ok("single_delete", hs[0].get().single_delete(k));
            m0.remove(*k);
        }
        if let Some(max) = self.limit {
            for h in &hs {
                ok("set_instance_limits", h.get_mut().set_instance_limits(Limits { max_value_length_sum: Some(max), disable_hole_punching: false }));
            }
        }
        sched::calm(false);
        // Each handle is closed by the last thread using it if that thread says so.
        let mut closed = vec![false; nh];
        let mut ths = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            if ops.last() == Some(&Close) {
                closed[self.handles[t]] = true;
            }
            let (c, h, ops, ids) = (ctx.clone(), hs[self.handles[t]], ops.clone(), first[t].clone());
            ths.push(std::thread::spawn(move || {
                let h = h;
                for (o, id) in ops.iter().zip(ids) {
                    run_op(&c, t, h, o, id);
                }
            }));
        }
        for t in ths {
            t.join().unwrap();
        }
        sched::calm(true);
        ev!("==== all threads done");
        let fh = match closed.iter().position(|c| !c) {
            Some(i) => hs[i],
            None => {
                let h = H(open(dir));
                closed.push(false);
                h
            }
        };
        let extra = closed.len() > nh;
        let fin = self.final_state(&ctx, fh);
        let evs = ctx.evs.lock().unwrap().clone();
        if self.linear {
            if let Err(why) = linearize(&m0, &evs, &fin) {
                let mut s = String::new();
                for e in &evs {
                    s += &format!("  thread {} {:?} (value {}) -> {:?} [{}..{}]\n", e.thread, e.op, e.id, e.res, e.call, e.ret);
                }
                ev!("history:\n{}final: {:?}", s, fin);
                fail!(self.tag, "{why}: history {}final state {fin:?}", s.replace('\n', ";"));
            }
        }
        quiet(|| {
            let items = ok("list_items", fh.get().list_items(b""));
            let mut ls: Vec<Loc> = items.iter().filter_map(|i| loc_of(&i.value)).collect();
            ls.sort();
            for w in ls.windows(2) {
                must!("C14", w[0].0 != w[1].0 || w[0].1 + w[0].2 <= w[1].1, "two values share storage: {:?} {:?}", w[0], w[1]);
            }
            for l in &ls {
                let n = std::fs::metadata(dir.join(&l.0)).map(|m| m.len()).unwrap_or(0);
                must!("C14", n >= l.1 + l.2, "a value lies at {l:?} and its file has {n} bytes");
            }
            if let Some(max) = self.limit {
                let total: u64 = items.iter().map(|i| i.value.length()).sum();
                must!("C06", total <= max, "total value size {total} exceeds the maximum {max}");
            }
        });
        for e in &evs {
            sched::digest(hash(format!("{:?}", e.res).as_bytes()));
        }
        sched::digest(hash(format!("{fin:?}").as_bytes()));
        // Space comes back, and neither that nor closing hurts anything.
        sched::settle_ms(3500);
        for h in ctx.held.lock().unwrap().iter() {
            check_snap_value(&["C03", self.tag], &h.what, &h.v, &h.want);
        }
        ctx.held.lock().unwrap().clear();
        let again = self.final_state(&ctx, fh);
        // A limit of one handle evicts what others write once that handle is used.
        let stable = !self.threads.iter().flatten().any(|o| matches!(o, Limit(_)));
        if stable {
            must_same(self.tag, &fin, &again, "after reclaiming");
        }
        let live: Vec<Loc> = quiet(|| ok("list_items", fh.get().list_items(b""))).iter().filter_map(|i| loc_of(&i.value)).collect();
        for (i, h) in hs.iter().enumerate() {
            if !closed[i] {
                h.close();
            }
        }
        if extra {
            let d = fh.get().get_value_puncher_done();
            fh.close();
            d.wait();
        }
        for w in std::mem::take(&mut *ctx.waits.lock().unwrap()) {
            w();
        }
        let h = H(open(dir));
        let again = self.final_state(&ctx, h);
        if stable {
            must_same(self.tag, &fin, &again, "after closing and opening again");
        }
        let d = h.get().get_value_puncher_done();
        h.close();
        d.wait();
        if self.reclaim {
            self.check_reclaimed(&ctx, dir, &live, &locs0);
        }
        quiet(|| {
            for e in std::fs::read_dir(dir).unwrap() {
                let n = e.unwrap().file_name().into_string().unwrap();
                must!("C19", !n.starts_with("snapshot-"), "{n} is left behind although nobody uses it");
            }
        });
    }
    /// Nothing but what live values need is left of values that were committed, as far as whole blocks go.
    fn check_reclaimed(&self, c: &Ctx, dir: &Path, live: &[Loc], locs0: &[Loc]) {
        let bs = BS as u64;
        let mut never = std::collections::BTreeSet::new();
        for e in c.evs.lock().unwrap().iter() {
            if let BatchDrop(vs) = &e.op {
                never.extend(e.id..e.id + vs.len() as u32);
            }
        }
        let values: Vec<Vec<u8>> = c.lens.iter().enumerate().skip(1).filter(|(id, n)| **n >= BS && !never.contains(&(*id as u32))).map(|(id, &n)| vbytes(id as u32, n)).collect();
        for n in quiet(|| std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).filter(|n| n.starts_with("values-")).collect::<Vec<_>>()) {
            let p = dir.join(&n);
            let Some((_, data)) = data_regions(&p) else { continue };
            for (a, b) in &data {
                let mut o = a / bs * bs;
                while o + bs <= *b {
                    let used = live.iter().any(|x| x.0 == n && x.1 < o + bs && x.1 + x.2 > o);
                    if !used {
                        let block = raw_read(&p, o, BS).unwrap();
                        let inside = locs0.iter().any(|l| l.0 == n && l.1 <= o && l.1 + l.2 >= o + bs);
                        let known = inside || values.iter().any(|v| v.windows(BS).any(|w| w == block));
                        must!("C05", !known, "after everything is closed block {o} of {n} of a dead value is still allocated (data {data:?}, live {live:?})");
                    }
                    o += bs;
                }
            }
        }
    }
    fn final_state(&self, c: &Ctx, h: H) -> M {
        let mut m = M::new();
        let l = ok("list_items", h.get().list_items(b""));
        for i in l {
            match ok("read_single", h.get().read_single(&i.key)) {
                Some(v) => {
                    let b = c.bytes(&v);
                    let id = c.identify(&format!("reading {} at the end", esc(&i.key)), &b);
                    must!(self.tag, i.value.length() == b.len() as u64, "{} is listed with {} bytes and has {}", esc(&i.key), i.value.length(), b.len());
                    m.insert(i.key.clone(), (id, b.len()));
                }
                None => fail!(self.tag, "{} is listed at the end but reads as absent", esc(&i.key)),
            }
        }
        m
    }
}
fn must_same(tag: &str, a: &M, b: &M, when: &str) {
    must!(tag, a == b, "the content changed {when}: {a:?} became {b:?}");
}

fn run_op(c: &Arc<Ctx>, t: usize, h: H, o: &COp, id: u32) {
    let wid = id;
    ev!("==== thread {} {:?}", t, o);
    sched::shared().ops += 1;
    let call = c.clock.fetch_add(1, SeqCst);
    let hh = h.get();
    let res = match *o {
        Put(k, n) => {
            let (w, _) = ok("single_write_from", hh.single_write_from(k.to_vec(), &vbytes(id, n)[..]));
            must!(c.tag, w == n as u64, "writing {n} bytes reports {w}");
            Res::Unit
        }
        OpenPut(k, n) => {
            let h2 = H(open(&c.dir));
            wait_later(c, h2);
            ok("single_write_from", h2.get().single_write_from(k.to_vec(), &vbytes(id, n)[..]));
            h2.close();
            Res::Unit
        }
        Put2(k, n) => {
            let b = vbytes(id, n);
            let mut bw = ok("new_writer", hh.new_writer());
            let mut v = ok("begin", bw.new_value().begin());
            ok("write", v.write_all(&b[..n / 2]));
            ok("copy_from", v.copy_from(&b[n / 2..]));
            ok("stage_write", bw.stage_write(k.to_vec(), v));
            ok("commit", bw.commit());
            Res::Unit
        }
        PutFile(k, n) => {
            let p = c.dir.parent().unwrap().join(format!("src-{id}"));
            let mut f = quiet(|| {
                std::fs::write(&p, vbytes(id, n)).unwrap();
                std::fs::File::open(&p).unwrap()
            });
            ok("clone_from_file", h.get_mut().clone_from_file(k.to_vec(), &mut f));
            Res::Unit
        }
        Del(k) => Res::Size(ok("single_delete", hh.single_delete(k)).map(|s| s.size)),
        Get(k) => {
            let v = ok("read_single", hh.read_single(k));
            Res::Vals(vec![v.map(|v| c.identify(&format!("reading {}", esc(k)), &c.bytes(&v)))])
        }
        OpenGet(k) => {
            let h2 = H(open(&c.dir));
            wait_later(c, h2);
            let v = ok("read_single", h2.get().read_single(k));
            let r = Res::Vals(vec![v.map(|v| c.identify(&format!("reading {}", esc(k)), &c.bytes(&v)))]);
            h2.close();
            r
        }
        GetN(ks) | Hold(ks) => {
            let mut r = ok("read", hh.read());
            let vs: Vec<Option<Value>> = ks.iter().map(|k| ok("add", r.add(k))).collect();
            let s = ok("begin", r.begin());
            let mut out = vec![];
            for (k, v) in ks.iter().zip(vs) {
                out.push(v.map(|v| {
                    let sv = s.value(v);
                    let b = c.bytes(&sv);
                    let id = c.identify(&format!("reading {} in a session", esc(k)), &b);
                    if matches!(o, Hold(_)) {
                        c.held.lock().unwrap().push(Held { what: format!("snapshot value of {} held by thread {t}", esc(k)), v: sv, want: b });
                    }
                    id
                }));
            }
            Res::Vals(out)
        }
        List(p) => {
            let l = ok("list_items", hh.list_items(p));
            Res::Items(l.iter().map(|i| (i.key.clone(), i.value.length())).collect())
        }
        DelPre(p) => {
            ok("delete_prefix", hh.delete_prefix(p));
            Res::Unit
        }
        MovePre(a, b) => Res::Moved(hh.move_prefix(a, b).map_err(|e| constraint("move_prefix", &format!("{e:?}")))),
        Rename(a, b) => Res::Renamed(match h.get_mut().rename_item(a, b) {
            Ok(_) => Ok(()),
            Err(possum::Error::NoSuchKey) => Err("no such key".into()),
            Err(e) => Err(constraint("rename_item", &format!("{e:?}"))),
        }),
        Batch(vs) | BatchDrop(vs) => {
            let mut bw = ok("new_writer", hh.new_writer());
            for (i, &(k, n)) in vs.iter().enumerate() {
                let mut v = ok("begin", bw.new_value().begin());
                ok("write", v.write_all(&vbytes(id + i as u32, n)));
                ok("stage_write", bw.stage_write(k.to_vec(), v));
            }
            if matches!(o, Batch(_)) {
                ok("commit", bw.commit());
            }
            Res::Unit
        }
        BatchRen(a, b) | BatchMix(a, b, ..) => {
            let mut r = ok("read", hh.read());
            let v = ok("add", r.add(a));
            let s = ok("begin", r.begin());
            Res::BatchRen(v.map(|v| {
                let id = c.identify(&format!("reading {}", esc(a)), &c.bytes(&s.value(v)));
                let mid = c.clock.fetch_add(1, SeqCst);
                c.evs.lock().unwrap().push(Ev { thread: t, op: Get(a), id: 0, call, ret: mid, res: Res::Vals(vec![Some(id)]) });
                let mut bw = ok("new_writer", hh.new_writer());
                if let BatchMix(_, _, k, n) = *o {
                    let mut v = ok("begin", bw.new_value().begin());
                    ok("write", v.write_all(&vbytes(wid, n)));
                    ok("stage_write", bw.stage_write(k.to_vec(), v));
                }
                bw.rename_value(v, b.to_vec());
                ok("commit", bw.commit());
                id
            }))
        }
        Cleanup => {
            ok("cleanup_snapshots", hh.cleanup_snapshots());
            Res::Unit
        }
        Close => {
            h.close();
            Res::Unit
        }
        Limit(n) => {
            ok("set_instance_limits", h.get_mut().set_instance_limits(Limits { max_value_length_sum: Some(n), disable_hole_punching: false }));
            Res::Unit
        }
        Settle(ms) => {
            sched::settle_ms(ms);
            Res::Unit
        }
        Walk => {
            ok("walk_dir", hh.walk_dir());
            Res::Unit
        }
        Tool(cmd) => run_tool(c, cmd, id),
    };
    let ret = c.clock.fetch_add(1, SeqCst);
    ev!("==== thread {} {:?} returns {:?}", t, o, res);
    let call = if matches!(o, BatchRen(..) | BatchMix(..)) { call + 1 } else { call };
    c.evs.lock().unwrap().push(Ev { thread: t, op: o.clone(), id, call, ret, res });
}
fn run_tool(c: &Arc<Ctx>, cmd: Cmd, id: u32) -> Res {
    let dir = c.dir.to_str().unwrap();
    let src = |k: Key| c.dir.parent().unwrap().join(std::str::from_utf8(k).unwrap());
    let text = |k: Key| std::str::from_utf8(k).unwrap();
    let file = match cmd {
        Cmd::Write(k, n) => {
            quiet(|| std::fs::write(src(k), vbytes(id, n)).unwrap());
            src(k).to_str().unwrap().to_owned()
        }
        _ => String::new(),
    };
    let args: &[&str] = match &cmd {
        Cmd::Punch => &["punch-missing-holes"],
        Cmd::Print => &["print-missing-holes"],
        Cmd::List(p) => &["list-keys", text(p)],
        Cmd::Read(k) => &["read-key", text(k)],
        Cmd::Write(..) => &["write-file", &file],
    };
    let (good, out) = tool::run(&[&["database", dir], args].concat());
    ev!("the tool {} and prints {}", if good { "succeeds" } else { "fails" }, out.escape_ascii());
    match cmd {
        // A values file may go away while it looks at it.
        Cmd::Punch | Cmd::Print => Res::Unit,
        Cmd::List(_) => {
            must!(c.tag, good, "listing keys with the tool failed");
            Res::Keys(out.split(|b| *b == b'\n').filter(|l| !l.is_empty()).map(|l| l.to_vec()).collect())
        }
        Cmd::Read(k) => Res::Vals(vec![if good { Some(c.identify(&format!("reading {} with the tool", esc(k)), &out)) } else { None }]),
        Cmd::Write(..) => {
            must!(c.tag, good, "writing with the tool failed");
            Res::Unit
        }
    }
}
fn wait_later(c: &Arc<Ctx>, h: H) {
    let d = h.get().get_value_puncher_done();
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let s = S(d);
    c.waits.lock().unwrap().push(Box::new(move || {
        let s = s;
        s.0.wait()
    }));
}
/// A taken destination is the only failure that renames explain.
fn constraint(what: &str, e: &str) -> String {
    if e.contains("UNIQUE") || e.contains("ConstraintViolation") {
        "taken".into()
    } else {
        fail!("error", "{what} failed: {}", trim(e))
    }
}

/// Applies an operation to the model; None if its result does not fit.
fn step(m: &M, e: &Ev) -> Option<M> {
    let mut m = m.clone();
    let lens = |vs: &[(Key, usize)], m: &mut M| {
        for (i, &(k, n)) in vs.iter().enumerate() {
            m.insert(k.to_vec(), (e.id + i as u32, n));
        }
    };
    match (&e.op, &e.res) {
        (Put(k, n) | Put2(k, n) | PutFile(k, n) | OpenPut(k, n) | Tool(Cmd::Write(k, n)), _) => {
            m.insert(k.to_vec(), (e.id, *n));
        }
        (Del(k), Res::Size(s)) => {
            if m.remove(*k).map(|x| x.1 as u64) != *s {
                return None;
            }
        }
        (Get(k) | OpenGet(k) | Tool(Cmd::Read(k)), Res::Vals(v)) => {
            if !same(m.get(*k), v[0]) {
                return None;
            }
        }
        (GetN(ks) | Hold(ks), Res::Vals(v)) => {
            if !ks.iter().zip(v).all(|(k, v)| same(m.get(*k), *v)) {
                return None;
            }
        }
        (List(p), Res::Items(l)) => {
            let want: BTreeMap<Vec<u8>, u64> = m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.1 as u64)).collect();
            if want != *l {
                return None;
            }
        }
        (Tool(Cmd::List(p)), Res::Keys(l)) => {
            if !m.keys().filter(|k| k.starts_with(p)).eq(l.iter()) {
                return None;
            }
        }
        (DelPre(p), _) => m.retain(|k, _| !k.starts_with(p)),
        (MovePre(a, b), Res::Moved(r)) => {
            let sel: Vec<Vec<u8>> = m.keys().filter(|k| k.starts_with(a)).cloned().collect();
            let to: Vec<Vec<u8>> = sel.iter().map(|k| [b, &k[a.len()..]].concat()).collect();
            let taken = to.iter().any(|t| m.contains_key(t));
            if taken == r.is_ok() {
                return None;
            }
            if r.is_ok() {
                for (k, t) in sel.iter().zip(to) {
                    let v = m.remove(k).unwrap();
                    m.insert(t, v);
                }
            }
        }
        (Rename(a, b), Res::Renamed(r)) => match (m.contains_key(*a), m.contains_key(*b), r) {
            (false, _, Err(e)) if e == "no such key" => {}
            (true, true, Err(e)) if e == "taken" => {}
            (true, false, Ok(())) => {
                let v = m.remove(*a).unwrap();
                m.insert(b.to_vec(), v);
            }
            _ => return None,
        },
        (Batch(vs), _) => lens(vs, &mut m),
        (BatchRen(a, _) | BatchMix(a, ..), Res::BatchRen(None)) => {
            if m.contains_key(*a) {
                return None;
            }
        }
        (BatchRen(_, b) | BatchMix(_, b, ..), Res::BatchRen(Some(id))) => {
            if let BatchMix(_, _, k, n) = e.op {
                m.insert(k.to_vec(), (e.id, n));
            }
            if let Some(k) = m.iter().find(|(_, v)| v.0 == *id && v.1 > 0).map(|x| x.0.clone()) {
                if k != *b {
                    let v = m.remove(&k).unwrap();
                    m.insert(b.to_vec(), v);
                }
            }
        }
        _ => {}
    }
    Some(m)
}
fn same(m: Option<&(u32, usize)>, v: Option<u32>) -> bool {
    match (m, v) {
        (None, None) => true,
        (Some(&(a, _)), Some(b)) if a == b => true,
        // empty values have no identity: identify() returns the first empty one
        (Some(&(_, 0)), Some(b)) => EMPTY.with(|e| e.get()) == Some(b),
        _ => false,
    }
}
thread_local! {
    static EMPTY: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) };
}
fn canon(m: &M) -> M {
    m.iter().map(|(k, v)| (k.clone(), if v.1 == 0 { (0, 0) } else { *v })).collect()
}
fn linearize(m0: &M, evs: &[Ev], fin: &M) -> Result<(), String> {
    fn go(m: &M, evs: &[Ev], done: u32, fin: &M, steps: &mut u64) -> bool {
        *steps += 1;
        if done.count_ones() as usize == evs.len() {
            return canon(m) == canon(fin);
        }
        let min_ret = evs.iter().enumerate().filter(|(i, _)| done & 1 << i == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in evs.iter().enumerate() {
            if done & 1 << i == 0 && e.call <= min_ret {
                if let Some(n) = step(m, e) {
                    if go(&n, evs, done | 1 << i, fin, steps) {
                        return true;
                    }
                }
            }
        }
        false
    }
    let mut steps = 0;
    // The first empty value in id order is what identify() returns.
    let e = evs.iter().flat_map(|e| match &e.res { Res::Vals(v) => v.clone(), Res::BatchRen(v) => vec![*v], _ => vec![] }).flatten();
    let mut empties: Vec<u32> = m0.values().chain(fin.values()).filter(|v| v.1 == 0).map(|v| v.0).collect();
    for x in evs {
        match &x.op {
            Put(_, 0) | Put2(_, 0) | PutFile(_, 0) | OpenPut(_, 0) | Tool(Cmd::Write(_, 0)) => empties.push(x.id),
            Batch(vs) => empties.extend(vs.iter().enumerate().filter(|v| v.1 .1 == 0).map(|v| x.id + v.0 as u32)),
            _ => {}
        }
    }
    EMPTY.with(|c| c.set(e.filter(|i| empties.contains(i)).min().or(empties.iter().min().copied())));
    if go(m0, evs, 0, fin, &mut steps) {
        Ok(())
    } else {
        Err("no order of the operations explains the results".into())
    }
}

pub fn conc(name: String, mode: Mode, c: Conc, preempt: u32) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| c.run(d)).preempt(preempt).strict()
}

const A: Key = b"a";
const B: Key = b"b";
const INIT: &[(Key, usize)] = &[(A, 5000), (B, 4096)];

/// Operations that make sense on a shared handle.
pub fn alphabet(excl: bool) -> Vec<COp> {
    let mut v = vec![
        Put(A, 5000), Del(A), Get(A), GetN(&[A, B]), List(b""), DelPre(b""), MovePre(A, b"m"), Batch(&[(A, 100), (B, 8192)]), BatchRen(A, B), Hold(&[A, B]), Put(A, 0),
    ];
    if excl {
        v.extend([Rename(A, B), Rename(A, b"c"), PutFile(A, 4096)]);
    }
    v
}
fn brief(o: &COp) -> String {
    let s = match o {
        Batch(l) if l.len() > 20 => format!("Batch({} values)", l.len()),
        o => format!("{o:?}"),
    };
    s.chars().map(|c| if c.is_whitespace() { '_' } else { c }).collect::<String>().replace("[97]", "a").replace("[98]", "b").replace("[109]", "m").replace("[99]", "c").replace("[]", "*")
}
fn brief_all(ts: &[Vec<COp>]) -> String {
    ts.iter().map(|t| t.iter().map(brief).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("|")
}
impl Conc {
    pub fn new(tag: &'static str, threads: &[&[COp]], handles: &[usize]) -> Conc {
        Conc { init: INIT.to_vec(), kill: vec![], threads: threads.iter().map(|t| t.to_vec()).collect(), handles: handles.to_vec(), limit: None, tag, reclaim: true, linear: true, keep: false }
    }
    fn scenario(self, mode: Mode, preempt: u32) -> Scenario {
        let mut name = brief_all(&self.threads);
        if self.handles.iter().any(|h| *h > 0) {
            name += "/h";
            self.handles.iter().for_each(|h| name += &h.to_string());
        }
        if !self.kill.is_empty() {
            name = format!("kill_{}:{name}", self.kill.iter().map(|k| esc(k)).collect::<Vec<_>>().join("_"));
        }
        if let Some(l) = self.limit {
            name = format!("max_{l}:{name}");
        }
        conc(name, mode, self, preempt)
    }
    fn kill(mut self, k: &[Key]) -> Conc {
        self.kill = k.to_vec();
        self
    }
    fn init(mut self, i: &[(Key, usize)]) -> Conc {
        self.init = i.to_vec();
        self
    }
    fn limit(mut self, n: u64) -> Conc {
        self.limit = Some(n);
        self.linear = false;
        self
    }
}
fn needs_mut(o: &COp) -> bool {
    matches!(o, Rename(..) | PutFile(..) | Limit(_) | Close)
}
/// Every combination of one element per thread; on one shared handle and on one handle each.
fn combos(tag: &'static str, modes: &[Mode], seqs: &[&[&[COp]]], preempt: u32, f: impl Fn(Conc) -> Conc) -> Vec<Scenario> {
    let mut v = vec![];
    let mut idx = vec![0; seqs.len()];
    loop {
        let ts: Vec<&[COp]> = idx.iter().zip(seqs).map(|(i, s)| s[*i]).collect();
        for shared in [true, false] {
            if shared && ts.iter().any(|t| t.iter().any(needs_mut)) {
                continue;
            }
            let hs: Vec<usize> = (0..ts.len()).map(|i| if shared { 0 } else { i }).collect();
            for &m in modes {
                v.push(f(Conc::new(tag, &ts, &hs)).scenario(m, preempt));
            }
        }
        let mut k = 0;
        while k < idx.len() {
            idx[k] += 1;
            if idx[k] < seqs[k].len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == idx.len() {
            return v;
        }
    }
}
fn singles(ops: &[COp]) -> Vec<Vec<COp>> {
    ops.iter().map(|o| vec![o.clone()]).collect()
}
fn refs(v: &[Vec<COp>]) -> Vec<&[COp]> {
    v.iter().map(|x| &x[..]).collect()
}
/// All unordered pairs of operations.
pub fn pairs(tag: &'static str, ops: &[COp], modes: &[Mode], two_handles: bool, preempt: u32, keep: impl Fn(&COp, &COp) -> bool) -> Vec<Scenario> {
    let mut v = vec![];
    for &mode in modes {
        for i in 0..ops.len() {
            for j in i..ops.len() {
                if keep(&ops[i], &ops[j]) {
                    v.push(Conc::new(tag, &[&ops[i..=i], &ops[j..=j]], &[0, two_handles as usize]).scenario(mode, preempt));
                }
            }
        }
    }
    v
}
pub fn c12(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let n = t.pick(1, 2);
    v.extend(pairs("C12", &alphabet(false), &ALL_MODES, false, n, |_, _| true));
    v.extend(pairs("C12", &alphabet(true), &ALL_MODES, true, n, |_, _| true));
    // Three threads, and two operations in a row.
    let w = singles(&[Put(A, 100), Batch(&[(A, 100), (B, 8192)]), Rename(A, B), BatchRen(A, B), MovePre(b"", b"m")]);
    let x = singles(&[Del(A), Put(A, 0), DelPre(b""), Rename(B, A)]);
    let r = singles(&[GetN(&[A, B]), List(b""), Get(B)]);
    v.extend(combos("C12", &ALL_MODES, &[&refs(&w), &refs(&x), &refs(&r)], t.pick(0, 1), |c| c));
    let w: Vec<Vec<COp>> = vec![vec![Put(A, 100), Get(A)], vec![Put(A, 100), Put(B, 5000)], vec![Get(A), Put(A, 8192)], vec![Del(A), Put(A, 4096)]];
    let x: Vec<Vec<COp>> = vec![vec![GetN(&[A, B]), GetN(&[A, B])], vec![Put(B, 100), Get(A)], vec![Del(B), Get(A)], vec![Rename(A, B), Get(A)]];
    v.extend(combos("C12", &ALL_MODES, &[&refs(&w), &refs(&x)], t.pick(1, 2), |c| c));
    v.extend(many_items("C12", t));
    v
}
/// A great many items, few of them with content.
fn big() -> &'static [(Key, usize)] {
    static B: std::sync::OnceLock<&'static [(Key, usize)]> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let mut v: Vec<(Key, usize)> = (0..1100).map(|i| (&*format!("n{i:04}").into_bytes().leak(), 0)).collect();
        v[0].1 = 100;
        v[1099].1 = 5000;
        v.leak()
    })
}
const BIG_ENDS: &[Key] = &[b"n0000", b"n0550", b"n1099"];
fn many_items(tag: &'static str, t: Tier) -> Vec<Scenario> {
    let r: &[&[COp]] = &[&[GetN(BIG_ENDS)], &[List(b"")], &[DelPre(b"n")]];
    let name = |v: Vec<Scenario>| {
        v.into_iter()
            .map(|mut s| {
                s.name = format!("many:{}", s.name);
                s
            })
            .collect::<Vec<_>>()
    };
    match tag {
        "C02" => combos(tag, &ALL_MODES, &[&[&[Batch(big())]], r], t.pick(1, 2), |c| c),
        "C06" => name(combos(tag, &ALL_MODES, &[&[&[Put(b"a", 4000)]], &[&[Put(b"b", 4000)]]], t.pick(1, 2), |c| c.init(big()).limit(5100))),
        _ => name(combos(tag, &ALL_MODES, &[&[&[DelPre(b"n")], &[MovePre(b"n", b"z")]], &r[..2]], t.pick(1, 2), |c| c.init(big()))),
    }
}
pub fn c02(t: Tier) -> Vec<Scenario> {
    let w = singles(&[Batch(&[(A, 100), (B, 8192)]), Batch(&[(A, 0), (b"c", 5000)]), BatchDrop(&[(A, 100), (B, 8192)]), BatchRen(A, B), DelPre(b""), MovePre(b"", b"m")]);
    let r = singles(&[GetN(&[A, B, b"c"]), List(b""), Batch(&[(B, 1), (A, 4096)]), Hold(&[A, B])]);
    let x = singles(&[BatchMix(A, b"c", A, 100), BatchMix(A, b"c", B, 8192), BatchMix(A, B, A, 0)]);
    let mut v = combos("C02", &ALL_MODES, &[&refs(&x), &refs(&r)], t.pick(1, 3), |c| c);
    v.extend(combos("C02", &ALL_MODES, &[&refs(&w), &refs(&r)], t.pick(2, 3), |c| c));
    v.extend(combos("C02", &ALL_MODES, &[&refs(&w[..4]), &refs(&r[..2]), &refs(&r[2..])], t.pick(0, 1), |c| c));
    v.extend(many_items("C02", t));
    v
}
pub fn c03(t: Tier) -> Vec<Scenario> {
    let r: Vec<Vec<COp>> = vec![vec![Hold(&[A, B])], vec![Hold(&[A]), Hold(&[B])]];
    let w: Vec<Vec<COp>> = vec![
        vec![Del(A)], vec![Put(A, 5000)], vec![Del(A), Put(A, 5000)], vec![DelPre(b"")], vec![Put(A, 0), Close], vec![OpenPut(A, 4096)], vec![BatchRen(A, B)], vec![Cleanup, Del(A)], vec![Del(A), Cleanup],
        vec![Put2(A, 5000), Del(A)], vec![Limit(0)],
    ];
    let mut v = combos("C03", &ALL_MODES, &[&refs(&r), &refs(&w)], t.pick(1, 2), |c| if c.threads.iter().flatten().any(|o| matches!(o, Limit(_))) { Conc { linear: false, ..c } } else { c });
    for k in [&[A][..], &[B], &[b"c"]] {
        v.extend(combos("C03", &ALL_MODES, &[&[&[Hold(&[A, B, b"c"])]], &[&[Del(A)], &[Put(b"d", 4096)], &[DelPre(b"")]]], t.pick(1, 2), |c| c.init(&[(A, 5000), (B, 4096), (b"c", 6000)]).kill(k)));
    }
    v
}
/// Reclamation racing with writers, closing handles and readers.
pub fn c04(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let kills: &[&[Key]] = &[&[b"c"], &[B], &[A, B], &[A, B, b"c"]];
    let threads: &[(&[&[COp]], &[usize])] = &[
        (&[&[Put(A, 5000), Close]], &[0]),
        (&[&[Put(b"d", 100), Del(b"d"), Close]], &[0]),
        (&[&[Batch(&[(b"d", 100), (b"e", 5000)])], &[Get(b"c")]], &[0, 0]),
        (&[&[Hold(&[A, B, b"c"])], &[Put(b"d", 4096)]], &[0, 0]),
        (&[&[Put(A, 5000), Close], &[Hold(&[A, B])]], &[0, 1]),
    ];
    for mode in ALL_MODES {
        for k in kills {
            for (ts, hs) in threads {
                v.push(Conc::new("C04", ts, hs).init(&[(A, 5000), (B, 4096), (b"c", 6000)]).kill(k).scenario(mode, t.pick(2, 3)));
            }
        }
    }
    v
}
pub fn c05(t: Tier) -> Vec<Scenario> {
    let w: Vec<Vec<COp>> = vec![vec![Del(A)], vec![Del(B)], vec![Put(A, 5000), Close], vec![DelPre(b"")], vec![BatchRen(A, B)], vec![Put(B, 0), Del(A)]];
    let x: Vec<Vec<COp>> = vec![vec![Del(B)], vec![Hold(&[A, B])], vec![Put(B, 100), Close], vec![OpenGet(A)], vec![Del(A), Put(A, 4096)]];
    let mut v = combos("C05", &ALL_MODES, &[&refs(&w), &refs(&x)], t.pick(1, 2), |c| c);
    v.extend(combos("C05", &ALL_MODES, &[&[&[Del(A), Close]], &[&[Del(B), Put(b"c", 9000), Del(b"c"), Close], &[Put(B, 9000), Put(B, 1), Close]]], t.pick(2, 3), |c| c));
    v.extend(combos("C05", &ALL_MODES, &[&[&[Del(A), Close]], &[&[Del(B), Close]]], t.pick(2, 3), |c| c.kill(&[b"c"]).init(&[(A, 5000), (B, 4096), (b"c", 6000)])));
    v.extend(full_queue("C05", t));
    v
}
/// More dead values than the queue of the punching thread takes.
const MANY: &[(Key, usize)] = &[
    (A, 5000), (B, 4096), (b"k0", 8192), (b"k1", 4096), (b"k2", 8192), (b"k3", 5000), (b"k4", 8192), (b"k5", 4096), (b"k6", 8192), (b"k7", 9000), (b"k8", 4096), (b"k9", 8192), (b"ka", 4096),
];
fn kills(n: usize) -> Vec<Key> {
    MANY[2..2 + n].iter().map(|x| x.0).collect()
}
fn full_queue(tag: &'static str, t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for n in [9, 11] {
        let w: Vec<Vec<COp>> = vec![vec![Del(A)], vec![Put(A, 5000), Del(A)], vec![Del(A), Close]];
        let x: Vec<Vec<COp>> = vec![vec![Del(B)], vec![Hold(&[A, B]), Del(B)]];
        v.extend(combos(tag, &ALL_MODES, &[&refs(&w), &refs(&x)], t.pick(1, 2), |c| c.init(MANY).kill(&kills(n))));
    }
    v
}
pub fn c06(t: Tier) -> Vec<Scenario> {
    let w: Vec<Vec<COp>> = vec![vec![Put(A, 5000)], vec![Put(b"c", 3000)], vec![Batch(&[(A, 100), (B, 8192)])], vec![Get(A)], vec![Del(A)], vec![BatchRen(A, B)], vec![Put(b"c", 3000), Put(b"d", 2000)], vec![PutFile(b"c", 3000)]];
    let mut v = combos("C06", &ALL_MODES, &[&refs(&w), &refs(&w)], t.pick(1, 2), |c| c.limit(9500));
    v.extend(combos("C06", &ALL_MODES, &[&refs(&w), &[&[Put(b"c", 3000)], &[Hold(&[A, B])]]], t.pick(1, 2), |c| c.limit(1000)));
    v.extend(many_items("C06", t));
    v
}
pub fn c13(t: Tier) -> Vec<Scenario> {
    let mut ops = alphabet(true);
    ops.extend([OpenGet(A), OpenPut(A, 5000), Cleanup, Limit(3000), Walk, Put2(B, 9000), BatchDrop(&[(A, 100), (B, 8192)])]);
    let keep = |a: &COp, b: &COp| {
        let basic = alphabet(true);
        !(basic.contains(a) && basic.contains(b))
    };
    let nl = |s: Vec<Scenario>| s;
    let mut v = nl(pairs_nl("C13", &ops, true, t.pick(1, 2), keep));
    ops.retain(|o| !needs_mut(o));
    v.extend(pairs_nl("C13", &ops, false, t.pick(1, 2), |_, _| true));
    let w: Vec<Vec<COp>> = vec![vec![Put(A, 5000), Close], vec![Del(A), Close], vec![Hold(&[A, B]), Close], vec![DelPre(b""), Close], vec![Limit(100), Put(A, 5000), Close]];
    let x: Vec<Vec<COp>> = vec![vec![Put(A, 100), Close], vec![GetN(&[A, B])], vec![Cleanup], vec![OpenGet(B)], vec![Del(B), Del(A), Close]];
    v.extend(combos("C13", &ALL_MODES, &[&refs(&w), &refs(&x)], t.pick(1, 2), |c| Conc { linear: false, ..c }));
    v.extend(full_queue("C13", t));
    let y: Vec<Vec<COp>> = vec![vec![Cleanup], vec![OpenGet(A)], vec![Put(B, 5000)]];
    v.extend(combos("C13", &ALL_MODES, &[&refs(&w), &refs(&x), &refs(&y)], t.pick(0, 1), |c| Conc { linear: false, ..c }));
    v
}
fn pairs_nl(tag: &'static str, ops: &[COp], two: bool, preempt: u32, keep: impl Fn(&COp, &COp) -> bool) -> Vec<Scenario> {
    let mut v = vec![];
    for mode in ALL_MODES {
        for i in 0..ops.len() {
            for j in i..ops.len() {
                if keep(&ops[i], &ops[j]) {
                    let lin = !matches!((&ops[i], &ops[j]), (Limit(_), _) | (_, Limit(_)));
                    let c = Conc { linear: lin, ..Conc::new(tag, &[&ops[i..=i], &ops[j..=j]], &[0, two as usize]) };
                    v.push(c.scenario(mode, preempt));
                }
            }
        }
    }
    v
}
pub fn c14(t: Tier) -> Vec<Scenario> {
    let w: Vec<Vec<COp>> = vec![vec![Put(A, 5000), Put(b"c", 100)], vec![Put2(A, 5000)], vec![Batch(&[(A, 100), (b"c", 8192)])], vec![PutFile(A, 4096)], vec![Put(A, 5000), Del(B)], vec![OpenPut(b"c", 5000)]];
    let x: Vec<Vec<COp>> = vec![vec![Put(B, 5000), Put(b"d", 100)], vec![Put2(B, 5000)], vec![Batch(&[(B, 100), (b"d", 8192)])], vec![PutFile(b"d", 4096)], vec![Put(B, 5000), Close], vec![BatchDrop(&[(A, 100), (B, 8192)]), Put(b"d", 1)]];
    let mut v = combos("C14", &ALL_MODES, &[&refs(&w), &refs(&x)], t.pick(1, 2), |c| c);
    let s: Vec<Vec<COp>> = vec![vec![Put(b"d", 5000)], vec![Put2(b"d", 100)]];
    v.extend(combos("C14", &ALL_MODES, &[&refs(&w), &refs(&x), &refs(&s)], t.pick(0, 1), |c| c));
    v
}
pub fn c19(t: Tier) -> Vec<Scenario> {
    let w: Vec<Vec<COp>> = vec![vec![Cleanup], vec![Cleanup, Cleanup], vec![Del(A), Cleanup], vec![Put(A, 100), Cleanup]];
    let x: Vec<Vec<COp>> = vec![vec![Hold(&[A, B])], vec![Get(A)], vec![Get(A), Put(A, 5000), Get(A)], vec![OpenGet(A)], vec![Hold(&[A]), Close], vec![Cleanup], vec![BatchRen(A, B)]];
    let mut v = combos("C19", &[Mode::Clone], &[&refs(&w), &refs(&x)], t.pick(2, 3), |c| c);
    v.extend(combos("C19", &[Mode::Clone], &[&refs(&w[..2]), &refs(&x[..4]), &refs(&x[..4])], t.pick(1, 2), |c| c));
    v.extend(combos("C19", &[Mode::Seg, Mode::Flock], &[&refs(&w), &refs(&x)], t.pick(1, 2), |c| c));
    v
}
pub fn c22(t: Tier) -> Vec<Scenario> {
    let w: Vec<Vec<COp>> = vec![vec![OpenGet(A)], vec![OpenPut(A, 5000)], vec![OpenPut(A, 0), OpenGet(A)], vec![OpenGet(A), OpenGet(B)]];
    let x: Vec<Vec<COp>> = vec![vec![Put(A, 100), Close], vec![Del(A), Close], vec![Hold(&[A, B]), Close], vec![OpenPut(B, 100)], vec![DelPre(b""), Close], vec![Batch(&[(A, 100), (B, 8192)]), Close], vec![Get(A)]];
    let mut v = combos("C22", &ALL_MODES, &[&refs(&w), &refs(&x)], t.pick(1, 2), |c| c);
    v.extend(combos("C22", &ALL_MODES, &[&refs(&w), &refs(&x), &[&[OpenGet(B)], &[Put(B, 5000)]]], t.pick(0, 1), |c| c));
    v
}

/// The command line tool among others.
pub fn c20(t: Tier) -> Vec<Scenario> {
    if !tool::available() {
        return vec![];
    }
    const X: Key = b"x";
    const Y: Key = b"y";
    let init = &[(X, 8192), (Y, 5000), (A, 5000), (B, 100)];
    let mut v = vec![];
    let mut add = |ts: &[&[COp]], hs: &[usize], modes: &[Mode], n: u32| {
        for &m in modes {
            let mut c = Conc::new("C20", ts, hs).init(init).kill(&[X, Y]);
            c.keep = true;
            c.reclaim = false;
            v.push(c.scenario(m, n));
        }
    };
    const C: Key = b"c";
    let others: Vec<Vec<COp>> = vec![
        vec![Close],
        vec![Put(C, 5000), Close],
        vec![Put(C, 5000), Put(b"d", 100)],
        vec![Put2(A, 9000), Close],
        vec![Hold(&[A, B]), Del(A), Close],
        vec![GetN(&[A, B]), Put(A, 100), Close],
        vec![Batch(&[(C, 4096), (B, 8192)]), Close],
        vec![BatchDrop(&[(C, 8192), (A, 100)]), Put(C, 5000), Close],
        vec![BatchRen(A, B), Close],
        vec![DelPre(b""), Put(C, 5000), Close],
    ];
    for o in &others {
        add(&[&[Tool(Cmd::Punch)], o], &[0, 0], &ALL_MODES, t.pick(2, 3));
    }
    // The handle that owns the files does something, another one too.
    for x in [&[Hold(&[A, B])][..], &[Get(B)], &[Put(A, 100)], &[Del(B)]] {
        for o in [&others[0], &others[1], &others[6]] {
            add(&[&[Tool(Cmd::Punch)], o, x], &[0, 0, 1], &ALL_MODES, t.pick(1, 2));
        }
    }
    for o in [&others[1], &others[4], &others[9]] {
        for cmd in [Cmd::Print, Cmd::List(b""), Cmd::Read(A), Cmd::Read(C), Cmd::Write(C, 5000), Cmd::Write(A, 0)] {
            add(&[&[Tool(cmd)], o], &[0, 0], &ALL_MODES, t.pick(1, 2));
        }
    }
    v
}
