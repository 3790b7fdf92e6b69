//! C10: the process dies before any mutating system call, or in the middle of a write.
//!
//! The body appends to a journal in memory shared with the recovery process what it asked for and what was
//! acknowledged. The recovery process recomputes from it the stores that are allowed and compares.
use crate::explore::*;
use crate::rt::sched::{self, quiet};
use crate::util::*;
use crate::world::*;
use crate::{ev, fail, must, Tier};
use possum::Handle;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::Path;
use std::sync::Arc;
use Op::*;

const A: Key = b"a";
const B: Key = b"b";
const C: Key = b"c";

/// key -> (value id, length, time of last use)
pub type M = BTreeMap<Vec<u8>, (u32, usize, u32)>;

#[derive(Default, Clone)]
pub struct Model {
    pub m: M,
    pub limit: Option<u64>,
    /// Values by key remembered for renames.
    clock: u32,
}
/// The journal.
const BEGIN: u8 = 1;
const END: u8 = 2;
/// How the recovery found an operation that was in flight.
const DONE: u8 = 3;
const LOST: u8 = 4;

fn log_ack(kind: u8, thread: u8, op: u8, id: u8) {
    let sh = sched::shared();
    let n = sh.ack_len as usize;
    sh.ack[n..n + 4].copy_from_slice(&[kind, thread, op, id]);
    sh.ack_len += 4;
}
/// Identifies the values of the k-th operation of a thread.
fn vid(thread: u8, k: u8) -> u32 {
    1 + thread as u32 * 2000 + k as u32 * 8
}
impl Model {
    fn put(&mut self, k: &[u8], id: u32, n: usize) {
        self.m.insert(k.to_vec(), (id, n, self.clock));
    }
    fn fit(&mut self) {
        let Some(max) = self.limit else { return };
        while self.m.values().map(|v| v.1 as u64).sum::<u64>() > max {
            let k = self.m.iter().min_by_key(|(_, v)| v.2).unwrap().0.clone();
            self.m.remove(&k);
        }
    }
    pub fn apply(&mut self, op: &Op, id: u32) {
        self.clock += 1;
        match *op {
            Put(k, n) | PutFile(k, n) | PutPieces(k, n) => self.put(k, id, n),
            Batch(vs) => {
                for (j, &(k, n)) in vs.iter().enumerate() {
                    self.put(k, id + j as u32, n);
                }
            }
            Del(k) => {
                self.m.remove(k);
            }
            DelPrefix(p) => self.m.retain(|k, _| !k.starts_with(p)),
            MovePrefix(a, b) => {
                let sel: Vec<Vec<u8>> = self.m.keys().filter(|k| k.starts_with(a)).cloned().collect();
                if sel.iter().all(|k| !self.m.contains_key(&[b, &k[a.len()..]].concat())) {
                    for k in sel {
                        let v = self.m.remove(&k).unwrap();
                        self.m.insert([b, &k[a.len()..]].concat(), v);
                    }
                }
            }
            Rename(a, b) => {
                if !self.m.contains_key(b) {
                    if let Some(v) = self.m.remove(a) {
                        self.m.insert(b.to_vec(), v);
                    }
                }
            }
            BatchRename(a, b) => {
                if let Some(v) = self.m.get(a).cloned() {
                    if v.1 > 0 {
                        self.m.remove(a);
                        self.m.insert(b.to_vec(), (v.0, v.1, self.clock));
                    }
                }
            }
            Get(k) => {
                let c = self.clock;
                if let Some(v) = self.m.get_mut(k) {
                    v.2 = c;
                }
            }
            Snap => {
                let c = self.clock;
                for v in self.m.values_mut() {
                    v.2 = c;
                }
            }
            Limit(n) => self.limit = Some(n),
            Reopen => self.limit = None,
            OldVersion => self.m.clear(),
            _ => return,
        }
        self.fit();
    }
}

/// The real side of an operation.
pub struct Real {
    pub dir: std::path::PathBuf,
    pub h: *mut Handle,
    pub held: Vec<Box<dyn std::any::Any>>,
    /// What reads have to return.
    pub expect: Vec<(Vec<u8>, Vec<u8>)>,
    /// Extents that have to be given back.
    pub reclaim: Vec<Loc>,
    pub tag: &'static str,
}
unsafe impl Send for Real {}
impl Real {
    pub fn h(&self) -> &'static mut Handle {
        unsafe { &mut *self.h }
    }
    pub fn open(dir: &Path) -> Real {
        Real { dir: dir.to_owned(), h: open(dir), held: vec![], expect: vec![], reclaim: vec![], tag: "C10" }
    }
    pub fn close(&mut self) {
        let d = self.h().get_value_puncher_done();
        drop(unsafe { Box::from_raw(self.h) });
        self.h = std::ptr::null_mut();
        d.wait();
    }
    pub fn apply(&mut self, op: &Op, id: u32) {
        if let Err(e) = self.try_apply(op, id) {
            // Taken or missing keys.
            if !matches!(op, Rename(..) | MovePrefix(..)) {
                fail!("error", "{op:?} failed: {e}");
            }
        }
    }
    pub fn try_apply(&mut self, op: &Op, id: u32) -> Result<(), String> {
        sched::tick_ms(13);
        ev!("==== op {:?}", op);
        sched::shared().ops += 1;
        let r = self.try_apply_inner(op, id).map_err(|e| trim(&format!("{e:?}")));
        ev!("==== result {:?}", r);
        r
    }
    fn try_apply_inner(&mut self, op: &Op, id: u32) -> anyhow::Result<()> {
        if self.h.is_null() {
            self.h = Box::into_raw(Box::new(Handle::new(self.dir.clone())?));
            return Ok(());
        }
        let h = self.h();
        match *op {
            Put(k, n) => {
                let (w, c) = h.single_write_from(k.to_vec(), &vbytes(id, n)[..])?;
                must!(self.tag, w == n as u64 && c.count() == 1, "write of {n} bytes reports {w} bytes and {} values", c.count());
            }
            PutPieces(k, n) => {
                let b = vbytes(id, n);
                let mut bw = h.new_writer()?;
                let mut v = bw.new_value().begin()?;
                v.write_all(&b[..n / 3])?;
                v.copy_from(&b[n / 3..n / 2])?;
                v.copy_from(&b[n / 2..])?;
                bw.stage_write(k.to_vec(), v)?;
                bw.commit()?;
            }
            PutFile(k, n) => {
                let p = self.dir.parent().unwrap().join(format!("src-{id}"));
                let mut f = quiet(|| {
                    std::fs::write(&p, vbytes(id, n)).unwrap();
                    std::fs::File::open(&p).unwrap()
                });
                let r = h.clone_from_file(k.to_vec(), &mut f);
                quiet(|| std::fs::remove_file(&p).unwrap());
                must!(self.tag, r? == n as u64, "cloning {n} bytes reports another length");
            }
            Batch(vs) => {
                let mut bw = h.new_writer()?;
                for (j, &(k, n)) in vs.iter().enumerate() {
                    let mut v = bw.new_value().begin()?;
                    v.write_all(&vbytes(id + j as u32, n))?;
                    bw.stage_write(k.to_vec(), v)?;
                }
                bw.commit()?;
            }
            Stage(k, n) => {
                let mut bw = h.new_writer()?;
                let mut v = bw.new_value().begin()?;
                v.write_all(&vbytes(id, n))?;
                bw.stage_write(k.to_vec(), v)?;
                self.held.push(Box::new(bw));
            }
            Del(k) => {
                let r = h.single_delete(k)?.map(|s| s.size);
                self.expected(&format!("deleting {}", esc(k)), k, r);
            }
            DelPrefix(p) => h.delete_prefix(p)?,
            MovePrefix(a, b) => h.move_prefix(a, b)?,
            Rename(a, b) => {
                h.rename_item(a, b)?;
            }
            BatchRename(a, b) => {
                let mut r = h.read()?;
                let v = r.add(a)?;
                r.begin()?;
                self.expected(&format!("reading {}", esc(a)), a, v.as_ref().map(|v| v.length()));
                if let Some(v) = v {
                    let mut bw = h.new_writer()?;
                    bw.rename_value(v, b.to_vec());
                    bw.commit()?;
                }
            }
            Get(k) => {
                let v = h.read_single(k)?;
                self.expected(&format!("reading {}", esc(k)), k, v.as_ref().map(|v| v.length()));
                if let Some(v) = v {
                    let b = v.view(|b| b.to_vec())?;
                    if let Some((_, want)) = self.expect.iter().find(|x| x.0 == k) {
                        must!(self.tag, b == *want, "reading {}: {}", esc(k), diff(&b, want));
                    }
                }
            }
            List(p) => {
                let l: Vec<_> = h.list_items(p)?.into_iter().map(|i| (i.key, i.value.length())).collect();
                if !self.expect.is_empty() {
                    let want: Vec<_> = self.expect.iter().filter(|x| x.0.starts_with(p)).map(|x| (x.0.clone(), x.1.len() as u64)).collect();
                    must!(self.tag, l == want, "listing {} reports {l:?}, expected {want:?}", esc(p));
                }
            }
            Snap => {
                let ks: Vec<Vec<u8>> = ok("list_items", quiet(|| h.list_items(b""))).into_iter().map(|i| i.key).collect();
                let mut r = h.read()?;
                let mut vs = vec![];
                for k in ks {
                    if let Some(v) = r.add(&k)? {
                        vs.push((k, v));
                    }
                }
                let s = r.begin()?;
                for (k, v) in vs {
                    let v = s.value(v);
                    let b = v.view(|b| b.to_vec())?;
                    if let Some((_, want)) = self.expect.iter().find(|x| x.0 == k) {
                        must!(self.tag, b == *want, "snapshot of {}: {}", esc(&k), diff(&b, want));
                    }
                    self.held.push(Box::new(v));
                }
            }
            DropSnap => self.held.clear(),
            Limit(n) => h.set_instance_limits(possum::Limits { max_value_length_sum: Some(n), disable_hole_punching: false })?,
            Settle(ms) => sched::settle_ms(ms),
            Cleanup => h.cleanup_snapshots()?,
            Reopen => {
                self.held.clear();
                if !self.h.is_null() {
                    self.close();
                }
                self.h = Box::into_raw(Box::new(Handle::new(self.dir.clone())?));
            }
            OldVersion => {
                self.held.clear();
                self.close();
                quiet(|| {
                    let c = rusqlite::Connection::open(self.dir.join("manifest.db")).unwrap();
                    c.pragma_update(None, "user_version", 2).unwrap();
                });
                self.h = Box::into_raw(Box::new(Handle::new(self.dir.clone())?));
            }
            ref o => panic!("src: {o:?}"),
        }
        Ok(())
    }
    /// Checks the length that an operation that reports success finds a key with.
    fn expected(&self, what: &str, k: &[u8], got: Option<u64>) {
        if !self.expect.is_empty() {
            let want = self.expect.iter().find(|x| x.0 == k).map(|x| x.1.len() as u64);
            must!(self.tag, got == want, "{what} finds a value of length {got:?}, the key has {want:?}");
        }
    }
    fn journaled(&mut self, thread: u8, i: usize, k: u8, op: &Op) {
        log_ack(BEGIN, thread, i as u8, k);
        self.apply(op, vid(thread, k));
        log_ack(END, thread, i as u8, k);
    }
}
fn crash_on() {
    sched::g().crash_mask = 0b111110;
}

/// Recomputes what the journal allows: the stores, and for each which operations in flight took effect.
fn allowed(ops: &[Op]) -> Vec<(Model, Vec<([u8; 3], bool)>)> {
    let sh = sched::shared();
    let recs: Vec<[u8; 4]> = sh.ack[..sh.ack_len as usize].chunks(4).map(|c| c.try_into().unwrap()).collect();
    let mut pending: Vec<[u8; 3]> = vec![];
    let mut m = Model::default();
    for r in &recs {
        let x = [r[1], r[2], r[3]];
        match r[0] {
            BEGIN => pending.push(x),
            END => {
                pending.retain(|p| *p != x);
                m.apply(&ops[x[1] as usize], vid(x[0], x[2]));
            }
            DONE => {
                pending.retain(|p| *p != x);
                m.limit = None;
                m.apply(&ops[x[1] as usize], vid(x[0], x[2]));
            }
            LOST => pending.retain(|p| *p != x),
            _ => unreachable!(),
        }
    }
    let mut out = vec![];
    for mask in 0..1u32 << pending.len() {
        let mut n = m.clone();
        let mut how = vec![];
        for (i, p) in pending.iter().enumerate() {
            let y = mask >> i & 1 == 1;
            if y {
                n.apply(&ops[p[1] as usize], vid(p[0], p[2]));
            }
            how.push((*p, y));
        }
        out.push((n, how));
    }
    out
}
pub fn show(m: &M) -> String {
    m.iter().map(|(k, v)| format!("{}: value {} of {} bytes", esc(k), v.0, v.1)).collect::<Vec<_>>().join(", ")
}
/// Compares the whole store with a model; the first difference.
pub fn compare(h: &Handle, m: &M) -> Result<(), String> {
    let items = h.list_items(b"").map_err(|e| format!("listing fails: {e:?}"))?;
    let got: Vec<(Vec<u8>, u64)> = items.iter().map(|i| (i.key.clone(), i.value.length())).collect();
    let want: Vec<(Vec<u8>, u64)> = m.iter().map(|(k, v)| (k.clone(), v.1 as u64)).collect();
    if got != want {
        return Err(format!("the store lists {}", got.iter().map(|(k, n)| format!("{}:{n}", esc(k))).collect::<Vec<_>>().join(" ")));
    }
    for (k, v) in m {
        let r = h.read_single(k).map_err(|e| format!("reading {} fails: {e:?}", esc(k)))?;
        let r = r.ok_or(format!("{} reads as absent", esc(k)))?;
        let b = r.view(|b| b.to_vec()).map_err(|e| format!("reading {} fails: {e:?}", esc(k)))?;
        let w = vbytes(v.0, v.1);
        if b != w {
            return Err(format!("{}: {}", esc(k), diff(&b, &w)));
        }
    }
    let mut e: Vec<(String, u64, u64)> = items.iter().filter_map(|i| loc_of(&i.value)).collect();
    e.sort();
    for w in e.windows(2) {
        if w[0].0 == w[1].0 && w[0].1 + w[0].2 > w[1].1 {
            return Err(format!("values share storage: {:?} {:?}", w[0], w[1]));
        }
    }
    Ok(())
}
fn recover(d: &Path, ops: &[Op], again: bool) {
    remap("C10");
    if again {
        crash_on();
    }
    let al = allowed(ops);
    let mut r = Real::open(d);
    r.apply(&Cleanup, 0);
    no_snapshots(d);
    let mut errs = vec![];
    let mut which = None;
    quiet(|| {
        for (i, (m, _)) in al.iter().enumerate() {
            match compare(r.h(), &m.m) {
                Ok(()) => {
                    which = Some(i);
                    break;
                }
                Err(e) => errs.push(format!("{e}; expected {}", show(&m.m))),
            }
        }
    });
    let Some(i) = which else { fail!("C10", "after a crash the store is neither what was acknowledged nor that with the change in flight: {}", errs.join(" / or: ")) };
    sched::digest(i as u64);
    let mut m = al[i].0.clone();
    m.limit = None;
    for (x, y) in &al[i].1 {
        log_ack(if *y { DONE } else { LOST }, x[0], x[1], x[2]);
    }
    let mut k = 200u8 - sched::shared().ack.iter().take(sched::shared().ack_len as usize).skip(1).step_by(4).filter(|&&t| t == 9).count() as u8;
    // The store works: cleanup, overwrite, add, delete, reclaim, reopen.
    for op in [Cleanup, Put(A, 6000), Put(b"r", 5000), Settle(1500), Del(B), Put(C, 100), Settle(2500), Cleanup, Reopen] {
        k -= 1;
        let i = ops.iter().position(|o| *o == op).expect("src: recovery operation in the table");
        r.journaled(9, i, k, &op);
        m.apply(&op, vid(9, k));
        if let Err(e) = quiet(|| compare(r.h(), &m.m)) {
            fail!("C10", "after a crash and recovery, after {op:?}: {e}; expected {}", show(&m.m));
        }
    }
    sched::g().crash_mask = 0;
    r.close();
    no_snapshots(d);
}
fn no_snapshots(d: &Path) {
    quiet(|| {
        for e in std::fs::read_dir(d).unwrap() {
            let n = e.unwrap().file_name().into_string().unwrap();
            must!("C10", !n.starts_with("snapshot-"), "{n} of the crashed process is left behind by a cleanup");
        }
    });
}

/// The operations, then those of the setup, then those of the recovery; unique.
fn table(ops: &[Op], setup: &[Op]) -> Arc<Vec<Op>> {
    let mut t: Vec<Op> = vec![];
    for o in ops.iter().chain(setup).chain(&[Cleanup, Put(A, 6000), Put(b"r", 5000), Settle(1500), Del(B), Put(C, 100), Settle(2500), Reopen]) {
        if !t.contains(o) {
            t.push(o.clone());
        }
    }
    Arc::new(t)
}
const L: &[(Key, usize)] = &[(A, 5000), (B, 4096), (C, 3288)];

/// Every sequence of `depth` operations; the process dies at any point of the last.
fn crash_seq(name: &str, mode: Mode, setup: Vec<Op>, ops: Vec<Op>, depth: usize, crashes: u32) -> Scenario {
    let nops = ops.len();
    let t = table(&ops, &setup);
    let (t1, t2) = (t.clone(), t);
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let mut r = Real::open(d);
        let mut k = 0;
        for op in &setup {
            let i = t1.iter().position(|o| o == op).unwrap();
            r.journaled(0, i, k, op);
            k += 1;
        }
        for j in 0..depth {
            let i = sched::data(nops);
            if j + 1 == depth {
                crash_on();
            }
            r.journaled(0, i, k, &t1[i]);
            k += 1;
        }
        // The background work of the last operation.
        sched::settle_ms(1500);
        r.held.clear();
        r.close();
        sched::g().crash_mask = 0;
    })
    .crashes(crashes, move |d| recover(d, &t2, crashes > 1))
    .strict()
}
fn crash_conc(name: &str, mode: Mode, setup: Vec<Op>, threads: Vec<Vec<Op>>, two: bool, preempt: u32) -> Scenario {
    let all: Vec<Op> = threads.iter().flatten().cloned().collect();
    let t = table(&all, &setup);
    let (t1, t2) = (t.clone(), t);
    let mut s = Scenario::new(format!("{name} {threads:?}/{}", mode.name()), mode, move |d| {
        sched::calm(true);
        let mut r = Real::open(d);
        for (k, op) in setup.iter().enumerate() {
            r.journaled(0, t1.iter().position(|o| o == op).unwrap(), k as u8, op);
        }
        let second = if two { Some(Real::open(d)) } else { None };
        sched::calm(false);
        crash_on();
        let mut js = vec![];
        for (n, ops) in threads.iter().enumerate() {
            let h = if n == 1 { second.as_ref().map_or(r.h, |s| s.h) } else { r.h };
            let mut me = Real { dir: d.to_owned(), h, held: vec![], expect: vec![], reclaim: vec![], tag: "C10" };
            let ops = ops.clone();
            let t1 = t1.clone();
            js.push(std::thread::spawn(move || {
                let mut me = { me.held.clear(); me };
                for (k, op) in ops.iter().enumerate() {
                    me.journaled(n as u8 + 1, t1.iter().position(|o| o == op).unwrap(), k as u8, op);
                }
                drop(me);
            }));
        }
        for j in js {
            j.join().unwrap();
        }
        sched::settle_ms(1500);
        sched::g().crash_mask = 0;
        sched::calm(true);
        if let Some(mut s) = second {
            s.close();
        }
        r.close();
    })
    .crashes(1, move |d| recover(d, &t2, false))
    .strict();
    s.bounds[sched::PREEMPT as usize] = preempt;
    s.total += preempt;
    s
}
/// The process dies while the store is created, or while an older one is reset.
fn crash_open(name: &str, mode: Mode, old: bool, crashes: u32) -> Scenario {
    let t = table(&[], &[]);
    let mut s = Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        if old {
            let mut r = Real::open(d);
            r.apply(&Batch(L), 1);
            r.close();
            quiet(|| {
                let c = rusqlite::Connection::open(d.join("manifest.db")).unwrap();
                c.pragma_update(None, "user_version", 2).unwrap();
            });
        }
        crash_on();
        let mut r = Real::open(d);
        sched::g().crash_mask = 0;
        r.close();
    })
    .crashes(crashes, move |d| recover(d, &t, crashes > 1))
    .strict();
    s.template = false;
    s
}

pub fn c22(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for mode in ALL_MODES {
        scs.push(crash_open("create", mode, false, t.pick(1, 2)));
        scs.push(crash_open("old-version", mode, true, t.pick(1, 2)));
    }
    scs
}

pub fn c10(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for mode in ALL_MODES {
        scs.push(crash_open("create", mode, false, t.pick(1, 2)));
        scs.push(crash_open("old-version", mode, true, t.pick(1, 2)));
        let ops = vec![
            Put(A, 5000), Put(A, 0), Put(b"n", 9000), PutFile(B, 5000), Batch(&[(A, 3000), (b"n", 5192)]), Del(A), Del(B), DelPrefix(b""), MovePrefix(b"a", b"m"), Rename(A, b"z"), BatchRename(A, C), Get(A),
            Snap, Limit(6000), Reopen, Stage(A, 6000),
        ];
        scs.push(crash_seq("one", mode, vec![Batch(L)], ops.clone(), 1, 1));
        let few = vec![Put(A, 5000), Del(A), Del(C), Snap, BatchRename(A, C), Batch(&[(A, 3000), (b"n", 5192)]), Limit(6000), Stage(A, 6000)];
        scs.push(crash_seq("two", mode, vec![Batch(L)], few.clone(), 2, 1));
        if t == Tier::Thorough {
            scs.push(crash_seq("two-all", mode, vec![Batch(L)], ops.clone(), 2, 1));
            scs.push(crash_seq("three", mode, vec![Batch(L)], few, 3, 1));
        }
        let twice = vec![Put(A, 5000), Batch(&[(A, 3000), (b"n", 5192)]), Del(C), Snap];
        scs.push(crash_seq("again", mode, vec![Batch(L)], twice, 1, 2));
        // The background work gets ahead of the operation.
        for op in [Del(A), Del(C), Put(B, 5000), DelPrefix(b""), BatchRename(A, C)] {
            scs.push(crash_conc("ahead", mode, vec![Batch(L)], vec![vec![op]], false, t.pick(1, 2)));
        }
        for two in [false, true] {
            let n = if two { "conc2" } else { "conc" };
            scs.push(crash_conc(n, mode, vec![Batch(L)], vec![vec![Put(A, 5000)], vec![Del(C)]], two, t.pick(0, 1)));
            scs.push(crash_conc(n, mode, vec![Batch(L)], vec![vec![Batch(&[(A, 3000), (b"n", 5192)])], vec![Del(C), Put(C, 4097)]], two, t.pick(0, 1)));
            scs.push(crash_conc(n, mode, vec![Batch(L)], vec![vec![Put(A, 5000)], vec![Snap]], two, t.pick(0, 1)));
        }
    }
    scs
}
