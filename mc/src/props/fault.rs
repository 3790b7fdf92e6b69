//! C11: file operations and sources of writes fail or are cut short.
use super::crash::{compare, show, Model, Real};
use crate::explore::*;
use crate::rt::sched::{self, quiet};
use crate::util::*;
use crate::world::*;
use crate::{ev, fail, must, Tier};
use possum::Handle;
use std::io::{Read, Write};
use std::path::Path;
use Op::*;

const A: Key = b"a";
const B: Key = b"b";
const C: Key = b"c";
const L: &[(Key, usize)] = &[(A, 5000), (B, 4096), (C, 3288)];

fn faults(on: bool) {
    sched::g().fault_mask = if on { 0b111110 } else { 0 };
}
fn expect(m: &Model) -> Vec<(Vec<u8>, Vec<u8>)> {
    m.m.iter().map(|(k, v)| (k.clone(), vbytes(v.0, v.1))).collect()
}
/// Applies an operation that must work.
fn must_work(r: &mut Real, m: &mut Model, op: &Op, id: u32, when: &str) {
    let before = m.m.clone();
    m.apply(op, id);
    r.expect = vec![];
    if let Err(e) = r.try_apply(op, id) {
        let legit = matches!(op, Rename(..) | MovePrefix(..)) && before.keys().eq(m.m.keys());
        must!("C11", legit, "{when}, {op:?} fails: {e}");
        m.m = before;
    }
    if let Err(e) = quiet(|| compare(r.h(), &m.m)) {
        fail!("C11", "{when}, after {op:?}: {e}; expected {}", show(&m.m));
    }
}
/// The handle still works, including its background work.
fn aftermath(r: &mut Real, m: &mut Model, d: &Path) {
    let when = "after the failure has passed";
    m.limit = None;
    ok("set_instance_limits", r.h().set_instance_limits(Default::default()));
    if m.m.is_empty() || r.h().block_size() == 0 {
        sched::digest(3);
    }
    let mut id = 5000;
    for op in [Put(A, 6000), Batch(&[(b"x", 3000), (b"y", 9192)]), Snap, Put(b"w", 1), DropSnap, Settle(2500), Del(b"x"), Del(b"y"), Cleanup] {
        id += 8;
        must_work(r, m, &op, id, when);
    }
    // Reclaiming still works: y lies in one file and had whole blocks.
    sched::settle_ms(3500);
    reclaimed(d, &r.reclaim, when);
    r.reclaim.clear();
    must_work(r, m, &Reopen, id + 8, when);
    must_work(r, m, &Put(C, 100), id + 16, when);
    r.held.clear();
    r.close();
}
fn reclaimed(d: &Path, what: &[Loc], when: &str) {
    for l in what {
        let Some((_, data)) = data_regions(&d.join(&l.0)) else { continue };
        let (a, b) = (l.1.div_ceil(BS as u64) * BS as u64, (l.1 + l.2) / BS as u64 * BS as u64);
        must!("C11", a >= b || !has_data(&data, a, b), "{when}, a value at {l:?} was deleted and its storage is not given back");
    }
}
fn locs(h: &Handle, k: &[u8]) -> Option<Loc> {
    quiet(|| h.list_items(k).ok()?.iter().find(|i| i.key == k).and_then(|i| loc_of(&i.value)))
}

/// What a second handle, that does not see any failures, does.
#[derive(Clone, Copy, PartialEq)]
enum Others {
    None,
    Look,
    /// Writes before each operation, so that the first handle has to read the manifest again.
    Write,
}
fn fault_seq(name: &str, mode: Mode, setup: Vec<Op>, ops: Vec<Op>, depth: usize, n: u32, others: Others) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let mut r = Real::open(d);
        r.tag = "C11";
        let mut m = Model::default();
        for (k, op) in setup.iter().enumerate() {
            r.apply(op, 1 + k as u32 * 8);
            m.apply(op, 1 + k as u32 * 8);
        }
        sched::digest(1);
        let mut other = if others != Others::None { Some(Real::open(d)) } else { None };
        for j in 0..depth {
            let op = &ops[sched::data(ops.len())];
            let id = 1000 + j as u32 * 8;
            if others == Others::Write {
                must_work(other.as_mut().unwrap(), &mut m, &Put(b"o", 10), id + 7, "on another handle");
            }
            let before = m.clone();
            let mut after = m.clone();
            after.apply(op, id);
            r.expect = expect(&m);
            let f0 = sched::shared().nfaults;
            faults(true);
            let res = r.try_apply(op, id);
            if r.h.is_null() {
                // Opening failed.
                faults(false);
                must!("C11", res.is_err(), "no handle");
                ok("opening again after a failure", r.try_apply(&Reopen, 0));
                faults(true);
            }
            // Background work of the operation.
            sched::settle_ms(1200);
            faults(false);
            if matches!(op, Limit(_)) {
                // The limit may be in force even if applying it failed; reading would evict.
                ok("set_instance_limits", quiet(|| r.h().set_instance_limits(Default::default())));
                after.limit = None;
            }
            let faulted = sched::shared().nfaults > f0;
            let mut errs = vec![];
            // A failing rename or move that has nothing to move or nowhere to go reports so.
            let noop = before.m.keys().eq(after.m.keys()) && matches!(op, Rename(..) | MovePrefix(..));
            let cands: Vec<&Model> = match &res {
                Ok(()) => vec![&after],
                Err(e) => {
                    must!("C11", faulted || noop, "{op:?} fails without any failure of I/O: {e}");
                    vec![&after, &before]
                }
            };
            let mut which = None;
            for c in &cands {
                match quiet(|| compare(r.h(), &c.m)) {
                    Ok(()) => {
                        which = Some((*c).clone());
                        break;
                    }
                    Err(e) => errs.push(format!("{e}; expected {}", show(&c.m))),
                }
            }
            let Some(c) = which else { fail!("C11", "{op:?} returned {res:?} and left something else: {}", errs.join(" / or: ")) };
            m = c;
            if let Some(o) = &mut other {
                if let Err(e) = quiet(|| compare(o.h(), &m.m)) {
                    fail!("C11", "after {op:?} returned {res:?}, another handle sees: {e}; expected {}", show(&m.m));
                }
            }
            if res.is_err() && faulted {
                if matches!(op, Limit(_)) {
                    continue;
                }
                must_work(&mut r, &mut m, op, id + 4, "tried again after a failure");
            }
        }
        sched::digest(m.m.len() as u64);
        // Their storage has to be reclaimed in the end.
        r.held.clear();
        r.reclaim = [A, B, C].iter().filter_map(|k| locs(r.h(), k)).collect();
        for (i, k) in [A, B, C].iter().enumerate() {
            must_work(&mut r, &mut m, &Del(k), 4000 + i as u32 * 8, "after the failure has passed");
        }
        if let Some(mut o) = other {
            let id = 4400;
            must_work(&mut o, &mut m, &Put(b"o", 5000), id, "on another handle after the failure has passed");
            o.close();
        }
        aftermath(&mut r, &mut m, d);
    })
    .faults(n)
    .strict()
}

/// A source that fails.
struct Src<'a> {
    b: &'a [u8],
    /// Bytes left before the failure.
    fail_in: Option<usize>,
    interrupts: bool,
    max: usize,
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupts {
            self.interrupts = false;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.fail_in == Some(0) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "source failed"));
        }
        let n = self.b.len().min(buf.len()).min(self.max).min(self.fail_in.unwrap_or(usize::MAX));
        buf[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        if let Some(f) = &mut self.fail_in {
            *f -= n;
        }
        Ok(n)
    }
}

fn src(b: &[u8], kind: usize) -> Src {
    let n = b.len();
    let (fail_in, interrupts, max) = match kind {
        0 => (None, false, usize::MAX),
        1 => (Some(0), false, usize::MAX),
        2 => (Some(1), false, usize::MAX),
        3 => (Some(n / 2), false, usize::MAX),
        4 => (Some(n), false, usize::MAX),
        5 => (None, true, 1000),
        6 => (Some(n / 2), true, 777),
        _ => (Some(4096.min(n)), false, 4096),
    };
    Src { b, fail_in, interrupts, max }
}

/// Values built in several steps out of sources that fail, in every way of going on.
fn writer_steps(name: &str, mode: Mode, kinds: &'static [usize], values: usize, n: u32, with_faults: bool) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let mut r = Real::open(d);
        r.tag = "C11";
        let mut m = Model::default();
        r.apply(&Batch(L), 1);
        m.apply(&Batch(L), 1);
        let h = r.h();
        let mut bw = ok("new_writer", h.new_writer());
        let keys: &[Key] = &[A, b"n", B];
        let mut staged = vec![];
        let mut id = 100;
        'value: for k in keys.iter().take(values) {
            let mut tries = 0;
            'again: loop {
                tries += 1;
                if tries > 3 {
                    break 'value;
                }
                let (p, q) = (vbytes(id, 5000), vbytes(id + 1, 4500));
                id += 2;
                faults(with_faults);
                let v = bw.new_value().begin();
                faults(false);
                let Ok(mut v) = v else { continue 'again };
                let mut want: Vec<u8> = vec![];
                // Steps: a copy, and a copy or write.
                let mut doubtful = false;
                for (s, piece) in [p, q].iter().enumerate() {
                    let mut kind = if tries == 1 { kinds[sched::data(kinds.len())] } else { 0 };
                    let mut attempts = 0;
                    loop {
                        attempts += 1;
                        faults(with_faults && attempts == 1);
                        let res = if s == 1 && kind == 9 { v.write_all(piece).map(|_| piece.len() as u64).map_err(|e| trim(&format!("{e:?}"))) } else { v.copy_from(src(piece, kind)).map_err(|e| trim(&format!("{e:?}"))) };
                        faults(false);
                        ev!("piece {} kind {} -> {:?}", s, kind, res);
                        match res {
                            Ok(n) => {
                                must!("C11", n == piece.len() as u64, "copying {} bytes reports {n}", piece.len());
                                must!("C11", !matches!(kind, 1 | 2 | 3 | 4 | 6 | 7), "copying from a failing source succeeds");
                                want.extend_from_slice(piece);
                                break;
                            }
                            Err(_) => {
                                if s == 1 && kind == 9 {
                                    // A failed write_all leaves an unknown part: the value cannot be used.
                                    drop(v);
                                    continue 'again;
                                }
                                match sched::data(3) {
                                    0 => {
                                        // The same piece again, from a source that works.
                                        kind = 0;
                                        doubtful |= !want.is_empty();
                                        if attempts > 2 {
                                            fail!("C11", "copying fails again after the failure has passed");
                                        }
                                    }
                                    1 => {
                                        drop(v);
                                        continue 'again;
                                    }
                                    _ => {
                                        // Stage what there is.
                                        doubtful = true;
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                let l = v.value_length();
                if !doubtful {
                    must!("C11", l.as_ref().ok() == Some(&(want.len() as u64)), "value length {l:?} after {} bytes", want.len());
                }
                faults(with_faults);
                let res = bw.stage_write(k.to_vec(), v).map_err(|e| trim(&format!("{e:?}")));
                faults(false);
                ev!("stage -> {:?}", res);
                match res {
                    Ok(()) => {
                        staged.push((k.to_vec(), want));
                        break 'again;
                    }
                    Err(e) => must!("C11", doubtful || sched::shared().nfaults > 0, "staging a complete value fails: {e}"),
                }
            }
        }
        faults(with_faults);
        let res = bw.commit().map(|c| c.count()).map_err(|e| trim(&format!("{e:?}")));
        sched::settle_ms(1200);
        faults(false);
        let mut want: std::collections::BTreeMap<Vec<u8>, Vec<u8>> = m.m.iter().map(|(k, v)| (k.clone(), vbytes(v.0, v.1))).collect();
        let old = want.clone();
        let n = staged.len();
        want.extend(staged);
        let got = quiet(|| contents(h));
        match res {
            Ok(c) => {
                must!("C11", c == n, "commit of {n} values reports {c}");
                must!("C11", got == want, "after commit: {}", differ(&got, &want));
            }
            Err(e) => {
                must!("C11", sched::shared().nfaults > 0, "commit fails: {e}");
                must!("C11", got == want || got == old, "after failed commit: {}", differ(&got, &want));
            }
        }
        // Everything goes on working.
        let mut m = Model::default();
        ok("delete_prefix", h.delete_prefix(b""));
        m.apply(&DelPrefix(b""), 0);
        aftermath(&mut r, &mut m, d);
    })
    .faults(n)
    .strict()
}
/// Bytes handed to `write` again whenever it says that it took none of them.
fn write_loop(mode: Mode, n: u32) -> Scenario {
    Scenario::new(format!("write-loop/{}", mode.name()), mode, move |d| {
        let mut r = Real::open(d);
        r.tag = "C11";
        let mut m = Model::default();
        r.apply(&Batch(L), 1);
        m.apply(&Batch(L), 1);
        let h = r.h();
        let mut bw = ok("new_writer", h.new_writer());
        for k in [A, b"n"] {
            let id = 100 + k[0] as u32;
            let b = vbytes(id, 9000);
            let mut v = ok("begin", bw.new_value().begin());
            let mut at = 0;
            let mut errs = 0;
            while at < b.len() {
                faults(true);
                let res = v.write(&b[at..b.len().min(at + 5000)]);
                faults(false);
                match res {
                    Ok(0) => fail!("C11", "writing takes nothing"),
                    Ok(n) => at += n,
                    Err(e) => {
                        errs += 1;
                        must!("C11", errs <= sched::shared().nfaults, "writing fails again after the failure has passed: {}", trim(&format!("{e:?}")));
                    }
                }
                let l = v.value_length();
                must!("C11", l.as_ref().ok() == Some(&(at as u64)), "value length {l:?} after {at} bytes");
            }
            ok("stage_write", bw.stage_write(k.to_vec(), v));
            m.m.insert(k.to_vec(), (id, 9000, 0));
        }
        ok("commit", bw.commit());
        if let Err(e) = quiet(|| compare(r.h(), &m.m)) {
            fail!("C11", "after writing in pieces: {e}; expected {}", show(&m.m));
        }
        aftermath(&mut r, &mut m, d);
    })
    .faults(n)
    .strict()
}
fn contents(h: &Handle) -> std::collections::BTreeMap<Vec<u8>, Vec<u8>> {
    let mut m = std::collections::BTreeMap::new();
    for i in ok("list_items", h.list_items(b"")) {
        let v = ok("read_single", h.read_single(&i.key)).unwrap();
        m.insert(i.key, ok("view", v.view(|b| b.to_vec())));
    }
    m
}
fn differ(got: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>, want: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> String {
    if !got.keys().eq(want.keys()) {
        return format!("keys {:?} instead of {:?}", got.keys().map(|k| esc(k)).collect::<Vec<_>>(), want.keys().map(|k| esc(k)).collect::<Vec<_>>());
    }
    got.iter().filter(|(k, v)| *v != &want[*k]).map(|(k, v)| format!("{}: {}", esc(k), diff(v, &want[k]))).collect::<Vec<_>>().join("; ")
}

pub fn c11(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for mode in ALL_MODES {
        let ops = vec![
            Put(A, 5000), Put(A, 0), Put(b"n", 9000), PutPieces(A, 9000), PutFile(B, 5000), Batch(&[(A, 3000), (b"n", 5192)]), Del(A), Del(B), DelPrefix(b""), MovePrefix(b"a", b"m"), Rename(A, b"z"),
            BatchRename(A, C), Get(A), Get(C), List(b""), Snap, Limit(6000), Reopen, Stage(A, 6000), Cleanup,
        ];
        scs.push(fault_seq("one", mode, vec![Batch(L)], ops.clone(), 1, t.pick(1, 2), Others::None));
        scs.push(fault_seq("held", mode, vec![Batch(L), Snap, Put(A, 7000)], vec![DropSnap, Cleanup, Get(A), Reopen, Del(A)], 1, t.pick(1, 2), Others::None));
        let few = vec![Put(A, 5000), Del(A), Del(C), Snap, DropSnap, BatchRename(A, C), Batch(&[(A, 3000), (b"n", 5192)]), Get(A), PutFile(B, 5000)];
        scs.push(fault_seq("two", mode, vec![Batch(L)], few.clone(), 2, t.pick(1, 2), Others::None));
        scs.push(fault_seq("other", mode, vec![Batch(L)], few.clone(), 1, t.pick(1, 2), Others::Look));
        let mut cold = ops.clone();
        cold.retain(|o| !matches!(o, Stage(..) | Reopen | Put(A, 0) | Del(B) | Get(C)));
        scs.push(fault_seq("cold", mode, vec![Batch(L)], cold, 1, t.pick(1, 2), Others::Write));
        if t == Tier::Thorough {
            scs.push(fault_seq("two-all", mode, vec![Batch(L)], ops.clone(), 2, 1, Others::None));
            scs.push(fault_seq("three", mode, vec![Batch(L)], few, 3, 1, Others::None));
        }
        scs.push(write_loop(mode, t.pick(2, 3)));
        scs.push(writer_steps("sources", mode, &[0, 1, 2, 3, 4, 5, 6, 7], 1, 0, false));
        scs.push(writer_steps("sources-two", mode, t.pick(&[0, 3, 6], &[0, 1, 3, 4, 6, 7]), t.pick(2, 2), 0, false));
        scs.push(writer_steps("writers", mode, &[0, 9, 3], t.pick(1, 2), t.pick(1, 2), true));
    }
    scs
}


