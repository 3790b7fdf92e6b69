//! C15 storing whole files, C16 partial reads, C17 holes, C18 range locks: all inputs of small domains.
use crate::explore::*;
use crate::rt::sched::{self, data, quiet};
use crate::util::*;
use crate::world::*;
use crate::{fail, must, Tier};
use positioned_io::ReadAt;
use possum::sys::seekhole::{file_regions, Iter, RegionType};
use possum::sys::{punchfile, FileLocking, FlockArg};
use possum::{check_hole, Handle, SnapshotValue, Value};
use std::collections::BTreeSet;
use std::fs::{File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::fs::FileExt;
use std::path::Path;
use Op::*;

const A: Key = b"a";
const B: Key = b"b";
const C: Key = b"c";

// ---------------------------------------------------------------- C15

fn read_all(h: &Handle, k: &[u8]) -> Option<Vec<u8>> {
    let v = ok("read_single", h.read_single(k))?;
    let want = ok("view", v.view(|b| b.to_vec()));
    check_snap_value(&["C15"], &format!("value of {}", esc(k)), &v, &want);
    must!("C15", v.length() == want.len() as u64, "length {} of a value of {} bytes", v.length(), want.len());
    Some(want)
}
fn values_files(d: &Path) -> BTreeSet<String> {
    quiet(|| {
        std::fs::read_dir(d)
            .unwrap()
            .map(|e| e.unwrap().file_name().to_string_lossy().into_owned())
            .filter(|n| n.starts_with("values-"))
            .collect()
    })
}
fn used_files(h: &Handle) -> BTreeSet<String> {
    quiet(|| ok("list_items", h.list_items(b"")).iter().filter_map(|i| loc_of(&i.value)).map(|l| l.0).collect())
}

/// Whether someone has the file for writing.
fn locked(p: &Path) -> bool {
    use std::os::fd::AsRawFd;
    quiet(|| {
        let f = OpenOptions::new().read(true).write(true).open(p).unwrap();
        let ofd = !raw_lock(&f, libc::F_WRLCK, 0, 0);
        let fl = unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) } != 0;
        ofd || fl
    })
}

/// Contents of a source file: `holes` has a bit per block that is a hole.
fn source(p: &Path, id: u32, len: usize, holes: usize) -> Vec<u8> {
    quiet(|| {
        let f = File::create(p).unwrap();
        f.set_len(len as u64).unwrap();
        let mut want = vec![0; len];
        let all = vbytes(id, len);
        for k in 0..len.div_ceil(BS) {
            if k > 63 || holes >> k & 1 == 0 {
                let r = k * BS..((k + 1) * BS).min(len);
                f.write_all_at(&all[r.clone()], r.start as u64).unwrap();
                want[r.clone()].copy_from_slice(&all[r]);
            }
        }
        want
    })
}

/// What FICLONE does although the directory was found to support cloning: 0 works.
const CLONE_FAILS: [i32; 5] = [0, libc::EOPNOTSUPP, libc::EXDEV, libc::EIO, libc::ENOSPC];

fn c15_one(name: &str, mode: Mode, lens: &'static [usize]) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let len = lens[data(lens.len())];
        let blocks = len.div_ceil(BS).min(3);
        let holes = data(1 << blocks);
        let positions = [0, 1, len / 2, len, len + 5];
        let pos = positions[data(positions.len())];
        let how = data(4);
        let fails = CLONE_FAILS[if mode == Mode::Clone { data(CLONE_FAILS.len()) } else { 0 }];
        // Read-only, for reading and appending, and already unlinked sources.
        let open_as = data(3);
        let h = unsafe { &mut *open(d) };
        ok("write", h.single_write_from(A.to_vec(), &vbytes(1, 5000)[..]));
        let p = d.parent().unwrap().join("source");
        let want = source(&p, 2, len, holes);
        let mut f = quiet(|| {
            let mut o = OpenOptions::new();
            o.read(true);
            if open_as == 1 {
                o.append(true);
            }
            let mut f = o.open(&p).unwrap();
            if open_as == 2 {
                std::fs::remove_file(&p).unwrap();
            }
            f.seek(SeekFrom::Start(pos as u64)).unwrap();
            f
        });
        let before = values_files(d);
        sched::g().clone_fails = fails;
        // Something staged next to it.
        let mut other = None;
        let r: anyhow::Result<u64> = (|| {
            if how == 0 {
                return Ok(h.clone_from_file(B.to_vec(), &mut f)?);
            }
            let mut w = h.new_writer()?;
            if how == 2 {
                let mut v = w.new_value().begin()?;
                v.write_all(&vbytes(3, 3000))?;
                w.stage_write(C.to_vec(), v)?;
            }
            let mut v = w.new_value().clone_file(&mut f)?;
            let mut n = v.value_length()?;
            if how == 3 {
                // More bytes follow the cloned ones.
                v.write_all(&vbytes(4, 777))?;
                must!("C15", v.value_length()? == n + 777, "777 bytes written after cloning make {} of {n}", v.value_length()?);
                n = v.value_length()? - 777;
            }
            w.stage_write(B.to_vec(), v)?;
            if how == 2 {
                let mut v = w.new_value().begin()?;
                v.write_all(&vbytes(5, 4097))?;
                w.stage_write(b"d".to_vec(), v)?;
                other = Some(());
            }
            let c = w.commit()?;
            must!("C15", c.count() == if how == 2 { 3 } else { 1 }, "{} values committed", c.count());
            Ok(n)
        })();
        sched::g().clone_fails = 0;
        sched::shared().ops += 1;
        let unsupported = matches!(fails, 0 | libc::EOPNOTSUPP | libc::EXDEV);
        match &r {
            Ok(n) => must!("C15", *n == len as u64, "storing a file of {len} bytes reports {n}"),
            Err(e) => must!("C15", !unsupported, "storing a file of {len} bytes failed: {}", trim(&format!("{e:?}"))),
        }
        // The source is as it was.
        let (l, now) = quiet(|| {
            let mut b = vec![0xEE; len + 50];
            let n = FileExt::read_at(&f, &mut b, 0).unwrap();
            b.truncate(n);
            (f.metadata().unwrap().len(), b)
        });
        must!("C15", l == len as u64 && now == want, "the source file changed: {}", diff(&now, &want));
        let mut full = want.clone();
        if how == 3 {
            full.extend(vbytes(4, 777));
        }
        let check = |h: &Handle, when: &str| {
            let got = read_all(h, B);
            match (&r, got) {
                (Ok(_), Some(g)) => must!("C15", g == full, "{when}, the stored file differs: {}", diff(&g, &full)),
                (Ok(_), None) => fail!("C15", "{when}, the stored file is missing"),
                (Err(_), Some(g)) => must!("C15", g == full, "{when}, a failed call left other contents: {}", diff(&g, &full)),
                (Err(_), None) => {}
            }
            must!("C15", read_all(h, A) == Some(vbytes(1, 5000)), "{when}, another value changed");
            if other.is_some() && r.is_ok() {
                must!("C15", read_all(h, C) == Some(vbytes(3, 3000)), "{when}, a value staged before the file differs");
                must!("C15", read_all(h, b"d") == Some(vbytes(5, 4097)), "{when}, a value staged after the file differs");
            }
        };
        check(h, "right after");
        let snap = ok("read_single", h.read_single(B));
        if unsupported {
            let used = used_files(h);
            for n in values_files(d) {
                // The file of an empty value holds nothing; the handle may keep a file to write to.
                if !before.contains(&n) && !used.contains(&n) && !full.is_empty() && !locked(&d.join(&n)) {
                    fail!("C15", "values file {n} was left behind, holds nothing and nobody has it");
                }
            }
        }
        // Later changes to the source do not show.
        if open_as != 2 {
            quiet(|| {
                let g = OpenOptions::new().write(true).open(&p).unwrap();
                g.write_all_at(&vec![0x55; len + 100], 0).unwrap();
            });
            check(h, "after overwriting the source");
            quiet(|| OpenOptions::new().write(true).open(&p).unwrap().set_len(1).unwrap());
            check(h, "after truncating the source");
        }
        // Nor do later writes to the store.
        for k in [b"x", b"y"] {
            ok("write", h.single_write_from(k.to_vec(), &vbytes(9, 4100)[..]));
        }
        check(h, "after more writes");
        ok("delete", h.single_delete(b"x"));
        ok("delete", h.single_delete(A));
        ok("write", h.single_write_from(A.to_vec(), &vbytes(1, 5000)[..]));
        sched::settle_ms(1500);
        check(h, "after deletes and reclaiming");
        if let Some(s) = snap {
            check_snap_value(&["C15"], "a snapshot of the stored file", &s, &full);
        }
        let done = h.get_value_puncher_done();
        drop(unsafe { Box::from_raw(h as *mut Handle) });
        done.wait();
        let h = unsafe { Box::from_raw(open(d)) };
        check(&h, "after reopening");
        sched::digest(hash(format!("{len} {holes} {pos} {how} {fails} {}", r.is_ok()).as_bytes()));
    })
    .preempt(0)
    .strict()
}

pub fn c15(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    const QUICK: &[usize] = &[0, 1, 4095, 4096, 4097, 8192, 12289];
    const ALL: &[usize] = &[0, 1, 2, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, 12287, 12288, 12289, 65535, 65536, 65537, 262145];
    for mode in ALL_MODES {
        scs.push(c15_one("file", mode, t.pick(QUICK, ALL)));
        scs.push(c15_one("large-file", mode, t.pick(&[(1 << 20) + 1], &[1 << 20, (1 << 20) + 1, 5 << 20])));
    }
    // As one of many operations, also when random file names collide with existing ones.
    for mode in ALL_MODES {
        for collide in [false, true] {
            let o = Opts { read_all: true, collide, ..Default::default() };
            let ops = vec![
                PutFile(A, 5000), PutFile(B, 8192), PutFile(A, 0), Put(A, 5000), Put(C, 100), Stage(B, 6000), Commit, Abort, Del(A), Snap, Second, Reopen, Settle(1500),
            ];
            scs.push(super::seq::seq(if collide { "collide" } else { "ops" }, mode, o, vec![Put(A, 4097)], ops, t.pick(3, 4)));
        }
    }
    scs
}

// ---------------------------------------------------------------- C16

const FILL: u8 = 0;

/// Every way of reading `want` out of a snapshot value.
fn reads(what: &str, v: &SnapshotValue<Value>, want: &[u8], positions: &[u64], sizes: &[usize]) {
    let n = want.len() as u64;
    for &len in sizes {
        for &pos in positions {
            let mut b = vec![FILL; len];
            let r = v.read_at(pos, &mut b);
            let avail = n.saturating_sub(pos).min(len as u64) as usize;
            match r {
                Err(e) => fail!("C16", "{what}: read_at({pos}, {len} bytes) of a value of {n} bytes failed: {e}"),
                Ok(k) => {
                    must!("C16", k == avail, "{what}: read_at({pos}, {len} bytes) of a value of {n} bytes returned {k} instead of {avail}");
                    let w = if avail > 0 { &want[pos as usize..][..avail] } else { &[] };
                    must!("C16", &b[..k] == w, "{what}: read_at({pos}, {len} bytes) of a value of {n} bytes: {}", diff(&b[..k], w));
                    must!("C16", b[k..].iter().all(|&x| x == FILL), "{what}: read_at({pos}, {len} bytes) of a value of {n} bytes exposes bytes past its end");
                }
            }
            sched::shared().ops += 1;
        }
        let mut b = vec![FILL; len];
        match v.read(&mut b) {
            Err(e) => fail!("C16", "{what}: read({len} bytes) of a value of {n} bytes failed: {e}"),
            Ok(k) => {
                let w = &want[..want.len().min(len)];
                must!("C16", &b[..k] == w, "{what}: read({len} bytes) of a value of {n} bytes: {}", diff(&b[..k], w));
                must!("C16", b[k..].iter().all(|&x| x == FILL), "{what}: read({len} bytes) of a value of {n} bytes exposes bytes past its end");
            }
        }
        // Sequentially, in pieces of this size.
        if len > 0 && want.len() / len < 3000 {
            let mut r = v.new_reader();
            let mut got = vec![];
            loop {
                let mut b = vec![FILL; len];
                match r.read(&mut b) {
                    Err(e) => fail!("C16", "{what}: reading a value of {n} bytes in pieces of {len} failed: {e}"),
                    Ok(0) => break,
                    Ok(k) => {
                        must!("C16", b[k..].iter().all(|&x| x == FILL), "{what}: reading in pieces of {len} exposes bytes past the end");
                        got.extend(&b[..k])
                    }
                }
                must!("C16", got.len() <= want.len(), "{what}: reading a value of {n} bytes in pieces of {len} returns {} bytes and goes on", got.len());
            }
            must!("C16", got == want, "{what}: reading in pieces of {len}: {}", diff(&got, want));
        }
    }
    let r = v.view(|b| {
        must!("C16", b == want, "{what}: view: {}", diff(b, want));
        // Reading by other means meanwhile.
        let mut x = vec![FILL; 5];
        let k = ok("read_at within a view", v.read_at(0, &mut x));
        must!("C16", x[..k] == want[..want.len().min(5)], "{what}: read_at within a view");
        let again = ok("view within a view", v.view(|c| c == want));
        must!("C16", again, "{what}: view within a view differs");
    });
    ok("view", r);
    must!("C16", v.length() == n, "{what}: length {} instead of {n}", v.length());
}
fn extremes(n: u64, p: &mut Vec<u64>) {
    p.extend([n + 4096, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - n, u64::MAX - 1, u64::MAX]);
}

/// The value read lies between others: every position and size.
fn c16_small(name: &str, mode: Mode, max: usize) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let n = data(max + 1);
        let around = data(4);
        let snap = data(4);
        let h = unsafe { Box::from_raw(open(d)) };
        let mut w = ok("new_writer", h.new_writer());
        let mut put = |k: &[u8], id: u32, n: usize| {
            let mut v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&vbytes(id, n)));
            ok("stage", w.stage_write(k.to_vec(), v));
        };
        if around & 1 != 0 {
            put(A, 1, 5);
        }
        put(B, 2, n);
        if around & 2 != 0 {
            put(C, 3, 9);
        }
        ok("commit", w.commit());
        let v: SnapshotValue<Value> = match snap {
            0 => ok("read_single", h.read_single(B)).unwrap(),
            _ => {
                let mut r = ok("read", h.read());
                let mut vs: Vec<Value> = vec![];
                // Alone, after and before other values of the file.
                let keys: &[Key] = [&[B] as &[Key], &[A, C, B], &[B, C, A, B]][snap - 1];
                let mut at = 0;
                for k in keys {
                    if let Some(v) = ok("add", r.add(k)) {
                        if *k == B {
                            at = vs.len();
                        }
                        vs.push(v);
                    }
                }
                let s = ok("begin", r.begin());
                s.value(vs[at].clone())
            }
        };
        let mut p: Vec<u64> = (0..=n as u64 + 12).collect();
        extremes(n as u64, &mut p);
        let sizes: Vec<usize> = (0..=n + 12).chain([4096]).collect();
        reads(&format!("{n} bytes, neighbours {around}, snapshot {snap}"), &v, &vbytes(2, n), &p, &sizes);
        sched::digest(hash(&[n as u8, around as u8, snap as u8]));
    })
    .preempt(0)
}
/// Around block boundaries.
fn c16_blocks(name: &str, mode: Mode, t: Tier, large: bool) -> Scenario {
    const LENS: &[usize] = &[1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000];
    const OFFS: &[usize] = &[0, 1, 100, 4095, 4096, 4097, 8192];
    const LARGE: &[usize] = &[65536, 131_073, 1 << 20, (1 << 20) + 1, (2 << 20) + 4095];
    const LARGE_OFFS: &[usize] = &[0, 100, 65536, 1 << 20];
    let (lens, offs) = if large { (LARGE, LARGE_OFFS) } else { (LENS, OFFS) };
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let n = lens[data(lens.len())];
        let off = offs[data(offs.len())];
        let after = [0, 1, 5000][data(3)];
        let h = unsafe { Box::from_raw(open(d)) };
        let mut w = ok("new_writer", h.new_writer());
        for (k, id, n) in [(A, 1, off), (B, 2, n), (C, 3, after)] {
            let mut v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&vbytes(id, n)));
            ok("stage", w.stage_write(k.to_vec(), v));
        }
        ok("commit", w.commit());
        let mut r = ok("read", h.read());
        let vs: Vec<Value> = [A, B, C].iter().map(|k| ok("add", r.add(k)).unwrap()).collect();
        let s = ok("begin", r.begin());
        let mut p: Vec<u64> = vec![0, 1, 2, 95, 96, 4094, 4095, 4096, 4097, 8191, 8192, 8193];
        let m = n as u64;
        p.extend([m.saturating_sub(2), m - 1, m, m + 1, m + 2]);
        extremes(m, &mut p);
        let mut sizes: Vec<usize> = vec![0, 1, 2, 4095, 4096, 4097, 8192, 12289, n - 1, n, n + 1, 2 * n + 4096];
        if large {
            p = vec![0, 1, 4097, 65535, 65536, 65537, 131_071, 131_072, m - 65536, m - 1, m, m + 1, u64::MAX];
            sizes = vec![1, 4096, 65535, 65536, 65537, 131_072, 131_073, n - 65535, n - 1, n, n + 1];
        }
        let b = s.value(vs[1].clone());
        reads(&format!("{n} bytes at {off}, followed by {after}"), &b, &vbytes(2, n), &p, &sizes);
        // Views of neighbours within each other.
        let a = s.value(vs[0].clone());
        let c = s.value(vs[2].clone());
        let r = b.view(|x| a.view(|y| c.view(|z| (x == vbytes(2, n), y == vbytes(1, off), z == vbytes(3, after)))));
        must!("C16", matches!(r, Ok(Ok(Ok((true, true, true))))), "nested views of {off}, {n} and {after} bytes differ");
        if t == Tier::Thorough {
            reads("the value before", &a, &vbytes(1, off), &p, &sizes);
            reads("the value after", &c, &vbytes(3, after), &p, &sizes);
        }
        // All of it again once everything else of the file has been deleted and given back, and the value
        // replaced.
        for k in [A, B, C] {
            ok("delete", h.single_delete(k));
        }
        ok("write", h.single_write_from(B.to_vec(), &vbytes(8, n)[..]));
        sched::settle_ms(1500);
        reads("after deleting", &b, &vbytes(2, n), &p, &[0, 1, 4096, n, n + 1]);
        drop(h);
        reads("after closing the handle", &b, &vbytes(2, n), &[0, 1, m - 1, m], &[1, n, n + 1]);
    })
    .preempt(0)
}
/// Several threads read values of one file at once, by every means.
fn c16_threads(name: &str, mode: Mode, pre: u32) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let means = [data(4), data(4)];
        let same = data(2) == 1;
        let h = unsafe { Box::from_raw(open(d)) };
        sched::calm(true);
        let mut w = ok("new_writer", h.new_writer());
        for (k, id, n) in [(A, 1, 5000), (B, 2, 300)] {
            let mut v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&vbytes(id, n)));
            ok("stage", w.stage_write(k.to_vec(), v));
        }
        ok("commit", w.commit());
        let mut r = ok("read", h.read());
        let vs: Vec<Value> = [A, B].iter().map(|k| ok("add", r.add(k)).unwrap()).collect();
        let s = ok("begin", r.begin());
        sched::calm(false);
        let mut ths = vec![];
        for t in 0..2 {
            let (id, n, at) = if t == 0 || same { (1, 5000, 0) } else { (2, 300, 1) };
            let v = s.value(vs[at].clone());
            let m = means[t];
            ths.push(std::thread::spawn(move || {
                let want = vbytes(id, n);
                let mut b = vec![FILL; 200];
                for _ in 0..2 {
                    let (got, want) = match m {
                        0 => {
                            let k = ok("read", v.read(&mut b));
                            (b[..k].to_vec(), &want[..200])
                        }
                        1 => {
                            let k = ok("read_at", v.read_at(100, &mut b));
                            (b[..k].to_vec(), &want[100..n.min(300)])
                        }
                        2 => (ok("view", v.view(|b| b.to_vec())), &want[..]),
                        _ => {
                            let mut got = vec![];
                            ok("reader", v.new_reader().take(250).read_to_end(&mut got));
                            (got, &want[..250])
                        }
                    };
                    must!("C16", got == want, "reading at once with another thread (means {m}): {}", diff(&got, want));
                }
            }));
        }
        drop((s, h));
        for t in ths {
            t.join().unwrap();
        }
    })
    .preempt(pre)
}

/// A store of an older version is opened while snapshots and a value writer of it are still in use.
pub fn c22_old(mode: Mode, pre: u32) -> Scenario {
    Scenario::new(format!("old-in-use/{}", mode.name()), mode, move |d| {
        let what = data(4);
        sched::calm(true);
        let h = unsafe { Box::from_raw(open(d)) };
        let put = |w: &mut possum::BatchWriter<&Handle>, k: &[u8], id: u32, n: usize| {
            let mut v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&vbytes(id, n)));
            ok("stage", w.stage_write(k.to_vec(), v));
        };
        // Two files.
        let (mut w1, mut w2) = (ok("new_writer", h.new_writer()), ok("new_writer", h.new_writer()));
        put(&mut w1, A, 1, 5000);
        put(&mut w2, B, 2, 300);
        put(&mut w1, C, 3, 100);
        ok("commit", w1.commit());
        ok("commit", w2.commit());
        let mut r = ok("read", h.read());
        let keys: &[&[u8]] = [&[A, B][..], &[A], &[B], &[]][what];
        let vs: Vec<Value> = keys.iter().map(|k| ok("add", r.add(k)).unwrap()).collect();
        let s = ok("begin", r.begin());
        let held: Vec<(SnapshotValue<Value>, Vec<u8>)> =
            vs.into_iter().zip(keys).map(|(v, k)| (s.value(v), if *k == A { vbytes(1, 5000) } else { vbytes(2, 300) })).collect();
        drop(s);
        let begun = (what == 3).then(|| {
            let mut w = ok("new_writer", h.new_writer());
            let mut v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&vbytes(4, 50)));
            v
        });
        let done = h.get_value_puncher_done();
        drop(h);
        done.wait();
        quiet(|| {
            let c = rusqlite::Connection::open(d.join("manifest.db")).unwrap();
            c.pragma_update(None, "user_version", 2).unwrap();
        });
        sched::calm(false);
        let files = move |d: &Path| -> Vec<String> {
            quiet(|| std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).filter(|n| n.starts_with("values-")).collect())
        };
        let before = files(d);
        let t = std::thread::spawn(move || {
            for (v, want) in held {
                crate::world::check_snap_value(&["C22", "C03"], "a snapshot of an older version", &v, &want);
                drop(v);
            }
            drop(begun);
        });
        let h = unsafe { Box::from_raw(open(d)) };
        let left: Vec<String> = files(d).into_iter().filter(|f| before.contains(f)).collect();
        must!("C22", left.is_empty(), "values files of the older version are left: {left:?}");
        let l = ok("list_items", h.list_items(b""));
        must!("C22", l.is_empty(), "the store of an older version isn't empty: {} items", l.len());
        t.join().unwrap();
        let (n, _) = ok("write", h.single_write_from(A.to_vec(), &vbytes(5, 200)[..]));
        must!("C22", n == 200, "{n} bytes written");
        let v = ok("read_single", h.read_single(A)).unwrap();
        crate::world::check_snap_value(&["C22"], "a value of the new store", &v, &vbytes(5, 200));
        sched::digest(what as u64);
    })
    .preempt(pre)
}

/// Values and offsets beyond 2 and 4 GiB (sparse, so that they cost nothing): contents at their ends and around
/// the powers of two, sizes, neighbours, snapshots, and what deleting gives back.
pub fn giant(name: &str, mode: Mode) -> Scenario {
    const LENS: &[u64] = &[(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 4097, (3 << 32) + 1];
    const OFFS: &[usize] = &[0, 100, 8192];
    const END: u64 = 5000;
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let n = LENS[data(LENS.len())];
        let off = OFFS[data(OFFS.len())];
        let clone = mode == Mode::Clone && off == 0 && data(2) == 1;
        let when = format!("a value of {n} bytes at {off}{}", if clone { ", cloned from a file" } else { "" });
        let h = unsafe { Box::from_raw(open(d)) };
        let mut w = ok("new_writer", h.new_writer());
        let small = |w: &mut possum::BatchWriter<&Handle>, k: &[u8], id: u32, n: usize| {
            let mut v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&vbytes(id, n)));
            ok("stage", w.stage_write(k.to_vec(), v));
        };
        if off > 0 {
            small(&mut w, A, 1, off);
        }
        // Both ends of the value have content, the rest of it is a hole.
        let head = vbytes(2, END as usize);
        let tail = vbytes(3, END as usize);
        let mut v;
        if clone {
            let p = d.parent().unwrap().join("giant");
            let mut f = quiet(|| {
                let f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p).unwrap();
                f.write_all_at(&head, 0).unwrap();
                f.write_all_at(&tail, n - END).unwrap();
                f
            });
            v = ok("clone_file", w.new_value().clone_file(&mut f));
            quiet(|| std::fs::remove_file(&p).unwrap());
        } else {
            v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&head));
            let f = ok("get_file", v.get_file());
            quiet(|| f.set_len(off as u64 + n - END).unwrap());
            ok("write", v.write_all(&tail));
        }
        let l = ok("value_length", v.value_length());
        must!("C01", l == n, "{when}: value_length {l}");
        ok("stage", w.stage_write(B.to_vec(), v));
        small(&mut w, C, 4, 9000);
        ok("commit", w.commit());
        let want = |o: u64, len: usize| -> Vec<u8> {
            (o..(o + len as u64).min(n)).map(|i| if i < END { head[i as usize] } else if i >= n - END { tail[(i - (n - END)) as usize] } else { 0 }).collect()
        };
        let neighbours = |h: &Handle, tag: &'static str, at: &str| {
            for (k, id, len) in [(A, 1, off), (C, 4, 9000)] {
                if len > 0 {
                    match ok("read_single", h.read_single(k)) {
                        None => fail!("C01", "{when}, {at}: its neighbour {} is absent", esc(k)),
                        Some(v) => {
                            let mut b = vec![];
                            ok("read_to_end", v.new_reader().read_to_end(&mut b));
                            must!(tag, b == vbytes(id, len), "{when}, {at}: its neighbour {} changed: {}", esc(k), diff(&b, &vbytes(id, len)));
                        }
                    }
                }
            }
        };
        let listing = |h: &Handle, tag: &'static str, at: &str, there: bool| {
            let l = ok("list_items", h.list_items(b""));
            let got: Vec<(Vec<u8>, u64)> = l.iter().map(|i| (i.key.clone(), i.value.length())).collect();
            let want: Vec<(Vec<u8>, u64)> = [(A, off as u64), (B, if there { n } else { 0 }), (C, 9000)].iter().filter(|x| x.1 > 0).map(|x| (x.0.to_vec(), x.1)).collect();
            must!(tag, got == want, "{when}, {at}: the listing is {got:?} instead of {want:?}");
            let sum = ok("sum", possum::ReadTransaction::sum_value_length(&*ok("tx", h.start_deferred_transaction_for_read())));
            must!("C14", sum == want.iter().map(|x| x.1).sum::<u64>(), "{when}, {at}: the accounted total is {sum}");
        };
        let giga = |v: &SnapshotValue<Value>, tag: &'static str, at: &str| {
            let mut ps = vec![0, 1, END - 3, n - END - 3, n - END, n - 7, n - 1, n, n + 1, n + (1 << 32), u64::MAX];
            for p in [31, 32, 33] {
                for back in [off as u64 + 3, 3] {
                    ps.push((1u64 << p) - back);
                    ps.push((1u64 << p) - back + 3);
                }
            }
            for o in ps {
                for len in [1usize, 7, 6000] {
                    let w = if o < n { want(o, len) } else { vec![] };
                    let mut b = vec![FILL; len];
                    match v.read_at(o, &mut b) {
                        Err(e) => fail!(tag, "{when}, {at}: read_at({o}, {len} bytes) failed: {e}"),
                        Ok(k) => {
                            must!(tag, k == w.len() && b[..k] == w[..], "{when}, {at}: read_at({o}, {len} bytes): {}", diff(&b[..k.min(len)], &w));
                            must!(tag, b[k..].iter().all(|&x| x == FILL), "{when}, {at}: read_at({o}, {len} bytes) wrote past its result");
                        }
                    }
                }
            }
            must!(tag, v.length() == n, "{when}, {at}: length {}", v.length());
            let mut b = vec![0; 300];
            ok("read", v.new_reader().read_exact(&mut b));
            must!(tag, b == head[..300], "{when}, {at}: sequential reader: {}", diff(&b, &head[..300]));
            let r = v.view(|b| {
                must!(tag, b.len() as u64 == n, "{when}, {at}: a view of {} bytes", b.len());
                let m = b.len() - END as usize;
                b[..6000] == want(0, 6000)[..] && b[m - 5..] == want(m as u64 - 5, END as usize + 5)[..]
            });
            match r {
                Err(e) => fail!(tag, "{when}, {at}: view failed: {e}"),
                Ok(same) => must!(tag, same, "{when}, {at}: a view differs"),
            }
        };
        listing(&h, "C01", "committed", true);
        neighbours(&h, "C01", "committed");
        let s = ok("read_single", h.read_single(B)).unwrap();
        let loc = loc_of(&s).unwrap();
        giga(&s, if clone { "C15" } else { "C16" }, "committed");
        let st = ok("single_delete", h.single_delete(B));
        must!("C01", st.is_some_and(|s| s.size == n), "{when}: deleting it reports another size");
        sched::settle_ms(1500);
        giga(&s, "C03", "deleted with a snapshot");
        listing(&h, "C01", "deleted", false);
        neighbours(&h, "C04", "deleted with a snapshot");
        drop(s);
        sched::settle_ms(3500);
        neighbours(&h, "C04", "given back");
        if let Some((_, regions)) = data_regions(&d.join(&loc.0)) {
            let bs = BS as u64;
            let (a, b) = (loc.1.div_ceil(bs) * bs, (loc.1 + loc.2) / bs * bs);
            must!("C05", !has_data(&regions, a, b), "{when}: its blocks are still allocated: {regions:?}");
        }
        // More values, far out in the file.
        let mut w = ok("new_writer", h.new_writer());
        small(&mut w, B, 5, 20000);
        small(&mut w, b"d", 6, 300);
        ok("commit", w.commit());
        ok("single_delete", h.single_delete(b"d"));
        ok("single_delete", h.single_delete(B));
        sched::settle_ms(3500);
        neighbours(&h, "C04", "after more values");
        let done = h.get_value_puncher_done();
        drop(h);
        done.wait();
        let h = unsafe { Box::from_raw(open(d)) };
        neighbours(&h, "C22", "reopened");
        listing(&h, "C22", "reopened", false);
        sched::digest(hash(&[n.trailing_zeros() as u8, off as u8]));
    })
    .preempt(0)
    .strict()
}
pub fn giants() -> Vec<Scenario> {
    ALL_MODES.into_iter().map(|m| giant("giant", m)).collect()
}

pub fn c16(t: Tier) -> Vec<Scenario> {
    let mut scs = giants();
    for mode in ALL_MODES {
        scs.push(c16_small("small", mode, t.pick(24, 64)));
        scs.push(c16_blocks("blocks", mode, t, false));
        scs.push(c16_blocks("large", mode, t, true));
        scs.push(c16_threads("threads", mode, t.pick(1, 3)));
    }
    scs
}

// ---------------------------------------------------------------- C17

/// A file whose blocks are data where the bit is set; `tail` bytes follow the whole blocks.
fn layout(p: &Path, blocks: usize, alloc: usize, tail: usize, tail_data: bool) -> (File, Vec<u8>) {
    let f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
    let len = blocks * BS + tail;
    let mut c = vec![0; len];
    f.set_len(len as u64).unwrap();
    for k in 0..=blocks {
        let r = k * BS..((k + 1) * BS).min(len);
        if r.is_empty() || !(if k < blocks { alloc >> k & 1 == 1 } else { tail_data }) {
            continue;
        }
        let b = vbytes(50 + k as u32, r.len());
        f.write_all_at(&b, r.start as u64).unwrap();
        c[r].copy_from_slice(&b);
    }
    (f, c)
}
/// Whether each block (the last may be partial) is data, found without the code under check.
fn truth(f: &File, len: usize) -> Vec<bool> {
    use std::os::fd::AsRawFd;
    (0..len.div_ceil(BS))
        .map(|k| {
            let d = unsafe { libc::lseek64(f.as_raw_fd(), (k * BS) as i64, libc::SEEK_DATA) };
            d == (k * BS) as i64
        })
        .collect()
}
fn want_regions(t: &[bool], len: usize) -> Vec<(RegionType, u64, u64)> {
    let mut v: Vec<(RegionType, u64, u64)> = vec![];
    for (k, &d) in t.iter().enumerate() {
        let (s, e) = ((k * BS) as u64, ((k + 1) * BS).min(len) as u64);
        let ty = if d { RegionType::Data } else { RegionType::Hole };
        match v.last_mut() {
            Some(l) if l.0 == ty => l.2 = e,
            _ => v.push((ty, s, e)),
        }
    }
    v
}
fn c17_one(name: &str, max: usize, all_sub: bool) -> Scenario {
    Scenario::new(name, Mode::Seg, move |d| {
        let blocks = data(max + 1);
        let tails = [(0, false), (1, true), (100, false), (100, true), (4095, false), (4095, true)];
        let (tail, td) = tails[data(tails.len())];
        let d = d.to_owned();
        sched::shared().ops += 1;
        quiet(|| {
            let p = d.parent().unwrap().join("holes");
            for alloc in 0..1usize << blocks {
                let what = format!("{blocks} blocks, data {alloc:0w$b}, {tail} more bytes ({})", if td { "data" } else { "hole" }, w = blocks);
                let (mut f, content) = layout(&p, blocks, alloc, tail, td);
                let len = content.len();
                let t = truth(&f, len);
                let regions_ok = |f: &mut File, t: &[bool], when: &str| {
                    for start in [0u64, 1, len as u64, 4096] {
                        f.seek(SeekFrom::Start(start)).unwrap();
                        let got: Vec<_> = ok("file_regions", file_regions(f)).iter().map(|r| (r.region_type, r.start, r.end)).collect();
                        let want = want_regions(t, len);
                        must!("C17", got == want, "{what}, {when}: file_regions returns {got:?} instead of {want:?}");
                        let got: Vec<_> = Iter::new(f).map(|r| ok("Iter", r)).map(|r| (r.region_type, r.start, r.end, r.length())).collect();
                        must!("C17", got.iter().all(|r| r.2 - r.1 == r.3), "{what}, {when}: a length differs in {got:?}");
                        must!("C17", got.iter().map(|r| (r.0, r.1, r.2)).eq(want.iter().cloned()), "{what}, {when}: Iter returns {got:?} instead of {want:?}");
                    }
                };
                regions_ok(&mut f, &t, "fresh");
                let check = |f: &mut File, t: &[bool], when: &str| {
                    let mut offs: BTreeSet<u64> = BTreeSet::new();
                    for k in 0..=blocks + 1 {
                        let b = (k * BS) as u64;
                        offs.extend([b, b + 1, b + 2048, b + 4095]);
                    }
                    offs.insert(len as u64);
                    let offs: Vec<u64> = offs.into_iter().collect();
                    for (i, &a) in offs.iter().enumerate() {
                        for &b in &offs[i + 1..] {
                            let any = (0..t.len()).any(|k| t[k] && ((k * BS) as u64) < b && ((k + 1) * BS).min(len) as u64 > a);
                            let r = check_hole(f, a, b - a);
                            must!("C17", r.is_ok() != any, "{what}, {when}: check_hole of {a}..{b} returns {r:?}, data there: {any}");
                        }
                    }
                };
                check(&mut f, &t, "fresh");
                let end = blocks + if tail > 0 { 1 } else { 0 };
                for i in 0..=end {
                    for j in i + 1..=end + 1 {
                        if !all_sub && (i + j + alloc) % 2 == 1 && j != i + 1 {
                            continue;
                        }
                        let (mut f, mut c) = layout(&p, blocks, alloc, tail, td);
                        f.seek(SeekFrom::Start(7)).unwrap();
                        let when = format!("punched {}..{}", i * BS, j * BS);
                        ok("punchfile", punchfile(&f, (i * BS) as u64, ((j - i) * BS) as u64));
                        must!("C17", f.metadata().unwrap().len() == len as u64, "{what}, {when}: the length became {}", f.metadata().unwrap().len());
                        let lim = (j * BS).min(len);
                        if i * BS < lim {
                            c[i * BS..lim].fill(0);
                        }
                        let mut got = vec![1; len];
                        FileExt::read_exact_at(&f, &mut got, 0).unwrap();
                        must!("C17", got == c, "{what}, {when}: {}", diff(&got, &c));
                        let mut t2 = t.clone();
                        for k in i..j.min(t2.len()) {
                            t2[k] = false;
                        }
                        let now = truth(&f, len);
                        must!("C17", now == t2, "{what}, {when}: data blocks {now:?} instead of {t2:?}");
                        regions_ok(&mut f, &t2, &when);
                        check(&mut f, &t2, &when);
                    }
                }
                sched::digest(hash(what.as_bytes()));
            }
        });
    })
    .preempt(0)
}
/// Sparse files of several GiB: blocks of data around multiples of one GiB.
fn c17_far(cells: usize) -> Scenario {
    const G: u64 = 1 << 30;
    const B: u64 = BS as u64;
    Scenario::new("far", Mode::Seg, move |d| {
        let alloc = data(1 << cells);
        let before = data(2) == 1;
        let end = [0, 1, B, G - B][data(4)];
        let d = d.to_owned();
        sched::shared().ops += 1;
        quiet(|| {
            let p = d.parent().unwrap().join("holes");
            let len = cells as u64 * G + end;
            // Data at the start of a GiB, or just before it.
            let place = |k: usize| (k as u64 + 1) * G - if before { B } else { 0 };
            let make = || {
                let f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p).unwrap();
                f.set_len(len).unwrap();
                for k in (0..cells).filter(|k| alloc >> k & 1 == 1) {
                    let n = (len.saturating_sub(place(k))).min(B);
                    f.write_all_at(&vbytes(k as u32, n as usize), place(k)).unwrap();
                }
                f
            };
            let looks = |f: &mut File, there: &[usize], when: &str| {
                let mut want = vec![];
                let mut o = 0;
                for &k in there {
                    let (a, b) = (place(k), (place(k) + B).min(len));
                    if a >= b {
                        continue;
                    }
                    if a > o {
                        want.push((RegionType::Hole, o, a));
                    }
                    want.push((RegionType::Data, a, b));
                    o = b;
                }
                if o < len {
                    want.push((RegionType::Hole, o, len));
                }
                let got: Vec<_> = ok("file_regions", file_regions(f)).iter().map(|r| (r.region_type, r.start, r.end)).collect();
                must!("C17", got == want, "{when}: file_regions returns {got:?} instead of {want:?}");
                for &k in there {
                    let n = (len.saturating_sub(place(k))).min(B) as usize;
                    let mut b = vec![0; n];
                    FileExt::read_exact_at(f, &mut b, place(k)).unwrap();
                    must!("C17", b == vbytes(k as u32, n), "{when}: data at {} changed", place(k));
                }
                let mut offs: Vec<u64> = vec![0, 1];
                for k in 0..cells {
                    offs.extend([place(k) - B, place(k), place(k) + 1, place(k) + B]);
                }
                for (i, &a) in offs.iter().enumerate() {
                    for &b in &offs[i + 1..] {
                        let any = want.iter().any(|r| r.0 == RegionType::Data && r.1 < b && r.2 > a);
                        let r = check_hole(f, a, b - a);
                        must!("C17", r.is_ok() != any, "{when}: check_hole of {a}..{b} returns {r:?}, data there: {any}");
                    }
                }
            };
            let there: Vec<usize> = (0..cells).filter(|k| alloc >> k & 1 == 1).collect();
            looks(&mut make(), &there, "fresh");
            for i in 0..cells {
                for j in i + 1..=cells {
                    for (a, b) in [(place(i), place(j - 1) + B), (place(i) + B, place(j) - B), (place(i) - B, place(j - 1))] {
                        if a >= b {
                            continue;
                        }
                        let mut f = make();
                        ok("punchfile", punchfile(&f, a, b - a));
                        must!("C17", f.metadata().unwrap().len() == len, "the length became {}", f.metadata().unwrap().len());
                        let left: Vec<usize> = there.iter().cloned().filter(|&k| place(k) < a || place(k) >= b).collect();
                        looks(&mut f, &left, &format!("punched {a}..{b}"));
                    }
                }
            }
            std::fs::remove_file(&p).unwrap();
        });
        sched::digest(alloc as u64 * 10 + end.min(9));
    })
    .preempt(0)
}
/// Files of a great many regions.
fn c17_many() -> Scenario {
    Scenario::new("many", Mode::Seg, move |d| {
        let blocks = [130, 500, 1100][data(3)];
        let period = 2 + data(2);
        let phase = data(period);
        let (i, j) = [(0, blocks), (0, 1), (1, 120), (63, 66), (blocks - 3, blocks), (100, 100)][data(6)];
        let d = d.to_owned();
        sched::shared().ops += 1;
        quiet(|| {
            let p = d.parent().unwrap().join("holes");
            let mut f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p).unwrap();
            let len = blocks * BS + 77;
            f.set_len(len as u64).unwrap();
            let is = |k: usize| k % period == phase;
            for k in (0..blocks).filter(|k| is(*k)) {
                f.write_all_at(&vbytes(k as u32, BS), (k * BS) as u64).unwrap();
            }
            let mut t: Vec<bool> = (0..=blocks).map(|k| k < blocks && is(k)).collect();
            let what = format!("{blocks} blocks, every {period}th with data");
            must!("C17", t == truth(&f, len), "engine: the file is not as it should be");
            for punched in [false, true] {
                if punched {
                    if i == j {
                        break;
                    }
                    ok("punchfile", punchfile(&f, (i * BS) as u64, ((j - i) * BS) as u64));
                    t[i..j].fill(false);
                }
                let got: Vec<_> = ok("file_regions", file_regions(&mut f)).iter().map(|r| (r.region_type, r.start, r.end)).collect();
                let want = want_regions(&t, len);
                must!("C17", got == want, "{what}, punched {i}..{j}: {punched}: file_regions returns {} regions instead of {}, different ones at {:?}", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
                let now = truth(&f, len);
                must!("C17", now == t, "{what}: blocks {i}..{j} punched: {punched}: different ones have data: {:?}", (0..now.len()).filter(|&k| now[k] != t[k]).collect::<Vec<_>>());
                for a in 0..blocks {
                    for n in [1, 2, 3, 64] {
                        let b = (a + n).min(blocks + 1);
                        let any = t[a..b].iter().any(|x| *x);
                        let r = check_hole(&mut f, (a * BS) as u64, ((b - a) * BS) as u64);
                        must!("C17", r.is_ok() != any, "{what}: check_hole of blocks {a}..{b} returns {r:?}, data there: {any}");
                    }
                }
                for k in (0..blocks).filter(|k| t[*k]) {
                    let mut b = vec![0; BS];
                    FileExt::read_exact_at(&f, &mut b, (k * BS) as u64).unwrap();
                    must!("C17", b == vbytes(k as u32, BS), "{what}, punched {i}..{j}: {punched}: block {k} changed");
                }
            }
            std::fs::remove_file(&p).unwrap();
        });
        sched::digest((blocks * 100 + period * 10 + phase) as u64);
    })
    .preempt(0)
}
pub fn c17(t: Tier) -> Vec<Scenario> {
    vec![c17_many(), c17_far(t.pick(5, 7)), c17_one("regions", t.pick(8, 10), true)]
}

// ---------------------------------------------------------------- C18

/// Locks are looked at in cells: [0,1), [1,2), ..., [n-1, end).
const CELLS: usize = 4;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum L {
    N,
    S,
    X,
}
use L::*;
type LState = Vec<[L; CELLS]>;

#[derive(Clone, Copy, Debug)]
enum LOp {
    Lock(usize, FlockArg, Option<u64>, u64),
    Max(usize, FlockArg),
    Trim(usize, u64, u64),
    Close(usize),
}
fn cells(len: Option<u64>, off: u64) -> std::ops::Range<usize> {
    let a = (off as usize).min(CELLS - 1);
    match len {
        None => a..CELLS,
        // The last cell stands for everything from there.
        Some(l) => a..(off + l) as usize,
    }
}
#[allow(deprecated)]
fn level(a: FlockArg) -> L {
    match a {
        FlockArg::LockShared | FlockArg::LockSharedNonblock => S,
        FlockArg::LockExclusive | FlockArg::LockExclusiveNonblock => X,
        _ => N,
    }
}
/// None: it would wait.
fn lock_model(s: &LState, op: LOp, whole: bool) -> (LState, Option<bool>) {
    let mut n = s.clone();
    let (f, arg, mut r) = match op {
        LOp::Lock(f, a, l, o) => (f, a, cells(l, o)),
        LOp::Max(f, a) => (f, a, 0..CELLS),
        LOp::Trim(f, a, b) => (f, FlockArg::Unlock, cells(Some(b - a), a)),
        LOp::Close(f) => (f, FlockArg::Unlock, 0..CELLS),
    };
    if whole {
        if matches!(op, LOp::Trim(..)) {
            return (n, Some(true));
        }
        r = 0..CELLS;
    }
    let l = level(arg);
    let clash = r.clone().any(|c| (0..s.len()).any(|g| g != f && (s[g][c] == X || s[g][c] == S && l == X) && l != N));
    if clash {
        if whole {
            // A conversion that fails gives up the lock that was held (flock(2)).
            n[f] = [N; CELLS];
        }
        let wait = matches!(arg, FlockArg::LockShared | FlockArg::LockExclusive);
        return (n, if wait { None } else { Some(false) });
    }
    n[f][r].fill(l);
    (n, Some(true))
}
/// Locks of one open file, put in place and looked at without the code under check.
fn raw_lock(f: &File, ty: i32, start: usize, len: usize) -> bool {
    use std::os::fd::AsRawFd;
    let mut l: libc::flock64 = unsafe { std::mem::zeroed() };
    l.l_type = ty as _;
    l.l_start = start as i64;
    l.l_len = len as i64;
    unsafe { libc::fcntl(f.as_raw_fd(), libc::F_OFD_SETLK, &l) == 0 }
}
fn set_state(fs: &[File], s: &LState, whole: bool) {
    use std::os::fd::AsRawFd;
    for f in fs {
        if whole {
            unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_UN) };
        } else {
            raw_lock(f, libc::F_UNLCK, 0, 0);
        }
    }
    for (k, f) in fs.iter().enumerate() {
        if whole {
            let op = match s[k][0] {
                N => continue,
                S => libc::LOCK_SH,
                X => libc::LOCK_EX,
            };
            assert_eq!(0, unsafe { libc::flock(f.as_raw_fd(), op | libc::LOCK_NB) });
            continue;
        }
        for c in 0..CELLS {
            let ty = match s[k][c] {
                N => continue,
                S => libc::F_RDLCK,
                X => libc::F_WRLCK,
            };
            assert!(raw_lock(f, ty, c, if c == CELLS - 1 { 0 } else { 1 }));
        }
    }
}
/// What another open file finds: per cell whether a shared and an exclusive lock would be granted.
fn probe(p: &File, whole: bool) -> Vec<L> {
    use std::os::fd::AsRawFd;
    (0..CELLS)
        .map(|c| {
            if whole {
                let t = |op| unsafe {
                    let r = libc::flock(p.as_raw_fd(), op | libc::LOCK_NB) == 0;
                    libc::flock(p.as_raw_fd(), libc::LOCK_UN);
                    r
                };
                return if t(libc::LOCK_EX) { N } else if t(libc::LOCK_SH) { S } else { X };
            }
            // The last cell both at its start and far out.
            let at = |start: u64| {
                let mut l: libc::flock64 = unsafe { std::mem::zeroed() };
                l.l_type = libc::F_WRLCK as _;
                l.l_start = start as i64;
                l.l_len = 1;
                unsafe { libc::fcntl(p.as_raw_fd(), libc::F_OFD_GETLK, &mut l) };
                match l.l_type as i32 {
                    libc::F_UNLCK => N,
                    libc::F_RDLCK => S,
                    _ => X,
                }
            };
            let a = at(c as u64);
            if c == CELLS - 1 {
                let b = at(1 << 40);
                must!("C18", a == b, "an unbounded range is locked at its start as {a:?} and far out as {b:?}");
            }
            a
        })
        .collect()
}
fn union(s: &LState) -> Vec<L> {
    (0..CELLS).map(|c| s.iter().map(|f| f[c]).max().unwrap()).collect()
}
/// The locks of one file alone: all others are looked past by closing them in a model-free way.
fn own(fs: &[File], p: &File, whole: bool) -> LState {
    use std::os::fd::AsRawFd;
    // Unlock one by one and look at what is left.
    let mut left = vec![probe(p, whole)];
    for f in fs {
        if whole {
            unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_UN) };
        } else {
            raw_lock(f, libc::F_UNLCK, 0, 0);
        }
        left.push(probe(p, whole));
    }
    // Exclusive locks are seen directly; of shared ones that several hold only the last to go is seen.
    left.iter().map(|l| l.clone().try_into().unwrap()).collect()
}
fn own_model(s: &LState) -> LState {
    (0..=s.len()).map(|k| if k == s.len() { [N; CELLS] } else { union(&s[k..].to_vec()).try_into().unwrap() }).collect()
}
fn all_states(files: usize, whole: bool) -> Vec<LState> {
    // Per cell: nobody, any set of sharers, or one exclusive holder.
    let mut per: Vec<Vec<L>> = vec![];
    for set in 0..1 << files {
        per.push((0..files).map(|f| if set >> f & 1 == 1 { S } else { N }).collect());
    }
    for x in 0..files {
        per.push((0..files).map(|f| if f == x { X } else { N }).collect());
    }
    let cells = if whole { 1 } else { CELLS };
    let mut out = vec![];
    for mut k in 0..per.len().pow(cells as u32) {
        let mut s = vec![[N; CELLS]; files];
        for c in 0..CELLS {
            let q = &per[k % per.len()];
            for f in 0..files {
                s[f][c] = q[f];
            }
            if !whole {
                k /= per.len();
            }
        }
        out.push(s);
    }
    out
}
#[allow(deprecated)]
fn lock_ops(files: usize) -> Vec<LOp> {
    use FlockArg::*;
    let mut v = vec![];
    for f in 0..files {
        for a in [LockSharedNonblock, LockExclusiveNonblock, LockShared, LockExclusive, Unlock, UnlockNonblock] {
            for o in 0..CELLS as u64 {
                v.push(LOp::Lock(f, a, None, o));
                for l in 1..CELLS as u64 - o {
                    v.push(LOp::Lock(f, a, Some(l), o));
                }
            }
            v.push(LOp::Max(f, a));
        }
        for a in 0..CELLS as u64 {
            for b in a..CELLS as u64 {
                v.push(LOp::Trim(f, a, b));
            }
        }
        v.push(LOp::Close(f));
    }
    v
}
/// Every operation in every state of the locks of several open files.
fn c18_states(name: &str, mode: Mode, files: usize, parts: usize) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let part = data(parts);
        let whole = mode == Mode::Flock;
        let d = d.to_owned();
        quiet(|| {
            let p = d.parent().unwrap().join("locks");
            std::fs::write(&p, b"x").unwrap();
            let open = || OpenOptions::new().read(true).write(true).open(&p).unwrap();
            let mut fs: Vec<File> = (0..files).map(|_| open()).collect();
            let prober = open();
            let states = all_states(files, whole);
            let ops = lock_ops(files);
            for (i, s) in states.iter().enumerate() {
                if i % parts != part {
                    continue;
                }
                for &op in &ops {
                    let (want, ret) = lock_model(s, op, whole);
                    // Waiting requests are the business of c18_wait.
                    let Some(ret) = ret else { continue };
                    set_state(&fs, s, whole);
                    let r = match op {
                        LOp::Lock(f, a, l, o) => fs[f].lock_segment(a, l, o),
                        LOp::Max(f, a) => fs[f].lock_max_segment(a),
                        LOp::Trim(f, a, b) => {
                            // Only files that hold an exclusive lock from there are trimmed.
                            if !whole && !(a as usize..CELLS).all(|c| s[f][c] == X) || whole && s[f][0] != X {
                                continue;
                            }
                            fs[f].trim_exclusive_lock_left(a, b)
                        }
                        LOp::Close(f) => {
                            fs[f] = open();
                            Ok(true)
                        }
                    };
                    sched::shared().ops += 1;
                    match r {
                        Err(e) => fail!("C18", "locks {s:?}: {op:?} failed: {e}"),
                        Ok(r) => must!("C18", r == ret, "locks {s:?}: {op:?} returns {r} instead of {ret}"),
                    }
                    let now = probe(&prober, whole);
                    must!("C18", now == union(&want), "locks {s:?}: after {op:?} another file finds {now:?} instead of {:?}", union(&want));
                    let who = own(&fs, &prober, whole);
                    must!("C18", who == own_model(&want), "locks {s:?}: {op:?} leaves {who:?} (all, then without the first files) instead of {:?}", own_model(&want));
                }
                sched::digest(i as u64);
            }
        });
    })
    .preempt(0)
}
/// Large offsets, and lengths that reach them.
fn c18_big() -> Scenario {
    Scenario::new("big/seg", Mode::Seg, move |d| {
        let d = d.to_owned();
        quiet(|| {
            let p = d.parent().unwrap().join("locks");
            std::fs::write(&p, b"").unwrap();
            let open = || OpenOptions::new().read(true).write(true).open(&p).unwrap();
            let pts: Vec<u64> = vec![0, 1, 4096, u32::MAX as u64 - 1, u32::MAX as u64, u32::MAX as u64 + 1, i32::MAX as u64, i32::MAX as u64 + 1, 1 << 40, i64::MAX as u64 - 1];
            let mut ranges: Vec<(u64, Option<u64>)> = vec![];
            for &a in &pts {
                ranges.push((a, None));
                for &b in &pts {
                    if b > a {
                        ranges.push((a, Some(b - a)));
                    }
                }
            }
            let end = |r: &(u64, Option<u64>)| r.1.map(|l| r.0 + l).unwrap_or(u64::MAX);
            use FlockArg::*;
            for x in &ranges {
                for y in &ranges {
                    for (la, lb) in [(LockExclusiveNonblock, LockExclusiveNonblock), (LockSharedNonblock, LockExclusiveNonblock), (LockExclusiveNonblock, LockSharedNonblock), (LockSharedNonblock, LockSharedNonblock)] {
                        let (f, g) = (open(), open());
                        must!("C18", matches!(f.lock_segment(la, x.1, x.0), Ok(true)), "first lock {x:?} was not granted");
                        let clash = x.0 < end(y) && y.0 < end(x) && !(la == LockSharedNonblock && lb == LockSharedNonblock);
                        let r = g.lock_segment(lb, y.1, y.0);
                        must!("C18", matches!(r, Ok(r) if r != clash), "one file holds {la:?} {x:?}, another asks for {lb:?} {y:?}: {r:?}");
                        sched::shared().ops += 1;
                    }
                }
            }
        });
    })
    .preempt(0)
}
/// A waiting request is granted when the conflicting lock goes, and not before.
fn c18_wait(name: &str, mode: Mode, pre: u32) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
        use std::sync::Arc;
        use FlockArg::*;
        let kinds = [(LockExclusiveNonblock, LockExclusive), (LockSharedNonblock, LockExclusive), (LockExclusiveNonblock, LockShared)];
        let (held, asked) = kinds[data(3)];
        // How the lock goes: unlock, close, trim.
        let how = data(3);
        if how == 2 && (held != LockExclusiveNonblock || mode == Mode::Flock) {
            return;
        }
        let p = d.join("values-wait");
        let (f, g) = quiet(|| {
            std::fs::write(&p, b"x").unwrap();
            let open = || OpenOptions::new().read(true).write(true).open(&p).unwrap();
            (open(), open())
        });
        // The class of descriptors opened quietly is not tracked.
        let (f, g) = {
            drop((f, g));
            let open = || OpenOptions::new().read(true).write(true).open(&p).unwrap();
            (open(), open())
        };
        // Exclusive holders minus sharers' turn.
        let inside = Arc::new(AtomicI64::new(0));
        must!("C18", matches!(f.lock_segment(held, None, 2), Ok(true)), "an uncontended lock was not granted");
        inside.fetch_add(1, SeqCst);
        let i2 = inside.clone();
        let t = std::thread::spawn(move || {
            let r = g.lock_segment(asked, Some(2), 1);
            must!("C18", matches!(r, Ok(true)), "a waiting lock returned {r:?}");
            must!("C18", i2.load(SeqCst) == 0, "a waiting lock was granted while a conflicting one was held");
            sched::point();
            must!("C18", i2.load(SeqCst) == 0, "a lock was granted while a conflicting one was held");
            drop(g);
        });
        sched::point();
        inside.fetch_sub(1, SeqCst);
        match how {
            0 => must!("C18", matches!(f.lock_segment(Unlock, None, 2), Ok(true)), "unlocking failed"),
            1 => drop(f),
            _ => must!("C18", matches!(f.trim_exclusive_lock_left(2, 10), Ok(true)), "trimming failed"),
        }
        t.join().unwrap();
    })
    .preempt(pre)
}
pub fn c18(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![
        c18_states("states2", Mode::Seg, 2, 16),
        c18_states("states3", Mode::Flock, 3, 1),
        c18_big(),
        c18_wait("wait", Mode::Seg, t.pick(2, 4)),
        c18_wait("wait", Mode::Flock, t.pick(2, 4)),
    ];
    if t == Tier::Thorough {
        scs.push(c18_states("states3", Mode::Seg, 3, 120));
    }
    scs
}
pub fn c22_olds(t: Tier) -> Vec<Scenario> {
    ALL_MODES.into_iter().map(|m| c22_old(m, t.pick(1, 2))).collect()
}
