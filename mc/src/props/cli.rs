//! C20: the command line tool, run as it is on stores of every small layout.
use crate::explore::*;
use crate::rt::sched::{self, data, quiet};
use crate::util::*;
use crate::world::*;
use crate::{ev, fail, must, Tier};
use possum::{Handle, Limits, SnapshotValue, Value};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Output};

const KEYS: [Key; 5] = [b"k0", b"k1", b"k2", b"k3", b"other"];

fn cli(args: &[&str]) -> Output {
    cli_os(&args.iter().map(|a| OsStr::new(a)).collect::<Vec<_>>())
}
fn cli_os(args: &[&OsStr]) -> Output {
    quiet(|| {
        let exe = std::env::current_exe().unwrap().with_file_name("possum-cli");
        let o = Command::new(exe).args(args).env("RUST_LOG", "off").output();
        let o = match o {
            Ok(o) => o,
            Err(e) => sched::engine_error(&format!("running the tool: {e}")),
        };
        ev!("$ possum {:?} -> {} {}{}", args, o.status, String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        sched::shared().ops += 1;
        o
    })
}
fn db(d: &Path, args: &[&str]) -> Output {
    let mut a = vec!["database", d.to_str().unwrap()];
    a.extend(args);
    cli(&a)
}
/// The arguments after the directory are any bytes.
fn db_os(d: &Path, cmd: &str, arg: &OsStr) -> Output {
    cli_os(&["database".as_ref(), d.as_os_str(), cmd.as_ref(), arg])
}
fn good(o: &Output, what: &str) -> String {
    must!("C20", o.status.success(), "{what} failed: {} {}", o.status, trim(&String::from_utf8_lossy(&o.stderr)));
    String::from_utf8_lossy(&o.stdout).into_owned()
}
/// values file name -> ranges
type Ranges = BTreeMap<String, Vec<(u64, u64)>>;
fn parse(out: &str) -> Ranges {
    let mut r = Ranges::new();
    for l in out.lines() {
        let p = (|| {
            let (name, rest) = l.split_once(": ")?;
            let (a, rest) = rest.split_once('-')?;
            let b = rest.split(|c: char| !c.is_ascii_digit()).next()?;
            let name = Path::new(name).file_name()?.to_string_lossy().into_owned();
            Some((name, a.parse().ok()?, b.parse().ok()?))
        })();
        match p {
            Some((n, a, b)) => r.entry(n).or_default().push((a, b)),
            None => fail!("C20", "unexpected output line {l:?}"),
        }
    }
    for v in r.values_mut() {
        v.sort();
    }
    r
}
#[derive(Clone)]
struct FileState {
    live: Vec<(u64, u64)>,
    data: Vec<(u64, u64)>,
    len: u64,
}
impl FileState {
    /// Dead regions in front of live values.
    fn gaps(&self) -> Vec<(u64, u64)> {
        let mut at = 0;
        let mut v = vec![];
        for &(a, b) in &self.live {
            if a > at {
                v.push((at, a));
            }
            at = b;
        }
        v
    }
    /// Their parts that are allocated.
    fn dead_data(&self) -> Vec<(u64, u64)> {
        let mut v: Vec<(u64, u64)> = vec![];
        for (a, b) in self.gaps() {
            for &(s, e) in &self.data {
                let (s, e) = (s.max(a), e.min(b));
                if s < e {
                    v.push((s, e));
                }
            }
        }
        v
    }
    /// Whole blocks among those.
    fn blocks(&self) -> Vec<u64> {
        let bs = BS as u64;
        self.dead_data().iter().flat_map(|&(a, b)| a.div_ceil(bs)..b / bs).collect()
    }
}
fn files(d: &Path, h: Option<&Handle>) -> BTreeMap<String, FileState> {
    quiet(|| {
        let own;
        let h = match h {
            Some(h) => h,
            None => {
                own = unsafe { Box::from_raw(open(d)) };
                &own
            }
        };
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(d).unwrap() {
            let n = e.unwrap().file_name().to_string_lossy().into_owned();
            if n.starts_with("values-") {
                let (len, data) = data_regions(&d.join(&n)).unwrap();
                m.insert(n, FileState { live: vec![], data, len });
            }
        }
        for i in ok("list_items", h.list_items(b"")) {
            if let Some(l) = loc_of(&i.value) {
                match m.get_mut(&l.0) {
                    Some(f) => f.live.push((l.1, l.1 + l.2)),
                    None => fail!("C20", "values file {} is gone", l.0),
                }
            }
        }
        for f in m.values_mut() {
            f.live.sort();
        }
        m
    })
}
fn raw_punch(p: &Path, a: u64, b: u64) {
    use std::os::fd::AsRawFd;
    if a >= b {
        return;
    }
    let f = std::fs::OpenOptions::new().write(true).open(p).unwrap();
    let r = unsafe { libc::fallocate64(f.as_raw_fd(), libc::FALLOC_FL_KEEP_SIZE | libc::FALLOC_FL_PUNCH_HOLE, a as i64, (b - a) as i64) };
    assert_eq!(r, 0);
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Live,
    Dead,
    /// Its whole blocks have been given back.
    Punched,
    /// Only its first whole block has.
    Half,
}
use St::*;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Holder {
    Nobody,
    /// A snapshot taken before the deletions.
    Snapshot,
    /// A writer with staged values, the handle being open.
    Writer,
    /// A handle that has the values file at hand.
    Idle,
    /// A writer about to give deleted values new keys.
    Rename,
}
use Holder::*;

fn check_print(d: &Path, fs: &BTreeMap<String, FileState>, when: &str) {
    let bs = BS as u64;
    let all = parse(&good(&db(d, &["print-missing-holes"]), "print-missing-holes"));
    for (n, f) in fs {
        let none = vec![];
        let got = all.get(n).unwrap_or(&none);
        let mut blocks: Vec<u64> = got.iter().flat_map(|&(a, b)| a.div_ceil(bs)..b / bs).collect();
        blocks.dedup();
        must!("C20", blocks == f.blocks(), "{when}: {n} with live {:?} and data {:?} is reported to lack the holes {got:?}, whole blocks {blocks:?} instead of {:?}", f.live, f.data, f.blocks());
        for &(a, b) in got {
            must!("C20", a.div_ceil(bs) < b / bs, "{when}: {n}: reported {a}-{b}, which has no whole block");
            must!("C20", f.dead_data().iter().any(|&(s, e)| s <= a && b <= e), "{when}: {n} with live {:?} and data {:?}: reported {a}-{b} is not dead allocated space", f.live, f.data);
        }
    }
    must!("C20", all.keys().all(|n| fs.contains_key(n)), "{when}: unknown files in {all:?}");
    let frag = parse(&good(&db(d, &["print-missing-holes", "--fragments"]), "print-missing-holes --fragments"));
    for (n, f) in fs {
        let got = frag.get(n).cloned().unwrap_or_default();
        must!("C20", got == f.dead_data(), "{when}: {n} with live {:?} and data {:?}: fragments {got:?} instead of {:?}", f.live, f.data, f.dead_data());
    }
}
/// Keys may have any bytes, the arguments of list-keys and read-key may not.
fn check_reading(d: &Path, want: &BTreeMap<Vec<u8>, Vec<u8>>, when: &str) {
    for pre in ["", "k", "k1", "x"] {
        let o = if pre.is_empty() { db(d, &["list-keys"]) } else { db(d, &["list-keys", pre]) };
        good(&o, "list-keys");
        let mut got: Vec<&[u8]> = o.stdout.split(|&b| b == b'\n').collect();
        let last = got.pop();
        must!("C20", last == Some(b""), "{when}: list-keys {pre}: the output does not end with a newline");
        got.sort();
        let exp: Vec<&[u8]> = want.keys().map(|k| &k[..]).filter(|k| k.starts_with(pre.as_bytes())).collect();
        let show = |v: &[&[u8]]| v.iter().map(|k| esc(k)).collect::<Vec<_>>();
        must!("C20", got == exp, "{when}: list-keys {pre} prints {:?} instead of {:?}", show(&got), show(&exp));
    }
    let given = want.keys().map(|k| &k[..]).chain(KEYS).collect::<std::collections::BTreeSet<&[u8]>>();
    for k in given {
        let Ok(name) = std::str::from_utf8(k) else { continue };
        let o = db(d, &["read-key", name]);
        match want.get(k) {
            Some(w) => {
                must!("C20", o.status.success(), "{when}: read-key {} failed: {}", esc(k), trim(&String::from_utf8_lossy(&o.stderr)));
                must!("C20", o.stdout == *w, "{when}: read-key {}: {}", esc(k), diff(&o.stdout, w));
            }
            None => must!("C20", !o.status.success() && o.stdout.is_empty(), "{when}: read-key of a missing key succeeds"),
        }
    }
}
/// Which bytes a file has at the extents given.
fn same_bytes(d: &Path, want: &[(Loc, Vec<u8>)], when: &str) {
    for (l, w) in want {
        match raw_read(&d.join(&l.0), l.1, w.len()) {
            Some(b) => must!("C20", b == *w, "{when}: the bytes of a value at {l:?} changed: {}", diff(&b, w)),
            None => fail!("C20", "{when}: the bytes of a value at {l:?} are gone"),
        }
    }
}

fn c20_one(name: &str, mode: Mode, lens: &'static [usize], n: usize, holders: &'static [Holder], reading: bool, only: bool) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let holder = holders[data(holders.len())];
        let mut vs: Vec<(usize, St)> = vec![];
        for _ in 0..n {
            let len = lens[data(lens.len())];
            let st = [Live, Dead, Punched, Half];
            // Small values have no blocks, two block values have halves.
            let st = st[data(if len >= 3 * BS - 1 { 4 } else if len >= BS { 3 } else { 2 })];
            vs.push((len, st));
        }
        let h: *mut Handle = open(d);
        let hr = || unsafe { &mut *h };
        ok("limits", hr().set_instance_limits(Limits { max_value_length_sum: None, disable_hole_punching: true }));
        let mut want: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        let mut w = ok("new_writer", hr().new_writer());
        for (k, &(len, _)) in vs.iter().enumerate() {
            let mut v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&vbytes(k as u32 + 1, len)));
            ok("stage", w.stage_write(KEYS[k].to_vec(), v));
            want.insert(KEYS[k].to_vec(), vbytes(k as u32 + 1, len));
        }
        ok("commit", w.commit());
        // Another file.
        quiet(|| {
            let h2 = unsafe { Box::from_raw(open(d)) };
            let mut w = ok("new_writer", h2.new_writer());
            for (k, len) in [(&b"gone"[..], 8192), (KEYS[4], 10)] {
                let mut v = ok("begin", w.new_value().begin());
                ok("write", v.write_all(&vbytes(20, len)));
                ok("stage", w.stage_write(k.to_vec(), v));
            }
            ok("commit", w.commit());
        });
        want.insert(KEYS[4].to_vec(), vbytes(20, 10));
        ok("delete", hr().single_delete(b"gone"));
        let mut snaps: Vec<(SnapshotValue<Value>, Vec<u8>)> = vec![];
        let mut peeked: Vec<Value> = vec![];
        if holder == Snapshot {
            // Of the last value that is about to be deleted, or else of the last.
            let k = (0..n).rev().find(|&k| vs[k].1 != Live).unwrap_or(n - 1);
            snaps.push((ok("read_single", hr().read_single(KEYS[k])).unwrap(), want[KEYS[k]].clone()));
        }
        if holder == Rename {
            for k in 0..n {
                if let Some(v) = ok("read_single", hr().read_single(KEYS[k])) {
                    peeked.push(*v);
                }
            }
        }
        let mut locs = vec![];
        for i in ok("list_items", quiet(|| hr().list_items(b""))) {
            if let Some(l) = loc_of(&i.value) {
                locs.push((i.key.clone(), l));
            }
        }
        for (k, &(_, st)) in vs.iter().enumerate() {
            if st == Live {
                continue;
            }
            ok("delete", hr().single_delete(KEYS[k]));
            want.remove(KEYS[k]);
            let pinned = holder == Snapshot && snaps.iter().any(|s| s.1 == vbytes(k as u32 + 1, vs[k].0));
            if let (false, Some((_, l))) = (pinned, locs.iter().find(|l| l.0 == KEYS[k])) {
                let bs = BS as u64;
                let (a, b) = (l.1.div_ceil(bs) * bs, (l.1 + l.2) / bs * bs);
                quiet(|| match st {
                    Punched => raw_punch(&d.join(&l.0), a, b),
                    Half => raw_punch(&d.join(&l.0), a, b.min(a + bs)),
                    _ => {}
                });
            }
        }
        let mut batch = None;
        match holder {
            Nobody | Snapshot => drop(unsafe { Box::from_raw(h) }),
            Idle => {}
            Writer => {
                let mut w = ok("new_writer", hr().new_writer());
                for (k, len) in [(b"s0", 5000), (b"s1", 9000)] {
                    let mut v = ok("begin", w.new_value().begin());
                    ok("write", v.write_all(&vbytes(30 + len as u32, len)));
                    ok("stage", w.stage_write(k.to_vec(), v));
                }
                batch = Some(w);
            }
            Rename => {
                let mut w = ok("new_writer", hr().new_writer());
                for (j, v) in peeked.drain(..).enumerate() {
                    w.rename_value(v, format!("r{j}").into_bytes());
                }
                batch = Some(w);
            }
        }
        sched::settle_ms(1500);
        let open_h = !matches!(holder, Nobody | Snapshot);
        let fs = files(d, open_h.then(|| &*hr()));
        check_print(d, &fs, "before");
        if reading {
            check_reading(d, &want, "before");
        }
        let live: Vec<(Loc, Vec<u8>)> = locs.iter().filter_map(|(k, l)| want.get(k).map(|w| (l.clone(), w.clone()))).collect();
        same_bytes(d, &live, "after looking");
        must!("C20", quiet(|| fs.iter().all(|(n, f)| data_regions(&d.join(n)).unwrap().1 == f.data)), "looking for missing holes changed the files");
        // Only one file.
        if only && holder == Nobody {
            for n in fs.keys() {
                let p: PathBuf = d.join(n);
                let got = parse(&good(&db(d, &["print-missing-holes", p.to_str().unwrap()]), "print-missing-holes of one file"));
                must!("C20", got.keys().all(|k| k == n), "asked for {n} only, got {got:?}");
                let f = &fs[n];
                let mut bl: Vec<u64> = got.values().flatten().flat_map(|&(a, b)| a.div_ceil(BS as u64)..b / BS as u64).collect();
                bl.dedup();
                must!("C20", bl == f.blocks(), "{n}: asked for one file, blocks {bl:?} instead of {:?}", f.blocks());
            }
            if let Some(n) = fs.keys().next() {
                let p = d.join(n);
                good(&db(d, &["punch-missing-holes", p.to_str().unwrap()]), "punch-missing-holes of one file");
                let now = files(d, None);
                for (m, f) in &now {
                    let want = if m == n { vec![] } else { fs[m].blocks() };
                    must!("C20", f.blocks() == want, "after punching {n} only, {m} has dead blocks {:?} instead of {want:?}", f.blocks());
                }
            }
        }
        let o = db(d, &["punch-missing-holes"]);
        let out = good(&o, "punch-missing-holes");
        for (n, rs) in parse(&out) {
            for (a, b) in rs {
                must!("C20", a % BS as u64 == 0 && b % BS as u64 == 0, "{n}: punched {a}-{b}, not whole blocks");
                must!("C20", fs[&n].live.iter().all(|&(s, e)| e <= a || s >= b), "{n}: punched {a}-{b} although {:?} are live", fs[&n].live);
            }
        }
        same_bytes(d, &live, "after punching");
        let now = files(d, open_h.then(|| &*hr()));
        for (n, f) in &now {
            must!("C20", f.len == fs[n].len, "punching changed the length of {n} from {} to {}", fs[n].len, f.len);
            must!("C20", f.live == fs[n].live, "punching changed the values of {n}");
            if holder == Nobody {
                must!("C20", f.blocks().is_empty(), "{n} still has dead blocks {:?} after punching (live {:?}, data {:?})", f.blocks(), f.live, fs[n].data);
            }
            // Nothing but dead blocks.
            for k in 0..f.len.div_ceil(BS as u64) {
                let r = (k * BS as u64, (k + 1) * BS as u64);
                let was = has_data(&fs[n].data, r.0, r.1);
                let is = has_data(&f.data, r.0, r.1);
                must!("C20", is == was || fs[n].blocks().contains(&k), "{n}: punching released block {k}, which is not dead");
            }
        }
        check_print(d, &now, "after punching");
        for (s, w) in &snaps {
            check_snap_value(&["C20"], "snapshot held while punching", s, w);
        }
        if let Some(w) = batch {
            let c = w.commit();
            if holder == Writer {
                must!("C20", c.is_ok(), "committing after the tool ran failed");
                for (k, len) in [(b"s0", 5000usize), (b"s1", 9000)] {
                    let v = ok("read_single", hr().read_single(k)).unwrap();
                    check_snap_value(&["C20"], "value staged while punching", &v, &vbytes(30 + len as u32, len));
                    want.insert(k.to_vec(), vbytes(30 + len as u32, len));
                }
            } else {
                // Values that were live have moved, intact.
                let items = ok("list_items", quiet(|| hr().list_items(b"r")));
                for i in items {
                    let v = ok("read_single", hr().read_single(&i.key)).unwrap();
                    let j: usize = String::from_utf8_lossy(&i.key[1..]).parse().unwrap();
                    check_snap_value(&["C20"], "value renamed after punching", &v, &vbytes(j as u32 + 1, vs[j].0));
                }
                want.clear();
            }
        }
        if !want.is_empty() && reading {
            check_reading(d, &want, "after punching");
        }
        if open_h {
            drop(unsafe { Box::from_raw(h) });
        }
        sched::digest(hash(format!("{vs:?}{holder:?}{out}").len().to_string().as_bytes()));
        sched::digest(hash(format!("{vs:?}{holder:?}").as_bytes()));
    })
    .preempt(0)
    .strict()
}
/// Writing files and everything else through the tool only.
fn c20_write() -> Scenario {
    const LENS: &[usize] = &[0, 1, 4095, 4096, 4097, 9000];
    const NAMES: [&[u8]; 4] = [b"k1", b"k\xff\xfe", b"k \"\xc3\xa9", b"\x01k"];
    Scenario::new("write/seg", Mode::Seg, move |d| {
        use std::os::unix::ffi::OsStrExt;
        let a = LENS[data(LENS.len())];
        let b = LENS[data(LENS.len())];
        let other = NAMES[data(NAMES.len())];
        let again = data(2) == 1;
        let src = d.parent().unwrap().join("src");
        let mut want: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        for (j, (k, n)) in [(&b"k0"[..], a), (other, b), (b"k0", b + 3)].into_iter().enumerate() {
            if j == 2 && !again {
                break;
            }
            let v = vbytes(40 + j as u32, n);
            let p = src.join(OsStr::from_bytes(k));
            quiet(|| {
                std::fs::create_dir_all(&src).unwrap();
                std::fs::write(&p, &v).unwrap();
            });
            good(&db_os(d, "write-file", p.as_os_str()), "write-file");
            want.insert(k.to_vec(), v);
            check_reading(d, &want, "after write-file");
        }
        let o = db_os(d, "write-file", src.join("missing").as_os_str());
        must!("C20", !o.status.success(), "write-file of a missing file succeeds");
        check_reading(d, &want, "after write-file of a missing file");
        let h = unsafe { Box::from_raw(open(d)) };
        for (k, w) in &want {
            let v = ok("read_single", h.read_single(k));
            must!("C20", v.is_some(), "the store lacks {} written by the tool", esc(k));
            check_snap_value(&["C20"], "written by the tool", &v.unwrap(), w);
        }
    })
    .preempt(0)
}
/// The commands that only look: the regions of values files and the ends of values.
fn c20_look() -> Scenario {
    const LENS: &[usize] = &[100, 4096, 5000, 12288];
    Scenario::new("look/seg", Mode::Seg, move |d| {
        let mut h = unsafe { Box::from_raw(open(d)) };
        ok("limits", h.set_instance_limits(Limits { max_value_length_sum: None, disable_hole_punching: true }));
        let lens: Vec<usize> = (0..3).map(|_| LENS[data(LENS.len())]).collect();
        let dead = data(8);
        let mut w = ok("new_writer", h.new_writer());
        for (k, &len) in lens.iter().enumerate() {
            let mut v = ok("begin", w.new_value().begin());
            ok("write", v.write_all(&vbytes(k as u32 + 1, len)));
            ok("stage", w.stage_write(KEYS[k].to_vec(), v));
        }
        ok("commit", w.commit());
        let l0 = loc_of(&ok("list_items", h.list_items(b"k0"))[0].value).unwrap();
        for k in (0..3).filter(|k| dead >> k & 1 == 1) {
            let l = loc_of(&ok("list_items", h.list_items(KEYS[k]))[0].value).unwrap();
            ok("delete", h.single_delete(KEYS[k]));
            let bs = BS as u64;
            quiet(|| raw_punch(&d.join(&l.0), l.1.div_ceil(bs) * bs, (l.1 + l.2) / bs * bs));
        }
        let fs = files(d, Some(&h));
        drop(h);
        sched::settle_ms(1500);
        let (n, f) = fs.iter().find(|f| *f.0 == l0.0).unwrap();
        let p = d.join(n);
        let out = good(&cli(&["show-holes", p.to_str().unwrap(), p.to_str().unwrap()]), "show-holes");
        let mut exp = vec![];
        let mut at = 0;
        let (len, regions) = quiet(|| data_regions(&p).unwrap());
        for (a, b) in regions {
            if a > at {
                exp.push(("Hole", at, a));
            }
            exp.push(("Data", a, b));
            at = b;
        }
        if at < len {
            exp.push(("Hole", at, len));
        }
        let exp: String = exp.iter().map(|(t, a, b)| format!("{}: {t}, {a}-{b} (length {})\n", p.display(), b - a)).collect();
        must!("C20", out == exp.repeat(2), "show-holes prints {out:?} instead of {exp:?} twice");
        // The ends of the live values at every boundary and next to it.
        let id = n.strip_prefix("values-").unwrap();
        let mut offs = vec![0];
        let mut at = l0.1;
        for &len in &lens {
            offs.extend([at, at + 1]);
            at += len as u64;
            offs.extend([at - 1]);
        }
        offs.extend([at, at + 1, 1 << 40]);
        let off = offs[data(offs.len())];
        let out = good(&cli(&["last-end-offset", d.to_str().unwrap(), id, &off.to_string()]), "last-end-offset");
        let exp = f.live.iter().map(|r| r.1).filter(|&e| e <= off).max().unwrap_or(0);
        must!("C20", out == format!("{exp}\n"), "last-end-offset {off} with live {:?} prints {out:?} instead of {exp}", f.live);
        let out = good(&db(d, &["info"]), "info");
        must!("C20", out.contains(&format!("{d:?}")), "info prints {out:?}");
        must!("C20", files(d, None).iter().all(|(m, g)| g.data == fs[m].data && g.live == fs[m].live), "looking changed the store");
        // A hole made in some other file.
        let q = d.parent().unwrap().join("other");
        let v = vbytes(77, 16384);
        quiet(|| std::fs::write(&q, &v).unwrap());
        let (a, len) = [(4096, 8192), (100, 5000), (0, 16384), (8192, 100)][lens.iter().map(|l| l / 4096).sum::<usize>() % 4];
        good(&cli(&["punch-hole", q.to_str().unwrap(), &a.to_string(), &len.to_string()]), "punch-hole");
        let mut w = v.clone();
        w[a..a + len].fill(0);
        let got = quiet(|| std::fs::read(&q).unwrap());
        must!("C20", got == w, "punch-hole {a} {len}: {}", diff(&got, &w));
        let bs = BS as u64;
        let regions = quiet(|| data_regions(&q).unwrap().1);
        for k in (a as u64).div_ceil(bs)..(a + len) as u64 / bs {
            must!("C20", !has_data(&regions, k * bs, (k + 1) * bs), "punch-hole {a} {len}: block {k} is still allocated");
        }
        sched::digest(hash(format!("{lens:?}{dead}{off}").as_bytes()));
    })
    .preempt(0)
    .strict()
}

/// Many values in many files, large ones, and offsets beyond 4 GiB.
fn c20_large() -> Scenario {
    Scenario::new("large/seg", Mode::Seg, move |d| {
        let what = data(4);
        let mut want: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        let mut h = unsafe { Box::from_raw(open(d)) };
        ok("limits", h.set_instance_limits(Limits { max_value_length_sum: None, disable_hole_punching: true }));
        let mut put = |w: &mut possum::BatchWriter<&Handle>, k: &[u8], id: u32, n: usize, far: u64| {
            let mut v = ok("begin", w.new_value().begin());
            if far > 0 {
                let f = ok("get_file", v.get_file());
                quiet(|| f.set_len(far).unwrap());
            }
            ok("write", v.write_all(&vbytes(id, n)));
            ok("stage", w.stage_write(k.to_vec(), v));
            if far == 0 {
                want.insert(k.to_vec(), vbytes(id, n));
            }
        };
        let mut dead: Vec<Vec<u8>> = vec![];
        match what {
            // Every other one of many values is dead.
            0 | 1 => {
                let mut w = ok("new_writer", h.new_writer());
                for i in 0..if what == 0 { 300 } else { 1100 } {
                    let k = format!("k{i:04}").into_bytes();
                    put(&mut w, &k, 100 + i, if what == 0 { 8192 + i as usize % 5 * 1000 } else { i as usize % 3 }, 0);
                    if i % 2 == what as u32 {
                        dead.push(k);
                    }
                }
                ok("commit", w.commit());
            }
            // So are the first values of many files.
            2 => {
                let mut ws = vec![];
                for i in 0..40u32 {
                    let mut w = ok("new_writer", h.new_writer());
                    let k = format!("k{i:04}").into_bytes();
                    put(&mut w, &k, 100 + i, 9000, 0);
                    dead.push(k);
                    put(&mut w, format!("l{i:04}").as_bytes(), 200 + i, 100, 0);
                    ws.push(w);
                }
                for w in ws {
                    ok("commit", w.commit());
                }
            }
            _ => {
                let mut w = ok("new_writer", h.new_writer());
                put(&mut w, b"k0", 1, (1 << 20) + 1, 0);
                put(&mut w, b"x", 2, 5000, 5 << 30);
                put(&mut w, b"k1", 3, 9000, 0);
                put(&mut w, b"y", 4, 100_000, 0);
                put(&mut w, b"k2", 5, 10, 0);
                ok("commit", w.commit());
                dead.extend([b"x".to_vec(), b"y".to_vec()]);
            }
        }
        for k in &dead {
            ok("delete", h.single_delete(k));
            want.remove(k);
        }
        drop(h);
        sched::settle_ms(1500);
        let names: Vec<&[u8]> = [0, 7, 77, 299, 1099].iter().filter_map(|&i| want.keys().nth(i)).map(|k| &k[..]).collect();
        let reading = |when: &str| {
            let o = db(d, &["list-keys"]);
            good(&o, "list-keys");
            let mut got: Vec<&[u8]> = o.stdout.split(|&b| b == b'\n').filter(|l| !l.is_empty()).collect();
            got.sort();
            must!("C20", got.iter().cloned().eq(want.keys().map(|k| &k[..])), "{when}: list-keys prints {} keys instead of {}", got.len(), want.len());
            for k in &names {
                let o = db(d, &["read-key", std::str::from_utf8(k).unwrap()]);
                must!("C20", o.status.success() && o.stdout == want[*k], "{when}: read-key {}: {}", esc(k), diff(&o.stdout, &want[*k]));
            }
        };
        let fs = files(d, None);
        check_print(d, &fs, "before");
        reading("before");
        good(&db(d, &["punch-missing-holes"]), "punch-missing-holes");
        let now = files(d, None);
        for (n, f) in &now {
            must!("C20", f.len == fs[n].len && f.live == fs[n].live, "punching changed {n}");
            must!("C20", f.blocks().is_empty(), "{n} still has {} dead blocks after punching", f.blocks().len());
        }
        check_print(d, &now, "after punching");
        reading("after punching");
        let h = unsafe { Box::from_raw(open(d)) };
        for (k, w) in &want {
            let v = ok("read_single", h.read_single(k));
            must!("C20", v.is_some(), "{} is gone after punching", esc(k));
            check_snap_value(&["C20"], "after punching", &v.unwrap(), w);
        }
        sched::digest(what as u64);
    })
    .preempt(0)
    .strict()
    .horizon(500_000)
}
pub fn c20(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![c20_write(), c20_look(), c20_large()];
    const ALL: &[Holder] = &[Nobody, Snapshot, Writer, Idle, Rename];
    for mode in ALL_MODES {
        scs.push(c20_one("layouts2", mode, &[0, 100, 4096, 5000, 8192, 12288], 2, ALL, true, true));
    }
    const L3: &[usize] = &[100, 5000, 8192];
    const L3T: &[usize] = &[0, 100, 4096, 5000, 8192, 12288];
    if t == Tier::Thorough {
        for mode in ALL_MODES {
            scs.push(c20_one("layouts3", mode, L3T, 3, ALL, false, false));
        }
        scs.push(c20_one("layouts4", Mode::Seg, L3, 4, &[Nobody, Snapshot, Writer], false, false));
    } else {
        scs.push(c20_one("layouts3", Mode::Seg, L3, 3, &[Nobody, Snapshot, Writer], false, false));
    }
    scs.extend(super::conc::c20(t));
    scs
}
