//! Exhaustive operation sequences against the reference model.
use crate::explore::*;
use crate::rt::sched;
use crate::world::*;
use crate::{Plan, Tier};
use Op::*;

pub const A: Key = b"a";
pub const B: Key = b"b";
pub const C: Key = b"c";

pub fn seq(name: &str, mode: Mode, o: Opts, setup: Vec<Op>, ops: Vec<Op>, depth: usize) -> Scenario {
    seq_with(name, mode, o, setup, ops, depth, true)
}
pub fn seq_with(name: &str, mode: Mode, o: Opts, setup: Vec<Op>, ops: Vec<Op>, depth: usize, reopen: bool) -> Scenario {
    Scenario::new(format!("{name}/{}", mode.name()), mode, move |d| {
        let mut w = World::new(d, o.clone());
        for op in &setup {
            w.apply(op);
        }
        w.explore(&ops, depth);
        w.finish(reopen);
    })
    .preempt(0)
    .strict()
    .horizon(500_000)
}
/// A batch of many values.
pub fn many(p: &str, n: usize, len: impl Fn(usize) -> usize) -> Op {
    let v: Vec<(Key, usize)> = (0..n).map(|i| (&*format!("{p}{i:04}").into_bytes().leak(), len(i))).collect();
    Batch(v.leak())
}
pub fn plan(scs: Vec<Scenario>, tags: &[&'static str], t: Tier, rule: &str) -> Plan {
    Plan { scs, tags: tags.to_vec(), budget: t.pick(75, 800), rule: rule.into(), assumptions: vec![] }
}

pub fn c01(t: Tier) -> Plan {
    let mut scs = super::file::giants();
    let o = Opts { read_all: true, ..Default::default() };
    for mode in ALL_MODES {
        let ops = vec![
            Put(A, 5000), Put(A, 0), Put(B, 4096), Put(B, 100), PutPieces(A, 9000), PutFile(B, 5000),
            Batch(&[(A, 3000), (B, 5192)]), Batch(&[(A, 10), (A, 8192)]), BatchDropped(&[(A, 5000), (B, 1)]),
            Stage(A, 6000), PartialValue(5000), Commit, Del(A), Del(B), Reopen, Second, Settle(1500),
        ];
        scs.push(seq("ops", mode, o.clone(), vec![], ops, t.pick(3, 4)));
        // Deep sequences over few operations on values that share a file.
        let ops = vec![Put(A, 4096), Put(B, 100), Put(A, 0), Batch(&[(A, 3000), (B, 5192)]), Del(A), Reopen, Settle(1500)];
        scs.push(seq("deep", mode, o.clone(), vec![Batch(&[(A, 5000), (B, 4096), (C, 7)])], ops, t.pick(4, 6)));
    }
    // Any key bytes.
    let keys: &[Key] = &[b"", b"\0", b"\xff", b"a", b"a\0", b"A", "\u{e9}".as_bytes(), &[b'k'; 3000]];
    let mut ops = vec![];
    for &k in keys {
        ops.push(Put(k, 10));
        ops.push(Del(k));
    }
    scs.push(seq("keys", Mode::Seg, o.clone(), vec![], ops, t.pick(3, 4)));
    // Every length around block boundaries, in pairs.
    let lens = [0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536, 70001];
    let mut ops = vec![];
    for n in lens {
        ops.push(Put(A, n));
        ops.push(PutPieces(B, n));
    }
    ops.push(Del(A));
    ops.push(Settle(1500));
    for mode in ALL_MODES {
        scs.push(seq("lengths", mode, o.clone(), vec![], ops.clone(), t.pick(2, 3)));
    }
    // Long keys, some of which differ in their last byte only.
    let long = |n: usize, last: u8| -> Key {
        let mut k = vec![b'k'; n];
        k[n - 1] = last;
        k.leak()
    };
    let mut ops = vec![];
    for n in [255, 256, 1024, 4096, 65535, 65536, 100_001] {
        ops.extend([Put(long(n, b'x'), 5000), Put(long(n, b'y'), 10)]);
    }
    ops.extend([Put(long(254, b'k'), 7), Del(long(65536, b'x')), Del(long(256, b'y')), DelPrefix(long(255, b'k')), MovePrefix(long(300, b'k'), b"z"), List(long(256, b'k')), Rename(long(256, b'y'), long(70_000, b'z'))]);
    for mode in ALL_MODES {
        scs.push(seq("long-keys", mode, Opts { prefixes: &[b"k", b"z"], ..o.clone() }, vec![Put(long(256, b'x'), 9), Put(long(65536, b'x'), 4097)], ops.clone(), t.pick(2, 3)));
    }
    // Large values and many of them.
    for mode in ALL_MODES {
        let mut ops = vec![];
        for n in [131_072, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 5 << 20] {
            ops.extend([Put(A, n), PutPieces(B, n), PutFile(C, n)]);
        }
        ops.extend([Del(A), Settle(1500)]);
        scs.push(seq("large", mode, o.clone(), vec![], ops, t.pick(1, 2)));
        let ops = vec![many("m", 300, |i| i % 7 * 100), Spread(b"s", 70), DelPrefix(b"m"), DelPrefix(b"m00"), MovePrefix(b"m", b"n"), Put(b"m0007", 5000), Reopen, Settle(1500)];
        scs.push(seq("many", mode, o.clone(), vec![], ops, t.pick(2, 3)));
    }
    plan(scs, &["C01"], t, "all operation sequences of the given alphabets and depths; after every operation the whole store is listed and every key read back and compared with a map")
}

/// Batches of many values that write keys again and again, in any pattern of the given period.
fn repeats(mode: Mode, max: usize, period: usize, extra: usize) -> Scenario {
    Scenario::new(format!("repeats{period}/{}", mode.name()), mode, move |d| {
        let mut w = World::new(d, Opts { read_all: true, ..Default::default() });
        w.apply(&Batch(&[(A, 5000), (B, 10)]));
        let keys: &[Key] = &[A, B, C];
        let pattern: Vec<(Key, usize)> = (0..period).map(|_| (keys[sched::data(keys.len())], [10, 0, 5000][sched::data(extra)])).collect();
        for n in [max, max / 2] {
            let vs: Vec<(Key, usize)> = (0..n).map(|i| (pattern[i % period].0, pattern[i % period].1 + i)).collect();
            w.apply(&Batch(vs.leak()));
        }
        w.finish(true);
    })
    .preempt(0)
    .strict()
}

/// Setup that places values of various alignments in one file.
const LAYOUT1: &[(Key, usize)] = &[(A, 5000), (B, 4096), (C, 3288), (b"d", 100)];
const LAYOUT2: &[(Key, usize)] = &[(A, 4096), (B, 8192), (C, 4096), (b"d", 4096)];
const LAYOUT3: &[(Key, usize)] = &[(A, 100), (B, 12288), (C, 100), (b"d", 9000)];

const LAYOUT4: &[(Key, usize)] = &[(A, 8192), (B, 8192), (C, 4096), (b"d", 4096)];
/// More values than the queue of the punching thread takes.
const MANY: &[(Key, usize)] = &[
    (A, 5000), (b"k0", 8192), (b"k1", 5000), (b"k2", 8192), (b"k3", 8292), (b"k4", 9000), (b"k5", 8192), (b"k6", 12288), (b"k7", 8292), (b"k8", 8192), (b"k9", 8192), (b"ka", 9000), (b"kb", 8192), (b"kc", 8192), (b"z", 9000),
];
const MORE: &[(Key, usize)] = &[
    (A, 5000), (b"k0", 8192), (b"k1", 5000), (b"k2", 8192), (b"k3", 4096), (b"k4", 9000), (b"k5", 4096), (b"k6", 4096), (b"k7", 4096), (b"k8", 4096), (b"k9", 4096), (b"ka", 9000), (b"kb", 4096), (b"kc", 4096),
    (b"kd", 4096), (b"ke", 4096), (b"kf", 4096), (b"kg", 4096), (b"kh", 4096), (b"ki", 4096), (b"kj", 4096), (b"kk", 4096), (b"kl", 4096), (b"km", 4096), (b"kn", 4096), (b"ko", 4096), (b"z", 9000),
];

pub fn c03(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts::default();
    for mode in ALL_MODES {
        let ops = vec![
            Put(A, 5000), Put(B, 0), Batch(&[(A, 4096), (C, 5000)]), Del(A), Del(B), DelPrefix(b""), Rename(A, b"z"), BatchRename(A, C),
            Snap, DropSnap, Cleanup, Reopen, Second, CloseCur, Settle(1500), Limit(4000), PutFile(A, 6000),
        ];
        scs.push(seq("snap", mode, o.clone(), vec![Batch(LAYOUT1), Snap], ops.clone(), t.pick(3, 4)));
        // Snapshots of many values in many files.
        let ops = vec![DelPrefix(b""), DelPrefix(b"s00"), Put(b"s0003", 5000), Cleanup, Settle(1500), Reopen, Limit(9000), Second];
        scs.push(seq("snap-many", mode, o.clone(), vec![Spread(b"s", 70), many("m", 200, |i| i % 5 * 1000), Snap], ops, t.pick(1, 3)));
        let few = vec![Put(A, 5000), Del(B), DelPrefix(b""), Snap, Cleanup, Settle(1500), Second];
        scs.push(seq("snap-deep", mode, o.clone(), vec![Batch(LAYOUT2), Snap], few, t.pick(4, 6)));
        // Snapshots of some of the values that lie next to each other.
        let few = vec![
            Del(A), Del(B), Del(C), Del(b"d"), SnapN(&[A, B]), SnapN(&[B, C]), SnapN(&[A, C]), SnapN(&[B]), SnapN(&[C, b"d"]), SnapN(&[A, B, C, b"d"]), Settle(1500), Put(b"e", 5000), DropSnap,
        ];
        for (n, l) in [("adjacent1", LAYOUT1), ("adjacent2", LAYOUT2), ("adjacent3", LAYOUT3), ("adjacent4", LAYOUT4)] {
            scs.push(seq(n, mode, o.clone(), vec![Batch(l)], few.clone(), t.pick(3, 4)));
        }
    }
    scs
}
pub fn c02(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { read_all: true, ..Default::default() };
    for mode in ALL_MODES {
        let ops = vec![
            Stage(A, 5000), Stage(B, 0), Stage(A, 100), PartialValue(3000), Peek(A), StageRename(B), StageRename(C), Commit, Abort,
            Batch(&[(A, 3000), (B, 5192)]), BatchDropped(&[(A, 5000), (B, 1)]), Del(A), Put(B, 4096), Second, Reopen,
        ];
        scs.push(seq("batch", mode, o.clone(), vec![Put(A, 4097)], ops, t.pick(3, 4)));
        // Value writers kept while others are begun, and past the end of their batch.
        let ops = vec![Begin(3000), More(2100), StageBegun(A), DropBegun, Stage(A, 5000), Stage(B, 10), Commit, Abort, Put(C, 100)];
        scs.push(seq("begun", mode, o.clone(), vec![Put(A, 4097)], ops, t.pick(4, 6)));
        let ops = vec![Stage(A, 5000), Stage(B, 10), PartialValue(3000), StageRename(C), Commit, Abort, Settle(1500)];
        scs.push(repeats(mode, t.pick(48, 120), 3, t.pick(2, 3)));
        if t == Tier::Thorough {
            scs.push(repeats(mode, 70, 4, 2));
        }
        scs.push(seq("batch-deep", mode, o.clone(), vec![Put(A, 4097), Peek(A)], ops, t.pick(5, 6)));
    }
    scs
}
pub fn c04(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { raw: true, ..Default::default() };
    for mode in ALL_MODES {
        for (n, l) in [("l1", LAYOUT1), ("l2", LAYOUT2), ("l3", LAYOUT3)] {
            let ops = vec![
                Put(A, 5000), Put(B, 0), Del(A), Del(B), Del(C), Del(b"d"), Stage(A, 6000), Stage(B, 3000), PartialValue(5000), Commit, Abort, Snap, DropSnap,
                Settle(1500), Reopen, Second,
            ];
            scs.push(seq(n, mode, o.clone(), vec![Batch(l)], ops, t.pick(3, 4)));
            let ops = vec![Begin(3000), More(2100), StageBegun(A), DropBegun, Stage(B, 5000), Commit, Abort, Del(C), Del(b"d"), Del(A), Settle(1500)];
            scs.push(seq(&format!("{n}-begun"), mode, o.clone(), vec![Batch(l)], ops, t.pick(4, 5)));
            let ops = vec![Del(A), Del(B), Del(C), Del(b"d"), Put(b"e", 5000), Stage(A, 6000), Commit, Settle(1500)];
            scs.push(seq(&format!("{n}-deep"), mode, o.clone(), vec![Batch(l)], ops, t.pick(4, 6)));
        }
    }
    scs
}
pub fn c05(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { reclaim: true, ..Default::default() };
    for mode in ALL_MODES {
        for (n, l) in [("l1", LAYOUT1), ("l2", LAYOUT2), ("l3", LAYOUT3)] {
            let ops = vec![
                Put(A, 5000), Put(B, 0), Put(b"e", 8192), Del(A), Del(B), Del(C), Del(b"d"), BatchRename(A, C), DelPrefix(b""), Snap, DropSnap,
                Settle(1500), Reopen, Second, Limit(6000),
            ];
            scs.push(seq(n, mode, o.clone(), vec![Batch(l)], ops, t.pick(3, 4)));
        }
        let ops = vec![Put(A, 5000), Del(A), Del(C), Del(b"d"), DelPrefix(b""), Snap, DropSnap, Reopen, Second];
        scs.push(seq("hasty", mode, Opts { hasty: true, ..o.clone() }, vec![Batch(LAYOUT2)], ops, t.pick(3, 5)));
        // More dead values than the queue takes at once, and snapshots in other files.
        let ops = vec![DelEach(b"k"), SnapN(&[A]), SnapN(&[b"k0", b"k7"]), Put(b"e", 9000), Del(b"e"), Second, Settle(1500), Reopen];
        scs.push(seq("many", mode, o.clone(), vec![Batch(MANY)], ops, t.pick(3, 4)));
        let ops = vec![Put(b"e", 9000), Del(b"e"), Put(b"f", 5000), Del(b"f"), DelEach(b""), Second, SnapN(&[b"e"]), DropSnap, Settle(1500)];
        scs.push(seq("pinned", mode, o.clone(), vec![Batch(LAYOUT2), Snap, Second], ops, t.pick(3, 4)));
        let ops = vec![DelPrefix(b"m"), DelPrefix(b"s"), DelPrefix(b""), SnapN(&[b"m0009"]), DropSnap, Limit(2_000_000), Settle(1500), Reopen];
        scs.push(seq("very-many", mode, o.clone(), vec![Spread(b"s", 70), many("m", 1100, |i| 8192 + i % 3 * 100)], ops, t.pick(1, 2)));
        let ops = vec![Del(A), Put(A, 5000), DelPrefix(b""), Snap, DropSnap, Put(B, 3 << 20), Settle(1500)];
        scs.push(seq("large", mode, o.clone(), vec![Put(A, 3 << 20), Batch(&[(B, 5 << 20), (C, 1 << 20)])], ops, t.pick(2, 3)));
        // Hole punching disabled.
        let ops = vec![Put(A, 5000), Del(A), Del(B), DelPrefix(b""), BatchRename(A, C), Settle(1500), Limit(6000)];
        scs.push(seq("nopunch", mode, o.clone(), vec![Batch(LAYOUT2), NoPunch], ops, t.pick(3, 5)));
    }
    scs
}
pub fn c06(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { tick: 13, ..Default::default() };
    for (i, mode) in ALL_MODES.into_iter().enumerate() {
        let ops = vec![
            Put(A, 5000), Put(B, 100), Put(C, 0), Put(b"d", 3000), Batch(&[(A, 3000), (B, 5192)]), Del(A), Get(A), Get(B), GetDropped(A), Rename(A, b"z"), BatchRename(B, C),
            Limit(8000), Limit(3000), Limit(0), NoLimit, Reopen, Second, List(b""),
        ];
        let d = t.pick(3, 4);
        scs.push(seq("limit", mode, o.clone(), vec![Batch(&[(A, 1000), (B, 2000)])], ops, d));
        let ops = vec![Put(A, 5000), Put(B, 100), Put(b"d", 3000), Get(A), Get(B), Limit(8000), Limit(3000), Second];
        let d = if i == 0 { t.pick(5, 6) } else { t.pick(4, 5) };
        scs.push(seq("limit-deep", mode, o.clone(), vec![Put(C, 0), Put(A, 1000), Put(B, 2000), Limit(8000)], ops, d));
        let ops = vec![Put(A, 5000), Put(b"d", 3000), Get(A), Get(B), Limit(8000), Limit(3000), Leap(-3 * 86400), Leap(20 * 365 * 86400), Leap(100 * 365 * 86400)];
        scs.push(seq("limit-leaps", mode, o.clone(), vec![Put(C, 0), Put(A, 1000), Put(B, 2000), Limit(8000)], ops, t.pick(3, 5)));
        // A handle that finds the store over its limit, because another handle without one wrote to it.
        let ops = vec![
            Del(A), Del(b"nope"), Get(A), Get(C), Rename(B, b"z"), BatchRename(B, C), BatchRename(A, b"z"), MovePrefix(b"a", b"m"), MovePrefix(b"no", b"m"), DelPrefix(b"a"), DelPrefix(b"no"), Put(C, 0), Put(b"d", 10),
            PutFile(b"e", 10), Batch(&[(A, 30), (b"d", 20)]), BatchDropped(&[(A, 50)]), Snap, List(b""), NoLimit, Limit(2500), Second,
        ];
        let setup = vec![Put(C, 0), Put(b"a1", 300), Put(b"a2", 400), Limit(3000), Second, Put(A, 2800), Put(B, 2900), Put(b"a3", 0), Second];
        scs.push(seq("limit-exceeded", mode, o.clone(), setup, ops, t.pick(2, 4)));
    }
    scs
}
pub fn c07(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { tick: 13, times: true, ..Default::default() };
    for mode in ALL_MODES {
        let ops = vec![
            Put(A, 5000), Put(B, 0), Get(A), Get(B), GetDropped(A), List(b""), Del(A), Rename(A, b"z"), MovePrefix(b"a", b"m"), BatchRename(A, C), Batch(&[(A, 3000), (B, 10)]),
            BatchDropped(&[(A, 5000), (B, 1)]), Snap, Peek(A), Get(b"nope"), Reopen, Second, Settle(1500), PutFile(C, 100),
        ];
        scs.push(seq("times", mode, o.clone(), vec![Put(A, 1000), Put(B, 20), Get(A)], ops, t.pick(3, 4)));
        // The time of day is set back or far ahead.
        let ops = vec![Leap(-3600), Leap(12 * 365 * 86400), Leap(90 * 365 * 86400), Leap(-40 * 365 * 86400), Get(A), GetDropped(B), Put(A, 50), BatchRename(A, C), Rename(A, b"z"), MovePrefix(b"a", b"m"), Snap, Del(A), Second];
        scs.push(seq("times-leaps", mode, o.clone(), vec![Put(A, 1000), Put(B, 20), Get(A)], ops, t.pick(3, 4)));
        // Many values used at once.
        let ops = vec![Snap, Peek(b"m0100"), GetDropped(b"m0700"), MovePrefix(b"m", b"n"), DelPrefix(b"m05"), Get(b"m1099")];
        scs.push(seq("times-many", mode, o.clone(), vec![many("m", 1100, |i| i % 3)], ops, t.pick(2, 3)));
        // The smallest steps of the clock, and none at all.
        for tick in [0, 1] {
            let ops = vec![
                Put(A, 50), Get(A), Get(B), GetDropped(A), Rename(A, b"z"), MovePrefix(b"a", b"m"), BatchRename(A, C), Batch(&[(A, 30), (B, 10)]), BatchDropped(&[(A, 50), (B, 1)]), Snap, Del(A), Second,
            ];
            scs.push(seq(&format!("times-tick{tick}"), mode, Opts { tick, ..o.clone() }, vec![Put(A, 1000), Put(B, 20), Get(A)], ops, t.pick(3, 4)));
        }
    }
    scs
}
pub const P_KEYS: &[(Key, usize)] = &[
    (b"", 1), (b"\0", 2), (b"a", 3), (b"a\0", 4), (b"aa", 5), (b"a\xff", 6), (b"a\xff\0", 7), (b"a\xff\xff", 8), (b"a\xff\xffz", 9), (b"b", 10), (b"b\0", 11), (b"\xff", 12), (b"\xff\xff", 13), (b"\xff\xff\xff", 14),
];
pub const P_PREF: &[Key] = &[b"", b"\0", b"a", b"a\0", b"a\xff", b"a\xff\xff", b"a\xfe", b"b", b"\xff", b"\xff\xff", b"\xff\xff\xff\xff", b"\xfe\xff", b"c"];
pub fn c08(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { prefixes: P_PREF, times: true, tick: 13, ..Default::default() };
    for (i, mode) in ALL_MODES.into_iter().enumerate() {
        let mut ops = vec![];
        for &p in P_PREF {
            ops.push(DelPrefix(p));
            for q in [&b"n"[..], b"", b"a", b"a\xff", b"\xff"] {
                if p != q {
                    ops.push(MovePrefix(p, q));
                }
            }
        }
        ops.push(Put(b"a\xff", 5000));
        ops.push(Del(b"b"));
        scs.push(seq("prefix", mode, o.clone(), vec![Batch(P_KEYS)], ops.clone(), if i == 0 { t.pick(2, 3) } else { t.pick(1, 2) }));
        // Many items, and long keys.
        let mut ops = vec![];
        for p in [&b"m"[..], b"m0", b"m1", b"m050", b"", b"n", &[0xff; 300], &[0xff; 299], &[b'q'; 256]] {
            ops.push(DelPrefix(p));
            for q in [&b"n"[..], &[b'r'; 300], b""] {
                if p != q {
                    ops.push(MovePrefix(p, q));
                }
            }
        }
        let long: &[(Key, usize)] = &[(&[0xff; 300], 5), (&[0xff; 301], 6), (&[b'q'; 255], 0), (&[b'q'; 256], 5000), (&[b'q'; 1000], 10)];
        let o2 = Opts { prefixes: &[b"m", b"n", b"q", b"r", &[0xff; 299], &[0xff; 301]], ..o.clone() };
        scs.push(seq("prefix-many", mode, o2, vec![many("m", 1100, |i| i % 3), Batch(long)], ops, if i == 0 { t.pick(2, 3) } else { t.pick(1, 2) }));
        let ops = vec![
            Put(b"a\xff", 10), Put(b"b", 10), Put(b"a", 5000), DelPrefix(b"a"), DelPrefix(b"a\xff"), DelPrefix(b""), MovePrefix(b"a", b"b"), MovePrefix(b"a\xff", b"b"), MovePrefix(b"b", b""), MovePrefix(b"", b"x"), Second,
        ];
        scs.push(seq("prefix-deep", mode, o.clone(), vec![], ops, t.pick(3, 5)));
    }
    scs
}
pub fn c09(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { read_all: true, times: true, tick: 13, ..Default::default() };
    for mode in ALL_MODES {
        let ops = vec![
            Put(A, 5000), Put(B, 100), Del(A), Rename(A, B), Rename(A, A), Rename(B, C), Rename(C, A), BatchRename(A, A), BatchRename(A, B), BatchRename(B, C),
            Peek(A), Peek(B), StageRename(A), StageRename(B), Stage(A, 10), Stage(B, 20), Commit, Abort, Reopen, Second,
        ];
        scs.push(seq("rename", mode, o.clone(), vec![Batch(&[(A, 3000), (B, 4096)])], ops, t.pick(3, 4)));
        let ops = vec![Put(A, 50), Del(A), Rename(A, B), Peek(A), Peek(B), StageRename(A), StageRename(B), StageRename(C), Commit];
        scs.push(seq("rename-deep", mode, o.clone(), vec![Batch(&[(A, 3000), (B, 4096)]), Peek(A)], ops, t.pick(4, 6)));
        let (l, m): (Key, Key) = (&[b'l'; 70_000], &[b'l'; 256]);
        let ops = vec![Rename(A, l), Rename(l, m), BatchRename(A, m), BatchRename(m, l), BatchRename(l, A), Put(m, 10), Del(m), Second];
        scs.push(seq("rename-long", mode, o.clone(), vec![Batch(&[(A, 3000), (B, 4096)])], ops, t.pick(3, 4)));
        let ops = vec![BatchRename(A, B), BatchRename(A, A), Rename(A, B), Rename(A, A), Put(B, 10), Put(B, 0)];
        scs.push(seq("rename-empty", mode, o.clone(), vec![Put(A, 0)], ops, t.pick(2, 3)));
    }
    scs
}
/// Background work that falls behind, with snapshots in its way.
pub fn c13(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for mode in ALL_MODES {
        let ops = vec![DelEach(b"k"), SnapN(&[A]), SnapN(&[b"k0", b"k7"]), Put(b"e", 9000), Del(b"e"), Second, CloseCur, Settle(1500), Reopen, Cleanup, Limit(9000), DropSnap];
        scs.push(seq("many", mode, Opts::default(), vec![Batch(MORE)], ops, t.pick(3, 4)));
    }
    scs
}
pub fn c14(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for collide in [false, true] {
        let o = Opts { storage: true, collide, ..Default::default() };
        for mode in ALL_MODES {
            let ops = vec![
                Put(A, 5000), Put(B, 0), Put(C, 4096), PutFile(B, 3000), Stage(A, 6000), PartialValue(5000), Commit, Abort, Del(A), Del(C), BatchRename(A, C), DelPrefix(b""), Limit(6000), Snap, Reopen, Second, Settle(1500),
            ];
            scs.push(seq(if collide { "storage-collide" } else { "storage" }, mode, o.clone(), vec![Batch(LAYOUT1), Second], ops, t.pick(3, 4)));
            if !collide {
                let ops = vec![many("m", 300, |i| i % 3 * 3000), Spread(b"s", 70), DelPrefix(b"m"), MovePrefix(b"m", b"s"), DelPrefix(b"s00"), Put(b"m0003", 5000), Limit(100_000), Second, Settle(1500)];
                scs.push(seq("storage-many", mode, o.clone(), vec![], ops, t.pick(2, 4)));
            }
            // Moving things, also to where something is.
            let ops = vec![
                Put(b"a1", 5000), Put(b"b1", 0), Put(B, 4096), Rename(A, B), Rename(A, b"z"), Rename(b"b1", b"a1"), MovePrefix(b"a", b"b"), MovePrefix(b"", b"x"), MovePrefix(b"b", b"a"), BatchRename(A, B), DelPrefix(b"b"), Limit(6000), Second,
            ];
            if !collide {
                scs.push(seq("storage-moves", mode, o.clone(), vec![Batch(LAYOUT1), Put(b"b1", 300)], ops, t.pick(3, 4)));
            }
        }
    }
    scs
}
pub fn c19(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { snapdirs: true, ..Default::default() };
    for mode in ALL_MODES {
        let ops = vec![Put(A, 5000), Put(C, 10), Del(A), Snap, DropSnap, Cleanup, Stale, Second, CloseCur, Reopen, Settle(1500)];
        scs.push(seq("cleanup", mode, o.clone(), vec![Batch(LAYOUT1)], ops, if mode == Mode::Clone { t.pick(4, 5) } else { t.pick(3, 4) }));
        let ops = vec![Cleanup, DropOne, DelPrefix(b""), Snap, DropSnap, Stale, Settle(1500)];
        scs.push(seq("cleanup-many", mode, o.clone(), vec![Spread(b"s", 70), Snap], ops, if mode == Mode::Clone { t.pick(3, 4) } else { t.pick(2, 3) }));
        // Snapshots of several files that are given up one after the other.
        let ops = vec![Put(A, 5000), Put(b"y", 100), Del(A), DropOne, Snap, SnapN(&[A, b"y"]), Cleanup, Second, CloseCur, Settle(1500)];
        let setup = vec![Stage(A, 5000), Put(b"y", 5000), Commit, Second, Put(b"z", 5000), Snap, Second];
        scs.push(seq("cleanup-some", mode, o.clone(), setup, ops, if mode == Mode::Clone { t.pick(4, 5) } else { t.pick(2, 4) }));
    }
    scs
}
pub fn c22(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    let o = Opts { read_all: true, reclaim: true, ..Default::default() };
    for mode in ALL_MODES {
        let ops = vec![
            Put(A, 5000), Put(B, 0), Del(A), Del(C), Stage(A, 6000), Commit, Abort, Snap, DropSnap, Reopen, Second, CloseCur, OldVersion, Settle(1500), Cleanup,
        ];
        scs.push(seq("handles", mode, o.clone(), vec![Batch(LAYOUT1)], ops.clone(), t.pick(3, 4)));
        let ops = vec![OldVersion, Second, Put(A, 10), Reopen];
        scs.push(seq("many-files", mode, o.clone(), vec![Spread(b"s", 70), many("m", 300, |i| i % 3 * 3000)], ops, t.pick(2, 3)));
        let mut s = seq("new-store", mode, o.clone(), vec![], vec![Put(A, 5000), Second, Reopen, OldVersion, Del(A), CloseCur], t.pick(3, 4));
        s.template = false;
        scs.push(s);
    }
    scs
}
