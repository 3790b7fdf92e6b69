use crate::{Plan, Tier};
mod capi;
mod cli;
mod conc;
mod crash;
mod fault;
mod file;
mod seq;

pub fn plan(id: &str, t: Tier) -> Option<Plan> {
    let p = |scs, tags: &[&'static str], rule: &str| seq::plan(scs, tags, t, rule);
    let wide = matches!(id, "C02" | "C04" | "C10" | "C20");
    Some(match id {
        "C01" => seq::c01(t),
        "C02" => p(cat([conc::c02(t), seq::c02(t)]), &["C02", "C01"], "batches driven against writers, readers and listers by every schedule up to the preemption bound, and all batch operation sequences of the alphabets; a batch must show all or nothing and the history must be linearizable"),
        "C03" => p(cat([conc::c03(t), seq::c03(t), file::giants()]), &["C03"], "snapshots held while other threads or later operations overwrite, delete, reclaim, clean up and close, in every order within bounds; each snapshot is re-read by every means"),
        "C04" => p(cat([conc::c04(t), seq::c04(t), file::giants()]), &["C04", "C01", "C03"], "values laid out across block boundaries, deleted and reclaimed in every order and schedule within bounds; reachable bytes are read from the files themselves"),
        "C05" => p(cat([conc::c05(t), seq::c05(t), file::giants()]), &["C05"], "after quiescence every whole block of a dead extent must be a hole; all sequences and schedules within bounds"),
        "C06" => p(cat([conc::c06(t), seq::c06(t)]), &["C06"], "all sequences and schedules within bounds against a model that evicts in order of last use"),
        "C07" => p(seq::c07(t), &["C07"], "all sequences against a model of last-used times under a virtual clock"),
        "C08" => p(seq::c08(t), &["C08", "C01"], "all sequences of prefix operations over adversarial keys and prefixes against a model"),
        "C09" => p(seq::c09(t), &["C09", "C01"], "all sequences of renames against a model"),
        "C10" => p(crash::c10(t), &["C10"], "the process dies before every mutating system call and inside every write of the last operation of every sequence; the reopened store must be the acknowledged one, or that with the change in flight, and must work"),
        "C11" => p(fault::c11(t), &["C11"], "every system call of every operation of every sequence fails with each plausible error or is cut short, and every source of a write fails at every kind of position; the call must report an error or do its whole job, all else must be intact, and everything must work afterwards"),
        "C12" => p(conc::c12(t), &["C12"], "all schedules of concurrent operation programs up to the preemption bound; histories are checked for linearizability by enumeration"),
        "C13" => p(cat([conc::c13(t), seq::c13(t)]), &["C13"], "all schedules of concurrent operation programs up to the preemption bound; panics, deadlocks, unexplained errors and puncher threads that never end are violations"),
        "C14" => p(cat([conc::c14(t), seq::c14(t), file::giants()]), &["C14", "C01"], "all sequences and schedules within bounds; at quiescence the manifest's extents are disjoint, inside their files and sum up to the accounted size"),
        "C15" => p(cat([file::c15(t), file::giants()]), &["C15"], "every source size, hole layout, file position, way of opening, way of storing and outcome of cloning of the given sets, and all operation sequences that store files; contents are compared with the bytes written to the source"),
        "C16" => p(file::c16(t), &["C16"], "every position and buffer size over every value length up to the bound, and around block boundaries, with every arrangement of neighbours and kind of snapshot; two threads reading at once under every schedule up to the preemption bound"),
        "C17" => p(file::c17(t), &["C17"], "every allocation pattern of a file up to the bound of blocks with every kind of last block; every punched range of blocks and every checked range between points around block boundaries"),
        "C18" => p(file::c18(t), &["C18"], "every lock operation in every state of the locks of several open files over a small number of cells, set up and observed with raw system calls and compared with a model; waiting requests under all schedules up to the preemption bound"),
        "C19" => p(cat([conc::c19(t), seq::c19(t)]), &["C19", "C03"], "all sequences and schedules within bounds; snapshot directories on disk are compared with live snapshots after each cleanup"),
        "C20" => p(cli::c20(t), &["C20"], "the real tool run on every layout of live, dead and punched values of the given sizes, with nobody, a snapshot, a writer, a renamer or an idle handle around; its output is compared with the manifest and the real allocation of the files; and the tool as a thread of the harness among writers, readers, renamers and closing handles under every schedule up to the preemption bound"),
        "C21" => p(capi::c21(t), &["C21"], "all sequences of C calls of the alphabets, each call next to its native equivalent on a twin store under the same virtual clock; results, error codes, output arguments, buffers and stores are compared after every call"),
        "C22" => p(cat([conc::c22(t), seq::c22(t), crash::c22(t), file::c22_olds(t)]), &["C22", "C01", "C10"], "all sequences and schedules of opening and closing handles within bounds against a model, and a crash at every point of creating a store and of resetting an old one"),
        _ => return None,
    })
    .map(|mut p: Plan| {
        if wide && t == Tier::Quick {
            p.budget = 140;
        }
        p
    })
}
fn cat<const N: usize>(v: [Vec<crate::explore::Scenario>; N]) -> Vec<crate::explore::Scenario> {
    v.into_iter().flatten().collect()
}
