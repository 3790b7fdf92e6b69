#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
mod explore;
mod props;
mod rt;
#[macro_use]
mod util;
mod world;

use explore::*;
use std::fmt::Write as _;
use std::time::Duration;

/// What one check explores.
pub struct Plan {
    pub scs: Vec<Scenario>,
    /// Oracle tags that count as violations of this property.
    pub tags: Vec<&'static str>,
    /// Wall-clock cap in seconds.
    pub budget: u64,
    pub rule: String,
    pub assumptions: Vec<String>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

fn verif() -> std::path::PathBuf {
    std::env::var_os("MC_VERIF").map(Into::into).unwrap_or_else(|| "/verif".into())
}

struct Known {
    property: String,
    scenario: String,
    text: String,
    what: String,
}
/// `KNOWN-FINDING: property=ID scenario=NAME match="TEXT" what fails`
fn known_findings() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(verif().join("known_findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("KNOWN-FINDING: ")?;
            let property = r.strip_prefix("property=")?.split(' ').next()?.to_string();
            let scenario = r.split("scenario=").nth(1)?.split(' ').next()?.to_string();
            let q = r.split("match=\"").nth(1)?;
            let text = q.split('"').next()?.to_string();
            let what = q.split_once("\" ")?.1.to_string();
            Some(Known { property, scenario, text, what })
        })
        .collect()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

fn check(id: &str, tier: Tier, workers: usize) -> i32 {
    let Some(plan) = props::plan(id, tier) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    util::enable(&plan.tags);
    rt::sched::init_hook();
    let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(plan.budget);
    let known = known_findings();
    let mut hits: Vec<bool> = vec![false; known.len()];
    let mut stats = Stats::default();
    let names: Vec<String> = plan.scs.iter().map(|s| s.name.clone()).collect();
    let verdict = explore(
        &plan.scs,
        workers,
        Duration::from_secs(budget),
        |f| {
            for (i, k) in known.iter().enumerate() {
                if k.property == id && names[f.scenario].contains(&k.scenario) && f.msg.contains(&k.text) {
                    hits[i] = true;
                    return true;
                }
            }
            false
        },
        &mut stats,
        1,
    );
    let code = match &verdict {
        Verdict::Clean => 0,
        Verdict::Violation(_) => 1,
        Verdict::Engine(_) => 2,
    };
    for (i, k) in known.iter().enumerate() {
        if hits[i] {
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }
    }
    let mut nviol = 0;
    if let Verdict::Violation(fs) = &verdict {
        for f in fs {
            nviol += 1;
            let dir = verif().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{id}-{nviol}.replay"));
            let mut s = format!("property {id}\ntier {}\nscenario {}\ntag {}\nmessage {}\nchoices", if tier == Tier::Quick { "quick" } else { "thorough" }, names[f.scenario], f.tag, f.msg.replace('\n', " "));
            for c in &f.trace {
                let _ = write!(s, " {}/{}/{}", c.kind, c.n, c.chosen);
            }
            s += "\n---- log of the failing execution\n";
            s += &f.log;
            let _ = std::fs::write(&p, s);
            println!("{} in scenario {}: {}", f.tag, names[f.scenario], f.msg);
            println!("VIOLATION property={id} replay={}", p.display());
        }
    }
    if let Verdict::Engine(m) = &verdict {
        println!("ENGINE ERROR {id}: {m}");
    }
    // evidence
    let states = stats.states.len() + stats.distinct.len();
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\",\n \"wall_s\": {:.1}, \"violations\": {nviol},\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"distinct_final_observations\": {},\n  \"rule\": {},\n  \"exhaustive\": {}, \"wall_cap_hit\": {}, \"deviation_bound_completed\": {},\n  \"scheduling_points\": {}, \"choice_points\": {}, \"operations_or_cases\": {}, \"injected_faults_or_crashes\": {}, \"fault_or_crash_sites\": {}, \"longest_execution_choices\": {},\n  \"explanation\": \"states: distinct store states declared by the oracles plus distinct final observations; transitions: newly explored choice edges; every execution runs the real code, so each one is a validated trace\",\n",
        json_str(id), if tier == Tier::Quick { "quick" } else { "thorough" }, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        stats.wall, states.max(1), stats.transitions.max(1), stats.executions, stats.distinct.len(), json_str(&plan.rule), !stats.capped && code != 2, stats.capped, stats.completed_cost,
        stats.points, stats.choices, stats.ops, stats.faults, stats.fault_sites.len(), stats.max_depth
    );
    let per: Vec<String> = names.iter().zip(&stats.per_scenario).take(400).map(|(n, c)| format!("{}: {c}", json_str(n))).collect();
    let _ = write!(e, "  \"executions_per_scenario\": {{{}}},\n", per.join(", "));
    let _ = write!(e, "  \"samples\": [{}]\n }},\n", stats.samples.iter().map(|s| json_str(&s.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(", "));
    let _ = write!(e, " \"assumptions\": [{}]\n}}\n", plan.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let ed = verif().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{id}.json")), e).expect("write evidence");
    println!(
        "{id}: {} executions of {} scenarios, {} store states, {} distinct observations, {} points, {} faults/crashes at {} sites, bound completed {}{}, {:.1}s",
        stats.executions, names.len(), stats.states.len(), stats.distinct.len(), stats.points, stats.faults, stats.fault_sites.len(), stats.completed_cost, if stats.capped { " (wall cap hit)" } else { "" }, stats.wall
    );
    code
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let id = get("property ");
    let tier = if get("tier ") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let name = get("scenario ");
    let steps: Vec<Step> = get("choices")
        .split_whitespace()
        .map(|c| {
            let v: Vec<u8> = c.split('/').map(|x| x.parse().unwrap()).collect();
            Step { kind: v[0], n: v[1], chosen: v[2] }
        })
        .collect();
    let plan = props::plan(&id, tier).expect("property");
    util::enable(&plan.tags);
    rt::sched::init_hook();
    let i = plan.scs.iter().position(|s| s.name == name).expect("scenario");
    let mut pool = Pool::new(&plan.scs, 1);
    let o = pool.run_one(i, &steps, true);
    println!("{}", o.log);
    println!("status {} {}", o.status, o.msg.replace('\u{1}', ": "));
    (o.status == rt::sched::ST_VIOLATION) as i32
}

fn main() {
    let a = rt::tool::args();
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 16);
    // Leftovers of killed runs.
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], tier, workers),
        Some("replay") => replay(&a[2]),
        Some("trace") => {
            // The default execution of a scenario with given data choices.
            let plan = props::plan(&a[2], tier).expect("property");
            util::enable(&plan.tags);
            rt::sched::init_hook();
            let i: usize = a[3].parse().unwrap();
            let mut want: Vec<u8> = a[4..].iter().map(|x| x.parse().unwrap()).collect();
            want.reverse();
            let mut pool = Pool::new(&plan.scs, 1);
            let mut prefix: Vec<Step> = vec![];
            loop {
                let o = pool.run_one(i, &prefix, true);
                let next = o.trace.iter().enumerate().skip(prefix.len()).find(|(_, r)| r.kind == rt::sched::K_DATA);
                match (next, want.pop()) {
                    (Some((k, _)), Some(c)) => {
                        prefix = o.trace[..=k].iter().map(|r| Step { kind: r.kind, n: r.n, chosen: r.chosen }).collect();
                        prefix[k].chosen = c;
                    }
                    _ => {
                        println!("{}\nstatus {} {}", o.log, o.status, o.msg);
                        break 0;
                    }
                }
            }
        }
        Some("list") => {
            for s in props::plan(&a[2], tier).expect("property").scs {
                println!("{} {:?} bounds {:?} total {}", s.name, s.mode, s.bounds, s.total);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID | replay FILE | list ID");
            2
        }
    };
    std::process::exit(code);
}
