//! Runs many simulated executions of one property on several worker processes, reports the first
//! violation (by run index) minimised, and writes down what was covered.

use crate::{
    exec::{run, Run},
    oracle::Verdict,
    plan::Plan,
    props::{self, by_id, Prop},
    rng::{hash_bytes, mix, Rng},
    rt, shm,
    shrink::Shrink,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    sync::atomic::{AtomicU64, Ordering::SeqCst},
    time::{Duration, Instant},
};

const ROOT: &str = "/verif";

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

pub fn plan_of(p: &Prop, seed: u64, i: u64) -> Plan {
    let s = mix(mix(seed, hash_bytes(7, p.id.as_bytes())), i);
    let mut plan = (p.gen)(&mut Rng::new(s));
    plan.seed = s;
    own_threads(&mut plan, &mut Rng::new(mix(s, 0xf2e5)));
    plan
}

/// Some plans run their operations, or some of them, each on a thread of its own: what a
/// thread holds for itself is then new for every operation.
fn own_threads(plan: &mut Plan, r: &mut Rng) {
    if plan.kind == "wear" || !r.pct(12) {
        return;
    }
    let all = plan.prop == "C13" || r.pct(50);
    for o in plan.epochs.iter_mut().flat_map(|e| &mut e.threads).flatten() {
        o.fresh = all || r.pct(40);
    }
}

fn digest_run(r: &Run) -> u64 {
    let mut h = 1;
    for o in &r.outs {
        h = hash_bytes(h, &bincode::serialize(o).unwrap_or_default());
    }
    h
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    runs: u64,
    shapes: Vec<u64>,
    nontrivial: u64,
    steps: u64,
    syscalls: u64,
    switches: u64,
    now: u64,
    epochs: u64,
    ops: u64,
    twice: u64,
    diverged: Vec<u64>,
    kinds: BTreeMap<String, u64>,
    status: BTreeMap<String, u64>,
    found: Option<(u64, String, String)>,
    samples: Vec<(u64, String)>,
    timed_out: bool,
}

fn describe(i: u64, plan: &Plan, r: &Run) -> String {
    let mut faults: BTreeMap<String, u32> = BTreeMap::new();
    for o in r.outs.iter().flat_map(|o| &o.ops) {
        for f in &o.fired {
            *faults.entry(format!("{:?}:{}", f.call, f.what).to_lowercase()).or_default() += 1;
        }
    }
    let ends: Vec<String> = r
        .outs
        .iter()
        .enumerate()
        .map(|(e, o)| {
            let ops: Vec<String> = o
                .ops
                .iter()
                .map(|q| {
                    let op = &plan.epochs[e].threads[q.th as usize][q.ix as usize].op;
                    let r: String = crate::exec::show_res(&q.res).chars().take(90).collect();
                    format!("t{} {} -> {}", q.th, crate::oracle::show_op(op), r)
                })
                .collect();
            format!("{}: {}", o.status, ops.join("; "))
        })
        .collect();
    json!({"run": i, "seed": plan.seed, "kind": plan.kind, "files": plan.fs.iter().map(|f| f.path.clone()).collect::<Vec<_>>(),
        "processes": ends, "fired": faults,
        "schedule": plan.epochs.iter().map(|e| e.sched.iter().map(|s| format!("{:?}+{}>{}", s.unit, s.after, s.pick)).collect::<Vec<_>>()).collect::<Vec<_>>()})
    .to_string()
}

fn worker(p: &Prop, seed: u64, w: u64, n: u64, total: u64, min: &AtomicU64, until: Instant) -> Report {
    let mut rep = Report::default();
    let mut shapes = HashSet::new();
    let mut i = w;
    while i < total && i < min.load(SeqCst) {
        if Instant::now() > until {
            rep.timed_out = true;
            break;
        }
        let plan = plan_of(p, seed, i);
        let r = run(&plan, false);
        rep.runs += 1;
        *rep.kinds.entry(plan.kind.clone()).or_default() += 1;
        for o in &r.outs {
            rep.steps += o.steps;
            rep.syscalls += o.syscalls;
            rep.switches += o.switches;
            rep.now += o.now;
            rep.epochs += 1;
            rep.ops += o.ops.len() as u64;
            *rep.status.entry(o.status.clone()).or_default() += 1;
        }
        let v = (p.check)(&plan, &r);
        if props::nontrivial(p.id, &plan, &r) {
            rep.nontrivial += 1;
            shapes.insert(props::shape(&r));
            if rep.samples.len() < 2 {
                rep.samples.push((i, describe(i, &plan, &r)));
            }
        }
        if i % 61 == 0 {
            rep.twice += 1;
            if digest_run(&run(&plan, false)) != digest_run(&r) {
                rep.diverged.push(i);
            }
        }
        if let Err(x) = v {
            // Only what happens again when the plan is run again counts.
            let again = (p.check)(&plan, &run(&plan, false));
            match again {
                Err(y) if y.class == x.class => {
                    min.fetch_min(i, SeqCst);
                    rep.found = Some((i, x.class, x.msg));
                    break;
                }
                _ => rep.diverged.push(i),
            }
        }
        i += n;
    }
    rep.shapes = shapes.into_iter().collect();
    rep
}

struct Known {
    fixed: bool,
    property: String,
    class: String,
    plan: Plan,
    what: String,
}

/// Scenarios of defects found earlier: lines `finding: ...` and `fixed: ...` of the list.
fn known(prop: &str) -> Vec<Known> {
    let mut out = vec![];
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", ROOT)).unwrap_or_default();
    for l in text.lines() {
        let fixed = l.starts_with("fixed: ");
        if !fixed && !l.starts_with("finding: ") {
            continue;
        }
        let word = |k: &str| -> String {
            let at = match l.find(&format!(" {}=", k)) {
                Some(i) => i + k.len() + 2,
                None => return String::new(),
            };
            match l[at..].strip_prefix('"') {
                Some(q) => q.split('"').next().unwrap_or("").to_string(),
                None => l[at..].split_whitespace().next().unwrap_or("").to_string(),
            }
        };
        if word("property") != prop {
            continue;
        }
        let Ok(t) = std::fs::read_to_string(format!("{}/{}", ROOT, word("plan"))) else { continue };
        let Ok(plan) = serde_json::from_str::<Plan>(&t) else { continue };
        let what = l.split(" :: ").nth(1).unwrap_or(l).to_string();
        out.push(Known { fixed, property: prop.into(), class: word("class"), plan, what });
    }
    out
}

fn judge(p: &Prop, plan: &Plan) -> (Run, Verdict) {
    let r = run(plan, false);
    let v = (p.check)(plan, &r);
    (r, v)
}

fn report(p: &Prop, plan: &Plan, class: &str, msg: &str, tag: &str) -> String {
    let t0 = Instant::now();
    let mut fails = |q: &Plan| matches!((p.check)(q, &run(q, false)), Err(v) if v.class == class);
    let (small, tried) = Shrink::run(plan, env_u64("VERIF_SHRINK_SECS", 45), &mut fails);
    let r = run(&small, true);
    let v = (p.check)(&small, &r);
    let msg2 = v.err().map_or(msg.to_string(), |v| v.msg);
    let path = format!("{}/replays/{}-{}.json", ROOT, p.id, tag);
    let _ = std::fs::create_dir_all(format!("{}/replays", ROOT));
    let j = json!({
        "property": p.id, "class": class, "violation": msg2, "first_seen_as": msg, "seed": plan.seed,
        "digest": format!("{:016x}", digest_run(&run(&small, false))),
        "minimised": {"candidates_tried": tried, "seconds": t0.elapsed().as_secs_f64(),
            "json_bytes_before": serde_json::to_string(plan).unwrap().len(), "json_bytes_after": serde_json::to_string(&small).unwrap().len()},
        "log": r.outs.iter().map(|o| json!({"status": o.status, "events": o.log})).collect::<Vec<_>>(),
        "files": small.fs.iter().filter_map(|f| match &f.node { crate::plan::FsNode::File(s) => {
            let b = s.bytes();
            Some(json!([f.path, String::from_utf8_lossy(&b[..b.len().min(2_000)])]))
        }, _ => None}).collect::<Vec<_>>(),
        "plan": small,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("{} ({}): {}", p.id, class, msg2);
    for l in r.outs.iter().flat_map(|o| &o.log).take(60) {
        println!("    {}", l);
    }
    println!("VIOLATION property={} replay={}", p.id, path);
    path
}

pub fn check(id: &str) -> i32 {
    let Some(p) = by_id(id) else {
        eprintln!("no such property: {}", id);
        return 2;
    };
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let thorough = tier == "thorough";
    let total = env_u64("VERIF_RUNS", if thorough { p.quick * 40 } else { p.quick });
    let secs = env_u64("VERIF_SECS", if thorough { 3_000 } else { 240 });
    let workers = env_u64("VERIF_WORKERS", std::thread::available_parallelism().map_or(8, |n| n.get() as u64)).clamp(1, 64);
    println!("{}: seed {} ({} tier), {} runs on {} workers", id, seed, if thorough { "thorough" } else { "quick" }, total, workers);
    let t0 = Instant::now();
    let main_shm = shm::map();
    shm::attach(main_shm);
    let mut violations = 0;

    // Earlier findings: the recorded ones must not hide anything else, the repaired ones stay repaired.
    let mut replayed = 0;
    for k in known(id) {
        replayed += 1;
        let (_, v) = judge(p, &k.plan);
        match v {
            Ok(()) => {}
            Err(v) if !k.fixed && k.class.split('|').any(|c| c == v.class) => {
                println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            }
            Err(v) => {
                violations += 1;
                report(p, &k.plan, &v.class, &v.msg, &format!("known-{}", replayed));
            }
        }
    }

    let min_page = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &*p.cast::<AtomicU64>()
    };
    min_page.store(if violations > 0 { 0 } else { u64::MAX }, SeqCst);
    let until = t0 + Duration::from_secs(secs);
    let mut kids = vec![];
    for w in 0..workers {
        let m = shm::map();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            shm::attach(m);
            let rep = worker(p, seed, w, workers, total, min_page, until);
            let s = shm::get();
            let mut c = std::io::Cursor::new(&mut s.out[..]);
            let ok = bincode::serialize_into(&mut c, &rep).is_ok();
            s.len = c.position();
            unsafe { libc::_exit(if ok { 0 } else { 3 }) }
        }
        kids.push((pid, m));
    }
    let mut reps: Vec<Report> = vec![];
    let mut trouble = vec![];
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut calls = [0u64; 16];
    let mut cov = vec![false; shm::COV];
    let mut inter = HashSet::new();
    for (pid, m) in kids {
        let mut st = 0;
        if pid < 0 {
            trouble.push("fork failed".to_string());
            continue;
        }
        while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
        let s = unsafe { &*m };
        if st == 0 {
            match bincode::deserialize::<Report>(&s.out[..s.len as usize]) {
                Ok(r) => reps.push(r),
                Err(e) => trouble.push(e.to_string()),
            }
        } else {
            trouble.push(format!("worker ended with {:#x}", st));
        }
        for (k, n) in shm::counters(s) {
            *counts.entry(k).or_default() += n;
        }
        for (a, b) in calls.iter_mut().zip(&s.calls) {
            *a += b;
        }
        for (a, b) in cov.iter_mut().zip(&s.cov) {
            *a |= *b != 0;
        }
        inter.extend(s.inter.iter().copied().filter(|&x| x != 0));
    }
    let explored = t0.elapsed().as_secs_f64();
    if let Some((i, class, msg)) = reps.iter().filter_map(|r| r.found.clone()).min() {
        violations += 1;
        let plan = plan_of(p, seed, i);
        println!("run {} of seed {} violates {}: {}", i, seed, id, msg);
        report(p, &plan, &class, &msg, &format!("s{}-r{}", seed, i));
    }

    // Evidence.
    let sum = |f: fn(&Report) -> u64| reps.iter().map(f).sum::<u64>();
    let runs = sum(|r| r.runs);
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut status: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, String)> = vec![];
    let mut diverged: Vec<u64> = vec![];
    for r in &reps {
        shapes.extend(&r.shapes);
        for (k, v) in &r.kinds {
            *kinds.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.status {
            *status.entry(k.clone()).or_default() += v;
        }
        samples.extend(r.samples.iter().cloned());
        diverged.extend(&r.diverged);
    }
    samples.sort();
    let (probes, faults): (BTreeMap<_, _>, BTreeMap<_, _>) = counts.into_iter().partition(|(k, _)| k.starts_with("probe:"));
    let probes: BTreeMap<String, u64> = probes.into_iter().map(|(k, v)| (k[6..].to_string(), v)).collect();
    let call_names: BTreeMap<String, u64> =
        crate::plan::CALLS.iter().map(|c| (format!("{:?}", c).to_lowercase(), calls[*c as usize])).filter(|x| x.1 > 0).collect();
    let edges = cov.iter().filter(|&&x| x).count();
    if let Ok(f) = std::env::var("VERIF_COVER") {
        // Development: which instrumented locations were reached.
        let (a, b) = (rt::PCS[0].load(SeqCst), rt::PCS[1].load(SeqCst));
        let base = check as *const () as u64;
        let mut s = format!("{:x}\n", base);
        for i in 0..(b - a) / 16 {
            let pc = unsafe { *((a + i * 16) as *const u64) };
            s += &format!("{} {:x}\n", u8::from(cov[i as usize + 1]), pc);
        }
        let _ = std::fs::write(f, s);
    }
    let j = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": shapes.len(),
            "rule": p.rule,
            "distinct_measure": "distinct hashes of the whole execution trace: every system call with its arguments, result and fault, every context switch with the instrumented code location it happened at, and how each process ended",
            "samples": samples.iter().take(6).map(|s| serde_json::from_str::<Value>(&s.1).unwrap_or(Value::Null)).collect::<Vec<_>>(),
            "nontrivial_runs": sum(|r| r.nontrivial),
            "runs_planned": total,
            "stopped_by_time": reps.iter().any(|r| r.timed_out),
            "runs_per_hour": (runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "scenario_families": kinds,
            "processes_simulated": sum(|r| r.epochs),
            "process_endings": status,
            "operations": sum(|r| r.ops),
            "simulated_seconds": sum(|r| r.now) as f64 / 1e9,
            "instrumented_steps": sum(|r| r.steps),
            "system_calls": sum(|r| r.syscalls),
            "system_calls_by_kind": call_names,
            "faults_fired": faults,
            "context_switches": sum(|r| r.switches),
            "distinct_switch_points": inter.len(),
            "switch_point_measure": "distinct (instrumented code location, from-thread, to-thread) triples at which the scheduler preempted",
            "library_edges_covered": edges,
            "library_edges_total": rt::N_GUARDS.load(SeqCst),
            "probes": probes,
            "determinism": {"runs_executed_twice": sum(|r| r.twice), "diverged": diverged},
            "earlier_findings_replayed": replayed,
            "real_code": ["crate over (all of src/, instrumented)", "num-bigint, num-rational, num-traits, fnv, lazy_static (real)", "std::fs, std::io, std::path, std::sync, alloc::rc/sync of the toolchain (real, above the C library)"],
            "stubs": ["C library file calls (open, read, write, fstat, stat, realpath, readlink, close, lseek, getcwd ...): in-memory file system", "thread scheduling, futex waits, clocks, random seeds: the simulator", "global allocator: the system's, counted"],
            "harness_trouble": trouble,
        },
        "assumptions": [
            "sequentially consistent memory between scheduling points",
            "the simulated file system follows POSIX for the calls the library makes",
            "interleavings and faults are sampled, not enumerated"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", ROOT));
    let file = format!("{}/evidence/{}.json", ROOT, id);
    if let Err(e) = std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()) {
        eprintln!("{}: {}", file, e);
    }
    println!(
        "{}: {} runs ({} distinct non-trivial), {} violations, {} edges, {:.1} s{}",
        id,
        runs,
        shapes.len(),
        violations,
        edges,
        t0.elapsed().as_secs_f64(),
        if diverged.is_empty() { String::new() } else { format!(", DIVERGED {:?}", diverged) }
    );
    for t in &trouble {
        eprintln!("harness: {}", t);
    }
    if violations > 0 {
        1
    } else if !trouble.is_empty() && reps.is_empty() {
        2
    } else {
        0
    }
}

pub fn replay(file: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {}", file);
        return 2;
    };
    let Ok(j) = serde_json::from_str::<Value>(&t) else { return 2 };
    let j = if j["plan"].is_null() { json!({ "plan": j }) } else { j };
    let Ok(plan) = serde_json::from_value::<Plan>(j["plan"].clone()) else { return 2 };
    let Some(p) = by_id(&plan.prop) else { return 2 };
    shm::attach(shm::map());
    let r = run(&plan, true);
    for (e, o) in r.outs.iter().enumerate() {
        println!("process {}: {}", e, o.status);
        for l in &o.log {
            println!("    {}", l);
        }
    }
    let d = format!("{:016x}", digest_run(&run(&plan, false)));
    if let Some(w) = j["digest"].as_str() {
        println!("digest {} ({})", d, if w == d { "exactly the recorded execution" } else { "differs from the recorded execution" });
    }
    match (p.check)(&plan, &r) {
        Ok(()) => {
            println!("{}: no violation", plan.prop);
            0
        }
        Err(v) => {
            println!("{} ({}): {}", plan.prop, v.class, v.msg);
            println!("VIOLATION property={} replay={}", plan.prop, file);
            1
        }
    }
}

/// One line that must be the same whenever and wherever the same seeds are run.
pub fn digest(id: &str, n: u64) -> i32 {
    let Some(p) = by_id(id) else { return 2 };
    shm::attach(shm::map());
    let seed = env_u64("VERIF_SEED", 1);
    for i in 0..n {
        let plan = plan_of(p, seed, i);
        println!("{} {} {:016x} {:016x}", id, i, hash_bytes(1, serde_json::to_string(&plan).unwrap().as_bytes()), digest_run(&run(&plan, false)));
    }
    0
}

pub fn show(id: &str, i: u64) -> i32 {
    let Some(p) = by_id(id) else { return 2 };
    shm::attach(shm::map());
    let plan = plan_of(p, env_u64("VERIF_SEED", 1), i);
    for f in &plan.fs {
        match &f.node {
            crate::plan::FsNode::File(s) => println!("== {}\n{}", f.path, String::from_utf8_lossy(&s.bytes())),
            x => println!("== {} {:?}", f.path, x),
        }
    }
    println!("{}", serde_json::to_string_pretty(&plan.epochs).unwrap());
    let r = run(&plan, true);
    for o in &r.outs {
        println!("-- {}", o.status);
        for l in &o.log {
            println!("    {}", l);
        }
    }
    let v = (p.check)(&plan, &r);
    println!("{:?}", v);
    i32::from(v.is_err())
}

/// Runs a bare plan file and prints the verdict.
pub fn rerun(file: &str) -> i32 {
    let Some(plan) = std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str::<Plan>(&t).ok()) else { return 2 };
    let Some(p) = by_id(&plan.prop) else { return 2 };
    shm::attach(shm::map());
    let (r, v) = judge(p, &plan);
    for o in &r.outs {
        println!("-- {} steps {}", o.status, o.steps);
        for q in &o.ops {
            println!("   {}", crate::exec::show_res(&q.res));
        }
    }
    println!("{:?}", v);
    i32::from(v.is_err())
}

/// Runs every plan several times and says in what the executions differ.
pub fn twice(id: &str, n: u64) -> i32 {
    let Some(p) = by_id(id) else { return 2 };
    let seed = env_u64("VERIF_SEED", 1);
    let workers = env_u64("VERIF_WORKERS", 8);
    let times = env_u64("VERIF_TIMES", 2);
    for w in 0..workers {
        let m = shm::map();
        if unsafe { libc::fork() } == 0 {
            shm::attach(m);
            let mut i = w;
            let mut bad = 0;
            while i < n {
                let plan = plan_of(p, seed, i);
                let a = run(&plan, false);
                for _ in 1..times {
                    let b = run(&plan, false);
                    if digest_run(&a) != digest_run(&b) {
                        bad = 1;
                        if let Ok(f) = std::env::var("VERIF_LOGS") {
                            let l = run(&plan, true);
                            for k in 0..20_000 {
                                let l2 = run(&plan, true);
                                let same = l.outs.iter().zip(&l2.outs).all(|(x, y)| x.trace == y.trace);
                                if !same {
                                    for (x, n) in [(&l, "a"), (&l2, "b")] {
                                        let t: Vec<String> = x.outs.iter().flat_map(|o| o.log.clone()).collect();
                                        let _ = std::fs::write(format!("{}.{}.{}", f, i, n), t.join("\n"));
                                    }
                                    println!("logs after {}", k);
                                    break;
                                }
                            }
                        }
                        for (e, (x, y)) in a.outs.iter().zip(&b.outs).enumerate() {
                            let (x, y) = (format!("{:?}", x), format!("{:?}", y));
                            let at = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(0);
                            if x != y {
                                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(120)..(at + 60).min(s.len())]).into_owned();
                                println!("{} run {} process {}:\n  {}\n  {}", id, i, e, cut(&x), cut(&y));
                            }
                        }
                    }
                }
                i += workers;
            }
            unsafe { libc::_exit(bad) }
        }
    }
    let mut bad = 0;
    let mut st = 0;
    while unsafe { libc::wait(&mut st) } > 0 {
        bad |= i32::from(st != 0);
    }
    println!("{}: {} plans run {} times each on {} workers: {}", id, n, times, workers, if bad == 0 { "all identical" } else { "DIFFERENT" });
    bad
}
