//! Per property: how a plan (one simulated execution) is drawn, and how its history is judged.

use crate::{
    dump::{same, Cmp, Dump, DN},
    exec::*,
    gen::*,
    lang::*,
    oracle::*,
    plan::*,
    rng::{hash_bytes, mix, Rng},
    vfs::{join_canon, raw, Vfs},
};
use std::collections::{HashMap, HashSet};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Plan,
    pub check: fn(&Plan, &Run) -> Verdict,
    /// Simulated runs of the quick tier.
    pub quick: u64,
    pub rule: &'static str,
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", gen: c01, check: c01_check, quick: 72_000, rule: "a run loads a seeded document graph while reads are cut, interrupted, failed or the size is misreported; non-trivial: at least one such fault fired and the load's value (or error) was judged against the model" },
    Prop { id: "C02", gen: c02, check: c02_check, quick: 90_000, rule: "a run saves seeded objects over seeded old content while opens and writes are cut, failed or the process is killed; non-trivial: a fault fired inside a save whose target bytes were then judged" },
    Prop { id: "C03", gen: c03, check: c03_check, quick: 60_000, rule: "a run loads or builds objects, saves them, crashes and restarts, reloads and saves again; non-trivial: a saved file was loaded back and compared with the model of what was saved" },
    Prop { id: "C04", gen: c04, check: c04_check, quick: 72_000, rule: "a run loads corrupted, hostile, deep or cyclic file graphs while files are mutated and calls fail; non-trivial: the load did something (made system calls) under corruption, mutation or a fault" },
    Prop { id: "C05", gen: c05, check: c05_check, quick: 110_000, rule: "a run loads a seeded include graph over directories, links and spellings; non-trivial: at least one include was resolved and the whole value judged against the model" },
    Prop { id: "C06", gen: c06, check: c06_check, quick: 90_000, rule: "a run loads a seeded include graph that may contain cycles through aliases and links; non-trivial: at least one include, outcome judged against reachability in the model" },
    Prop { id: "C07", gen: c07, check: c07_check, quick: 72_000, rule: "a run loads an include graph while an editor replaces or rewrites its files between system calls; non-trivial: at least one edit fired during the load and the load's versions were judged" },
    Prop { id: "C08", gen: c08, check: c08_check, quick: 24_000, rule: "a run is a history of loads, failing loads, saves and edits in one process; each clean load is judged against the same load alone in a fresh process on the same disk; non-trivial: at least two loads compared" },
    Prop { id: "C09", gen: c09, check: c09_check, quick: 30_000, rule: "a run executes operations on 2-4 threads under a seeded preemptive schedule; each result is judged against the serial execution and the model; non-trivial: at least one preemption happened inside an operation" },
    Prop { id: "C10", gen: c10, check: c10_check, quick: 60_000, rule: "a run creates instances on 1-4 threads under a seeded preemptive schedule; every ID seen is judged for uniqueness, stability and order; non-trivial: two or more instances and, with several threads, a preemption" },
    Prop { id: "C11", gen: c11, check: c11_check, quick: 60_000, rule: "a run loads, clones, moves, reads and drops shared values on 1-3 threads; reference counts and identity of everything held are judged against the model; non-trivial: an audit compared at least three instances" },
    Prop { id: "C12", gen: c12, check: c12_check, quick: 90_000, rule: "a run loads an include graph while calls on some file fail, then loads it again without faults; non-trivial: a hard fault fired in the load" },
    Prop { id: "C13", gen: c13, check: c13_check, quick: 36_000, rule: "a run repeats loads and saves under faults and compares descriptors, disk and live allocations; non-trivial: a fault fired or an operation failed, and resources were compared across repetitions" },
    Prop { id: "C14", gen: c14, check: c14_check, quick: 110_000, rule: "a run loads an include graph in which one file is malformed; the error is judged against that file loaded by itself; non-trivial: the broken file was reached and error texts compared" },
    Prop { id: "C20", gen: c20, check: c20_check, quick: 22_000, rule: "a run performs the same loads, renderings and saves in 2-3 processes that differ in hash seeds, addresses, environment, clock, deliveries, earlier operations and other threads; results are compared between them; non-trivial: at least one load was compared" },
];

// ---------------------------------------------------------------- building blocks

fn new_plan(prop: &str, kind: &str, r: &mut Rng, items: &[FsItem], cwd: &str) -> Plan {
    Plan {
        prop: prop.into(),
        kind: kind.into(),
        seed: 0,
        hash_seed: r.next(),
        stack_kb: 8192,
        max_fds: 256,
        cwd: cwd.into(),
        dump: true,
        fs: items.to_vec(),
        epochs: vec![],
    }
}

fn load_op(g: &Graph, mem: bool, dst: u32) -> Op {
    if mem {
        Op::LoadStr { text: g.root_spec.clone(), dst }
    } else {
        Op::Load { path: g.root_path.clone(), dst }
    }
}

fn serial(ops: Vec<POp>) -> Epoch {
    Epoch { threads: vec![ops], sched: vec![] }
}

fn flt(call: Call, nth: usize, count: u32, act: Act, path: Option<&str>) -> Fault {
    Fault { call, nth: nth as u32, count, act, path: path.map(|s| s.to_string()) }
}

fn base_name(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or(p)
}

fn sched(r: &mut Rng, threads: usize) -> Vec<Sw> {
    if threads < 2 {
        return vec![];
    }
    let n = match r.below(10) {
        0 => 0,
        1..=5 => r.range(1, 4),
        _ => r.range(3, 14),
    };
    // Atomic operations are few, so windows between two of them are hit often; loads and stores
    // are many, but the only ones where the code uses no atomics.
    let atoms = match r.below(3) {
        0 => 0,
        1 => 50,
        _ => 100,
    };
    (0..n)
        .map(|_| {
            let unit = if r.pct(atoms) {
                Unit::Atom
            } else if r.pct(80) {
                Unit::Step
            } else {
                Unit::Sys
            };
            let after = match unit {
                Unit::Step => {
                    let m = *r.pick(&[300, 3_000, 60_000, 400_000]);
                    r.logu(m)
                }
                Unit::Sys => r.range(1, 6) as u64,
                Unit::Atom => {
                    let m = *r.pick(&[8, 40, 200, 1_500]);
                    1 + r.next() % m
                }
            };
            Sw { unit, after, pick: r.below(4) as u32 }
        })
        .collect()
}

fn errno(r: &mut Rng, c: Call) -> i32 {
    use libc::*;
    match c {
        Call::Open => *r.pick(&[EACCES, EIO, EMFILE, ENFILE, ENOENT, ELOOP, ENOMEM, EPERM, ESTALE, EINTR, EAGAIN, EBUSY, ETIMEDOUT]),
        Call::Read => *r.pick(&[EIO, EIO, EISDIR, EAGAIN, ESTALE, EINTR, ETIMEDOUT, ENXIO]),
        Call::Write => *r.pick(&[EIO, ENOSPC, EDQUOT, EFBIG, EAGAIN, EPIPE, EINTR]),
        Call::Realpath => *r.pick(&[EACCES, EIO, ELOOP, ENOENT, ENOMEM]),
        _ => *r.pick(&[EACCES, EIO, ENOENT, ENOMEM, ELOOP]),
    }
}

fn io_fault(r: &mut Rng, files: &[String]) -> Fault {
    let call = *r.pick(&[Call::Open, Call::Open, Call::Read, Call::Read, Call::Read, Call::Stat, Call::Realpath, Call::FStat, Call::Any]);
    let e = errno(r, call);
    let path = if !files.is_empty() && r.pct(55) { Some(base_name(r.pick(files)).to_string()) } else { None };
    let nth = if path.is_some() { if r.pct(50) { 0 } else { r.below(5) } } else { r.below(8 * files.len() + 6) };
    let count = match r.below(8) {
        // A call that is interrupted for ever may be repeated for ever.
        0 | 1 if e != libc::EINTR => 1_000_000,
        2 => 2,
        3 => r.range(3, 12) as u32,
        _ => 1,
    };
    flt(call, nth, count, Act::Errno(e), path.as_deref())
}

fn size_lie(r: &mut Rng, hard: bool) -> Fault {
    let l = if hard { *r.pick(&[SizeLie::Huge, SizeLie::Max]) } else { *r.pick(&[SizeLie::Zero, SizeLie::Less, SizeLie::More]) };
    flt(Call::FStat, 0, 1_000, Act::Size(l), None)
}

/// Some permissions for one of these.
fn mode(r: &mut Rng, files: &[String]) -> Mut {
    Mut::Mode(r.pick(files).clone(), *r.pick(&[0, 0o444, 0o400, 0o200, 0o555, 0o644, 0o644, 0o755]))
}

fn paths(g: &Graph) -> Vec<String> {
    g.files.iter().map(|f| f.path.clone()).collect()
}

fn out<'a>(run: &'a Run, e: usize, ix: usize) -> Option<&'a OpOut> {
    run.outs.get(e).and_then(|o| o.op(0, ix))
}

/// Whether a run exercised what its property is about (see the rules above).
pub fn nontrivial(id: &str, p: &Plan, run: &Run) -> bool {
    let ops = || run.outs.iter().enumerate().flat_map(|(e, o)| o.ops.iter().map(move |q| (e, q)));
    let fired = |o: &OpOut| !o.fired.is_empty();
    let load = |e: usize, o: &OpOut| matches!(op_at(p, e, o).op, Op::Load { .. } | Op::LoadStr { .. });
    let save = |e: usize, o: &OpOut| matches!(op_at(p, e, o).op, Op::Save { .. });
    let ended = |o: &OpOut| !matches!(o.res, Res::Skip);
    let switches: u64 = run.outs.iter().map(|o| o.switches).sum();
    let opens = |o: &OpOut| o.opened.len();
    match id {
        "C01" => ops().any(|(e, o)| load(e, o) && ended(o) && (fired(o) || (matches!(p.kind.as_str(), "nonutf8" | "framing") && o.calls > 0))),
        "C02" => ops().any(|(e, o)| save(e, o) && ended(o) && fired(o)),
        "C03" => {
            let saved: HashSet<&str> = ops()
                .filter_map(|(e, o)| match (&op_at(p, e, o).op, &o.res) {
                    (Op::Save { path, .. }, Res::Unit) => Some(path.as_str()),
                    _ => None,
                })
                .collect();
            ops().any(|(e, o)| matches!((&op_at(p, e, o).op, &o.res), (Op::Load { path, .. }, Res::Value(_)) if saved.contains(path.as_str())))
        }
        "C04" => ops().any(|(e, o)| load(e, o) && ended(o) && (o.calls > 0 || o.steps > 500) && (fired(o) || p.kind != "corrupt" || p.specs().iter().any(|f| !f.edits.is_empty()))),
        "C05" => ops().any(|(e, o)| load(e, o) && opens(o) >= if matches!(op_at(p, e, o).op, Op::LoadStr { .. }) { 1 } else { 2 }),
        "C06" => ops().any(|(e, o)| load(e, o) && o.calls > 6),
        "C07" => ops().any(|(e, o)| load(e, o) && mutated(o)),
        "C08" => ops().filter(|(e, o)| load(*e, o) && ended(o)).count() >= 3,
        "C09" => switches > 0,
        "C10" => run.outs.iter().any(|o| o.ops.iter().filter(|q| matches!(q.res, Res::Value(_))).count() >= 2 && (o.switches > 0 || p.epochs[0].threads.len() == 1)),
        "C11" => run.outs.iter().any(|o| o.audits.iter().any(|a| a.2.nodes.len() >= 3)),
        "C12" => ops().any(|(e, o)| load(e, o) && hard(o)),
        "C13" => ops().any(|(_, o)| fired(o) || matches!(o.res, Res::Err(..))),
        "C14" => ops().any(|(e, o)| load(e, o) && matches!(o.res, Res::Err(..))),
        "C20" => run.outs.len() > 1 && run.outs[1].ops.iter().any(|o| o.th == 0 && load(1, o) && ended(o)),
        _ => false,
    }
}

// ---------------------------------------------------------------- C01

fn c01(r: &mut Rng) -> Plan {
    let big = match r.below(20) {
        0 => 150_000,
        1..=4 => 20_000,
        _ => 1_500,
    };
    let o = Opts { files: (0, 2), fields: 5, big, inc: 45, links: false, ..Opts::default() };
    let mut g = graph(r, &o);
    if big > 100_000 && r.pct(50) {
        // A root whose own text is longer than any buffer.
        let s: String = (0..r.range(1_000, 14_000)).map(|i| format!("{:04x}é", i)).collect();
        let doc = match &g.files[g.root].doc {
            Doc::Obj(v) => {
                let mut v = v.clone();
                v.insert(0, (F::Name("big".into()), E::Str(s)));
                Doc::Obj(v)
            }
            d => d.clone(),
        };
        let spec = FileSpec::doc(doc, g.files[g.root].fmt);
        for it in &mut g.items {
            if it.path == g.files[g.root].path {
                it.node = FsNode::File(spec.clone());
            }
        }
    }
    let files = paths(&g);
    match r.below(10) {
        0..=4 => {
            let mut p = new_plan("C01", "deliver", r, &g.items, &g.cwd);
            let mut ops = vec![];
            for i in 0..r.range(1, 2) {
                let mut op = POp::new(load_op(&g, false, i as u32));
                op.del = delivery(r);
                if r.pct(40) {
                    op.faults.push(size_lie(r, false));
                }
                for _ in 0..r.below(3) {
                    let act = if r.pct(50) { Act::Short(r.logu(64) as u32) } else { Act::Errno(libc::EINTR) };
                    op.faults.push(flt(Call::Read, r.below(12), 1 + r.below(3) as u32, act, None));
                }
                ops.push(op);
            }
            p.epochs.push(serial(ops));
            p
        }
        5 | 6 => {
            let mut p = new_plan("C01", "hard", r, &g.items, &g.cwd);
            let mut op = POp::new(load_op(&g, false, 0));
            op.del = delivery(r);
            match r.below(4) {
                0 => op.faults.push(size_lie(r, true)),
                _ => {
                    let e = *r.pick(&[libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ENXIO, libc::ESTALE, libc::ETIMEDOUT]);
                    let c = if r.pct(70) { 1 } else { 1_000_000 };
                    let path = if r.pct(40) { Some(base_name(r.pick(&files)).to_string()) } else { None };
                    op.faults.push(flt(Call::Read, r.below(8), c, Act::Errno(e), path.as_deref()));
                }
            }
            p.epochs.push(serial(vec![op, POp::new(load_op(&g, false, 1))]));
            p
        }
        k => {
            let kind = if k == 9 { "framing" } else { "nonutf8" };
            let mut p = new_plan("C01", kind, r, &g.items, &g.cwd);
            let which = if r.pct(60) { g.files[g.root].path.clone() } else { r.pick(&files).clone() };
            for it in &mut p.fs {
                if it.path != which {
                    continue;
                }
                if let FsNode::File(f) = &mut it.node {
                    let n = f.base().len() as u32;
                    if k != 9 && r.pct(20) {
                        // The same text as other programs may write it.
                        let s = String::from_utf8_lossy(&f.bytes()).into_owned();
                        let w = r.below(4);
                        let mut b = vec![];
                        let mut unit = |x: u32| match w {
                            0 => b.extend(&(x as u16).to_le_bytes()),
                            1 => b.extend(&(x as u16).to_be_bytes()),
                            2 => b.extend(&x.to_le_bytes()),
                            _ => b.extend(&x.to_be_bytes()),
                        };
                        unit(0xFEFF);
                        if w < 2 {
                            s.encode_utf16().for_each(|x| unit(x.into()));
                        } else {
                            s.chars().for_each(|x| unit(x.into()));
                        }
                        if r.pct(10) {
                            b.pop();
                        }
                        if b[..].starts_with(&[0, 0]) || std::str::from_utf8(&b).is_err() {
                            *f = FileSpec::raw(&crate::vfs::unraw(&b));
                        }
                    } else if k == 9 {
                        let t = *r.pick(&["\u{feff}", "\u{0}", "\u{1a}", "\u{fffe}", "\u{0}\u{0}\u{0}"]);
                        let at = if t == "\u{feff}" { 0 } else { n };
                        f.edits.push(Edit::Insert(at, t.into()));
                    } else {
                        let s: &[u8] = *r.pick(&[
                            &[0x80][..],
                            &[0xC0, 0x80],
                            &[0xED, 0xA0, 0x80],
                            &[0xF5, 0x80, 0x80, 0x80],
                            &[0xFF],
                            &[0xFE, 0xFF],
                            &[0xE2, 0x82],
                            &[0xF0, 0x9F, 0x98],
                            &[0xC3],
                            &[0xF4, 0x90, 0x80, 0x80],
                        ]);
                        let at = match r.below(5) {
                            0 => n,
                            1 => 0,
                            2 => {
                                // Where some buffer ends, or far behind.
                                let b = *r.pick(&[512, 4_096, 8_192, 16_384, 32_768, 65_536, 131_072]) + r.below(7) - 3;
                                let pad = format!("#{}\n", "x".repeat(b + r.below(20)));
                                f.edits.push(Edit::Insert(0, pad));
                                b as u32
                            }
                            _ => r.below(n as usize + 1) as u32,
                        };
                        f.edits.push(Edit::Insert(at, crate::vfs::unraw(s)));
                    }
                }
            }
            let mut op = POp::new(load_op(&g, false, 0));
            op.del = delivery(r);
            p.epochs.push(serial(vec![op]));
            p
        }
    }
}

fn c01_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    loads_ok(p, run, &Registry::of(p), false)
}

// ---------------------------------------------------------------- C02

/// Something already at (or around) the target path.
fn old_target(r: &mut Rng, p: &mut Plan, path: &str, shapes: bool) {
    let old = match r.below(5) {
        0 => None,
        1 => Some("x".repeat(r.logu(5_000) as usize)),
        2 => Some(string(r, true)),
        3 => Some("a: 1\nb: \"old old old\"\n".repeat(r.range(1, 60))),
        _ => Some(String::new()),
    };
    let file = |s: &str| FsNode::File(FileSpec::raw(s));
    match r.below(if shapes { 12 } else { 5 }) {
        0..=4 => {
            if let Some(s) = old {
                p.fs.push(FsItem { path: path.into(), node: file(&s) });
            }
        }
        5 | 6 => {
            p.fs.push(FsItem { path: "/t/real".into(), node: file(&old.unwrap_or_default()) });
            p.fs.push(FsItem { path: path.into(), node: FsNode::Link((*r.pick(&["/t/real", "../t/real"])).into()) });
        }
        7 => p.fs.push(FsItem { path: path.into(), node: FsNode::Link("/t/later".into()) }),
        8 => p.fs.push(FsItem { path: path.into(), node: FsNode::Dir }),
        9 => {
            p.fs.push(FsItem { path: "/t/other".into(), node: file(&old.unwrap_or_default()) });
            p.fs.push(FsItem { path: path.into(), node: FsNode::Hard("/t/other".into()) });
        }
        10 => p.fs.push(FsItem { path: path.into(), node: FsNode::Link(base_name(path).to_string()) }),
        _ => {}
    }
    p.fs.push(FsItem { path: "/t".into(), node: FsNode::Dir });
    if r.pct(20) {
        // Other people's files, by the names some programs keep copies under.
        let (d, b) = (dir_of(path), base_name(path));
        let stem = b.trim_end_matches(".over");
        let mut v: Vec<String> = ["~", ".tmp", ".bak", ".lock", ".new", ".swp", ".old", ".part", ".orig", ".0", ".1"].iter().map(|s| format!("{}{}", b, s)).collect();
        v.extend([format!(".{}.swp", b), format!(".{}.tmp", b), format!(".{}", b), format!("{}.tmp", stem), format!("{}.bak", stem), format!("#{}#", b), "tmp".into(), ".tmp".into(), "over.tmp".into()]);
        let n = r.range(1, v.len());
        for _ in 0..n {
            let i = r.below(v.len());
            let q = format!("{}/{}", if d == "/" { "" } else { &d }, v.swap_remove(i));
            if p.fs.iter().all(|i| i.path != q) {
                p.fs.push(FsItem { path: q, node: file("mine: 1\n") });
            }
        }
    }
}

fn save_faults(r: &mut Rng, kill: bool) -> (Vec<Fault>, Delivery) {
    let mut v = vec![];
    let del = delivery(r);
    for _ in 0..r.range(1, 2) {
        let f = match r.below(if kill { 10 } else { 8 }) {
            0 => {
                let e = *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EROFS, libc::EINTR, libc::EIO, libc::ETXTBSY]);
                flt(Call::Open, 0, 1 + r.below(2) as u32, Act::Errno(e), None)
            }
            1..=3 => {
                let e = errno(r, Call::Write);
                let count = if r.pct(80) { 1 } else { 1_000_000 };
                flt(Call::Write, r.below(5), if e == libc::EINTR { 1 } else { count }, Act::Errno(e), None)
            }
            4 => flt(Call::Write, r.below(4), 1, Act::Zero, None),
            5 | 6 => flt(Call::Write, r.below(3), 1 + r.below(5) as u32, Act::Short(r.logu(2_000) as u32), None),
            7 => flt(Call::Close, 0, 1, Act::Errno(libc::EIO), None),
            8 => flt(Call::Any, r.below(6), 1, Act::Kill, None),
            _ => flt(Call::Any, r.below(6), 1, Act::KillAfter, None),
        };
        v.push(f);
    }
    (v, del)
}

fn c02(r: &mut Rng) -> Plan {
    let big = match r.below(100) {
        0 => 400_000,
        1..=11 => 40_000,
        _ => 800,
    };
    let o = Opts { files: (0, 1), fields: 5, big, links: false, mem: true, ..Opts::default() };
    let g = graph(r, &o);
    let mut p = new_plan("C02", "save", r, &g.items, &g.cwd);
    p.fs.push(FsItem { path: "/out".into(), node: FsNode::Dir });
    let mut targets = vec!["/out/t.over".to_string()];
    old_target(r, &mut p, "/out/t.over", true);
    if r.pct(25) {
        targets.push((*r.pick(&["/out/u", "/nodir/u", "/out/t.over/x", "/out/", "/out/ü.over"])).into());
    }
    let moves = r.pct(15);
    if moves {
        targets.push("rel.over".into());
        p.fs.push(FsItem { path: "/out/sub".into(), node: FsNode::Dir });
    }
    let small = FileSpec::doc(
        Doc::Obj((0..r.below(4)).map(|i| (F::Name(format!("k{}", i)), E::Str(string(r, true)))).collect()),
        r.next() >> 12,
    );
    let setup = |ops: &mut Vec<POp>| {
        ops.push(POp::new(Op::LoadStr { text: g.root_spec.clone(), dst: 0 }));
        ops.push(POp::new(Op::LoadStr { text: small.clone(), dst: 1 }));
        ops.push(POp::new(Op::Text { src: 0 }));
        ops.push(POp::new(Op::Text { src: 1 }));
    };
    for e in 0..r.range(1, 2) {
        let mut ops = vec![];
        setup(&mut ops);
        for _ in 0..r.range(1, 4) {
            let t = r.pick(&targets).clone();
            let src = u32::from(r.pct(35));
            if moves && r.pct(50) {
                let d = (*r.pick(&["/out", "/out/sub", "/", &p.cwd])).to_string();
                ops.push(POp::new(Op::Fs(Mut::Cwd(d))));
            }
            if r.pct(35) {
                // What the target holds then is close to what it is to hold.
                if r.pct(60) {
                    ops.push(POp::new(Op::Save { src, path: t.clone() }));
                }
                let m = match r.below(8) {
                    0 => Mut::Append(t.clone(), (*r.pick(&["\n", "z: 1\n", "x", "\0", "    "])).into()),
                    1 => Mut::Append(t.clone(), "tail ".repeat(r.range(1, 300))),
                    2 | 3 => Mut::Trunc(t.clone(), r.logu(5_000) as u32),
                    4 | 5 => Mut::Flip(t.clone(), r.logu(5_000) as u32, 1 << r.below(8)),
                    _ => mode(r, &[t.clone(), t.clone(), "/out".into()]),
                };
                ops.push(POp::new(Op::Fs(m)));
            }
            let mut op = POp::new(Op::Save { src, path: t.clone() });
            if r.pct(80) {
                let (f, d) = save_faults(r, true);
                op.faults = f;
                op.del = d;
                if big > 100_000 {
                    op.del.chunks.iter_mut().filter(|c| **c > 0).for_each(|c| *c = 900 * *c + 7);
                }
            }
            ops.push(op);
            if r.pct(60) {
                ops.push(POp::new(Op::Save { src, path: t }));
            }
        }
        let _ = e;
        p.epochs.push(serial(ops));
    }
    if r.pct(5) {
        p.max_fds = 0;
    }
    p
}

fn c02_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    for (e, out) in run.outs.iter().enumerate() {
        let mut text: HashMap<u32, String> = HashMap::new();
        for o in &out.ops {
            if let (Op::Text { src }, Res::Text(t)) = (&op_at(p, e, o).op, &o.res) {
                text.insert(*src, t.clone());
            }
        }
        for o in &out.ops {
            if let Op::Save { src, path } = &op_at(p, e, o).op {
                if let Some(t) = text.get(src) {
                    save_ok(o, &out.snaps[o.before as usize], &out.snaps[o.after as usize], path, t)?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn build_value(r: &mut Rng, d: usize, regs: &[u32]) -> B {
    match r.below(if d == 0 { 3 } else { 10 }) {
        8 => B::Empty(*r.pick(&[Kind::Arr, Kind::Tup, Kind::Obj])),
        9 => B::Raw(Box::new(build_value(r, d, regs))),
        0 | 1 => B::Lit(scalar(r)),
        2 => {
            if regs.is_empty() {
                B::Lit(scalar(r))
            } else {
                B::Reg(*r.pick(regs))
            }
        }
        3 | 4 => {
            // Arrays must be homogeneous: repeat one shape.
            let n = r.below(4);
            if r.pct(5) {
                // This is refused, mostly.
                return B::Arr((0..n).map(|_| build_value(r, d - 1, regs)).collect());
            }
            let x = build_value(r, d - 1, regs);
            B::Arr((0..n).map(|_| x.clone()).collect())
        }
        5 => B::Tup((0..r.below(4)).map(|_| build_value(r, d - 1, regs)).collect()),
        _ => build_obj(r, d - 1, regs),
    }
}

fn build_obj(r: &mut Rng, d: usize, regs: &[u32]) -> B {
    let n = r.below(5);
    let wide = if r.pct(1) { r.range(40, 300) } else { 0 };
    let par = if r.pct(20) {
        Some(Box::new(if !regs.is_empty() && r.pct(50) { B::Reg(*r.pick(regs)) } else { build_obj(r, 0, &[]) }))
    } else {
        None
    };
    let mut v: Vec<(String, B)> = (0..n).map(|i| (names(r, i), build_value(r, d, regs))).collect();
    v.extend((0..wide).map(|i| (format!("wide{}", i), B::Lit(E::Int(i.to_string())))));
    if r.pct(1) {
        fn of(e: E) -> B {
            match e {
                E::Arr(v) => B::Arr(v.into_iter().map(of).collect()),
                E::Tup(v) => B::Tup(v.into_iter().map(of).collect()),
                E::Obj(v) => B::Obj(v.into_iter().map(|(f, e)| (if let F::Name(n) = f { n } else { String::new() }, of(e))).collect(), None),
                e => B::Lit(e),
            }
        }
        v.push(("deep".into(), of(crate::gen::nest(r))));
    }
    if n > 0 && r.pct(4) {
        // So is this.
        let i = r.below(n);
        v[i].0 = (*r.pick(&["1a", "a b", "-", "a.b", "@g", "a^"])).into();
    }
    let o = B::Obj(v, par);
    if r.pct(12) {
        B::Raw(Box::new(o))
    } else {
        o
    }
}

fn scalar(r: &mut Rng) -> E {
    match r.below(7) {
        0 => E::Null,
        1 => E::Bool(r.pct(50)),
        2 => E::Int(r.logu(1 << 60).to_string()),
        3 => E::Un(true, Box::new(E::Int(r.below(1000).to_string()))),
        4 => E::Chain(Box::new(E::Int((r.below(200)).to_string())), vec![('/', E::Int((1 + r.below(40)).to_string()))]),
        5 => E::Un(r.pct(60), Box::new(E::Dec(r.below(100).to_string(), r.below(100).to_string(), false))),
        _ => E::Str(string(r, true)),
    }
}

fn c03(r: &mut Rng) -> Plan {
    if r.pct(4) {
        return c03_limit(r);
    }
    let big = if r.pct(8) { 12_000 } else { 300 };
    let o = Opts { files: (0, 3), fields: 7, big, inc: 30, ..Opts::default() };
    let g = graph(r, &o);
    let mut p = new_plan("C03", "cycle", r, &g.items, &g.cwd);
    p.fs.push(FsItem { path: "/out".into(), node: FsNode::Dir });
    let mut ops = vec![POp::new(load_op(&g, false, 0))];
    let mut regs = vec![0];
    if r.pct(35) {
        ops.push(POp::new(Op::Build { b: build_obj(r, 2, &[0]), dst: 1 }));
        regs.push(1);
    }
    let files = ["/out/a", "/out/b.over", "/out/ü"];
    let mut next = 10;
    for e in 0..r.range(1, 3) {
        if e > 0 {
            ops = vec![];
            regs = vec![];
        }
        // What earlier processes saved.
        for f in files.iter().take(2) {
            if e > 0 {
                next += 1;
                let mut op = POp::new(Op::Load { path: f.to_string(), dst: next });
                op.del = delivery(r);
                ops.push(op);
                regs.push(next);
            }
        }
        for _ in 0..r.range(1, 3) {
            let f = r.pick(&files[..]).to_string();
            let src = *r.pick(&regs);
            let mut s = POp::new(Op::Save { src, path: f.clone() });
            if r.pct(30) {
                let k = e < 2 && r.pct(40);
                let (a, d) = save_faults(r, k);
                s.faults = a;
                s.del = d;
            } else {
                s.del = delivery(r);
            }
            ops.push(s);
            next += 1;
            let mut l = POp::new(Op::Load { path: f.clone(), dst: next });
            l.del = delivery(r);
            ops.push(l);
            regs.push(next);
            if r.pct(40) {
                ops.push(POp::new(Op::Save { src: next, path: f }));
            }
            if r.pct(15) {
                ops.push(POp::new(Op::Text { src }));
            }
        }
        p.epochs.push(serial(std::mem::take(&mut ops)));
    }
    p
}

fn c03_limit(r: &mut Rng) -> Plan {
    let mut p = new_plan("C03", "limit", r, &[], "/w");
    let n = r.range(50, 66) as u32;
    let (a, b, c) = *r.pick(&[
        ("a: ", "{a: ", "}"),
        ("a: ", "[", "]"),
        ("a: ", "(", ")"),
        ("a: ", "{^: ", "}"),
        ("a: 1 ^: ", "{b: ", "}"),
    ]);
    let inner = match b {
        "{^: " => "{}",
        "[" | "(" => "",
        _ => "1",
    };
    p.fs.push(FsItem {
        path: "/w/deep.over".into(),
        node: FsNode::File(FileSpec { body: Body::Repeat(a.into(), b.into(), n, format!("{}{}", inner, c.repeat(n as usize))), edits: vec![] }),
    });
    p.epochs.push(serial(vec![
        POp::new(Op::Load { path: "deep.over".into(), dst: 0 }),
        POp::new(Op::Save { src: 0, path: "o".into() }),
        POp::new(Op::Load { path: "o".into(), dst: 1 }),
        POp::new(Op::Save { src: 1, path: "o2".into() }),
    ]));
    p
}

fn height(v: &MV) -> u32 {
    match v {
        MV::Node(n) => n.d,
        _ => 0,
    }
}

fn c03_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    let reg = Registry::of(p);
    // What each path holds, by the last save that reported success: a model value or an observed one.
    #[derive(Clone)]
    enum Known {
        Model(MV),
        Seen(Dump),
    }
    let mut disk: HashMap<String, (Known, Vec<u8>)> = HashMap::new();
    for (e, out) in run.outs.iter().enumerate() {
        let mut regs: HashMap<u32, Known> = HashMap::new();
        let mut origin: HashMap<u32, Vec<u8>> = HashMap::new();
        let rp = replay(p, e, out, &reg);
        for o in &out.ops {
            let op = &op_at(p, e, o).op;
            let after = &out.snaps[o.after as usize];
            match (op, &o.res) {
                (Op::Load { path, dst }, res) if disk.contains_key(path) => {
                    let (k, bytes) = disk[path].clone();
                    match res {
                        Res::Value(Some(d)) => {
                            let r = match &k {
                                Known::Model(m) => Cmp::new(false).value(m, d, &d.roots[0].1, "root"),
                                Known::Seen(x) => {
                                    let m = tree_of(x, &x.roots[0].1);
                                    Cmp::new(false).value(&m, d, &d.roots[0].1, "root")
                                }
                            };
                            if let Err(s) = r {
                                return viol("reload-differs", format!("{:?} loads back as something else: {}", path, s));
                            }
                            probe("reload-compared");
                            regs.insert(*dst, k);
                            origin.insert(*dst, bytes);
                        }
                        Res::Err(kind, m) if !hard(o) => {
                            if p.kind != "known" && m.contains("maximum recursion depth") {
                                let h = match &k {
                                    Known::Model(m) => height(m),
                                    Known::Seen(x) => height(&tree_of(x, &x.roots[0].1)),
                                };
                                if h > 60 {
                                    // K2 of known-findings.txt.
                                    probe("too-deep-to-reload");
                                    continue;
                                }
                            }
                            return viol(
                                if m.contains("maximum recursion depth") { "reload-depth" } else { "reload-fails" },
                                format!("{:?} was saved successfully but cannot be loaded: {} {:?}", path, kind, m),
                            );
                        }
                        _ => {}
                    }
                }
                (Op::Load { dst, .. } | Op::LoadStr { dst, .. } | Op::Build { dst, .. }, Res::Value(d)) => {
                    match (rp.results.get(&(o.th, o.ix)), d) {
                        (Some(m), Some(d)) => {
                            // What is saved is what was loaded, whether or not the model agrees with
                            // the load (other checks judge that).
                            let k = if Cmp::new(false).value(m, d, &d.roots[0].1, "root").is_ok() { Known::Model(m.clone()) } else { Known::Seen(d.clone()) };
                            regs.insert(*dst, k);
                        }
                        (None, Some(d)) => {
                            regs.insert(*dst, Known::Seen(d.clone()));
                        }
                        _ => {}
                    }
                }
                (Op::Save { src, path }, Res::Unit) => {
                    disk.remove(path);
                    if let Some(k) = regs.get(src) {
                        let now = after.read(&raw(path)).map(|d| d.to_vec()).unwrap_or_default();
                        if let Some(b) = origin.get(src) {
                            if *b != now {
                                return viol("drift", format!("saving what was loaded from a saved file gives different text ({} and {} bytes)", b.len(), now.len()));
                            }
                            probe("resave-identical");
                        }
                        disk.insert(path.clone(), (k.clone(), now));
                    }
                }
                (Op::Save { path, .. }, _) => {
                    // Unless nothing was touched, nothing is claimed.
                    let same = disk.get(path).map_or(false, |(_, b)| after.read(&raw(path)).map_or(false, |d| d.as_slice() == b.as_slice()));
                    if !same {
                        disk.remove(path);
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

/// The observed value as a model value (sharing forgotten).
fn tree_of(d: &Dump, x: &DN) -> MV {
    match x {
        DN::Null => MV::Null,
        DN::Bool(b) => MV::Bool(*b),
        DN::Int(s) => MV::Int(s.parse().unwrap()),
        DN::Frac(a, b) => MV::Frac(num_rational::BigRational::new(a.parse().unwrap(), b.parse().unwrap())),
        DN::Str(s) => MV::Str(s.clone()),
        DN::Ref(i) => {
            let n = &d.nodes[*i as usize];
            let items: Vec<MV> = n.items.iter().map(|y| tree_of(d, y)).collect();
            match n.kind {
                Kind::Arr => MV::arr(items.clone()).unwrap_or_else(|| MV::tup(items)),
                Kind::Tup => MV::tup(items),
                _ => MV::node(Kind::Obj, items, n.fields.clone(), n.parent.map(|p| tree_of(d, &DN::Ref(p))), MT::Any),
            }
        }
    }
}

// ---------------------------------------------------------------- C04

const SOUP: [&str; 62] = [
    "a", "b", "c", ":", ": ", "a:", "b: ", "\n", " ", "\t", "{", "}", "[", "]", "(", ")", "<", ">", "\"", "\"x\"", "\\", "#", "@", "@g", "@g:", "^", "^:",
    "+", "-", "*", "/", "%", "0", "1", "12", ".", ",", "1.5", ".5", "5.", "_", "1_0", "null", "true", "false", "Obj", "Str", "Arr", "Tup", "a.b", "a.0",
    "a.@g", "é", "\u{0}", "\u{feff}", "$", "'", "\"\\n\"", "\"\\z\"", "<\"f0\">", "<Str \"f0\">", "\r\n",
];

fn corrupt(r: &mut Rng, n: usize) -> Edit {
    let at = r.below(n + 1) as u32;
    match r.below(8) {
        0 => Edit::Trunc(at),
        1 => Edit::Flip(at, 1 << r.below(8)),
        2 | 3 => Edit::Insert(at, (*r.pick(&SOUP)).into()),
        4 => Edit::Delete(at, r.logu(30) as u32),
        5 => Edit::Dup(at, r.logu(200) as u32),
        6 => Edit::Insert(at, crate::vfs::unraw(&[0x80 | r.below(128) as u8])),
        _ => Edit::Insert(at, "\u{0}".repeat(r.logu(64) as usize)),
    }
}

fn mutation(r: &mut Rng, files: &[String]) -> Mut {
    let p = r.pick(files).clone();
    match r.below(9) {
        0 | 1 => Mut::Remove(p),
        8 => Mut::Mode(if r.pct(60) { p } else { crate::gen::dir_of(&p) }, *r.pick(&[0, 0o200, 0o444, 0o644, 0o755])),
        2 => Mut::Trunc(p, r.logu(3000) as u32),
        3 => Mut::Append(p, (*r.pick(&["\nz: 1", "\"", "{", "<\"f0\">", "\u{10FF80}"])).into()),
        4 => Mut::Dir(p),
        5 => Mut::Link(p.clone(), (*r.pick(&["nowhere", "/", base_name(&p), "/w"])).into()),
        6 => Mut::Replace(p, FileSpec::raw(*r.pick(&["", "a: 1", "a: {", "x: <\"f0\">", "\u{10FFFF}"]))),
        _ => Mut::Put(p, FileSpec::raw(*r.pick(&["", "q: 7 \n", "a: [[[", "b: <Str \"f1\">"]))),
    }
}

/// Documents whose handling grows with a repetition count.
fn hostile(r: &mut Rng) -> FileSpec {
    let n = *r.pick(&[20, 60, 63, 64, 65, 66, 100, 300, 1_000, 4_000]) as u32;
    let (a, b, c): (&str, &str, String) = match r.below(26) {
        0 => ("a: ", "{a: ", "1".into()),
        1 => ("a: ", "{a: ", "1".to_string() + &"}".repeat(n as usize)),
        2 => ("a: ", "[", "]".repeat(n as usize)),
        3 => ("a: ", "(", ")".repeat(n as usize)),
        4 => ("a: ", "[", String::new()),
        5 => ("a: ", "-", "1".into()),
        6 => ("a: ", "+", "1".into()),
        7 => ("a: 1 b: a", "-+", "1".into()),
        8 => ("a: 1", "+1", String::new()),
        9 => ("a: 1", "*1", String::new()),
        10 => ("a: 1", " - 1", String::new()),
        11 => ("a: ", "<", "\"x\"".into()),
        12 => ("a: ", "<Str ", "\"x\"".into()),
        13 => ("a: {b: 1} c: a", ".b", String::new()),
        14 => ("a: [1 2] c: ", "a.", "0".into()),
        15 => ("a: [0 0] c: ", "a.-", "0".into()),
        16 => ("", "^: {", "}".repeat(n as usize)),
        17 => ("a: \"", "\\n", "\"".into()),
        18 => ("a: ", "1", String::new()),
        19 => ("a: .", "1", String::new()),
        20 => ("", "# comment\n", "a: 1".into()),
        21 => ("", " \t\n", "a: 1".into()),
        22 => ("a", "a", ": 1".into()),
        23 => ("a: (", "1 ", ")".into()),
        24 => ("a: ", "(-", "1".to_string() + &")".repeat(n as usize)),
        _ => ("a: 7", "%1/1", String::new()),
    };
    FileSpec { body: Body::Repeat(a.into(), b.into(), n, c), edits: vec![] }
}

fn c04(r: &mut Rng) -> Plan {
    let kind = r.below(26);
    let mut p;
    let mut files: Vec<String> = vec![];
    let root;
    let mut mem = None;
    match kind {
        0..=8 => {
            let broken = if r.pct(35) { 25 } else { 0 };
            let o = Opts { files: (0, 4), fields: 5, inc: 40, loose: 10, broken, ..Opts::default() };
            let g = graph(r, &o);
            p = new_plan("C04", "corrupt", r, &g.items, &g.cwd);
            files = paths(&g);
            root = g.root_path.clone();
            let n = p.fs.len();
            for _ in 0..r.below(4) {
                let i = r.below(n);
                if let FsNode::File(f) = &mut p.fs[i].node {
                    let len = f.base().len();
                    f.edits.push(corrupt(r, len));
                }
            }
        }
        9 | 10 => {
            p = new_plan("C04", "soup", r, &[], "/w");
            for i in 0..r.range(1, 3) {
                let s: String = (0..r.logu(60)).map(|_| *r.pick(&SOUP)).collect();
                let path = format!("/w/f{}", i);
                p.fs.push(FsItem { path: path.clone(), node: FsNode::File(FileSpec::raw(&s)) });
                files.push(path);
            }
            root = "f0".into();
            if r.pct(30) {
                let s: String = (0..r.logu(60)).map(|_| *r.pick(&SOUP)).collect();
                mem = Some(FileSpec::raw(&s));
            }
        }
        22..=25 => {
            // Documents of which a few things were changed.
            let o = Opts { files: (0, 2), fields: 6, inc: 30, ..Opts::default() };
            let g = graph(r, &o);
            p = new_plan("C04", "twist", r, &g.items, &g.cwd);
            files = paths(&g);
            root = g.root_path.clone();
            let names = files.clone();
            for i in 0..p.fs.len() {
                if let FsNode::File(f) = &mut p.fs[i].node {
                    if let Body::Doc { doc, .. } = &mut f.body {
                        for _ in 0..r.below(4) {
                            twist(r, doc, &names);
                        }
                    }
                }
            }
        }
        20 | 21 => {
            // Well-formed documents that mostly mean nothing.
            p = new_plan("C04", "loose", r, &[], "/w");
            let n = r.range(1, 3);
            let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
            for (i, f) in names.iter().enumerate() {
                let k = if i == 0 { Kind::Obj } else { *r.pick(&[Kind::Obj, Kind::Arr, Kind::Tup]) };
                let d = loose(r, k, &names);
                let path = format!("/w/{}", f);
                let fmt = r.next() >> 12;
                p.fs.push(FsItem { path: path.clone(), node: FsNode::File(FileSpec::doc(d, fmt)) });
                files.push(path);
            }
            if r.pct(30) {
                let d = loose(r, Kind::Obj, &names);
                let fmt = r.next() >> 12;
                mem = Some(FileSpec::doc(d, fmt));
            }
            root = "f0".into();
        }
        11..=14 => {
            p = new_plan("C04", "hostile", r, &[], "/w");
            let spec = hostile(r);
            if r.pct(30) {
                mem = Some(spec.clone());
            }
            p.fs.push(FsItem { path: "/w/f0".into(), node: FsNode::File(spec) });
            files.push("/w/f0".into());
            root = "f0".into();
        }
        15..=17 => {
            // Chains (and loops) of includes, of every kind.
            p = new_plan("C04", "chain", r, &[], "/w");
            let n = *r.pick(&[2, 10, 40, 62, 63, 64, 65, 66, 90, 150, 400]);
            let nest = r.below(3);
            let obj_only = r.pct(50);
            for i in 0..n {
                let last = i + 1 == n;
                let k = if obj_only || i == 0 { 0 } else { r.below(3) };
                let nk = if i + 1 < n && !obj_only { 1 } else { 0 };
                let _ = nk;
                let next = if last {
                    match r.below(3) {
                        0 => "<\"f0\">".to_string(),
                        1 => format!("<\"f{}\">", r.below(n)),
                        _ => "1".into(),
                    }
                } else {
                    format!("<K{} \"f{}\">", i + 1, i + 1)
                };
                let inner = format!("{}{}{}", "(".repeat(nest), next, ")".repeat(nest));
                let s = if k == 0 { format!("a: {}", inner) } else { inner };
                let path = format!("/w/f{}", i);
                p.fs.push(FsItem { path, node: FsNode::File(FileSpec::raw(&s)) });
                // Fix up the kind the previous file asks for.
                let kw = ["Obj", "Tup", "Arr"][k];
                if i > 0 {
                    let l = p.fs.len();
                    if let FsNode::File(f) = &mut p.fs[l - 2].node {
                        if let Body::Raw(t) = &mut f.body {
                            *t = t.replace(&format!("K{}", i), kw);
                        }
                    }
                }
            }
            files.push(format!("/w/f{}", r.below(n)));
            files.push("/w/f0".into());
            root = "f0".into();
        }
        _ => {
            // Directories and links that loop, dangle or have odd names.
            p = new_plan("C04", "layout", r, &[], "/w");
            let s = *r.pick(&[
                "a: <\"l0\"> b: <Str \"l1\">",
                "a: <\"d/l0\">",
                "a: <\"\">",
                "a: <\".\">",
                "a: <\"..\">",
                "a: <\"/\">",
                "a: <\"\\n\">",
                "a: <Str \"f0\">",
                "a: <\"d/../f1\"> b: <\"./f1\">",
                "a: <\"f1/\"> ",
                "a: <\"l2/x\"> ",
            ]);
            p.fs.push(FsItem { path: "/w/d".into(), node: FsNode::Dir });
            p.fs.push(FsItem { path: "/w/f0".into(), node: FsNode::File(FileSpec::raw(s)) });
            p.fs.push(FsItem { path: "/w/f1".into(), node: FsNode::File(FileSpec::raw("x: 1")) });
            p.fs.push(FsItem { path: "/w/\u{10FFFF}\u{10FF80}/x".into(), node: FsNode::File(FileSpec::raw("a: <\"y\">")) });
            p.fs.push(FsItem { path: "/w/\u{10FFFF}\u{10FF80}/y".into(), node: FsNode::File(FileSpec::raw("a: 1")) });
            for i in 0..3 {
                let t = (*r.pick(&["l0", "l1", "l2", "nowhere", "d", ".", "/", "f1", "\u{10FFFF}\u{10FF80}", "\u{10FFFF}\u{10FF80}/x", "d/../l0"])).to_string();
                p.fs.push(FsItem { path: format!("/w/l{}", i), node: FsNode::Link(t) });
            }
            files.extend(["/w/f0".to_string(), "/w/f1".into(), "/w/l0".into()]);
            root = (*r.pick(&["f0", "f0", "l0", "l2/x", "d", "", "/", "nofile", "f0/"])).to_string();
        }
    }
    p.stack_kb = 2048;
    p.dump = false;
    let mut ops = vec![];
    for i in 0..r.range(1, 2) {
        let mut op = POp::new(match &mem {
            Some(t) => Op::LoadStr { text: t.clone(), dst: i as u32 },
            None => Op::Load { path: root.clone(), dst: i as u32 },
        });
        if r.pct(50) {
            op.del = delivery(r);
        }
        if r.pct(25) {
            op.faults.push(if r.pct(50) { size_lie(r, true) } else { size_lie(r, false) });
        }
        for _ in 0..[0, 0, 1, 2][r.below(4)] {
            op.faults.push(io_fault(r, &files));
        }
        if !files.is_empty() {
            for _ in 0..[0, 0, 1, 3][r.below(4)] {
                let m = mutation(r, &files);
                op.faults.push(flt(Call::Any, r.below(10 + 4 * files.len()), 1, Act::Mut(m), None));
            }
        }
        ops.push(op);
        if r.pct(15) {
            ops.push(POp::new(Op::Save { src: i as u32, path: "/w/out".into() }));
        }
        if r.pct(40) {
            ops.push(POp::new(Op::Drop { src: i as u32 }));
        }
    }
    if r.pct(6) {
        p.max_fds = r.range(1, 6) as u32;
    }
    p.epochs.push(serial(ops));
    p
}

fn c04_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    for out in &run.outs {
        for o in &out.ops {
            match &o.res {
                Res::Value(_) => probe("ended-in-value"),
                Res::Err(_, m) if m.contains("maximum recursion depth") => probe("ended-in-depth-error"),
                Res::Err(_, m) if m.contains("cyclically") => probe("ended-in-cyclic-error"),
                Res::Err(k, _) => probe(&format!("ended-in-{}", k)),
                _ => {}
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn c05(r: &mut Rng) -> Plan {
    let mem = r.pct(20);
    let broken = if r.pct(30) { 18 } else { 0 };
    let files = if r.pct(3) { (16, 30) } else { (1, 7) };
    let o = Opts { files, fields: 6, inc: 55, broken, loose: 12, mem, big: 60, wild: r.pct(50), hard: r.pct(50), ..Opts::default() };
    let g = graph(r, &o);
    let mut p = new_plan("C05", "graph", r, &g.items, &g.cwd);
    let mut ops = vec![];
    let mut op = POp::new(load_op(&g, mem, 0));
    if r.pct(40) {
        op.del = delivery(r);
    }
    ops.push(op);
    if r.pct(35) {
        // Another member of the graph as the root.
        let v: Vec<&GFile> = g.files[..g.root].iter().filter(|f| f.kind == Kind::Obj).collect();
        if !v.is_empty() {
            let f = *r.pick(&v);
            let path = if !f.alias.is_empty() && r.pct(50) { r.pick(&f.alias).clone() } else { f.path.clone() };
            ops.push(POp::new(Op::Load { path, dst: 1 }));
        }
    }
    p.epochs.push(serial(ops));
    p
}

fn c05_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    loads_ok(p, run, &Registry::of(p), false)
}

// ---------------------------------------------------------------- C06

/// Files f0.. with the given include edges; every file's document only names others.
fn edge_files(r: &mut Rng, p: &mut Plan, n: usize, plain: bool, edges: &[Vec<(usize, bool)>], kinds: &[Kind], alias: &mut Vec<Vec<String>>) {
    let dirs = ["/w", "/w/a", "/w/a/b", "/x"];
    let mut place: Vec<String> = (0..n).map(|i| format!("{}/f{}{}", dirs[r.below(dirs.len())], i, r.pick(&["", ".over"]))).collect();
    if r.pct(15) {
        // Names that are nearly the same.
        let i = r.below(n);
        let (d, b) = (crate::gen::dir_of(&place[i]), base_name(&place[i]).to_string());
        let v = [
            format!("{}/{}", d, b.to_uppercase()), format!("{}/{}", d, b.replace('f', "F")), format!("{} ", place[i]), format!("{}/ {}", d, b),
            format!("{}.", place[i]), format!("{}\u{301}", place[i]), format!("{}~", place[i]), format!("{}0", place[i]), format!("{}/{}", dirs[(i + 1) % 4], b),
            format!("{}#1", place[i]), format!("{}/{}", d, b.replace(".over", "")), format!("{}/w{}", d, place[i].replace('/', "_")),
        ];
        for j in 0..n {
            if j != i && r.pct(60) {
                let c = r.pick(&v).clone();
                if !place.contains(&c) {
                    place[j] = c;
                }
            }
        }
    }
    for d in dirs {
        p.fs.push(FsItem { path: d.into(), node: FsNode::Dir });
    }
    p.fs.push(FsItem { path: "/w/lx".into(), node: FsNode::Link("/x".into()) });
    p.fs.push(FsItem { path: "/x/up".into(), node: FsNode::Link("../w".into()) });
    for i in 0..n {
        alias.push(vec![place[i].clone()]);
        if r.pct(25) {
            let l = format!("/w/sym{}", i);
            p.fs.push(FsItem { path: l.clone(), node: FsNode::Link(place[i].clone()) });
            alias[i].push(l);
        }
        if place[i].starts_with("/x/") {
            alias[i].push(format!("/w/lx/{}", base_name(&place[i])));
        }
        if place[i].starts_with("/w/") {
            alias[i].push(format!("/x/up/{}", &place[i][3..]));
        }
    }
    // The links exist before any spelling is chosen.
    let mut vfs = p.vfs();
    for f in &place {
        let _ = vfs.put(f.as_bytes(), vec![]);
    }
    for i in 0..n {
        let mut incs: Vec<E> = vec![];
        for (j, as_str) in &edges[i] {
            let to = if r.pct(40) { r.pick(&alias[*j]).clone() } else { place[*j].clone() };
            let (s, _) = spell(r, &vfs, Some(&place[i]), "/w", &to);
            let k = if *as_str { Kind::Str } else { kinds[*j] };
            let k = if k == Kind::Obj && r.pct(60) { None } else { Some(k) };
            incs.push(E::Inc(k, Box::new(E::Str(s))));
        }
        let doc = match kinds[i] {
            Kind::Obj => {
                let mut v = vec![(F::Name("n".into()), E::Int(i.to_string()))];
                for (k, e) in incs.into_iter().enumerate() {
                    let wrap = if plain { 9 } else { r.below(5) };
                    let e = match wrap {
                        0 => E::Obj(vec![(F::Name("w".into()), e)]),
                        1 => E::Tup(vec![E::Null, e]),
                        _ => e,
                    };
                    let f = match r.below(6) {
                        0 => F::Global(format!("g{}", k)),
                        _ => F::Name(format!("e{}", k)),
                    };
                    v.push((f, e));
                }
                Doc::Obj(v)
            }
            _ => Doc::Tup(std::iter::once(E::Int(i.to_string())).chain(incs).collect()),
        };
        let fmt = r.next() >> 12;
        p.fs.push(FsItem { path: place[i].clone(), node: FsNode::File(FileSpec::doc(doc, fmt)) });
    }
}

fn c06(r: &mut Rng) -> Plan {
    let mut p = new_plan("C06", "edges", r, &[], "/w");
    let shape = r.below(10);
    let n = match shape {
        0 => r.range(20, 59),
        1 => r.range(8, 20),
        _ => r.range(1, 7),
    };
    let mut edges: Vec<Vec<(usize, bool)>> = vec![vec![]; n];
    let long = shape <= 1;
    if long {
        // One long chain, closed or not.
        for i in 0..n - 1 {
            edges[i].push((i + 1, false));
        }
        if r.pct(60) {
            let back = if r.pct(50) { 0 } else { r.below(n) };
            let s = r.pct(15);
            edges[n - 1].push((back, s));
        }
        for _ in 0..r.below(4) {
            // Shortcuts forward: shared, not cyclic.
            let a = r.below(n);
            let b = r.range(a, n - 1);
            if b > a {
                let s = r.pct(10);
                edges[a].push((b, s));
            }
        }
    } else {
        let cyc = r.pct(60);
        for i in 0..n {
            for _ in 0..r.below(4) {
                let s = r.pct(12);
                if i + 1 < n {
                    edges[i].push((r.range(i + 1, n - 1), s));
                }
            }
        }
        if cyc {
            for _ in 0..r.range(1, 2) {
                let a = r.below(n);
                let b = r.below(a + 1);
                let s = r.pct(12);
                let at = r.below(edges[a].len() + 1);
                edges[a].insert(at, (b, s));
            }
        }
    }
    let kinds: Vec<Kind> = (0..n).map(|i| if i == 0 || r.pct(70) { Kind::Obj } else { Kind::Tup }).collect();
    // Values written out: keep the number of paths small.
    let mut alias = vec![];
    // A chain just below the nesting limit has no room for anything else.
    let plain = long && (n > 25 || r.pct(50));
    edge_files(r, &mut p, n, plain, &edges, &kinds, &mut alias);
    let mut ops = vec![];
    let root = r.pick(&alias[0]).clone();
    if r.pct(20) {
        let doc = Doc::Obj(vec![(F::Name("r".into()), E::Inc(None, Box::new(E::Str(root.clone())))), (F::Name("s".into()), E::Inc(None, Box::new(E::Str(root.clone()))))]);
        ops.push(POp::new(Op::LoadStr { text: FileSpec::doc(doc, 3), dst: 0 }));
    } else {
        ops.push(POp::new(Op::Load { path: root, dst: 0 }));
    }
    if r.pct(30) {
        ops[0].del = delivery(r);
    }
    p.epochs.push(serial(ops));
    p
}

fn c06_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    let reg = Registry::of(p);
    for (e, out) in run.outs.iter().enumerate() {
        for o in &out.ops {
            let op = op_at(p, e, o);
            let m = model_op(&reg, &out.snaps[o.before as usize], &op.op);
            let msg = match &o.res {
                Res::Err(_, m) => Some(m.clone()),
                Res::Value(_) => None,
                _ => continue,
            };
            let cyclic = msg.as_ref().map_or(false, |m| m.to_lowercase().contains("cyclic"));
            match &m {
                Err(MErr::Cyclic) => {
                    probe("cyclic");
                    if !cyclic {
                        return viol("cycle-missed", format!("{} reaches a cycle of includes but ended with {}", show_op(&op.op), show_res(&o.res)));
                    }
                }
                Ok(_) => {
                    probe("acyclic");
                    if cyclic {
                        return viol("false-cyclic", format!("{} has no cycle of includes but failed: {:?}", show_op(&op.op), msg));
                    }
                    if let (Some(m), false) = (&msg, hard(o)) {
                        return viol("acyclic-refused", format!("{} has no cycle of includes but failed: {:?}", show_op(&op.op), m));
                    }
                }
                Err(MErr::Unknown(_)) => probe("model-unknown"),
                Err(_) => {
                    if cyclic {
                        return viol("false-cyclic", format!("{} has no cycle of includes but failed: {:?}", show_op(&op.op), msg));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

/// Version `k` of file `i`: says so, and includes some files of lower number.
/// One of the names of file `j`. They all end like the file's own name.
fn c07_name(r: &mut Rng, j: usize) -> String {
    let f = format!("f{}", j);
    match r.below(16) {
        0 => format!("./{}", f),
        1 => format!("/w/{}", f),
        2 => format!("d/../{}", f),
        3 => format!("../w/{}", f),
        4 => format!("dl/{}", f),
        5 => format!("l{}", f),
        6 if j == 0 => format!("d//l{}", f),
        6 => format!("dl//l{}", f),
        7 => format!("/dl/./{}", f),
        _ => f,
    }
}

fn version(r: &mut Rng, i: usize, k: usize, fixed: bool, incs: &[(usize, bool)], vary: bool, kinds: &[Kind]) -> FileSpec {
    let mut v = vec![(F::Name("tag".into()), E::Str(format!("f{}#{}", i, k)))];
    let fill = match r.below(40) {
        _ if fixed => format!("{}", k % 10).repeat(40),
        0 => "é\n".repeat(r.logu(20_000) as usize),
        1..=4 => format!("text {}\n", k).repeat(r.logu(600) as usize),
        _ => "é\n".repeat(r.logu(60) as usize),
    };
    v.push((F::Name("fill".into()), E::Str(fill)));
    for (x, (j, s)) in incs.iter().enumerate() {
        if vary && r.pct(25) {
            continue;
        }
        let (c, kind) = match kinds[*j] {
            // An array holds texts only.
            _ if *s || kinds[i] == Kind::Arr => ("s", Some(Kind::Str)),
            Kind::Arr if r.pct(70) => ("a", Some(Kind::Arr)),
            Kind::Arr | Kind::Tup => ("t", Some(Kind::Tup)),
            _ => ("o", None),
        };
        v.push((F::Name(format!("{}{}_{}", c, j, x)), E::Inc(kind, Box::new(E::Str(c07_name(r, *j))))));
    }
    v.push((F::Name("end".into()), E::Str(format!("f{}#{}", i, k))));
    let items = |v: Vec<(F, E)>| v.into_iter().map(|x| x.1).collect();
    let doc = match kinds[i] {
        Kind::Arr => Doc::Arr(items(v)),
        Kind::Tup => Doc::Tup(items(v)),
        _ => Doc::Obj(v),
    };
    FileSpec::doc(doc, if fixed { 0 } else { r.next() >> 12 })
}

fn c07(r: &mut Rng) -> Plan {
    let fixed = r.pct(30);
    let mut p = new_plan("C07", if fixed { "in-place" } else { "replace" }, r, &[], "/w");
    let n = if r.pct(5) { r.range(12, 36) } else { r.range(2, 5) };
    let mut inc: Vec<Vec<(usize, bool)>> = vec![];
    for i in 0..n {
        let mut v = vec![];
        if i > 0 {
            let wide = n > 5 && (i + 1 == n || r.pct(15));
            if wide {
                // Many others, some of them again at the end.
                v.extend((0..i).filter(|_| r.pct(70)).map(|j| (j, j % 5 == 0)).collect::<Vec<_>>());
            }
            for _ in 0..r.range(1, if n > 5 { 2 } else { 4 }) {
                v.push((r.below(i), r.pct(25)));
            }
            if r.pct(60) {
                let x = *r.pick(&v);
                v.push(x);
            }
        }
        inc.push(v);
    }
    let kinds: Vec<Kind> = (0..n).map(|i| if i + 1 == n || r.pct(65) { Kind::Obj } else { *r.pick(&[Kind::Arr, Kind::Tup]) }).collect();
    for i in 0..n {
        let spec = version(r, i, 0, fixed, &inc[i], false, &kinds);
        p.fs.push(FsItem { path: format!("/w/f{}", i), node: FsNode::File(spec) });
        p.fs.push(FsItem { path: format!("/w/lf{}", i), node: FsNode::Link(format!("f{}", i)) });
        p.fs.push(FsItem { path: format!("/w/d/lf{}", i), node: FsNode::Link(format!("../f{}", i)) });
    }
    p.fs.push(FsItem { path: "/w/dl".into(), node: FsNode::Link(".".into()) });
    p.fs.push(FsItem { path: "/dl".into(), node: FsNode::Link("w".into()) });
    let mut ops = vec![];
    let mut op = POp::new(Op::Load { path: format!("f{}", n - 1), dst: 0 });
    op.del = delivery(r);
    for k in 1..=r.range(1, 5) {
        let i = r.below(n);
        let spec = version(r, i, k, fixed, &inc[i], !fixed, &kinds);
        let path = format!("/w/f{}", i);
        let m = if fixed {
            match r.below(8) {
                0 => Mut::Remove(path),
                1 => Mut::Trunc(path, r.logu(200) as u32),
                _ => Mut::Put(path, spec),
            }
        } else {
            Mut::Replace(path, spec)
        };
        let (call, pth, nth) = if r.pct(50) {
            (*r.pick(&[Call::Read, Call::Open, Call::Stat, Call::Realpath, Call::Any, Call::Close]), Some(format!("f{}", i)), r.below(4))
        } else {
            (Call::Any, None, r.below(12 * n))
        };
        op.faults.push(flt(call, nth, 1, Act::Mut(m), pth.as_deref()));
    }
    ops.push(op);
    ops.push(POp::new(Op::Load { path: format!("f{}", n - 1), dst: 1 }));
    p.epochs.push(serial(ops));
    p
}

fn c07_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    let reg = Registry::of(p);
    let strict = p.kind == "replace";
    for (e, out) in run.outs.iter().enumerate() {
        for o in &out.ops {
            let op = op_at(p, e, o);
            let before = &out.snaps[o.before as usize];
            if !mutated(o) {
                let m = model_op(&reg, before, &op.op);
                if let (Ok(_), true) = (&m, true) {
                    load_ok(&m, o, &show_op(&op.op), false)?;
                }
                continue;
            }
            let d = match &o.res {
                Res::Value(Some(d)) => d,
                Res::Err(_, m) if strict && !hard(o) => {
                    return viol("load-fails", format!("all files were only replaced atomically by valid versions, but the load failed: {:?}", m));
                }
                _ => continue,
            };
            probe("raced-load");
            // Which bytes each file had at some moment of the load.
            let mut allowed: HashMap<String, Vec<Vec<u8>>> = HashMap::new();
            for it in &p.fs {
                allowed.insert(base_name(&it.path).into(), vec![before.read(&raw(&it.path)).map(|d| d.to_vec()).unwrap_or_default()]);
            }
            for f in &o.fired {
                if f.what == "mutate" {
                    if let Some(Act::Mut(m)) = op.faults.get(f.ix as usize).map(|f| &f.act) {
                        if let Some(s) = m.spec() {
                            allowed.entry(base_name(m.path()).into()).or_default().push(s.bytes());
                        }
                    }
                }
            }
            let mut shared: HashMap<(String, Kind), u32> = HashMap::new();
            let mut texts: HashMap<String, String> = HashMap::new();
            for (i, nd) in d.nodes.iter().enumerate() {
                // (Lists are told apart from objects by their own kind, and their files by what they say.)
                for x in nd.items.iter().filter(|_| nd.kind != Kind::Obj) {
                    if let DN::Ref(j) = x {
                        let kind = d.nodes[*j as usize].kind;
                        let Some(file) = tag(d, *j).and_then(|t| t.split_once('#').map(|x| x.0.to_string())) else { continue };
                        if *shared.entry((file.clone(), kind)).or_insert(*j) != *j {
                            return viol("two-instances", format!("two includes of {:?} in one load gave two different values", file));
                        }
                    }
                }
                for (f, x) in nd.fields.iter().zip(&nd.items) {
                    let b = f.as_bytes();
                    let Some((j, _)) = f[1..].split_once('_').filter(|x| x.0.parse::<usize>().is_ok()) else { continue };
                    let file = format!("f{}", j);
                    match (b[0], x) {
                        (b'o' | b'a' | b't', DN::Ref(j)) => {
                            let kind = d.nodes[*j as usize].kind;
                            if *shared.entry((file.clone(), kind)).or_insert(*j) != *j {
                                return viol("two-instances", format!("two includes of {:?} in one load gave two different values", file));
                            }
                            if strict && tag(d, *j).map_or(true, |t| !t.starts_with(&format!("{}#", file))) {
                                return viol("wrong-file", format!("the include of {:?} gave something else", file));
                            }
                        }
                        (b's', DN::Str(s)) => {
                            if texts.entry(file.clone()).or_insert_with(|| s.clone()) != s {
                                return viol("two-texts", format!("two Str includes of {:?} in one load gave two different texts", file));
                            }
                            if strict && !allowed.get(&file).map_or(false, |v| v.iter().any(|b| b == s.as_bytes())) {
                                return viol("mixed-text", format!("the text of {:?} is none of the versions it had during the load", file));
                            }
                        }
                        _ => {}
                    }
                }
                if strict {
                    let Some(t) = tag(d, i as u32) else { return viol("no-tag", "a loaded object is no version of any file".to_string()) };
                    let file = t.split('#').next().unwrap_or("").to_string();
                    let fits = allowed.get(&file).map_or(false, |v| {
                        v.iter().any(|b| match reg.find(nd.kind, b) {
                            Ok(Doc::Obj(doc)) => {
                                doc.len() == nd.fields.len()
                                    && doc.iter().zip(&nd.fields).all(|((f, _), g)| matches!(f, F::Name(m) if m == g))
                                    && fits(doc.iter().map(|x| &x.1), nd)
                            }
                            Ok(Doc::Arr(v) | Doc::Tup(v)) => fits(v.iter(), nd),
                            _ => false,
                        })
                    });
                    if !fits {
                        return viol("mixed-version", format!("the content of {:?} (tag {:?}) is none of the versions it had during the load", file, t));
                    }
                }
            }
        }
    }
    Ok(())
}

fn tag(d: &Dump, i: u32) -> Option<String> {
    let n = &d.nodes[i as usize];
    let k = if n.kind == Kind::Obj { n.fields.iter().position(|f| f == "tag")? } else { 0 };
    match n.items.get(k)? {
        DN::Str(s) => Some(s.clone()),
        _ => None,
    }
}

fn fits<'a>(doc: impl ExactSizeIterator<Item = &'a E>, n: &crate::dump::Node) -> bool {
    doc.len() == n.items.len()
        && doc.zip(&n.items).all(|(e, x)| match (e, x) {
            (E::Str(a), DN::Str(b)) => a == b,
            (E::Inc(Some(Kind::Str), _), DN::Str(_)) => true,
            (E::Inc(..), DN::Ref(_)) => true,
            _ => false,
        })
}

// ---------------------------------------------------------------- C08

/// The same file names in several directories: the process moves, or a link to the current one does.
fn c08_moves(r: &mut Rng) -> Plan {
    let mut p = new_plan("C08", "moves", r, &[], "/w");
    let dirs = ["/w", "/w/a", "/x", "/x/y"];
    let names = ["m", "inc", "d/inc"];
    for (i, d) in dirs.iter().enumerate() {
        p.fs.push(FsItem { path: format!("{}/d", d), node: FsNode::Dir });
        for (j, n) in names.iter().enumerate() {
            if j > 0 && r.pct(12) {
                continue;
            }
            let s = match j {
                0 => format!("v: {} i: <\"{}\"> t: <Str \"d/inc\"> g: @g0", i, r.pick(&["inc", "./inc", "d/inc", "d/../inc"])).replace("@g0", if r.pct(10) { "@g0" } else { "0" }),
                _ => format!("n: {} k: {}", 10 * i + j, j),
            };
            p.fs.push(FsItem { path: format!("{}/{}", d, n), node: FsNode::File(FileSpec::raw(&s)) });
        }
    }
    p.fs.push(FsItem { path: "/cur".into(), node: FsNode::Link("/w/a".into()) });
    let mut ops = vec![];
    let mut dst = 0;
    for _ in 0..r.range(5, 14) {
        match r.below(10) {
            0..=2 => ops.push(POp::new(Op::Fs(Mut::Cwd((*r.pick(&["/w", "/w/a", "/x", "/x/y", "/cur", "..", "/"])).into())))),
            3 => ops.push(POp::new(Op::Fs(Mut::Link("/cur".into(), (*r.pick(&dirs)).into())))),
            4 if dst > 0 => {
                let src = r.below(dst as usize) as u32;
                let path = (*r.pick(&["out", "inc", "d/inc", "/cur/inc"])).to_string();
                ops.push(POp::new(Op::Save { src, path: path.clone() }));
                ops.push(POp::new(Op::Load { path, dst }));
                dst += 1;
            }
            _ => {
                let path = (*r.pick(&["m", "./m", "inc", "d/inc", "/cur/m", "/cur/inc", "../w/m", "a/m", "out"])).to_string();
                let op = if r.pct(35) {
                    Op::LoadStr { text: FileSpec::raw(&format!("x: <\"{}\"> y: <Str \"{}\">", path, path)), dst }
                } else {
                    Op::Load { path, dst }
                };
                let mut op = POp::new(op);
                if r.pct(12) {
                    op.faults.push(io_fault(r, &["inc".to_string(), "m".into()]));
                }
                ops.push(op);
                dst += 1;
            }
        }
    }
    ops.push(POp::new(Op::Load { path: "/cur/m".into(), dst }));
    p.epochs.push(serial(ops));
    p
}

/// One thing goes wrong again and again; then it is repaired, and something deep is loaded.
fn c08_wear(r: &mut Rng) -> Plan {
    let mut p = new_plan("C08", "wear", r, &[], "/w");
    let files: [(&str, &str); 9] = [
        ("f", "a: 1 b: <\"bad\">"),
        ("bad", *r.pick(&["x: {", "x: <\"nosuch\">", "x: <\"f\">", "x: y", "x: <Arr \"bad2\">", "x: ((((((((((", "x: [[[[[[[1 \"\"]]]]]]]", "x: 1 x: 2", "x: 1/0"])),
        ("bad2", *r.pick(&["1 \"a\"", "[", "<Tup \"bad3\">"])),
        ("bad3", "<Obj \"f\"> ("),
        ("ok", "a: 1 b: <\"ok2\"> c: <Arr \"ok3\">"),
        ("ok2", "s: <Str \"ok3\"> t: <Tup \"ok3\"> n: {n: {n: {n: [[[[[[1]]]]]]}}}"),
        ("ok3", "[1][2 3]"),
        ("deep", "d: <\"deep1\">"),
        ("deep1", "d: ((((((((((((((((((((((((((((((1))))))))))))))))))))))))))))))"),
    ];
    for (n, s) in files {
        p.fs.push(FsItem { path: format!("/w/{}", n), node: FsNode::File(FileSpec::raw(s)) });
    }
    let n = r.range(30, 200);
    let kind = r.below(4);
    let mut ops = vec![];
    for _ in 0..n {
        let mut op = match kind {
            0 | 1 => POp::new(Op::Load { path: "f".into(), dst: 0 }),
            2 => POp::new(Op::LoadStr { text: FileSpec::raw("q: <\"f\">"), dst: 0 }),
            _ => {
                let mut op = POp::new(Op::Load { path: "ok".into(), dst: 0 });
                op.faults.push(io_fault(r, &["ok2".to_string(), "ok3".into()]));
                op
            }
        };
        if r.pct(5) {
            op.del = delivery(r);
        }
        ops.push(op);
    }
    if r.pct(60) {
        ops.push(POp::new(Op::Fs(Mut::Replace("/w/bad".into(), FileSpec::raw("x: 5 y: <\"ok\">")))));
        ops.push(POp::new(Op::Load { path: "f".into(), dst: 1 }));
    }
    ops.push(POp::new(Op::Load { path: "deep".into(), dst: 2 }));
    ops.push(POp::new(Op::Load { path: "ok".into(), dst: 3 }));
    p.epochs.push(serial(ops));
    p
}

fn c08(r: &mut Rng) -> Plan {
    match r.below(100) {
        0..=14 => return c08_moves(r),
        15..=18 => return c08_wear(r),
        _ => {}
    }
    let o = Opts { files: (1, 4), fields: 4, depth: 2, inc: 55, broken: if r.pct(40) { 15 } else { 0 }, loose: 8, wild: false, ..Opts::default() };
    let g = graph(r, &o);
    let mut p = new_plan("C08", "history", r, &g.items, &g.cwd);
    let files = paths(&g);
    // A few cyclic files next to the graph.
    p.fs.push(FsItem { path: "/w/cy0".into(), node: FsNode::File(FileSpec::raw("a: 1 b: <\"cy1\">")) });
    p.fs.push(FsItem { path: "/w/cy1".into(), node: FsNode::File(FileSpec::raw(*r.pick(&["c: <\"cy0\">", "c: 2", "c: <\"cy1\">", "c: @g d: 1"]))) });
    p.fs.push(FsItem { path: "/w/gl".into(), node: FsNode::File(FileSpec::raw("@g: 5 a: @g p1: <\"cy1\">")) });
    let mut ops: Vec<POp> = vec![];
    let mut dst = 0;
    let load = |r: &mut Rng, dst: u32| -> Op {
        let path = match r.below(8) {
            0 => "/w/cy0".to_string(),
            1 => "/w/cy1".into(),
            2 => "/w/gl".into(),
            3 => r.pick(&files).clone(),
            _ => g.root_path.clone(),
        };
        if r.pct(12) {
            let doc = Doc::Obj(vec![
                (F::Name("x".into()), E::Inc(None, Box::new(E::Str(path.clone())))),
                (F::Name("y".into()), E::Inc(Some(Kind::Str), Box::new(E::Str(path)))),
            ]);
            return Op::LoadStr { text: FileSpec::doc(doc, 1), dst };
        }
        Op::Load { path, dst }
    };
    for _ in 0..r.range(3, 9) {
        if r.pct(12) {
            // One file in two states, of one size more often than not.
            let path = if r.pct(50) { "/w/gl".to_string() } else { r.pick(&files).clone() };
            let pad = r.below(20);
            for _ in 0..2 {
                let b = *r.pick(&["a: 1", "a: 2", "a: \"\u{10FFFF}\"", "a: \"x\"", "a: {", "b: {} a: 7", "a: x", "a: <\"/w/cy0\">", "a: <\"/w/cy1\">", "a: <\"nosuch\">", "@a: 1", "a: \u{10FFC3}"]);
                let s = format!("{}{}", b, " ".repeat((24 + pad).saturating_sub(crate::vfs::raw(b).len())));
                let m = if r.pct(50) { Mut::Put(path.clone(), FileSpec::raw(&s)) } else { Mut::Replace(path.clone(), FileSpec::raw(&s)) };
                ops.push(POp::new(Op::Fs(m)));
                let mut op = POp::new(Op::Load { path: if r.pct(75) { path.clone() } else { g.root_path.clone() }, dst });
                if r.pct(20) {
                    op.faults.push(io_fault(r, &files));
                }
                ops.push(op);
                dst += 1;
            }
            continue;
        }
        match r.below(10) {
            0..=5 => {
                let mut op = POp::new(load(r, dst));
                dst += 1;
                match r.below(5) {
                    0 => op.faults.push(io_fault(r, &files)),
                    1 => op.del = delivery(r),
                    2 if r.pct(40) => {
                        let m = edit(r, &files);
                        op.faults.push(flt(Call::Any, r.below(20), 1, Act::Mut(m), None));
                    }
                    _ => {}
                }
                ops.push(op);
            }
            6 if dst > 0 => {
                let src = r.below(dst as usize) as u32;
                let path = if r.pct(50) { "/w/saved".to_string() } else { r.pick(&files).clone() };
                let mut op = POp::new(Op::Save { src, path: path.clone() });
                if r.pct(25) {
                    op.faults = save_faults(r, false).0;
                }
                ops.push(op);
                ops.push(POp::new(Op::Load { path, dst }));
                dst += 1;
            }
            7 if dst > 0 => ops.push(POp::new(Op::Drop { src: r.below(dst as usize) as u32 })),
            _ => ops.push(POp::new(Op::Fs(edit(r, &files)))),
        }
    }
    ops.push(POp::new(load(r, dst)));
    p.epochs.push(serial(ops));
    p
}

/// An edit that leaves (mostly) loadable files.
fn edit(r: &mut Rng, files: &[String]) -> Mut {
    let mut all: Vec<String> = files.to_vec();
    all.extend(["/w/cy0".to_string(), "/w/cy1".into(), "/w/gl".into()]);
    let p = r.pick(&all).clone();
    let body = *r.pick(&[
        "a: 1", "a: 2\nb: [1 2]", "n: 7 m: {x: \"y\"}", "", "c: <\"cy0\">", "c: <\"/w/cy1\"> d: <Str \"/w/cy1\">", "c: 3", "a: {", "@g: 1 a: @g", "a: @g", "x: 1 x: 2",
    ]);
    match r.below(8) {
        7 if r.pct(40) => {
            // Not text, and then text of the same size.
            let a = r.below(9);
            let s = if r.pct(50) { format!("a: \"x{}\"", a) } else { format!("a: \"\u{10FFFF}{}\"", a) };
            Mut::Put(if r.pct(50) { "/w/gl".into() } else { p }, FileSpec::raw(&s))
        }
        0 => Mut::Remove(p),
        1 => Mut::Append(p, (*r.pick(&["\nzz: 9", " # c", "\n@zz: 1", "}"])).into()),
        2 => {
            let t = r.pick(&all).clone();
            Mut::Link(p, t)
        }
        6 if r.pct(50) => mode(r, &all),
        3 => Mut::Put(p, FileSpec::raw(body)),
        _ => Mut::Replace(p, FileSpec::raw(body)),
    }
}

fn c08_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    let mut n = 0;
    for (e, out) in run.outs.iter().enumerate() {
        for o in &out.ops {
            let op = op_at(p, e, o);
            if !matches!(op.op, Op::Load { .. } | Op::LoadStr { .. }) || hard(o) || mutated(o) || o.ix == 0 {
                continue;
            }
            if matches!(o.res, Res::Skip | Res::Cut) {
                continue;
            }
            if o.before != o.after && p.epochs[e].threads.len() == 1 {
                let (a, b) = (&out.snaps[o.before as usize], &out.snaps[o.after as usize]);
                let what = if a.cwd != b.cwd { "the working directory" } else { "files" };
                return viol("residue", format!("{} changed {}", show_op(&op.op), what));
            }
            if p.kind == "wear" && o.ix % 64 != 63 && matches!(&op.op, Op::Load { dst: 0, .. } | Op::LoadStr { dst: 0, .. }) {
                continue;
            }
            let s = solo(&out.snaps[o.before as usize], op.op.clone(), true);
            let Some(q) = s.op(0, 0) else { continue };
            same_res(&q.res, &o.res, &format!("{} after other operations", show_op(&op.op)), "the same load in a fresh process")?;
            n += 1;
        }
    }
    if n >= 2 {
        probe("history-compared");
    }
    Ok(())
}

fn same_res(want: &Res, got: &Res, what: &str, other: &str) -> Verdict {
    match (want, got) {
        (Res::Value(Some(a)), Res::Value(Some(b))) => match same(a, b) {
            Ok(()) => {
                probe("results-same");
                Ok(())
            }
            Err(s) => viol("value-differs", format!("{} gave a different value than {}: {}", what, other, s)),
        },
        (Res::Err(a, x), Res::Err(b, y)) => {
            if a != b || x != y {
                return viol("error-differs", format!("{} failed with {:?}, but {} fails with {:?}", what, y, other, x));
            }
            probe("errors-same");
            Ok(())
        }
        (a, b) if std::mem::discriminant(a) == std::mem::discriminant(b) => match (a, b) {
            (Res::Text(x), Res::Text(y)) if x != y => viol("text-differs", format!("{} gave different text than {}", what, other)),
            _ => Ok(()),
        },
        (a, b) => viol("outcome-differs", format!("{} ended with {}, but {} ends with {}", what, show_res(b), other, show_res(a))),
    }
}

// ---------------------------------------------------------------- C09

fn c09(r: &mut Rng) -> Plan {
    let o = Opts { files: (1, 3), fields: 3, depth: 1, inc: 70, wild: false, broken: if r.pct(20) { 10 } else { 0 }, ..Opts::default() };
    let g = graph(r, &o);
    let mut p = new_plan("C09", "threads", r, &g.items, &g.cwd);
    p.fs.push(FsItem { path: "/out".into(), node: FsNode::Dir });
    p.fs.push(FsItem { path: "/w/k.txt".into(), node: FsNode::File(FileSpec::raw("1 2")) });
    p.fs.push(FsItem { path: "/w/c1".into(), node: FsNode::File(FileSpec::raw("a: <\"c2\">")) });
    p.fs.push(FsItem { path: "/w/c2".into(), node: FsNode::File(FileSpec::raw(*r.pick(&["a: <\"c1\">", "a: 1"]))) });
    let n = r.range(2, 4);
    let shared = r.pct(50);
    let deep = r.pct(8);
    if deep {
        // A chain that is just short enough.
        let k = r.range(20, 56);
        for i in 0..k {
            let s = if i + 1 == k { "e: 1".to_string() } else { format!("d: <\"dp{}\">", i + 1) };
            p.fs.push(FsItem { path: format!("/w/dp{}", i), node: FsNode::File(FileSpec::raw(&s)) });
        }
    }
    let mut threads = vec![];
    for t in 0..n {
        let base = (t as u32) * 10 + 1;
        let mut ops = vec![];
        let mut have: Vec<u32> = vec![];
        if shared {
            if t == 0 {
                ops.push(POp::new(load_op(&g, false, 0)));
            } else if r.pct(70) {
                ops.push(POp::new(Op::Wait { src: 0 }));
            }
        }
        for i in 0..r.range(1, 4) {
            let dst = base + i as u32;
            let op = match r.below(13) {
                0..=2 if deep => {
                    let nest = r.range(40, 60);
                    if r.pct(60) {
                        Op::Load { path: "/w/dp0".into(), dst }
                    } else {
                        Op::LoadStr { text: FileSpec::raw(&format!("a: {}1{}", "(".repeat(nest), ")".repeat(nest))), dst }
                    }
                }
                12 => {
                    // Strings, names and numbers that differ from thread to thread.
                    have.push(dst);
                    let e = ["\\n", "\\t", "\\\\", "\\\"", "\\$", "\\r"][(t + i) % 6].repeat(r.range(1, 12));
                    Op::LoadStr { text: FileSpec::raw(&format!("@g{}: {}{} s{}: \"{}{}\" f: {}.{} o: {{x: @g{} y: x}}", t, t, i, t, e, t, t, i + 1, t)), dst }
                }
                0..=2 => {
                    have.push(dst);
                    load_op(&g, false, dst)
                }
                3 | 4 => {
                    // The include keywords, possibly as the first thing a process does.
                    let kw = *r.pick(&["Str", "Arr", "Tup", "Obj"]);
                    let f = if kw == "Obj" { "/w/c2" } else { "/w/k.txt" };
                    have.push(dst);
                    Op::LoadStr { text: FileSpec::raw(&format!("x: <{} \"{}\"> y: {}", kw, f, i)), dst }
                }
                5 => Op::LoadStr { text: FileSpec::raw(*r.pick(&["x: <\"/w/c1\">", "a: ", "a: <Foo \"x\">", "z: Str", "a: 1 b: a.x"])), dst },
                6 => {
                    have.push(dst);
                    Op::Build { b: build_obj(r, 1, &[]), dst }
                }
                7 | 8 if !have.is_empty() => Op::Save { src: *r.pick(&have), path: format!("/out/t{}", t) },
                9 if !have.is_empty() => Op::Text { src: *r.pick(&have) },
                10 if shared => Op::Dump { src: 0 },
                11 if shared && r.pct(50) => Op::Show { src: 0 },
                11 if shared => Op::Text { src: 0 },
                _ if shared => Op::Clone { src: 0, dst },
                _ => {
                    have.push(dst);
                    Op::LoadStr { text: FileSpec::raw("a: [1 2 3] b: a"), dst }
                }
            };
            let mut o = POp::new(op);
            if r.pct(15) {
                o.del = delivery(r);
            }
            if r.pct(10) {
                o.faults.push(flt(Call::Any, r.below(6), 1, Act::Stall(r.logu(4_000_000)), None));
            }
            ops.push(o);
        }
        if shared && t == 0 && r.pct(50) {
            ops.push(POp::new(Op::Drop { src: 0 }));
        }
        threads.push(ops);
    }
    let s = sched(r, n);
    p.epochs.push(Epoch { threads, sched: s });
    p
}

fn c09_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    let reg = Registry::of(p);
    let mut q = p.clone();
    for e in &mut q.epochs {
        e.sched.clear();
        for t in &mut e.threads {
            for o in t {
                o.faults.retain(|f| !matches!(f.act, Act::Stall(_)));
            }
        }
    }
    let serial = crate::exec::run(&q, false);
    if sane(&q, &serial).is_err() {
        return Ok(());
    }
    for (e, out) in run.outs.iter().enumerate() {
        if out.switches > 0 {
            probe("preempted");
        }
        for o in &out.ops {
            let op = op_at(p, e, o);
            let Some(w) = serial.outs.get(e).and_then(|s| s.op(o.th as usize, o.ix as usize)) else { continue };
            // An operand another thread had not produced (or already dropped) in one of the runs.
            if matches!(o.res, Res::Skip) || matches!(w.res, Res::Skip) {
                continue;
            }
            if let Op::Wait { .. } | Op::Audit = op.op {
                continue;
            }
            same_res(&w.res, &o.res, &format!("thread {}: {}", o.th, show_op(&op.op)), "the same operation without interleaving")?;
            if let Op::Save { src: _, path } = &op.op {
                // Only this thread writes this file.
                let (a, b) = (out.snaps[o.after as usize].read(&raw(path)), serial.outs[e].snaps[w.after as usize].read(&raw(path)));
                if a != b {
                    return viol("save-differs", format!("thread {}: {} wrote something else than without interleaving", o.th, show_op(&op.op)));
                }
            }
            if matches!(op.op, Op::Load { .. }) {
                let m = model_op(&reg, &out.snaps[o.before as usize], &op.op);
                load_ok(&m, o, &show_op(&op.op), false)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10(r: &mut Rng) -> Plan {
    let builds = r.pct(50);
    let g = if builds {
        None
    } else {
        Some(graph(r, &Opts { files: (0, 2), fields: 4, depth: 2, inc: 50, wild: false, ..Opts::default() }))
    };
    let (items, cwd) = g.as_ref().map_or((vec![], "/w".to_string()), |g| (g.items.clone(), g.cwd.clone()));
    let mut p = new_plan("C10", if builds { "build" } else { "mixed" }, r, &items, &cwd);
    let n = *r.pick(&[1, 2, 2, 3, 3, 4]);
    // A long-lived process.
    let many = r.below(400) == 0;
    let mut threads = vec![];
    for t in 0..n {
        let base = (t as u32) * 12;
        let mut ops = vec![];
        let mut have: Vec<u32> = vec![];
        if many && t == 0 {
            ops.push(POp::new(Op::Churn { n: 66_000 }));
        }
        for i in 0..r.range(1, 6) {
            let dst = base + i as u32;
            let op = match r.below(10) {
                0..=4 => Op::Build { b: build_obj(r, 2, &have), dst },
                5 if !have.is_empty() => Op::Clone { src: *r.pick(&have), dst },
                6 if !have.is_empty() => Op::Get { src: *r.pick(&have), step: if r.pct(30) { Step::Parent } else { Step::Index(r.below(3) as u32) }, dst },
                7 => Op::Build { b: B::Tup(vec![B::Arr(vec![]), B::Obj(vec![], None), B::Tup(vec![])]), dst },
                8 if r.pct(30) => Op::Churn { n: if many { 70_000 } else { r.range(1, 300) as u32 } },
                _ => match &g {
                    Some(g) if r.pct(60) => load_op(g, false, dst),
                    Some(_) => Op::LoadStr {
                        text: FileSpec::doc(
                            Doc::Obj(vec![
                                (F::Name("a".into()), E::Arr(vec![E::Int("1".into())])),
                                (F::Name("b".into()), E::Var(Root::Name("a".into()), vec![])),
                                (F::Name("c".into()), E::Chain(Box::new(E::Var(Root::Name("a".into()), vec![])), vec![('+', E::Arr(vec![E::Int("2".into())]))])),
                                (F::Parent, E::Obj(vec![(F::Name("q".into()), E::Tup(vec![]))])),
                            ]),
                            0,
                        ),
                        dst,
                    },
                    None => Op::Build { b: B::Arr(vec![B::Tup(vec![])]), dst },
                },
            };
            have.push(dst);
            ops.push(POp::new(op));
            if r.pct(15) && have.len() > 1 {
                let k = r.below(have.len());
                ops.push(POp::new(Op::Drop { src: have.swap_remove(k) }));
            }
        }
        threads.push(ops);
    }
    let s = sched(r, n);
    p.epochs.push(Epoch { threads, sched: s });
    p
}

/// Walks model and observation together as far as they agree.
fn pair_up(m: &MV, d: &Dump, x: &DN, seen: &mut HashSet<(usize, u32)>, f: &mut dyn FnMut(usize, &crate::dump::Node) -> Verdict) -> Verdict {
    if let (MV::Node(n), DN::Ref(i)) = (m, x) {
        let q = std::rc::Rc::as_ptr(n) as usize;
        let nd = &d.nodes[*i as usize];
        if nd.kind != n.kind || nd.items.len() != n.items.len() || !seen.insert((q, *i)) {
            return Ok(());
        }
        f(q, nd)?;
        for (a, b) in n.items.iter().zip(&nd.items) {
            pair_up(a, d, b, seen, f)?;
        }
        if let (Some(a), Some(b)) = (&n.parent, nd.parent) {
            pair_up(a, d, &DN::Ref(b), seen, f)?;
        }
    }
    Ok(())
}

fn c10_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    let reg = Registry::of(p);
    for (e, out) in run.outs.iter().enumerate() {
        // Dumps and audits: whatever is seen.
        let mut dumps: Vec<(u64, &Dump)> = vec![];
        for o in &out.ops {
            if let Res::Value(Some(d)) = &o.res {
                dumps.push((o.end, d));
            }
        }
        for (t, _, d) in &out.audits {
            dumps.push((*t, d));
        }
        for (_, d) in &dumps {
            let mut ids = HashMap::new();
            for (i, n) in d.nodes.iter().enumerate() {
                if let Some(o) = &n.odd {
                    return viol("unstable-id", o.clone());
                }
                if let Some(j) = ids.insert(n.id, i) {
                    return viol("duplicate-id", format!("two distinct instances ({:?} and {:?}) have ID {}", d.nodes[j].kind, n.kind, n.id));
                }
                // Contents exist before their container.
                for x in n.items.iter().chain(n.parent.map(DN::Ref).iter()) {
                    if let DN::Ref(c) = x {
                        let c = &d.nodes[*c as usize];
                        if c.id > n.id {
                            return viol("id-order", format!("{:?} has ID {}, but contains {:?} with ID {}, which existed before it", n.kind, n.id, c.kind, c.id));
                        }
                    }
                }
            }
            if d.nodes.len() > 1 {
                probe("ids-compared");
            }
        }
        // One model instance, one ID, over the whole history; distinct ones differ.
        let rp = replay(p, e, out, &reg);
        let mut by_model: HashMap<usize, u64> = HashMap::new();
        let mut by_id: HashMap<u64, usize> = HashMap::new();
        let mut bind = |q: usize, n: &crate::dump::Node| -> Verdict {
            if *by_model.entry(q).or_insert(n.id) != n.id {
                return viol("unstable-id", format!("one instance has had IDs {} and {}", by_model[&q], n.id));
            }
            if *by_id.entry(n.id).or_insert(q) != q {
                return viol("reused-id", format!("ID {} has belonged to two distinct instances", n.id));
            }
            Ok(())
        };
        for o in &out.ops {
            if let (Some(m), Res::Value(Some(d))) = (rp.results.get(&(o.th, o.ix)), &o.res) {
                if Cmp::new(true).value(m, d, &d.roots[0].1, "x").is_err() {
                    probe("model-disagrees");
                    continue;
                }
                pair_up(m, d, &d.roots[0].1, &mut HashSet::new(), &mut bind)?;
                probe("history-ids");
            }
        }
        for o in &out.ops {
            if let (Op::Churn { .. }, Res::Text(t)) = (&op_at(p, e, o).op, &o.res) {
                probe("churned");
                if t.contains("ID") {
                    return viol("duplicate-id", t.clone());
                }
            }
        }
        // Later creations have larger IDs.
        let created: Vec<(&OpOut, Vec<u64>)> = out
            .ops
            .iter()
            .filter(|o| matches!(op_at(p, e, o).op, Op::Build { .. } | Op::Load { .. } | Op::LoadStr { .. } | Op::Churn { .. }))
            .filter_map(|o| match &o.res {
                Res::Text(t) => Some((o, t.split(' ').filter_map(|x| x.parse().ok()).collect())),
                Res::Value(Some(d)) => Some((o, d.nodes.iter().map(|n| n.id).collect())),
                _ => None,
            })
            .collect();
        let regs_read = |o: &OpOut| !uses(&op_at(p, e, o).op).0.is_empty();
        for (a, x) in &created {
            for (b, y) in &created {
                // The root of a later operation is newer than everything an earlier one returned.
                if a.end < b.start && !regs_read(b) {
                    if let (Some(hi), Some(lo)) = (x.iter().max(), y.iter().min()) {
                        if lo <= hi {
                            return viol("id-order", format!("an instance created later has ID {}, an earlier one {}", lo, hi));
                        }
                    }
                }
            }
        }
        // First instance 0, and nothing skipped, when only construction functions ran.
        if p.kind == "build" {
            let mut ids: Vec<u64> = vec![];
            let mut complete = true;
            for o in &out.ops {
                match (&op_at(p, e, o).op, &o.res) {
                    (Op::Build { .. }, Res::Value(Some(d))) => ids.extend(d.nodes.iter().map(|n| n.id)),
                    (Op::Build { .. }, Res::Skip) => {}
                    (Op::Churn { .. }, Res::Text(t)) => ids.extend(t.split(' ').filter_map(|x| x.parse::<u64>().ok())),
                    (Op::Churn { .. }, _) => complete = false,
                    (Op::Build { .. }, _) => complete = false,
                    _ => {}
                }
            }
            ids.sort_unstable();
            ids.dedup();
            if complete && !ids.is_empty() {
                probe("ids-from-zero");
                if ids[0] != 0 {
                    return viol("first-id", format!("the first instance of the process has ID {}", ids[0]));
                }
            }
        }
        if out.switches > 0 {
            probe("preempted");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

/// Many handles to one instance.
fn c11_many(r: &mut Rng) -> Plan {
    let mut p = new_plan("C11", "many", r, &[], "/w");
    let n = match r.below(6) {
        0 => r.range(20, 70),
        1 => r.range(126, 131),
        2 => r.range(254, 260),
        3 => r.range(300, 700),
        4 => r.range(1020, 1030),
        _ => r.range(70, 300),
    };
    let one = |r: &mut Rng| match r.below(4) {
        0 => E::Arr(vec![E::Int("1".into()), E::Int("2".into())]),
        1 => E::Tup(vec![E::Int("1".into())]),
        2 => E::Obj(vec![(F::Name("k".into()), E::Int("1".into()))]),
        _ => E::Inc(None, Box::new(E::Str("one".into()))),
    };
    p.fs.push(FsItem { path: "/w/one".into(), node: FsNode::File(FileSpec::doc(Doc::Obj(vec![(F::Name("k".into()), E::Int("1".into()))]), 0)) });
    let x = one(r);
    let inc = matches!(x, E::Inc(..));
    let glob = r.pct(50);
    let refer = |r: &mut Rng, i: usize| -> E {
        if inc && r.pct(50) {
            return E::Inc(None, Box::new(E::Str((*r.pick(&["one", "./one", "/w/one"])).into())));
        }
        let _ = i;
        E::Var(if glob { Root::Global("x".into()) } else { Root::Name("x".into()) }, vec![])
    };
    let mut v = vec![(if glob { F::Global("x".into()) } else { F::Name("x".into()) }, x)];
    let refs: Vec<E> = (0..n).map(|i| refer(r, i)).collect();
    match r.below(3) {
        0 => v.push((F::Name("all".into()), E::Arr(refs))),
        1 => v.push((F::Name("all".into()), E::Tup(refs))),
        _ => v.extend(refs.into_iter().enumerate().map(|(i, e)| (F::Name(format!("f{}", i)), e))),
    }
    let text = FileSpec::doc(Doc::Obj(v), 0);
    let file = r.pct(50);
    if file {
        p.fs.push(FsItem { path: "/w/root".into(), node: FsNode::File(text.clone()) });
    }
    let load = |dst: u32| if file { Op::Load { path: "root".into(), dst } } else { Op::LoadStr { text: text.clone(), dst } };
    let mut ops = vec![POp::new(load(0)), POp::new(Op::Audit)];
    let mut next = 1;
    for _ in 0..r.range(1, 5) {
        let src = r.below(next) as u32;
        let dst = next as u32;
        let op = match r.below(6) {
            0 => Op::Drop { src },
            1 => load(dst),
            2 => Op::Get { src, step: Step::Field("all".into()), dst },
            3 => Op::Get { src, step: Step::Index(r.below(n) as u32), dst },
            4 => Op::Get { src, step: Step::Field(format!("f{}", r.below(n))), dst },
            _ => Op::Clone { src, dst },
        };
        if uses(&op).2.is_some() {
            next += 1;
        }
        ops.push(POp::new(op));
        ops.push(POp::new(Op::Audit));
    }
    p.epochs.push(serial(ops));
    p
}

fn c11(r: &mut Rng) -> Plan {
    if r.pct(3) {
        return c11_many(r);
    }
    let loose = if r.pct(30) { 25 } else { 0 };
    let o = Opts { files: (0, 3), fields: 5, depth: 3, inc: 60, wild: false, loose, mem: r.pct(15), ..Opts::default() };
    let g = graph(r, &o);
    let mem = !g.items.iter().any(|i| i.path == g.files[g.root].path);
    let mut p = new_plan("C11", "handles", r, &g.items, &g.cwd);
    let n = *r.pick(&[1, 1, 2, 3]);
    let mut threads = vec![];
    for t in 0..n {
        let base = (t as u32) * 20;
        let mut ops = vec![];
        let mut have: Vec<u32> = vec![];
        if t > 0 {
            ops.push(POp::new(Op::Wait { src: 0 }));
            have.push(0);
        } else {
            ops.push(POp::new(load_op(&g, mem, 0)));
            have.push(0);
        }
        let mut next = base + 1;
        for _ in 0..r.range(2, 9) {
            let src = *r.pick(&have);
            let dst = next;
            let op = match r.below(14) {
                0 if r.pct(30) => {
                    // Words of the language where a value belongs.
                    let word = |r: &mut Rng| E::Var(Root::Name((*r.pick(&["Obj", "Str", "Arr", "Tup", "Obj"])).into()), vec![]);
                    let w = word(r);
                    let e = match r.below(5) {
                        0 => E::Arr(vec![w.clone(), w]),
                        1 => E::Tup(vec![E::Int("1".into()), w]),
                        2 => E::Obj(vec![(F::Name("b".into()), w)]),
                        _ => w,
                    };
                    let mut v = vec![(F::Name("a".into()), e)];
                    if r.pct(50) {
                        v.push((F::Name("c".into()), word(r)));
                    }
                    Op::LoadStr { text: FileSpec::doc(Doc::Obj(v), r.next() >> 12), dst }
                }
                0 => load_op(&g, mem, dst),
                1..=3 => Op::Clone { src, dst },
                4..=6 => {
                    let step = match r.below(6) {
                        0 => Step::Parent,
                        1 => Step::Index(r.below(3) as u32),
                        _ => {
                            // Some field of some file.
                            let f = r.pick(&g.files);
                            match &f.doc {
                                Doc::Obj(v) if !v.is_empty() => match &r.pick(v).0 {
                                    F::Name(n) => match r.below(3) {
                                        0 => Step::Source(n.clone()),
                                        1 => Step::Typed(n.clone()),
                                        _ => Step::Field(n.clone()),
                                    },
                                    _ => Step::Parent,
                                },
                                _ => Step::Index(0),
                            }
                        }
                    };
                    Op::Get { src, step, dst }
                }
                7 | 8 => Op::Drop { src },
                9 => Op::Move { src, dst },
                10 | 11 => Op::Build { b: build_obj(r, 1, &have), dst },
                12 => Op::Dump { src },
                _ if r.pct(50) => Op::Show { src },
                _ => Op::Text { src },
            };
            if let Some(d) = uses(&op).2 {
                have.push(d);
                next += 1;
            }
            let mut o = POp::new(op);
            if r.pct(8) {
                o.faults.push(io_fault(r, &paths(&g)));
            }
            ops.push(o);
            if n == 1 && r.pct(70) {
                ops.push(POp::new(Op::Audit));
            }
        }
        threads.push(ops);
    }
    let s = sched(r, n);
    p.epochs.push(Epoch { threads, sched: s });
    p
}

fn c11_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    let reg = Registry::of(p);
    for (e, out) in run.outs.iter().enumerate() {
        let rp = replay(p, e, out, &reg);
        for (t, inflight, d) in &out.audits {
            if d.nodes.len() >= 3 {
                probe("audited-3");
            }
            audit_ok(d, *t, *inflight == 0, &rp)?;
        }
        for o in &out.ops {
            // Sharing inside each loaded value.
            if let (Some(m), Res::Value(Some(d))) = (rp.results.get(&(o.th, o.ix)), &o.res) {
                let mut c = Cmp::new(true);
                if Cmp::new(false).value(m, d, &d.roots[0].1, "root").is_ok() {
                    if let Err(s) = c.value(m, d, &d.roots[0].1, "root") {
                        return viol("identity", format!("{}: {}", show_op(&op_at(p, e, o).op), s));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn c12(r: &mut Rng) -> Plan {
    let mem = r.pct(15);
    let o = Opts { files: (0, 5), fields: 5, depth: 2, inc: 60, wild: false, mem, big: if r.pct(10) { 9_000 } else { 0 }, ..Opts::default() };
    let g = graph(r, &o);
    let mut p = new_plan("C12", "fault", r, &g.items, &g.cwd);
    let files = paths(&g);
    let mut ops = vec![];
    let mut denied = vec![];
    if r.pct(35) {
        // The files have been read before, and some changed since.
        ops.push(POp::new(load_op(&g, mem, 8)));
        for _ in 0..r.below(3) {
            let f = r.pick(&g.files);
            let mut doc = f.doc.clone();
            other_digits(&mut doc);
            let spec = FileSpec::doc(doc, f.fmt);
            let m = if r.pct(50) { Mut::Put(f.path.clone(), spec) } else { Mut::Replace(f.path.clone(), spec) };
            if !(mem && f.path == g.files[g.root].path) {
                ops.push(POp::new(Op::Fs(m)));
            }
        }
    }
    if r.pct(15) {
        // Nobody may read some of them for a while.
        for _ in 0..r.range(1, 2) {
            let f = r.pick(&files).clone();
            ops.push(POp::new(Op::Fs(Mut::Mode(f.clone(), *r.pick(&[0, 0o200])))));
            denied.push(f);
        }
    }
    for i in 0..r.range(1, 3) {
        let mut op = POp::new(load_op(&g, mem, i as u32));
        for _ in 0..r.range(1, 2) {
            op.faults.push(io_fault(r, &files));
        }
        if r.pct(30) {
            op.del = delivery(r);
        }
        ops.push(op);
    }
    for f in denied {
        ops.push(POp::new(Op::Fs(Mut::Mode(f, 0o644))));
    }
    ops.push(POp::new(load_op(&g, mem, 9)));
    if r.pct(8) {
        p.max_fds = r.range(1, 3) as u32;
    }
    p.epochs.push(serial(ops));
    p
}

fn c12_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    loads_ok(p, run, &Registry::of(p), false)
}

// ---------------------------------------------------------------- C13

/// Uses whatever a process creates once.
const WARM: &str = "a: <Str \"/w/e\"> b: <Arr \"/w/e\"> c: <Tup \"/w/e\"> d: <Obj \"/w/e\">";

/// The same kind of operation on one file after the other, each smaller than the one before.
fn c13_distinct(r: &mut Rng) -> Plan {
    let mut p = new_plan("C13", "distinct", r, &[], "/w");
    p.dump = false;
    let mode = r.below(9);
    let n = 14;
    let step = r.range(1, 60);
    p.fs.push(FsItem { path: "/w/e".into(), node: FsNode::File(FileSpec::raw("")) });
    let mut ops = vec![POp::new(Op::LoadStr { text: FileSpec::raw(WARM), dst: 60 }), POp::new(Op::Drop { src: 60 })];
    for i in 0..n {
        let pad = "x".repeat((n - i) * step);
        let tail = match mode {
            1 => "bad: {",
            2 => "bad: <\"nosuch\">",
            3 => "bad: zz",
            4 => "bad: \"\u{10FFFF}\"",
            _ => "",
        };
        let own = format!("n{}", i);
        let t = format!("t{}", i);
        let text = match mode {
            5 => format!("a: \"{}\" b: <\"{}\">", pad, own),
            6 => format!("@g{}: {} ab{}: @g{} c: {{v{}: ab{}}} {}", i, 100 + i, pad, i, i, i, tail).replace(&format!("v{}: ab{}", i, i), &format!("v{}: @g{}", i, i)),
            _ => format!("a: \"{}\" n{}: {} b: <Str \"{}\"> c: <Arr \"u{}\"> d: <Tup \"u{}\"> {}", pad, i, i, t, i, i, tail),
        };
        p.fs.push(FsItem { path: format!("/w/{}", own), node: FsNode::File(FileSpec::raw(&text)) });
        p.fs.push(FsItem { path: format!("/w/{}", t), node: FsNode::File(FileSpec::raw(&format!("{}{}", pad, i))) });
        p.fs.push(FsItem { path: format!("/w/u{}", i), node: FsNode::File(FileSpec::raw(&format!("{}{} 2", i, "1".repeat(n - i)))) });
        let mut op = POp::new(match mode {
            7 => Op::LoadStr { text: FileSpec::raw(&format!("{} x: <\"{}\">", text, own)), dst: 0 },
            _ => Op::Load { path: own, dst: 0 },
        });
        if mode == 8 {
            op.faults.push(flt(*r.pick(&[Call::Read, Call::Open]), r.below(4), 1, Act::Errno(libc::EIO), None));
        }
        ops.push(op);
        if mode == 0 || mode == 7 {
            ops.push(POp::new(Op::Save { src: 0, path: format!("/w/out{}", i) }));
            ops.push(POp::new(Op::Show { src: 0 }));
        }
        ops.push(POp::new(Op::Drop { src: 0 }));
        ops.push(POp::new(Op::Audit));
    }
    p.epochs.push(serial(ops));
    p
}

fn c13(r: &mut Rng) -> Plan {
    if r.pct(8) {
        return c13_distinct(r);
    }
    let o = Opts { files: (0, 4), fields: 4, depth: 2, inc: 55, wild: false, broken: if r.pct(40) { 15 } else { 0 }, loose: 8, ..Opts::default() };
    let g = graph(r, &o);
    let mut p = new_plan("C13", "repeat", r, &g.items, &g.cwd);
    let files = paths(&g);
    p.fs.push(FsItem { path: "/out".into(), node: FsNode::Dir });
    p.fs.push(FsItem { path: "/out/keep".into(), node: FsNode::File(FileSpec::raw("keep: 1")) });
    p.fs.push(FsItem { path: "/w/e".into(), node: FsNode::File(FileSpec::raw("")) });
    p.fs.push(FsItem { path: "/w/cy".into(), node: FsNode::File(FileSpec::raw("a: {b: <\"cy\">}")) });
    if r.pct(20) {
        // Something is not text, or torn.
        for _ in 0..r.range(1, 2) {
            let f = r.pick(&files).clone();
            for it in p.fs.iter_mut().filter(|it| it.path == f) {
                if let FsNode::File(f) = &mut it.node {
                    let n = f.base().len();
                    f.edits.push(if r.pct(60) { Edit::Insert(r.below(n + 1) as u32, crate::vfs::unraw(&[0x80 | r.below(128) as u8])) } else { corrupt(r, n) });
                }
            }
        }
    }
    let long = r.pct(4);
    if long {
        let f = if r.pct(50) { g.files[g.root].path.clone() } else { r.pick(&files).clone() };
        let pad = format!("#{}\n", "x".repeat(*r.pick(&[5_000, 20_000, 70_000, 140_000])));
        for it in p.fs.iter_mut().filter(|it| it.path == f) {
            if let FsNode::File(f) = &mut it.node {
                f.edits.insert(0, Edit::Insert(0, pad.clone()));
            }
        }
    }
    p.dump = false;
    let mut ops = vec![
        // Warm up whatever a process creates once.
        POp::new(Op::LoadStr { text: FileSpec::raw(WARM), dst: 60 }),
        POp::new(Op::Drop { src: 60 }),
    ];
    let mut seq: Vec<POp> = vec![];
    let mut dst = 0;
    let mut places = files.clone();
    places.extend(["/out".to_string(), "/out/keep".into(), "/out/s".into(), "/w".into()]);
    let all = r.below(100) < 20;
    for _ in 0..r.range(1, 4) {
        if all {
            // Every repetition starts and ends with the usual ones (see below).
            seq.push(POp::new(Op::Fs(mode(r, &places))));
        }
        let path = match r.below(8) {
            0 => "/w/cy".to_string(),
            1 => "/w/none".into(),
            2 => r.pick(&files).clone(),
            _ => g.root_path.clone(),
        };
        let mut op = POp::new(if r.pct(12) { Op::LoadStr { text: g.root_spec.clone(), dst } } else { Op::Load { path, dst } });
        for _ in 0..[0, 1, 1, 2][r.below(4)] {
            op.faults.push(io_fault(r, &files));
        }
        if r.pct(30) {
            op.del = delivery(r);
            if long {
                op.del.chunks.clear();
            }
        }
        if r.pct(10) {
            let hard = r.pct(30);
            op.faults.push(size_lie(r, hard));
        }
        seq.push(op);
        if r.pct(40) {
            let mut s = POp::new(Op::Save { src: dst, path: (*r.pick(&["/out/s", "/out", "/nodir/x", "/out/t.over"])).into() });
            if r.pct(50) {
                let (f, d) = save_faults(r, false);
                s.faults = f;
                s.del = d;
                if long {
                    s.del.chunks.clear();
                }
            }
            seq.push(s);
        }
        if r.pct(20) {
            seq.push(POp::new(if r.pct(40) { Op::Show { src: dst } } else { Op::Text { src: dst } }));
        }
        dst += 1;
    }
    if r.pct(25) {
        seq.push(POp::new(Op::Build { b: build_obj(r, 2, &[]), dst }));
        dst += 1;
    }
    for i in 0..dst {
        seq.push(POp::new(Op::Drop { src: i }));
    }
    if all {
        for f in &places {
            let m = if f == "/out" || f == "/w" { 0o755 } else { 0o644 };
            seq.push(POp::new(Op::Fs(Mut::Mode(f.clone(), m))));
        }
    }
    let reps = r.range(2, 3);
    for _ in 0..=reps {
        ops.extend(seq.iter().cloned());
        ops.push(POp::new(Op::Audit));
    }
    if r.pct(30) {
        p.max_fds = r.range(2, 8) as u32;
    }
    p.epochs.push(serial(ops));
    p
}

fn c13_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    for (e, out) in run.outs.iter().enumerate() {
        let mut marks: Vec<(i64, i64)> = vec![];
        for o in &out.ops {
            let op = op_at(p, e, o);
            if o.leaked > 0 {
                return viol("leaked-fd", format!("{} returned ({}) with {} file(s) still open", show_op(&op.op), show_res(&o.res), o.leaked));
            }
            let (b, a) = (&out.snaps[o.before as usize], &out.snaps[o.after as usize]);
            match &op.op {
                Op::Load { .. } | Op::LoadStr { .. } | Op::Text { .. } | Op::Show { .. } | Op::Build { .. } | Op::Drop { .. } => {
                    if let Some(w) = o.opened.iter().find(|w| w.1) {
                        return viol("load-writes", format!("{} opened {:?} for writing", show_op(&op.op), w.0));
                    }
                    only_changed(b, a, None)?;
                    probe("tree-unchanged");
                }
                Op::Save { path, .. } => {
                    let (tp, _, _) = target(b, path);
                    only_changed(b, a, tp.as_deref())?;
                    probe("tree-only-target");
                }
                Op::Audit if o.held == 0 => marks.push((o.live, o.bytes)),
                _ => {}
            }
        }
        if p.kind == "distinct" {
            let warm = out.ops.first().map_or(false, |o| matches!(&op_at(p, e, o).op, Op::LoadStr { text, .. } if text.bytes() == WARM.as_bytes()) && matches!(o.res, Res::Value(_)));
            if !warm || marks.len() < 5 {
                continue;
            }
            let m = &marks[2..];
            let up = m.windows(2).filter(|w| w[1].1 > w[0].1).count();
            if up >= 2 && m.windows(2).all(|w| w[1].1 >= w[0].1) {
                return viol(
                    "leaked-memory",
                    format!("one file after the other leaves something behind: {} bytes more after {} of them", m[m.len() - 1].1 - m[0].1, m.len() - 1),
                );
            }
            probe("memory-distinct");
            continue;
        }
        // The first repetition may still create something once per process.
        for w in marks.windows(2).skip(1) {
            if w[0] != w[1] {
                return viol(
                    "leaked-memory",
                    format!("repeating the same operations leaves {} more allocations ({} bytes) each time", w[1].0 - w[0].0, w[1].1 - w[0].1),
                );
            }
            probe("memory-compared");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

/// Tokens that can start neither a field nor a value.
const BAD: [&str; 6] = ["~", "}", ")", "]", "!", "|"];

/// Values that denote nothing, wherever a value may stand.
const BAD_VALUES: [&str; 185] = [
    "1/0", "1.5/0.0", "5%0", "1+\"x\"", "\"x\"-\"y\"", "(1)+(2)", "[1]+[\"x\"]", "null+1", "-\"x\"", "+null", "-true", "[1 \"x\"]", "[[1] [\"x\"]]",
    "[(1 2) (1)]", "nosuchvar", "@nosuchglobal", "{q:(1) r: q.1}", "{q:[1 2] r: q.2}", "{q:{a:1} r: q.b}", "{q:1 r: q.a}", "{q:(1) n:-1 r: q.n}",
    "{q:(1) r: q.99999999999999999999}", "{q:1 q:2}", "{^:{} ^:{}}", "{^:1}", "{null:1}", "{@zz9:1 @zz9:2}", "<\"/no/such/file\">", "<Str 5>", "<7 \"x\">",
    "<(1)>", "\"\\z\"", "1_2__3", "1.2.3", "12x", ".", "{a 1}", "{a: 1]", "(1}", "[1 2)",
    "{q:[1] n:-1 r: q.n}", "{q:[1] r: q.99999999999999999999}", "{q:[1] n:\"x\" r: q.n}", "{q:(1) n:\"x\" r: q.n}", "{q:(1) r: q.true}", "{q:[1] r: q.1.5}", "{q:(1) r: q.0.5}", "{@q:[1] r: @q.1}", "{@q:(1) @n:-2 r: @q.@n}", "{@q:{a:1} r: @q.b}", "{q:{a:1} r: q.@a}", "{q:{a:{b:1}} r: q.a.c}", "{q:{a:1} r: q.a.b}", "{q:\"x\" r: q.0}", "{q:null r: q.a}", "{q:(1) r: q.~}", "{q:(1) r: q.)}", "{q:(1) r: q..0}", "{r: @}", "{r: q~}", "{r: nul}", "{r: True}", "{^:(1)}", "{^:\"x\"}", "{^:null}", "{a:1 ^:2}", "{true:1}", "{false:1}", "{Obj:1}", "{Str:1}", "{Arr:1}", "{Tup:1}", "{@:1}", "{^x:1}", "{1x:1}", "{a-b:1}", "{a :1}", "{:1}", "{a::1}", "{a}", "{a:}", "{@a:}", "{a:1 @a:1 @a:2}", "{a:1;b:2}", "{)", "{a:1)", "{a:1 ]", "[)", "[1)", "[1}", "(]", "(1]", "[1 2 null]", "[[] [1] [\"x\"]]", "[(1) (1.5)]", "[{} 1]", "[1 1.0]", "[\"a\" 1]", "[[1 2] (1)]", "<\"\">", "<\"/\">", "<\".\">", "<Str \"\">", "<Str Obj>", "<Obj Str>", "<Str \"x\" 5>", "<\"x\" \"y\">", "<Str \"x\")", "<\"x\"]", "<nosuch \"x\">", "<@nosuch \"x\">", "<{} \"x\">", "<null>", "<true \"x\">", "<Tup [1]>", "<Arr null>", "<1>", "<Foo>", "Obj", "Str", "Arr", "Tup", "_1", ",", "1,2,3", "1._2_.5", "1e5", "0x10", "5__0", "1a", "1*\"x\"", "\"x\"*2", "null/1", "true%2", "1.5%2", "2%1.5", "[1]-[1]", "[1]*2", "{}+{}", "(1)-(1)", "1/0.0", "1.0/0", "0/0", "0%0", "\"a\"+1", "1-null", "1-\"a\"", "2*null", "2/\"x\"", "[[1]]+[[\"x\"]]", "[1]+1", "1+[1]", "\"a\"+null", "null*null", "+\"x\"", "-null", "-[1]", "+(1)", "-{}", "--\"x\"", "+-true", "1+", "1*", "-", "+", "1+*2", "\"x\"y", "\"x\"1", "(1)2", "[1][2]", "{}x", "1(2)", "1\"x\"", "\"a\"\"b\"", "null\"x\"", ";", "=", "?", "&", "'x'", "\\", "\"\\q\"", "\"\\u0041\"", "\"\\0\"", "\"a\\ b\"",
];

/// All of them, with those that nest too deep.
fn bad_values() -> &'static [String] {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let nest = |a: &str, m: &str, b: &str, n: usize| format!("{}{}{}", a.repeat(n), m, b.repeat(n));
        let mut v: Vec<String> = BAD_VALUES.iter().map(|s| s.to_string()).collect();
        for n in [80, 300] {
            v.extend([nest("[", "", "]", n), nest("(", "1", ")", n), nest("{a:", "1", "}", n), nest("([", "", "])", n), nest("[{b: (", "", ")}]", n)]);
            v.extend([nest("-", "1", "", n), nest("+", "1.5", "", n), nest("(-", "2", ")", n), nest("[", "x", "", n), nest("(", "<\"/no/such/file\">", ")", n)]);
        }
        // At the limit, something else is wrong as well.
        for n in 61..=65 {
            v.extend([nest("[", "-\"x\"", "]", n), nest("(", "<\"/no/such/file\">", ")", n), nest("[", "nosuch.a", "]", n), nest("{a:", "{b:1 c:b.0}", "}", n)]);
        }
        v
    })
}

/// Files that a text of `c14_text` is read from.
const TEXT_FILES: [&str; 2] = ["/w/zt.over", "/w/zs.over"];

/// One text without includes, in memory and in a file, and both with empty lines in front.
fn c14_text(r: &mut Rng) -> Plan {
    let mut f = FileSpec::doc(loose(r, Kind::Obj, &[]), r.next());
    let n = f.base().len();
    match r.below(10) {
        0..=3 => {
            let at = r.below(n + 1) as u32;
            f.edits.push(Edit::Trunc(at));
            let t = *r.pick(&[
                "", "\n", "\n\n\n", "\r\n", " \n\t\n ", "# c\n", "\n#", "\"\n\n", "{\n", "[\n\n", "\\", "<\n", "zz9:\n", "zz9: \"a\nb\n", "zz9: \"\n", "zz9: '\n",
                "zz9: [1\n\"\n\n", "zz9: \"\\\n", "zz9: (\n1\n", "zz9: <Str\n\n", "zz9: {q:\n\n", "zz9\n", "zz9: 1+\n", "zz9: q.\n", "zz9: -\n", "zz9: \"é\n日本\n",
            ]);
            f.edits.push(Edit::Insert(at, t.into()));
        }
        4..=6 => {
            let mut t = String::new();
            for _ in 0..r.below(4) {
                t.push_str(*r.pick(&["\n", "# x\n", "\r\n", "zz7: \"\n\n\"\n", "zz6: 'ab\n'\n", "zz5: [\n1\n]\n"]));
            }
            f.edits.push(Edit::Insert(n as u32, format!("\n{}zz8: {}\n", t, r.pick(bad_values()))));
        }
        _ => {
            for _ in 0..r.range(1, 2) {
                f.edits.push(match corrupt(r, n) {
                    Edit::Flip(at, x) => Edit::Flip(at, x & 0x7f),
                    e => e,
                });
            }
        }
    }
    let shifted = |r: &mut Rng| {
        let mut g = f.clone();
        g.edits.push(Edit::Insert(0, "\n".repeat([1, 1, 2, 3, 9, 100, 300][r.below(7)])));
        g
    };
    let (s1, s2) = (shifted(r), shifted(r));
    let item = |i: usize, f: &FileSpec| FsItem { path: TEXT_FILES[i].into(), node: FsNode::File(f.clone()) };
    let mut p = new_plan("C14", "text", r, &[item(0, &f), item(1, &s2)], "/w");
    let mut ops = vec![
        Op::LoadStr { text: f.clone(), dst: 0 },
        Op::LoadStr { text: s1, dst: 1 },
        Op::Load { path: TEXT_FILES[0].into(), dst: 2 },
        Op::Load { path: (*r.pick(&["zs.over", "/w/zs.over", "./zs.over"])).into(), dst: 3 },
    ];
    if r.pct(50) {
        ops.reverse();
    }
    p.epochs.push(serial(ops.into_iter().map(POp::new).collect()));
    p
}

/// The column an error message names, and the message without it.
fn column_in(m: &str) -> Option<(u64, String)> {
    let (i, w) = ["column ", "col "].iter().find_map(|w| m.rfind(w).map(|i| (i, w.len())))?;
    let d: String = m[i + w..].chars().take_while(|c| c.is_ascii_digit()).collect();
    Some((d.parse().ok()?, format!("{}{}", &m[..i], &m[i + w + d.len()..])))
}

/// With spaces in front of the line that is wrong, it is as wrong, further to the right.
fn moved_right(before: &Vfs, bytes: &[u8], line: u64, s: &str) -> Verdict {
    let Some((c, what)) = column_in(s).filter(|x| x.0 > 0) else { return Ok(()) };
    let at = bytes.split_inclusive(|&b| b == b'\n').take(line as usize - 1).map(|l| l.len()).sum::<usize>();
    let width = bytes[at..].split(|&b| b == b'\n').next().map_or(0, |l| String::from_utf8_lossy(l).chars().count()) as u64;
    if c > width + 1 {
        return viol("column-range", format!("line {} has {} characters, but the error is {:?}", line, width, s));
    }
    let k = 1 + bytes.len() as u64 % 17;
    let mut t = bytes[..at].to_vec();
    t.extend(vec![b' '; k as usize]);
    t.extend(&bytes[at..]);
    let q = solo(before, Op::LoadStr { text: FileSpec::raw(&crate::vfs::unraw(&t)), dst: 0 }, false);
    let Some(o) = q.op(0, 0) else { return Ok(()) };
    if let Res::Err(_, m) = &o.res {
        if let Some((d, w)) = column_in(m) {
            if w == what {
                if d != c + k {
                    return viol("column-shift", format!("with {} spaces in front of line {}, {:?} becomes {:?}", k, line, s, m));
                }
                probe("columns-shifted");
            }
        }
    }
    Ok(())
}

fn c14_text_check(p: &Plan, run: &Run) -> Verdict {
    // Text, lines named, and what the error says besides the name of the file.
    let mut seen: Vec<(Vec<u8>, Option<(Vec<u64>, String)>)> = vec![];
    for o in &run.outs[0].ops {
        let before = &run.outs[0].snaps[o.before as usize];
        let (bytes, file) = match &op_at(p, 0, o).op {
            Op::LoadStr { text, .. } => (text.bytes(), None),
            Op::Load { path, .. } => match before.read(path.as_bytes()) {
                Ok(b) => (b.to_vec(), Some(path.clone())),
                Err(_) => continue,
            },
            _ => continue,
        };
        if std::str::from_utf8(&bytes).is_err() {
            return Ok(());
        }
        let e = match &o.res {
            Res::Err(kind, s) => {
                if kind != "ParseError" {
                    return viol("error-kind", format!("malformed text gave {} {:?}", kind, s));
                }
                let rest = match &file {
                    None => s.as_str(),
                    Some(f) => {
                        let (name, rest) = split_err(before, s);
                        match before.resolve(f.as_bytes(), true) {
                            Ok(r) if name == Some(join_canon(&r.canon)) => rest,
                            _ => return viol("wrong-file", format!("{:?} is malformed, but the error is {:?}", f, s)),
                        }
                    }
                };
                let n = bytes.iter().filter(|&&b| b == b'\n').count() as u64 + 1;
                let l = lines_in(rest);
                if l.is_empty() {
                    return viol("no-line", format!("the error for malformed text names no line: {:?}", s));
                }
                if l.iter().any(|&x| x == 0 || x > n) {
                    return viol("line-range", format!("the text has {} lines, but the error says {:?}", n, s));
                }
                probe("text-error");
                Some((l, rest.to_string()))
            }
            Res::Value(_) => None,
            _ => return Ok(()),
        };
        if let (None, Some((l, s))) = (&file, &e) {
            if l.len() == 1 {
                moved_right(before, &bytes, l[0], s)?;
            }
        }
        seen.push((bytes, e));
    }
    for (i, a) in seen.iter().enumerate() {
        for (j, b) in seen.iter().enumerate() {
            let k = b.0.len().wrapping_sub(a.0.len());
            if i == j || b.0.len() < a.0.len() || !b.0.ends_with(&a.0) || b.0[..k].iter().any(|&c| c != b'\n') {
                continue;
            }
            match (&a.1, &b.1) {
                (None, None) => {}
                (Some((la, sa)), Some((lb, sb))) => {
                    if la.iter().map(|x| x + k as u64).ne(lb.iter().copied()) || k == 0 && sa != sb {
                        return viol(
                            "line-shift",
                            format!("the same text, with {} empty lines in front of it the second time, is an error {:?} and then {:?}", k, sa, sb),
                        );
                    }
                    probe(if k == 0 { "file-vs-memory" } else { "lines-shifted" });
                }
                (a, b) => {
                    return viol("differs", format!("the same text, with {} empty lines in front of it the second time, gives {:?} and then {:?}", k, a, b));
                }
            }
        }
    }
    Ok(())
}

fn c14(r: &mut Rng) -> Plan {
    if r.pct(25) {
        return c14_text(r);
    }
    let mem = r.pct(25);
    let o = Opts { files: (0, 5), fields: 4, depth: 2, inc: 65, wild: r.pct(30), mem, ..Opts::default() };
    let g = graph(r, &o);
    let mut p = new_plan("C14", "broken", r, &g.items, &g.cwd);
    // One file that is not read as text only.
    let cand: Vec<usize> = (0..g.files.len()).filter(|&i| g.files[i].kind != Kind::Str).collect();
    let k = if r.pct(35) { g.root } else { *r.pick(&cand) };
    let known = r.pct(40);
    let mut root_spec = g.root_spec.clone();
    let apply = |r: &mut Rng, f: &mut FileSpec| {
        let n = f.base().len();
        if known {
            if r.pct(65) {
                let mut v = (*r.pick(bad_values())).to_string();
                for _ in 0..[0, 0, 1, 2][r.below(4)] {
                    v = match r.below(4) {
                        0 => format!("[{}]", v),
                        1 => format!("(1 {})", v),
                        2 => format!("{{ w: {} }}", v),
                        _ => format!("({} 2)", v),
                    };
                }
                let obj = matches!(&f.body, Body::Doc { doc: Doc::Obj(_), .. });
                let t = if obj { format!("\nzz8: {}\n", v) } else { format!("\n{}\n", v) };
                f.edits.push(Edit::Insert(n as u32, t));
                return;
            }
            let t = *r.pick(&BAD);
            if r.pct(30) {
                f.edits.push(Edit::Insert(0, format!("{} ", t)));
            } else {
                f.edits.push(Edit::Insert(n as u32, format!("\n {} ", t)));
            }
            return;
        }
        if r.pct(30) {
            // It ends too early, after some blank lines.
            let at = r.below(n + 1) as u32;
            f.edits.push(Edit::Trunc(at));
            let t = (*r.pick(&["\n", "\n\n\n", "\r\n", " \n\t\n ", "# c\n", "\n#", "\"\n\n", "{\n", "[\n\n", "\\", "<\n", "zz9:\n"])).to_string();
            f.edits.push(Edit::Insert(at, t));
            return;
        }
        for _ in 0..r.range(1, 2) {
            let e = match corrupt(r, n) {
                Edit::Flip(at, x) => Edit::Flip(at, x & 0x7f),
                e => e,
            };
            f.edits.push(e);
        }
    };
    if k == g.root && mem {
        apply(r, &mut root_spec);
    } else {
        for it in &mut p.fs {
            if it.path == g.files[k].path {
                if let FsNode::File(f) = &mut it.node {
                    apply(r, f);
                }
            }
        }
    }
    let mut op = POp::new(if mem { Op::LoadStr { text: root_spec, dst: 0 } } else { Op::Load { path: g.root_path.clone(), dst: 0 } });
    if r.pct(40) {
        op.del = delivery(r);
    }
    p.kind = if known { "known".into() } else { "broken".into() };
    p.epochs.push(serial(vec![op]));
    p
}

/// The file an error names (as the disk has it) and the rest of the message.
fn split_err<'a>(v: &Vfs, m: &'a str) -> (Option<Vec<u8>>, &'a str) {
    for (i, _) in m.match_indices(": ") {
        if let Ok(r) = v.resolve(m[..i].as_bytes(), true) {
            if r.ino.is_some() {
                return (Some(join_canon(&r.canon)), &m[i + 2..]);
            }
        }
    }
    (None, m)
}

fn lines_in(m: &str) -> Vec<u64> {
    let mut v = vec![];
    for (i, _) in m.match_indices("line ") {
        let d: String = m[i + 5..].chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(n) = d.parse() {
            v.push(n);
        }
    }
    v
}

fn c14_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    if p.kind == "text" {
        return c14_text_check(p, run);
    }
    let reg = Registry::of(p);
    let Some(o) = out(run, 0, 0) else { return Ok(()) };
    let op = op_at(p, 0, o);
    let before = &run.outs[0].snaps[o.before as usize];
    let mut ld = Loader::new(before, &reg);
    let m = match &op.op {
        Op::Load { path, .. } => ld.load(path),
        Op::LoadStr { text, .. } => ld.load_str(&text.bytes()),
        _ => return Ok(()),
    };
    let err = match &o.res {
        Res::Err(k, s) => Some((k, s)),
        Res::Value(_) => None,
        _ => return Ok(()),
    };
    // Which file stopped the model.
    if !matches!(m, Err(MErr::Unknown("no document with these bytes"))) {
        probe("not-reached");
        return Ok(());
    }
    if ld.reached.is_empty() {
        // The text in memory itself.
        let Op::LoadStr { text, .. } = &op.op else { return Ok(()) };
        let Some((kind, s)) = err else { return Ok(()) };
        if kind != "ParseError" {
            return viol("error-kind", format!("malformed text in memory gave {} {:?}", kind, s));
        }
        let bytes = text.bytes();
        let n = bytes.iter().filter(|&&b| b == b'\n').count() as u64 + 1;
        // An error of an included file has that file's name and lines.
        if p.fs.iter().any(|it| s.contains(base_name(&it.path))) {
            return Ok(());
        }
        let l = lines_in(s);
        if l.is_empty() {
            return viol("no-line", format!("the error for text in memory names no line: {:?}", s));
        }
        if l.iter().any(|&x| x == 0 || x > n) && !s.contains("line ") {
            return Ok(());
        }
        if l.last().map_or(false, |&x| x == 0 || x > n) {
            return viol("line-range", format!("the text in memory has {} lines, but the error says {:?}", n, s));
        }
        if let Some((line, _)) = bad_at(text) {
            if !l.contains(&line) {
                return viol("wrong-line", format!("the text in memory is malformed at line {}, but the error says {:?}", line, s));
            }
            probe("line-known");
        }
        probe("memory-error");
        return Ok(());
    }
    let (canon, kind, named) = ld.reached.last().unwrap().clone();
    let q = match kind {
        Kind::Obj => Op::Load { path: named.clone(), dst: 0 },
        k => Op::LoadStr {
            text: FileSpec::doc(Doc::Obj(vec![(F::Name("x".into()), E::Inc(Some(k), Box::new(E::Str(named.clone()))))]), 0),
            dst: 0,
        },
    };
    let s = solo(before, q, false);
    let Some(w) = s.op(0, 0) else { return Ok(()) };
    let odd = |m: &str| m.to_lowercase().contains("cyclic") || m.contains("maximum recursion depth");
    match (&w.res, err) {
        (Res::Err(_, a), Some((k, b))) => {
            if odd(a) || odd(b) {
                if a.contains("maximum recursion depth") && b.contains("maximum recursion depth") && all_utf8(before) {
                    if split_err(before, b).0.is_none() {
                        return viol("no-file", format!("{:?} nests too deep, but the error names no file: {:?}", named, b));
                    }
                    probe("depth-file");
                }
                probe("depends-on-graph");
                return Ok(());
            }
            if k != "ParseError" {
                return viol("error-kind", format!("a malformed file gave {} {:?}", k, b));
            }
            if split_err(before, a) != split_err(before, b) {
                return viol("error-differs", format!("{:?} is broken; loaded by itself the error is {:?}, in this graph it is {:?}", named, a, b));
            }
            probe("error-compared");
            if all_utf8(before) && split_err(before, b).0.is_none() {
                return viol("no-file", format!("{:?} is broken, but the error names no file: {:?}", named, b));
            }
            let spec = p.fs.iter().find_map(|it| match &it.node {
                FsNode::File(f) if before.read(named.as_bytes()).map_or(false, |x| x.as_slice() == f.bytes()) && !f.edits.is_empty() => Some(f),
                _ => None,
            });
            // (Under another name, something before the edit may be wrong as well.)
            let rest = |f: &&FileSpec| match &f.body {
                Body::Doc { doc, .. } => Loader::new(before, &reg).doc(doc, Some(named.clone())).is_ok(),
                _ => false,
            };
            if let Some((line, _)) = spec.filter(rest).and_then(bad_at) {
                if split_err(before, b).0.as_ref() != Some(&canon) {
                    return viol("wrong-file", format!("{:?} is malformed, but the error is {:?}", named, b));
                }
                if !lines_in(b).contains(&line) {
                    return viol("wrong-line", format!("{:?} is malformed at line {}, but the error is {:?}", named, line, b));
                }
                probe("file-and-line-known");
            }
            Ok(())
        }
        (Res::Err(_, a), None) => {
            if odd(a) {
                return Ok(());
            }
            viol("broken-accepted", format!("{:?} by itself fails with {:?}, but the graph that includes it loads", named, a))
        }
        (Res::Value(_), Some((_, b))) => {
            // The edit left a document the model does not know; the error comes from elsewhere.
            if odd(b) {
                return Ok(());
            }
            probe("still-valid");
            Ok(())
        }
        _ => Ok(()),
    }
}

fn all_utf8(v: &Vfs) -> bool {
    v.nodes.iter().all(|n| match n {
        crate::vfs::Node::File(d) => std::str::from_utf8(d).is_ok(),
        _ => true,
    })
}

/// The line of a token that is wrong wherever a field or value may stand, when the rest is sound.
fn bad_at(f: &FileSpec) -> Option<(u64, String)> {
    if f.edits.len() != 1 || !matches!(f.body, Body::Doc { .. }) {
        return None;
    }
    let base = f.base();
    let Edit::Insert(at, t) = &f.edits[0] else { return None };
    if *at as usize == base.len() && t.starts_with('\n') && t.ends_with('\n') && bad_values().iter().any(|b| t.contains(b.as_str())) {
        return Some((base.iter().filter(|&&b| b == b'\n').count() as u64 + 2, "value".into()));
    }
    let tok = t.trim();
    if !BAD.contains(&tok) || t.len() == tok.len() {
        return None;
    }
    let n = base.len() as u32;
    if *at == 0 && !t.starts_with('\n') {
        // In front of everything: it is the first field or value.
        return Some((1, tok.into()));
    }
    if *at == n && t.starts_with('\n') {
        return Some((base.iter().filter(|&&b| b == b'\n').count() as u64 + 2, tok.into()));
    }
    None
}

pub fn by_id(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

/// A measure of distinct behaviour: what was asked, what fired, how it ended.
pub fn shape(run: &Run) -> u64 {
    let mut h = 0;
    for o in &run.outs {
        h = mix(h, o.trace);
        h = hash_bytes(h, o.status.as_bytes());
    }
    h
}


// ---------------------------------------------------------------- C20

/// Things a process may have done before, or does besides, in registers of its own.
fn besides(r: &mut Rng, g: &Graph, mem: bool, n: usize, base: u32) -> Vec<POp> {
    let mut ops = vec![];
    for i in 0..n {
        let d = base + (i % 6) as u32;
        let op = match r.below(6) {
            0 => load_op(g, mem, d),
            1 => Op::Build { b: build_obj(r, 2, &[]), dst: d },
            2 => Op::Drop { src: base + r.below(6) as u32 },
            3 => Op::Churn { n: r.logu(300) as u32 },
            4 => Op::Load { path: r.pick(&g.files).path.clone(), dst: d },
            _ => Op::LoadStr { text: FileSpec::raw(*r.pick(&["a: 1 b: [1 2]", "@g: 1 a: @g", "a: {", "x: nope", "a: \"\u{0}\""])), dst: d },
        };
        ops.push(POp::new(op));
    }
    ops
}

fn c20(r: &mut Rng) -> Plan {
    let mem = r.pct(20);
    let broken = if r.pct(40) { 20 } else { 0 };
    let loose = if r.pct(40) { 15 } else { 0 };
    let fields = *r.pick(&[5, 5, 9, 30]);
    let o = Opts { files: (0, 5), fields, inc: 40, broken, loose, mem, ..Opts::default() };
    let mut g = graph(r, &o);
    let root = if mem { None } else { Some(g.files[g.root].path.clone()) };
    if Loader::new(&g.vfs, &g.reg).doc(&g.files[g.root].doc, root).map_or(false, |v| v.w() > 20_000) {
        // (Too long to write out so many times.)
        g = graph(r, &Opts { files: (0, 2), fields: 4, mem, ..Opts::default() });
    }
    if r.pct(30) {
        // Some of it no longer fits.
        let names = paths(&g);
        for _ in 0..r.range(1, 3) {
            let k = r.below(g.items.len() + usize::from(mem));
            let spec = if k == g.items.len() { Some(&mut g.root_spec) } else if let FsNode::File(f) = &mut g.items[k].node { Some(f) } else { None };
            let Some(f) = spec else { continue };
            if r.pct(60) {
                if let Body::Doc { doc, .. } = &mut f.body {
                    twist(r, doc, &names);
                }
            } else {
                let len = f.base().len();
                f.edits.push(corrupt(r, len));
            }
        }
    }
    let mut p = new_plan("C20", "again", r, &g.items, &g.cwd);
    p.fs.push(FsItem { path: "/out/t".into(), node: FsNode::File(FileSpec::raw("old: 1")) });
    let b = build_obj(r, 2, &[]);
    let mut core = vec![load_op(&g, mem, 0), Op::Text { src: 0 }, Op::Show { src: 0 }, Op::Save { src: 0, path: "/out/t".into() }, Op::Load { path: "/out/t".into(), dst: 1 }, Op::Text { src: 1 }];
    if r.pct(50) {
        core.extend([Op::Build { b, dst: 2 }, Op::Text { src: 2 }, Op::Dump { src: 2 }]);
    }
    if r.pct(40) {
        let f = r.pick(&g.files).path.clone();
        core.extend([Op::Load { path: f, dst: 3 }, Op::Text { src: 3 }]);
    }
    if r.pct(30) {
        core.extend([load_op(&g, mem, 4), Op::Text { src: 4 }]);
    }
    for e in 0..r.range(2, 3) {
        let k = if e == 0 { 0 } else { r.below(7) };
        let mut ops = besides(r, &g, mem, k, 20);
        for op in &core {
            let mut o = POp::new(op.clone());
            if r.pct(40) {
                o.del = delivery(r);
                if matches!(op, Op::Save { .. }) || matches!(op, Op::Load { path, .. } if path == "/out/t") {
                    // (The text can be long.)
                    o.del.chunks.iter_mut().filter(|c| **c > 0).for_each(|c| *c += 300);
                }
            }
            ops.push(o);
        }
        let mut threads = vec![ops];
        if e > 0 && r.pct(25) {
            let n = r.range(2, 8);
            threads.push(besides(r, &g, mem, n, 40));
        }
        let s = sched(r, threads.len());
        p.epochs.push(Epoch { threads, sched: s });
    }
    p
}

fn c20_check(p: &Plan, run: &Run) -> Verdict {
    sane(p, run)?;
    // (operation, which time it is done, where its input is, the first process' result)
    let mut first: Vec<(&Op, usize, &crate::vfs::Vfs, &Res, Option<Vec<u8>>)> = vec![];
    for (e, out) in run.outs.iter().enumerate() {
        let mut seen: Vec<&Op> = vec![];
        for o in out.ops.iter().filter(|o| o.th == 0) {
            let op = &op_at(p, e, o).op;
            if matches!(o.res, Res::Skip | Res::Cut) || uses(op).0.iter().chain(&uses(op).2).any(|&x| x >= 20) || matches!(op, Op::Churn { .. } | Op::Drop { .. }) {
                continue;
            }
            let nth = seen.iter().filter(|x| **x == op).count();
            seen.push(op);
            let (before, after) = (&out.snaps[o.before as usize], &out.snaps[o.after as usize]);
            let written = if let Op::Save { path, .. } = op { after.content(path.as_bytes()).ok().map(|d| d.to_vec()) } else { None };
            match first.iter().find(|f| f.0 == op && f.1 == nth) {
                None => {
                    if e == 0 {
                        first.push((op, nth, before, &o.res, written));
                    }
                }
                Some((_, _, disk, res, w)) => {
                    if let Op::Load { .. } | Op::LoadStr { .. } = op {
                        if disk.tree() != before.tree() && disk.content(b"/out/t").ok() != before.content(b"/out/t").ok() && matches!(op, Op::Load { path, .. } if path == "/out/t") {
                            continue;
                        }
                        probe("load-compared");
                    }
                    same_res(res, &o.res, &format!("{} in process {}", show_op(op), e), "the same operation on the same files in process 0")?;
                    if *w != written {
                        return viol("bytes-differ", format!("{} wrote {} bytes in process {}, and others ({} bytes) in process 0", show_op(op), written.map_or(0, |x| x.len()), e, w.as_ref().map_or(0, |x| x.len())));
                    }
                }
            }
        }
    }
    Ok(())
}
