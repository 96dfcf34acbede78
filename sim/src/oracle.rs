//! Shared parts of the property checks.

use crate::{
    dump::{Cmp, Dump, DN},
    exec::*,
    lang::*,
    plan::*,
    shm,
    vfs::{join_canon, TreeItem, Vfs},
};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Viol {
    /// What kind of failure it is: shrinking keeps it.
    pub class: String,
    pub msg: String,
}

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into() })
}
pub type Verdict = Result<(), Viol>;

pub fn probe(name: &str) {
    shm::bump(&format!("probe:{}", name));
}

pub fn op_at<'a>(plan: &'a Plan, e: usize, o: &OpOut) -> &'a POp {
    &plan.epochs[e].threads[o.th as usize][o.ix as usize]
}

pub fn hard(o: &OpOut) -> bool {
    o.fired.iter().any(|f| f.hard)
}
pub fn mutated(o: &OpOut) -> bool {
    o.fired.iter().any(|f| f.what == "mutate")
}

/// Panics, crashes, hangs and deadlocks are never all right.
pub fn sane(plan: &Plan, run: &Run) -> Verdict {
    for (e, out) in run.outs.iter().enumerate() {
        for o in &out.ops {
            if let Res::Panic(m) = &o.res {
                let at = m.rsplit(" at ").next().unwrap_or("");
                return viol(
                    &format!("panic {}", at.rsplit('/').next().unwrap_or("")),
                    format!("{:?} panicked: {}", op_at(plan, e, o).op, m),
                );
            }
        }
        match out.status.as_str() {
            "done" | "killed" => {}
            "no-fork" | "exit 4" | "signal 14" | "signal 9" => {
                probe("harness-trouble");
                return Ok(());
            }
            s => {
                let (th, ix) = out.at;
                let op = plan.epochs[e].threads.get(th as usize).and_then(|t| t.get(ix as usize));
                return viol(s, format!("the process ended with {} (last running: thread {} operation {} {:?})", s, th, ix, op.map(|o| &o.op)));
            }
        }
    }
    Ok(())
}

pub fn class_of(e: &MErr) -> &'static str {
    match e {
        MErr::Cyclic => "cyclic",
        MErr::NoFile => "nofile",
        MErr::NonUtf8 => "nonutf8",
        MErr::Lang(_) => "lang",
        MErr::Unknown(_) => "unknown",
    }
}

/// Judges the outcome of one load against the model's value for the disk it ran on.
pub fn load_ok(m: &ER<MV>, o: &OpOut, what: &str, identity: bool) -> Verdict {
    let allow_err = hard(o);
    match (m, &o.res) {
        (_, Res::Skip | Res::Cut | Res::Panic(_)) => Ok(()),
        (Err(MErr::Unknown(_)), _) => {
            probe("model-unknown");
            Ok(())
        }
        (Ok(v), Res::Value(Some(d))) => {
            probe("value-compared");
            match Cmp::new(identity).value(v, d, &d.roots[0].1, "root") {
                Ok(()) => Ok(()),
                Err(s) => viol("wrong-value", format!("{} gave a wrong value: {} (faults: {:?})", what, s, o.fired)),
            }
        }
        (Ok(_), Res::Err(k, s)) => {
            if allow_err {
                probe("err-under-fault");
                Ok(())
            } else {
                viol("unexpected-error", format!("{} failed with {} {:?}, but nothing is wrong (faults: {:?})", what, k, s, o.fired))
            }
        }
        (Err(e), Res::Err(_, s)) => {
            probe(&format!("model-err-{}", class_of(e)));
            if *e == MErr::Cyclic && !allow_err && !s.to_lowercase().contains("cyclic") {
                return viol("not-cyclic-error", format!("{} reached a cycle but failed with {:?}", what, s));
            }
            if *e != MErr::Cyclic && s.to_lowercase().contains("cyclic") {
                return viol("false-cyclic", format!("{}: no cycle, but failed with {:?}", what, s));
            }
            Ok(())
        }
        (Err(e), Res::Value(_)) => viol("unexpected-success", format!("{} succeeded, but should fail ({:?})", what, e)),
        _ => Ok(()),
    }
}

pub fn model_op(reg: &Registry, vfs: &Vfs, op: &Op) -> ER<MV> {
    match op {
        Op::Load { path, .. } => Loader::new(vfs, reg).load(path),
        Op::LoadStr { text, .. } => Loader::new(vfs, reg).load_str(&text.bytes()),
        _ => Err(MErr::Unknown("not a load")),
    }
}

/// Every load of the run against the model.
pub fn loads_ok(plan: &Plan, run: &Run, reg: &Registry, identity: bool) -> Verdict {
    for (e, out) in run.outs.iter().enumerate() {
        for o in &out.ops {
            let p = op_at(plan, e, o);
            if !matches!(p.op, Op::Load { .. } | Op::LoadStr { .. }) || mutated(o) {
                continue;
            }
            let m = model_op(reg, &out.snaps[o.before as usize], &p.op);
            load_ok(&m, o, &format!("{}", show_op(&p.op)), identity)?;
        }
    }
    Ok(())
}

pub fn show_op(op: &Op) -> String {
    match op {
        Op::Load { path, .. } => format!("load of {:?}", path),
        Op::LoadStr { text, .. } => format!("load of text {:?}", String::from_utf8_lossy(&text.bytes()).chars().take(80).collect::<String>()),
        Op::Save { path, .. } => format!("save to {:?}", path),
        x => format!("{:?}", x).chars().take(120).collect(),
    }
}

/// The place a save to `path` writes to: (canonical path, content before, can it be opened).
pub fn target(v: &Vfs, path: &str) -> (Option<Vec<u8>>, Option<Vec<u8>>, bool) {
    match v.resolve(path.as_bytes(), true) {
        Err(_) => (None, None, false),
        Ok(r) => {
            let c = join_canon(&r.canon);
            match r.ino.map(|i| &v.nodes[i]) {
                None => (Some(c), None, !path.ends_with('/') && v.may(r.dir, 2).is_ok()),
                Some(crate::vfs::Node::File(d)) => (Some(c), Some(d.to_vec()), v.may(r.ino.unwrap_or(0), 2).is_ok()),
                Some(_) => (Some(c), None, false),
            }
        }
    }
}

fn ino_of(v: &Vfs, p: &[u8]) -> Option<usize> {
    v.resolve(p, false).ok().and_then(|r| r.ino)
}

/// Nothing changed on disk except (the inode of) `target`.
pub fn only_changed(before: &Vfs, after: &Vfs, target: Option<&[u8]>) -> Verdict {
    let (a, b) = (before.tree(), after.tree());
    let tin = target.and_then(|t| ino_of(before, t));
    for p in a.keys().chain(b.keys()) {
        if a.get(p) == b.get(p) || Some(p.as_slice()) == target {
            continue;
        }
        if tin.is_some() && ino_of(before, p) == tin && ino_of(after, p) == tin {
            // Another hard link to the target.
            continue;
        }
        let d = |x: Option<&TreeItem>| match x {
            None => "absent".to_string(),
            Some(TreeItem::File(d, a)) => format!("a file of {} bytes (mode {:o}, {} times set)", d.len(), a.mode, a.set),
            Some(TreeItem::Dir(a)) => format!("a directory (mode {:o}, {} times set)", a.mode, a.set),
            Some(TreeItem::Link(_)) => "a link".into(),
            Some(TreeItem::Special(s)) => format!("special: {:?}", s),
        };
        return viol(
            "disk-changed",
            format!("{:?} changed: was {}, is {}", String::from_utf8_lossy(p), d(a.get(p)), d(b.get(p))),
        );
    }
    Ok(())
}

/// Judges a save of an object whose text is `text`.
pub fn save_ok(o: &OpOut, before: &Vfs, after: &Vfs, path: &str, text: &str) -> Verdict {
    let (tp, old, openable) = target(before, path);
    let t = text.as_bytes();
    let now = after.content(path.as_bytes()).ok().map(|d| d.to_vec());
    let what = format!("save to {:?}", path);
    match &o.res {
        Res::Skip | Res::Panic(_) => return Ok(()),
        Res::Unit => {
            if now.as_deref() != Some(t) {
                return viol(
                    "save-content",
                    format!(
                        "{} reported success, but the file holds {} bytes, not exactly the {} bytes of text (faults: {:?})",
                        what,
                        now.map_or(0, |d| d.len()),
                        t.len(),
                        o.fired
                    ),
                );
            }
            probe("save-ok");
        }
        Res::Err(k, m) => {
            if !hard(o) && openable {
                return viol("save-failed", format!("{} failed with {} {:?} without a reason", what, k, m));
            }
            if k != "IoError" {
                return viol("save-error-kind", format!("{} failed with {} {:?}, not an I/O error", what, k, m));
            }
            let fine = now == old || now.as_ref().map_or(old.is_none(), |n| t.starts_with(n));
            if !fine {
                return viol("save-torn", format!("{} failed and left neither the old content nor a prefix of the new", what));
            }
            probe("save-err");
        }
        Res::Cut => {
            let fine = now == old || now.as_ref().map_or(old.is_none(), |n| t.starts_with(n));
            if !fine {
                return viol("save-torn", format!("{} was cut by a crash and left neither the old content nor a prefix of the new", what));
            }
            probe("save-cut");
        }
        _ => return Ok(()),
    }
    only_changed(before, after, tp.as_deref())
}

// ---------------------------------------------------------------- history replay

/// The model's value of every register over the history, and of every operation's result.
pub struct Replay {
    pub results: HashMap<(u32, u32), MV>,
    /// Register contents as of every sequence number at which they changed.
    pub tables: Vec<(u64, HashMap<u32, Option<MV>>)>,
}

fn b_model(b: &B, regs: &HashMap<u32, Option<MV>>) -> Option<MV> {
    Some(match b {
        B::Lit(e) => {
            let vfs = Vfs::new();
            let reg = Registry::default();
            let mut sc = Scope { file: None, globals: Default::default() };
            Loader::new(&vfs, &reg).eval(e, &[], &mut sc).ok()?
        }
        B::Reg(r) => regs.get(&(*r % 64)).cloned()??,
        B::Empty(Kind::Arr) => MV::arr(vec![])?,
        B::Empty(Kind::Tup) => MV::tup(vec![]),
        B::Empty(_) => MV::obj_of(vec![], None),
        B::Raw(b) => b_model(b, regs)?,
        B::Arr(v) => MV::arr(v.iter().map(|x| b_model(x, regs)).collect::<Option<_>>()?)?,
        B::Tup(v) => MV::tup(v.iter().map(|x| b_model(x, regs)).collect::<Option<_>>()?),
        B::Obj(v, p) => {
            let mut pairs = vec![];
            for (n, x) in v {
                pairs.push((n.clone(), b_model(x, regs)?));
            }
            let par = match p {
                None => None,
                Some(p) => Some(b_model(p, regs)?),
            };
            if par.as_ref().map_or(false, |p| p.as_obj().is_none()) {
                return None;
            }
            MV::obj_of(pairs, par)
        }
    })
}

/// Replays the registers of one process in the order things happened. `None` in a table: a value
/// the model does not know.
pub fn replay(plan: &Plan, e: usize, out: &Out, reg: &Registry) -> Replay {
    let mut ev: Vec<(u64, bool, &OpOut)> = vec![];
    for o in &out.ops {
        if matches!(o.res, Res::Skip | Res::Cut) {
            continue;
        }
        ev.push((o.start, false, o));
        ev.push((o.end, true, o));
    }
    ev.sort_by_key(|x| x.0);
    let mut regs: HashMap<u32, Option<MV>> = HashMap::new();
    let mut pending: HashMap<(u32, u32), Option<MV>> = HashMap::new();
    let mut rp = Replay { results: HashMap::new(), tables: vec![(0, HashMap::new())] };
    for (t, end, o) in ev {
        let op = &op_at(plan, e, o).op;
        let key = (o.th, o.ix);
        let (_, empty, fill) = uses(op);
        if !end {
            let v = match op {
                Op::Load { .. } | Op::LoadStr { .. } => model_op(reg, &out.snaps[o.before as usize], op).ok(),
                Op::Build { b, .. } => b_model(b, &regs),
                Op::Clone { src, .. } | Op::Move { src, .. } => regs.get(&(*src % 64)).cloned().flatten(),
                Op::Get { src, step, .. } => regs.get(&(*src % 64)).cloned().flatten().and_then(|v| v.step(step)),
                _ => None,
            };
            pending.insert(key, v);
            if let Some(r) = empty {
                regs.remove(&r);
                rp.tables.push((t, regs.clone()));
            }
        } else if let Some(r) = fill {
            let v = pending.remove(&key).flatten();
            if matches!(o.res, Res::Value(_) | Res::Unit) {
                if let Some(v) = &v {
                    rp.results.insert(key, v.clone());
                }
                regs.insert(r, v);
                rp.tables.push((t, regs.clone()));
            }
        }
    }
    rp
}

impl Replay {
    pub fn table(&self, at: u64) -> &HashMap<u32, Option<MV>> {
        &self.tables.iter().rev().find(|t| t.0 <= at).unwrap().1
    }
}

/// Everything held in registers: values, sharing and reference counts.
pub fn audit_ok(d: &Dump, at: u64, quiet: bool, rp: &Replay) -> Verdict {
    for n in &d.nodes {
        if let Some(o) = &n.odd {
            return viol("odd", o.clone());
        }
    }
    let mut want = vec![0u64; d.nodes.len()];
    let mut add = |x: &DN| {
        if let DN::Ref(i) = x {
            want[*i as usize] += 1;
        }
    };
    for (_, r) in &d.roots {
        add(r);
    }
    for n in &d.nodes {
        for i in &n.items {
            add(i);
        }
        if let Some(p) = n.parent {
            add(&DN::Ref(p));
        }
    }
    if quiet {
        for (i, n) in d.nodes.iter().enumerate() {
            if n.refs != want[i] {
                return viol(
                    "refcount",
                    format!("instance {} ({:?}, id {}) is held in {} places but reports {} references", i, n.kind, n.id, want[i], n.refs),
                );
            }
        }
        probe("refs-audited");
    }
    let table = rp.table(at);
    let mut c = Cmp::new(true);
    for (r, x) in &d.roots {
        match table.get(r) {
            Some(Some(m)) => {
                if let Err(s) = c.value(m, d, x, &format!("register {}", r)) {
                    return viol("identity", s);
                }
            }
            Some(None) => probe("register-unknown"),
            None => return viol("register", format!("register {} should be empty", r)),
        }
    }
    Ok(())
}
