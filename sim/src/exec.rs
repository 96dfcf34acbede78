//! Executes one process lifetime of a plan in a forked child and collects what happened.

use crate::{
    dump::{dump, Dump, Dumper},
    lang::{Kind, Loader, Registry, E, MV},
    plan::*,
    rng::Rng,
    rt::{self, api, rt, Fired, OpCtx, Rt, Th, Ts},
    shm,
    vfs::Vfs,
};
use over::{
    arr::Arr,
    obj::{Obj, Pair},
    tup::Tup,
    value::Value,
    OverError,
};
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    panic::{catch_unwind, AssertUnwindSafe},
    str::FromStr,
    sync::atomic::Ordering::Relaxed,
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Res {
    Unit,
    Value(Option<Dump>),
    Text(String),
    /// Variant name and message.
    Err(String, String),
    Panic(String),
    /// Nothing was called (an operand was missing or in use).
    Skip,
    /// The process ended while this operation ran.
    Cut,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OpOut {
    pub th: u32,
    pub ix: u32,
    pub start: u64,
    pub end: u64,
    pub res: Res,
    pub fired: Vec<Fired>,
    /// Paths opened, and whether for writing.
    pub opened: Vec<(String, bool)>,
    pub calls: u64,
    pub steps: u64,
    pub leaked: u32,
    pub live: i64,
    pub bytes: i64,
    /// Registers filled when the operation ended.
    pub held: u32,
    pub before: u32,
    pub after: u32,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Out {
    /// done, killed, deadlock, step-limit, syscall-limit, or signal/exit of the process.
    pub status: String,
    pub at: (u32, u32),
    pub ops: Vec<OpOut>,
    pub snaps: Vec<Vfs>,
    /// Identity graphs: (sequence number, how many other operations were in flight, graph).
    pub audits: Vec<(u64, u32, Dump)>,
    pub trace: u64,
    pub steps: u64,
    pub syscalls: u64,
    pub switches: u64,
    pub now: u64,
    pub oom: u64,
    pub log: Vec<String>,
}

impl Out {
    pub fn op(&self, th: usize, ix: usize) -> Option<&OpOut> {
        self.ops.iter().find(|o| o.th == th as u32 && o.ix == ix as u32)
    }
    pub fn end_vfs(&self) -> Option<&Vfs> {
        self.snaps.last()
    }
}

#[derive(Default)]
struct Reg {
    v: Option<Value>,
    busy: u32,
    reserved: bool,
}

struct State {
    regs: Vec<Reg>,
    out: Out,
    seq: u64,
    inflight: u32,
    churned: std::collections::HashSet<u64>,
    open_ops: Vec<Option<OpOut>>,
}

static mut ST: *mut State = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    unsafe { &mut *ST }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

const REGS: usize = 64;

fn snap() -> u32 {
    let s = st();
    let v = &rt().vfs;
    if s.out.snaps.last() != Some(v) {
        s.out.snaps.push(v.clone());
    }
    s.out.snaps.len() as u32 - 1
}

fn seq() -> u64 {
    let s = st();
    s.seq += 1;
    s.seq
}

fn finish(why: &str) -> ! {
    let s = st();
    let r = rt();
    s.out.status = why.into();
    let after = {
        s.out.snaps.push(r.vfs.clone());
        s.out.snaps.len() as u32 - 1
    };
    s.out.at = (r.cur as u32, r.th[r.cur].op.idx as u32);
    for (i, o) in s.open_ops.iter_mut().enumerate() {
        if let Some(mut o) = o.take() {
            o.end = s.seq + 1;
            o.fired = std::mem::take(&mut r.th[i].op.fired);
            o.opened = std::mem::take(&mut r.th[i].op.opened);
            o.calls = r.th[i].op.calls;
            o.after = after;
            s.out.ops.push(o);
        }
    }
    s.out.trace = r.trace;
    s.out.steps = rt::STEP.load(Relaxed);
    s.out.syscalls = r.syscalls;
    s.out.switches = r.switches;
    s.out.now = r.now + s.out.steps;
    s.out.oom = shm::get().oom;
    s.out.log = r.log.take().unwrap_or_default();
    let sh = shm::get();
    let n = {
        let mut w = std::io::Cursor::new(&mut sh.out[..]);
        match bincode::serialize_into(&mut w, &s.out) {
            Ok(()) => w.position(),
            Err(_) => unsafe { libc::_exit(4) },
        }
    };
    sh.len = n;
    unsafe { libc::_exit(0) }
}

fn err_kind(e: &OverError) -> &'static str {
    match e {
        OverError::ParseError(_) => "ParseError",
        OverError::IoError(_) => "IoError",
        _ => "Other",
    }
}

enum Done {
    V(Value),
    Unit,
    Text(String),
    E(OverError),
    Skip,
}

fn guarded(f: impl FnOnce() -> Done) -> Result<Done, String> {
    match catch_unwind(AssertUnwindSafe(|| api(f))) {
        Ok(d) => Ok(d),
        Err(_) => {
            rt::IN_H.set(true);
            Err(PANIC.with(|p| p.borrow().clone()))
        }
    }
}

fn lit(e: &E) -> Option<Value> {
    let vfs = Vfs::new();
    let reg = Registry::default();
    let mut sc = crate::lang::Scope { file: None, globals: Default::default() };
    let v = Loader::new(&vfs, &reg).eval(e, &[], &mut sc).ok()?;
    Some(match v {
        MV::Null => Value::Null,
        MV::Bool(b) => Value::Bool(b),
        MV::Int(i) => Value::Int(i),
        MV::Frac(f) => Value::Frac(f),
        MV::Str(s) => Value::Str(s),
        MV::Node(_) => return None,
    })
}

/// Runs construction calls; scalars come from `lits` in order of appearance.
fn build(b: &B, lits: &mut std::vec::IntoIter<Value>) -> Result<Value, Done> {
    Ok(match b {
        B::Lit(_) => lits.next().ok_or(Done::Skip)?,
        B::Reg(r) => st().regs[*r as usize % REGS].v.as_ref().ok_or(Done::Skip)?.clone(),
        B::Arr(v) => {
            let mut items = vec![];
            for x in v {
                items.push(build(x, lits)?);
            }
            Value::Arr(Arr::from_values(items).map_err(Done::E)?)
        }
        B::Tup(v) => {
            let mut items = vec![];
            for x in v {
                items.push(build(x, lits)?);
            }
            Value::Tup(Tup::from_values(items))
        }
        B::Empty(k) => match k {
            Kind::Arr => Value::Arr(Arr::empty()),
            Kind::Tup => Value::Tup(Tup::empty()),
            _ => Value::Obj(Obj::empty()),
        },
        B::Raw(b) => match &**b {
            B::Arr(v) => {
                let mut items = vec![];
                for x in v {
                    items.push(build(x, lits)?);
                }
                // The caller vouches for the type.
                let t = items.first().map_or(over::types::Type::Any, |x: &Value| x.get_type());
                if t.has_any() || items.iter().any(|x| x.get_type() != t) {
                    Value::Arr(Arr::from_values(items).map_err(Done::E)?)
                } else {
                    Value::Arr(Arr::from_values_unchecked(items, t))
                }
            }
            B::Obj(v, par) => {
                let mut pairs = vec![];
                for (n, x) in v {
                    if !Obj::is_valid_field(n) {
                        return Err(Done::E(OverError::InvalidFieldName(n.clone())));
                    }
                    pairs.push(Pair(n.clone(), build(x, lits)?));
                }
                let par = match par {
                    None => None,
                    Some(p) => match build(p, lits)? {
                        Value::Obj(o) => Some(o),
                        _ => return Err(Done::E(OverError::NoParentFound)),
                    },
                };
                Value::Obj(Obj::from_pairs_unchecked(pairs, par))
            }
            b => build(b, lits)?,
        },
        B::Obj(v, par) => {
            let mut pairs = vec![];
            for (n, x) in v {
                pairs.push(Pair(n.clone(), build(x, lits)?));
            }
            let par = match par {
                None => None,
                Some(p) => match build(p, lits)? {
                    Value::Obj(o) => Some(o),
                    _ => return Err(Done::E(OverError::NoParentFound)),
                },
            };
            Value::Obj(Obj::from_pairs(pairs, par).map_err(Done::E)?)
        }
    })
}

/// A field, through the getter for its type; then out of the value again, through that type's.
fn typed(o: &Obj, f: &str) -> Option<Value> {
    let t = o.get(f)?.get_type();
    Some(match t {
        over::types::Type::Arr(_) => Value::Arr(Value::Arr(o.get_arr(f).ok()?).get_arr().ok()?),
        over::types::Type::Tup(_) => Value::Tup(Value::Tup(o.get_tup(f).ok()?).get_tup().ok()?),
        over::types::Type::Obj => Value::Obj(Value::Obj(o.get_obj(f).ok()?).get_obj().ok()?),
        over::types::Type::Int => Value::Int(o.get_int(f).ok()?),
        over::types::Type::Frac => Value::Frac(o.get_frac(f).ok()?),
        over::types::Type::Str => Value::Str(o.get_str(f).ok()?),
        over::types::Type::Bool => Value::Bool(o.get_bool(f).ok()?),
        _ => Value::Null,
    })
}

fn lits(b: &B, out: &mut Vec<Value>) -> bool {
    match b {
        B::Lit(e) => match api(|| lit(e)) {
            Some(v) => {
                out.push(v);
                true
            }
            None => false,
        },
        B::Reg(_) | B::Empty(_) => true,
        B::Raw(b) => lits(b, out),
        B::Arr(v) | B::Tup(v) => v.iter().all(|x| lits(x, out)),
        B::Obj(v, p) => v.iter().all(|x| lits(&x.1, out)) && p.iter().all(|x| lits(x, out)),
    }
}
pub fn b_regs(b: &B, out: &mut Vec<u32>) {
    match b {
        B::Lit(_) | B::Empty(_) => {}
        B::Raw(b) => b_regs(b, out),
        B::Reg(r) => out.push(*r % REGS as u32),
        B::Arr(v) | B::Tup(v) => v.iter().for_each(|x| b_regs(x, out)),
        B::Obj(v, p) => {
            v.iter().for_each(|x| b_regs(&x.1, out));
            p.iter().for_each(|x| b_regs(x, out));
        }
    }
}

/// (registers read, register emptied, register filled)
pub fn uses(op: &Op) -> (Vec<u32>, Option<u32>, Option<u32>) {
    let m = |x: &u32| *x % REGS as u32;
    match op {
        Op::Load { dst, .. } | Op::LoadStr { dst, .. } => (vec![], None, Some(m(dst))),
        Op::Save { src, .. } | Op::Text { src } | Op::Dump { src } | Op::Show { src } => (vec![m(src)], None, None),
        Op::Build { b, dst } => {
            let mut v = vec![];
            b_regs(b, &mut v);
            (v, None, Some(m(dst)))
        }
        Op::Clone { src, dst } | Op::Get { src, dst, .. } => (vec![m(src)], None, Some(m(dst))),
        Op::Move { src, dst } => (vec![], Some(m(src)), Some(m(dst))),
        Op::Drop { src } => (vec![], Some(m(src)), None),
        Op::Wait { .. } | Op::Fs(_) | Op::Audit | Op::Churn { .. } => (vec![], None, None),
    }
}

fn call(op: &Op, want_dump: bool) -> (Res, Option<Value>) {
    let reg = |r: &u32| st().regs[*r as usize % REGS].v.as_ref().unwrap();
    let done = match op {
        Op::Load { path, .. } => guarded(|| match Obj::from_file(path) {
            Ok(o) => Done::V(Value::Obj(o)),
            Err(e) => Done::E(e),
        }),
        Op::LoadStr { text, .. } => {
            let Ok(s) = String::from_utf8(text.bytes()) else { return (Res::Skip, None) };
            guarded(|| match Obj::from_str(&s) {
                Ok(o) => Done::V(Value::Obj(o)),
                Err(e) => Done::E(e),
            })
        }
        Op::Save { src, path } => {
            let Value::Obj(o) = reg(src) else { return (Res::Skip, None) };
            guarded(|| match o.write_to_file(path) {
                Ok(()) => Done::Unit,
                Err(e) => Done::E(e),
            })
        }
        Op::Text { src } => {
            let Value::Obj(o) = reg(src) else { return (Res::Skip, None) };
            guarded(|| Done::Text(o.write_to_string()))
        }
        Op::Show { src } => {
            let v = reg(src);
            guarded(|| Done::Text(v.to_string()))
        }
        Op::Build { b, .. } => {
            let mut l = vec![];
            if !lits(b, &mut l) {
                api(|| drop(l));
                return (Res::Skip, None);
            }
            // Everything that becomes part of the value is allocated on the library's account.
            let r = guarded(|| {
                let l2: Vec<Value> = l.clone();
                let mut it = l2.into_iter();
                match build(b, &mut it) {
                    Ok(v) => Done::V(v),
                    Err(d) => d,
                }
            });
            for v in l {
                api(|| drop(v));
            }
            r
        }
        Op::Clone { src, .. } => {
            let v = reg(src);
            guarded(|| Done::V(v.clone()))
        }
        Op::Get { src, step, .. } => {
            let v = reg(src);
            guarded(|| {
                let x = match (v, step) {
                    (Value::Obj(o), Step::Field(f)) => o.get(f),
                    (Value::Obj(o), Step::Source(f)) => o.get_with_source(f).map(|x| Value::Obj(x.1)),
                    (Value::Obj(o), Step::Typed(f)) => typed(o, f),
                    (Value::Obj(o), Step::Parent) => o.get_parent().map(Value::Obj),
                    (Value::Arr(a), Step::Index(i)) => a.get(*i as usize).ok(),
                    (Value::Tup(a), Step::Index(i)) => a.get(*i as usize).ok(),
                    _ => None,
                };
                match x {
                    Some(v) => Done::V(v),
                    None => Done::Skip,
                }
            })
        }
        Op::Dump { src } => {
            let v = reg(src);
            return match catch_unwind(AssertUnwindSafe(|| dump(v))) {
                Ok(d) => (Res::Value(Some(d)), None),
                Err(_) => {
                    rt::IN_H.set(true);
                    (Res::Panic(PANIC.with(|p| p.borrow().clone())), None)
                }
            };
        }
        _ => unreachable!(),
    };
    match done {
        Ok(Done::V(v)) => {
            let d = if want_dump { Some(dump(&v)) } else { None };
            (Res::Value(d), Some(v))
        }
        Ok(Done::Unit) => (Res::Unit, None),
        Ok(Done::Text(t)) => {
            let c = t.clone();
            api(|| drop(t));
            (Res::Text(c), None)
        }
        Ok(Done::E(e)) => {
            let m = match &e {
                OverError::ParseError(s) | OverError::IoError(s) => s.clone(),
                _ => format!("{}", e),
            };
            let k = err_kind(&e).to_string();
            api(|| drop(e));
            (Res::Err(k, m), None)
        }
        Ok(Done::Skip) => (Res::Skip, None),
        Err(p) => (Res::Panic(p), None),
    }
}

fn audit() {
    let s = st();
    let me = rt::TID.replace(0);
    let mut d = Dumper::default();
    for (i, r) in s.regs.iter().enumerate() {
        if let Some(v) = &r.v {
            d.root(i as u32, v);
        }
    }
    let q = seq();
    s.out.audits.push((q, s.inflight.saturating_sub(u32::from(me != 0)), d.d));
    rt::TID.set(me);
}

/// "first last", or what is wrong with the IDs.
fn churn(n: u32) -> Res {
    let (mut first, mut last) = (None, 0);
    for k in 0..n {
        let id = api(|| match k % 3 {
            0 => over::ReferenceType::id(&Obj::empty()),
            1 => over::ReferenceType::id(&Arr::empty()),
            _ => over::ReferenceType::id(&Tup::empty()),
        }) as u64;
        if first.is_some() && id <= last {
            return Res::Text(format!("instance {} of a row has ID {}, the one before it {}", k, id, last));
        }
        if !st().churned.insert(id) {
            return Res::Text(format!("ID {} was given to two instances", id));
        }
        first = first.or(Some(id));
        last = id;
    }
    Res::Text(format!("{} {}", first.unwrap_or(0), last))
}

fn run_op(th: usize, ix: usize, p: &POp, want_dump: bool) {
    let s = st();
    let sh = shm::get();
    sh.cur_th = th as u64;
    sh.cur_op = ix as u64;
    let r = rt();
    r.th[th].op = OpCtx {
        seen: vec![0; p.faults.len()],
        faults: p.faults.clone(),
        del: p.del.clone(),
        idx: ix,
        ..OpCtx::default()
    };
    let fds0 = r.fds.iter().filter(|f| f.is_some()).count();
    let before = snap();
    let start = seq();
    let steps0 = rt::STEP.load(Relaxed);
    s.inflight += 1;
    rt::logf(|| format!("begin {:?}", p.op));
    s.open_ops[th] = Some(OpOut {
        th: th as u32,
        ix: ix as u32,
        start,
        end: 0,
        res: Res::Cut,
        fired: vec![],
        opened: vec![],
        calls: 0,
        steps: 0,
        leaked: 0,
        live: 0,
        bytes: 0,
        held: 0,
        before,
        after: before,
    });
    let (src, empty, fill) = uses(&p.op);
    let ok = src.iter().all(|&i| s.regs[i as usize].v.is_some())
        && empty.map_or(true, |i| s.regs[i as usize].v.is_some() && s.regs[i as usize].busy == 0)
        && fill.map_or(true, |i| s.regs[i as usize].v.is_none() && !s.regs[i as usize].reserved);
    let res = match &p.op {
        _ if !ok => Res::Skip,
        Op::Wait { src } => {
            let mut n = 0;
            while st().regs[*src as usize % REGS].v.is_none() && n < 40 {
                n += 1;
                rt::sleep(200_000);
            }
            Res::Unit
        }
        Op::Fs(m) => match m.apply(&mut rt().vfs) {
            Ok(()) => Res::Unit,
            Err(_) => Res::Skip,
        },
        Op::Audit => {
            audit();
            Res::Unit
        }
        Op::Churn { n } => churn(*n),
        Op::Move { src, dst } => {
            let v = s.regs[*src as usize % REGS].v.take();
            s.regs[*dst as usize % REGS].v = v;
            Res::Unit
        }
        Op::Drop { src } => {
            let v = s.regs[*src as usize % REGS].v.take().unwrap();
            match guarded(move || {
                drop(v);
                Done::Unit
            }) {
                Ok(_) => Res::Unit,
                Err(p) => Res::Panic(p),
            }
        }
        op => {
            for i in &src {
                s.regs[*i as usize].busy += 1;
            }
            if let Some(i) = fill {
                s.regs[i as usize].reserved = true;
            }
            let (res, v) = call(op, want_dump);
            for i in &src {
                s.regs[*i as usize].busy -= 1;
            }
            if let Some(i) = fill {
                s.regs[i as usize].reserved = false;
                s.regs[i as usize].v = v;
            }
            res
        }
    };
    rt::logf(|| format!("end {}", show_res(&res)));
    let r = rt();
    let mut o = s.open_ops[th].take().unwrap();
    o.end = seq();
    o.res = res;
    o.fired = std::mem::take(&mut r.th[th].op.fired);
    o.opened = std::mem::take(&mut r.th[th].op.opened);
    o.calls = r.th[th].op.calls;
    o.steps = rt::STEP.load(Relaxed) - steps0;
    let fds1 = r.fds.iter().filter(|f| f.is_some()).count();
    o.leaked = fds1.saturating_sub(fds0) as u32;
    o.live = rt::LIVE.load(Relaxed);
    o.bytes = rt::LIVE_BYTES.load(Relaxed);
    o.held = s.regs.iter().filter(|r| r.v.is_some()).count() as u32;
    o.after = snap();
    s.inflight -= 1;
    // Nothing fires between operations.
    r.th[th].op = OpCtx { idx: ix, ..OpCtx::default() };
    s.out.ops.push(o);
}

pub fn show_res(r: &Res) -> String {
    match r {
        Res::Value(Some(d)) => format!("Ok(value of {} instances)", d.nodes.len()),
        Res::Text(t) => format!("Ok(text of {} bytes)", t.len()),
        x => format!("{:?}", x),
    }
}

/// How long (simulated) one process may run before it counts as hung.
pub const STEP_LIMIT: u64 = 600_000_000;

fn child(plan: &Plan, e: usize, vfs: Vfs, log: bool) -> ! {
    let ep = &plan.epochs[e];
    // Every process has hash seeds, a clock, an environment and addresses of its own.
    let own = crate::rng::mix(plan.hash_seed, e as u64);
    for (i, k) in ["HOME", "PWD", "TMPDIR", "LANG", "LC_ALL", "TZ", "USER", "OVER_PATH", "COLUMNS", "NO_COLOR", "DEBUG"].iter().enumerate() {
        match crate::rng::mix(own, 50 + i as u64) % 8 {
            0 => std::env::set_var(k, ["/x", "/w", "C", "1", ""][(own as usize / 8 + i) % 5]),
            1 => std::env::remove_var(k),
            _ => {}
        }
    }
    unsafe {
        // A loop without end burns processor time; being kept waiting does not.
        let cpu = libc::rlimit { rlim_cur: 60, rlim_max: 90 };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        libc::alarm(400);
        let null = std::ffi::CString::new("/dev/null").unwrap();
        let fd = libc::open(null.as_ptr(), libc::O_WRONLY);
        if std::env::var_os("OVERSIM_STDERR").is_none() {
            libc::dup2(fd, 2);
        }
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    std::panic::set_hook(Box::new(|i| {
        let h = rt::IN_H.replace(true);
        let m = i.payload();
        let m = m.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| m.downcast_ref::<String>().cloned());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m.unwrap_or_default(), l));
        rt::IN_H.set(h);
    }));
    let n = ep.threads.len().clamp(1, rt::MAX_THREADS);
    // A large input takes longer.
    let mut size: usize = vfs.nodes.iter().map(|n| if let crate::vfs::Node::File(d) = n { d.len() } else { 0 }).sum();
    size += ep.threads.iter().flatten().map(|o| if let Op::LoadStr { text, .. } = &o.op { text.bytes().len() } else { 0 }).sum::<usize>();
    let ops = ep.threads.iter().map(|t| t.len() as u64).sum::<u64>();
    let work = size as u64 * ops * 1_000;
    rt::heap_init(own as usize % 4_096 * 16);
    rt::install(Rt {
        vfs,
        fds: vec![],
        max_fds: plan.max_fds.max(1) as usize,
        th: (0..n).map(|_| Th { st: Ts::Run, op: OpCtx::default() }).collect(),
        cur: 0,
        sched: ep.sched.iter().cloned().collect(),
        base_step: 0,
        base_sys: 0,
        base_atom: 0,
        syscalls: 0,
        switches: 0,
        now: 0,
        max_sys: 400_000 + size as u64 * ops,
        ops,
        limit: STEP_LIMIT + work.min(4 * STEP_LIMIT),
        trace: 0,
        hrng: Rng::new(own),
        skew: own,
        log: if log { Some(vec![]) } else { None },
        finish,
    });
    let s = State {
        regs: (0..REGS).map(|_| Reg::default()).collect(),
        out: Out::default(),
        seq: 0,
        inflight: 0,
        churned: Default::default(),
        open_ops: vec![None; n],
    };
    unsafe { ST = Box::into_raw(Box::new(s)) }
    snap();
    std::thread::scope(|sc| {
        let mut v = vec![];
        for (i, ops) in ep.threads.iter().take(n).enumerate() {
            let b = std::thread::Builder::new().stack_size((plan.stack_kb.max(256) as usize) << 10);
            let j = b
                .spawn_scoped(sc, move || {
                    rt::thread_begin(i);
                    for (k, p) in ops.iter().enumerate() {
                        if p.fresh {
                            // The simulated thread stays the same: this one only waits.
                            rt::TID.set(0);
                            std::thread::scope(|sc| {
                                let b = std::thread::Builder::new().stack_size((plan.stack_kb.max(256) as usize) << 10);
                                let j = b.spawn_scoped(sc, move || {
                                    rt::TID.set(i as u32 + 1);
                                    rt::IN_H.set(true);
                                    run_op(i, k, p, plan.dump);
                                    rt::TID.set(0);
                                });
                                let _ = j.expect("thread").join();
                            });
                            rt::TID.set(i as u32 + 1);
                        } else {
                            run_op(i, k, p, plan.dump);
                        }
                    }
                    rt::thread_end(i);
                })
                .expect("thread");
            v.push(j);
        }
        rt::start();
        for j in v {
            let _ = j.join();
        }
    });
    if plan.dump {
        audit();
    }
    finish("done")
}

/// Runs one process lifetime in a child of this process.
pub fn run_epoch(plan: &Plan, e: usize, vfs: Vfs, log: bool) -> Out {
    let sh = shm::get();
    sh.len = 0;
    sh.oom = 0;
    sh.cur_th = 0;
    sh.cur_op = 0;
    let start = vfs.clone();
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return Out { status: "no-fork".into(), ..Out::default() };
        }
        if pid == 0 {
            child(plan, e, vfs, log);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && sh.len > 0 {
            if let Ok(o) = bincode::deserialize::<Out>(&sh.out[..sh.len as usize]) {
                return o;
            }
        }
        let status = if libc::WIFSIGNALED(st) {
            format!("signal {}", libc::WTERMSIG(st))
        } else {
            format!("exit {}", libc::WEXITSTATUS(st))
        };
        Out {
            status,
            at: (sh.cur_th as u32, sh.cur_op as u32),
            oom: sh.oom,
            snaps: vec![start],
            ..Out::default()
        }
    }
}

pub struct Run {
    pub outs: Vec<Out>,
}

pub fn run(plan: &Plan, log: bool) -> Run {
    let mut vfs = plan.vfs();
    let mut outs = vec![];
    for e in 0..plan.epochs.len() {
        let o = run_epoch(plan, e, vfs.clone(), log);
        if let Some(v) = o.end_vfs() {
            vfs = v.clone();
            vfs.cwd = plan.vfs().cwd;
        }
        let stop = !matches!(o.status.as_str(), "done" | "killed");
        outs.push(o);
        if stop {
            break;
        }
    }
    Run { outs }
}

/// What one operation does alone: a fresh process, this disk, no faults.
pub fn solo(vfs: &Vfs, op: Op, dump: bool) -> Out {
    let p = Plan {
        prop: "solo".into(),
        kind: "solo".into(),
        seed: 0,
        hash_seed: 1,
        stack_kb: 8192,
        max_fds: 1024,
        cwd: String::new(),
        dump,
        fs: vec![],
        epochs: vec![Epoch { threads: vec![vec![POp::new(op)]], sched: vec![] }],
    };
    run_epoch(&p, 0, vfs.clone(), false)
}

pub fn kind_of(k: Kind) -> &'static str {
    match k {
        Kind::Obj => "Obj",
        Kind::Str => "Str",
        Kind::Arr => "Arr",
        Kind::Tup => "Tup",
    }
}
