//! A plan is one simulated execution, complete: the initial disk, what every thread of every
//! process does, which faults hit it and where the scheduler switches. Executing a plan draws no
//! random numbers, so a plan is also the replay file.

use crate::{
    lang::{render, Doc, Kind, E},
    vfs::{raw, Node, Sp, Vfs},
};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Call {
    Open,
    Read,
    Write,
    FStat,
    Stat,
    Realpath,
    Close,
    Seek,
    Other,
    Any,
}
pub const CALLS: [Call; 10] = [
    Call::Open,
    Call::Read,
    Call::Write,
    Call::FStat,
    Call::Stat,
    Call::Realpath,
    Call::Close,
    Call::Seek,
    Call::Other,
    Call::Any,
];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum SizeLie {
    Zero,
    Less,
    More,
    Huge,
    Max,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Unit {
    /// Instrumented loads, stores and branches of the library.
    Step,
    /// System calls.
    Sys,
    /// Atomic operations of the library (lock fast paths and reference counts included).
    Atom,
}

/// A context switch: `after` that many units since the previous one, to the `pick`-th other
/// runnable thread.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sw {
    pub unit: Unit,
    pub after: u64,
    pub pick: u32,
}

/// How file bytes are delivered: sizes reads and writes are cut to (cyclically; 0 = as asked), and
/// every how many calls one is interrupted.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Delivery {
    pub chunks: Vec<u32>,
    pub eintr: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Errno(i32),
    Short(u32),
    Zero,
    Size(SizeLie),
    /// The process dies before / right after this system call takes effect.
    Kill,
    KillAfter,
    /// The thread is stuck in this system call for so many simulated nanoseconds.
    Stall(u64),
    /// Somebody else changes the disk just before this system call.
    Mut(Mut),
}

/// Hits the calls `nth .. nth + count` of one operation (of this kind and on this path).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub call: Call,
    pub nth: u32,
    pub count: u32,
    pub act: Act,
    pub path: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    Trunc(u32),
    Flip(u32, u8),
    Insert(u32, String),
    Delete(u32, u32),
    Dup(u32, u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Body {
    Raw(String),
    /// `n` copies of the second text between the first and the third.
    Repeat(String, String, u32, String),
    Doc { doc: Doc, fmt: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec {
    pub body: Body,
    pub edits: Vec<Edit>,
}

impl FileSpec {
    pub fn raw(s: &str) -> Self {
        FileSpec { body: Body::Raw(s.into()), edits: vec![] }
    }
    pub fn doc(doc: Doc, fmt: u64) -> Self {
        FileSpec { body: Body::Doc { doc, fmt }, edits: vec![] }
    }
    pub fn base(&self) -> Vec<u8> {
        match &self.body {
            Body::Raw(s) => raw(s),
            Body::Repeat(a, b, n, c) => {
                let mut o = raw(a);
                let m = raw(b);
                for _ in 0..*n {
                    o.extend(&m);
                }
                o.extend(raw(c));
                o
            }
            Body::Doc { doc, fmt } => render(doc, *fmt),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.base();
        for e in &self.edits {
            let n = b.len();
            let at = |i: u32| if n == 0 { 0 } else { i as usize % (n + 1) };
            match e {
                Edit::Trunc(i) => b.truncate(at(*i)),
                Edit::Flip(i, x) => {
                    if n > 0 {
                        b[*i as usize % n] ^= (*x).max(1);
                    }
                }
                Edit::Insert(i, s) => {
                    let i = at(*i);
                    b.splice(i..i, raw(s));
                }
                Edit::Delete(i, k) => {
                    let i = at(*i);
                    let j = (i + *k as usize).min(n);
                    b.drain(i..j);
                }
                Edit::Dup(i, k) => {
                    let i = at(*i);
                    let j = (i + *k as usize).min(n);
                    let c: Vec<u8> = b[i..j].to_vec();
                    b.splice(i..i, c);
                }
            }
        }
        b
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mut {
    /// Rewrites in place (same inode) / under a new inode.
    Put(String, FileSpec),
    Replace(String, FileSpec),
    Remove(String),
    Link(String, String),
    Append(String, String),
    Trunc(String, u32),
    Dir(String),
    /// The process changes its working directory.
    Cwd(String),
    /// Sets permissions.
    Mode(String, u32),
    /// Changes one byte.
    Flip(String, u32, u8),
}

impl Mut {
    pub fn path(&self) -> &str {
        match self {
            Mut::Put(p, _) | Mut::Replace(p, _) | Mut::Remove(p) | Mut::Link(p, _) | Mut::Append(p, _)
            | Mut::Trunc(p, _) | Mut::Dir(p) | Mut::Cwd(p) | Mut::Mode(p, _) | Mut::Flip(p, _, _) => p,
        }
    }
    pub fn spec(&self) -> Option<&FileSpec> {
        match self {
            Mut::Put(_, f) | Mut::Replace(_, f) => Some(f),
            _ => None,
        }
    }
    pub fn apply(&self, v: &mut Vfs) -> Result<(), i32> {
        match self {
            Mut::Put(p, f) => v.put(&raw(p), f.bytes()),
            Mut::Replace(p, f) => v.replace(&raw(p), Node::File(Arc::new(f.bytes()))),
            Mut::Remove(p) => v.remove(&raw(p)),
            Mut::Link(p, t) => v.replace(&raw(p), Node::Link(raw(t))),
            Mut::Append(p, s) => {
                let mut d = v.content(&raw(p))?.to_vec();
                d.extend(raw(s));
                v.put(&raw(p), d)
            }
            Mut::Trunc(p, n) => {
                let mut d = v.content(&raw(p))?.to_vec();
                d.truncate(*n as usize % (d.len() + 1));
                v.put(&raw(p), d)
            }
            Mut::Dir(p) => v.replace(&raw(p), Node::Dir(Default::default())),
            Mut::Cwd(p) => v.chdir(&raw(p)),
            Mut::Mode(p, m) => v.chmod(&raw(p), *m),
            Mut::Flip(p, i, x) => {
                let mut d = v.content(&raw(p))?.to_vec();
                let n = d.len();
                if n > 0 {
                    d[*i as usize % n] ^= (*x).max(1);
                }
                v.put(&raw(p), d)
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FsNode {
    Dir,
    File(FileSpec),
    Link(String),
    Hard(String),
    Special(Sp),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FsItem {
    pub path: String,
    pub node: FsNode,
}

/// A value built through the library's construction functions.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum B {
    Lit(E),
    Reg(u32),
    Arr(Vec<B>),
    Tup(Vec<B>),
    Obj(Vec<(String, B)>, Option<Box<B>>),
    /// Through the constructors for empty instances.
    Empty(Kind),
    /// Through the constructors that check nothing.
    Raw(Box<B>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Field(String),
    Index(u32),
    Parent,
    /// The object a field's value comes from.
    Source(String),
    /// A field, through the getter for its type.
    Typed(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Load { path: String, dst: u32 },
    LoadStr { text: FileSpec, dst: u32 },
    Save { src: u32, path: String },
    Text { src: u32 },
    Build { b: B, dst: u32 },
    Clone { src: u32, dst: u32 },
    Get { src: u32, step: Step, dst: u32 },
    Move { src: u32, dst: u32 },
    Drop { src: u32 },
    Dump { src: u32 },
    /// What the value displays as.
    Show { src: u32 },
    /// Creates and drops so many instances.
    Churn { n: u32 },
    /// Waits (a bounded simulated time) until the register is filled.
    Wait { src: u32 },
    Fs(Mut),
    /// Records the identity graph and reference counts of everything held in registers.
    Audit,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct POp {
    pub op: Op,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub del: Delivery,
    /// Runs on an operating system thread of its own.
    #[serde(default)]
    pub fresh: bool,
}

impl POp {
    pub fn new(op: Op) -> Self {
        POp { op, faults: vec![], del: Delivery::default(), fresh: false }
    }
}

/// One process lifetime. It starts with the disk the previous one left.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Epoch {
    pub threads: Vec<Vec<POp>>,
    pub sched: Vec<Sw>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    /// The scenario family within the property's check.
    pub kind: String,
    pub seed: u64,
    pub hash_seed: u64,
    pub stack_kb: u32,
    pub max_fds: u32,
    pub cwd: String,
    pub dump: bool,
    pub fs: Vec<FsItem>,
    pub epochs: Vec<Epoch>,
}

impl Plan {
    pub fn vfs(&self) -> Vfs {
        let mut v = Vfs::new();
        let _ = v.mkdirs(&raw(&self.cwd));
        for it in &self.fs {
            let p = raw(&it.path);
            let _ = match &it.node {
                FsNode::Dir => v.mkdirs(&p),
                FsNode::File(f) => v.put(&p, f.bytes()),
                FsNode::Link(t) => v.replace(&p, Node::Link(raw(t))),
                FsNode::Hard(t) => v.hardlink(&p, &raw(t)),
                FsNode::Special(s) => v.replace(&p, Node::Special(*s)),
            };
        }
        v.cwd = raw(&self.cwd).split(|&b| b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
        v
    }

    /// Every document any file can hold during the run.
    pub fn specs(&self) -> Vec<&FileSpec> {
        let mut o: Vec<&FileSpec> = vec![];
        for it in &self.fs {
            if let FsNode::File(f) = &it.node {
                o.push(f);
            }
        }
        for e in &self.epochs {
            for t in &e.threads {
                for p in t {
                    match &p.op {
                        Op::Fs(m) => o.extend(m.spec()),
                        Op::LoadStr { text, .. } => o.push(text),
                        _ => {}
                    }
                    for f in &p.faults {
                        if let Act::Mut(m) = &f.act {
                            o.extend(m.spec());
                        }
                    }
                }
            }
        }
        o
    }
}
