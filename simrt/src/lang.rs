//! The reference model: abstract syntax of documents, their rendering to text, and a small
//! evaluator that says which value (with which sharing) a file graph denotes. It shares no code
//! with the library. What it cannot judge it reports as `MErr::Unknown`.

use crate::{rng::Rng, vfs::Vfs};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::Zero;
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, HashMap},
    rc::Rc,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    Obj,
    Str,
    Arr,
    Tup,
}
pub const KINDS: [Kind; 4] = [Kind::Obj, Kind::Str, Kind::Arr, Kind::Tup];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum F {
    Name(String),
    Global(String),
    Parent,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Root {
    Name(String),
    Global(String),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum St {
    Field(String),
    Idx(u32),
    IdxName(String),
    IdxGlobal(String),
    /// An index written with these digits.
    Big(String),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum E {
    Null,
    Bool(bool),
    Int(String),
    Dec(String, String, bool),
    Str(String),
    Arr(Vec<E>),
    Tup(Vec<E>),
    Obj(Vec<(F, E)>),
    Inc(Option<Kind>, Box<E>),
    Un(bool, Box<E>),
    Chain(Box<E>, Vec<(char, E)>),
    Var(Root, Vec<St>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Doc {
    Obj(Vec<(F, E)>),
    Arr(Vec<E>),
    Tup(Vec<E>),
    Text(String),
}

impl Doc {
    pub fn kind(&self) -> Kind {
        match self {
            Doc::Obj(_) => Kind::Obj,
            Doc::Arr(_) => Kind::Arr,
            Doc::Tup(_) => Kind::Tup,
            Doc::Text(_) => Kind::Str,
        }
    }
}

// ---------------------------------------------------------------- values

#[derive(Clone, Debug, PartialEq)]
pub enum MT {
    Any,
    Null,
    Bool,
    Int,
    Frac,
    Str,
    Arr(Box<MT>),
    Tup(Vec<MT>),
    Obj,
}

pub fn join(a: &MT, b: &MT) -> Option<MT> {
    Some(match (a, b) {
        (MT::Any, x) | (x, MT::Any) => x.clone(),
        (MT::Arr(x), MT::Arr(y)) => MT::Arr(Box::new(join(x, y)?)),
        (MT::Tup(x), MT::Tup(y)) if x.len() == y.len() => {
            let mut v = vec![];
            for (p, q) in x.iter().zip(y) {
                v.push(join(p, q)?);
            }
            MT::Tup(v)
        }
        (x, y) if x == y => x.clone(),
        _ => return None,
    })
}

impl std::fmt::Display for MT {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            MT::Any => write!(f, "Any"),
            MT::Null => write!(f, "Null"),
            MT::Bool => write!(f, "Bool"),
            MT::Int => write!(f, "Int"),
            MT::Frac => write!(f, "Frac"),
            MT::Str => write!(f, "Str"),
            MT::Obj => write!(f, "Obj"),
            MT::Arr(t) => write!(f, "Arr({})", t),
            MT::Tup(v) => {
                write!(f, "Tup(")?;
                for (i, t) in v.iter().enumerate() {
                    write!(f, "{}{}", if i > 0 { ", " } else { "" }, t)?;
                }
                write!(f, ")")
            }
        }
    }
}

#[derive(Debug)]
pub struct MNode {
    pub kind: Kind,
    pub items: Vec<MV>,
    pub fields: Vec<String>,
    pub parent: Option<MV>,
    /// Arr: the element type.
    pub t: MT,
    /// Size when written out, and nesting.
    pub w: u64,
    pub d: u32,
}

#[derive(Clone, Debug)]
pub enum MV {
    Null,
    Bool(bool),
    Int(BigInt),
    Frac(BigRational),
    Str(String),
    Node(Rc<MNode>),
}

impl MV {
    pub fn ty(&self) -> MT {
        match self {
            MV::Null => MT::Null,
            MV::Bool(_) => MT::Bool,
            MV::Int(_) => MT::Int,
            MV::Frac(_) => MT::Frac,
            MV::Str(_) => MT::Str,
            MV::Node(n) => match n.kind {
                Kind::Arr => MT::Arr(Box::new(n.t.clone())),
                Kind::Tup => MT::Tup(n.items.iter().map(MV::ty).collect()),
                _ => MT::Obj,
            },
        }
    }
    pub fn w(&self) -> u64 {
        match self {
            MV::Str(s) => 1 + s.len() as u64 / 16,
            MV::Node(n) => n.w,
            _ => 1,
        }
    }
    pub fn d(&self) -> u32 {
        match self {
            MV::Node(n) => n.d,
            _ => 0,
        }
    }
    pub fn node(kind: Kind, items: Vec<MV>, fields: Vec<String>, parent: Option<MV>, t: MT) -> MV {
        let all = items.iter().chain(parent.iter());
        let w = all.clone().fold(1u64, |a, x| a.saturating_add(x.w()));
        let d = 1 + all.map(MV::d).max().unwrap_or(0);
        MV::Node(Rc::new(MNode { kind, items, fields, parent, t, w, d }))
    }
    pub fn arr(items: Vec<MV>) -> Option<MV> {
        let mut t = MT::Any;
        for i in &items {
            t = join(&t, &i.ty())?;
        }
        Some(MV::node(Kind::Arr, items, vec![], None, t))
    }
    pub fn tup(items: Vec<MV>) -> MV {
        MV::node(Kind::Tup, items, vec![], None, MT::Any)
    }
    pub fn as_obj(&self) -> Option<&Rc<MNode>> {
        match self {
            MV::Node(n) if n.kind == Kind::Obj => Some(n),
            _ => None,
        }
    }
    pub fn step(&self, s: &crate::plan::Step) -> Option<MV> {
        use crate::plan::Step;
        let MV::Node(n) = self else { return None };
        match s {
            Step::Field(f) | Step::Typed(f) | Step::Source(f) if n.kind == Kind::Obj => {
                let mut n = n.clone();
                loop {
                    if let Some(i) = n.fields.iter().position(|x| x == f) {
                        if let Step::Source(_) = s {
                            return Some(MV::Node(n));
                        }
                        return Some(n.items[i].clone());
                    }
                    match &n.parent {
                        Some(MV::Node(p)) => n = p.clone(),
                        _ => return None,
                    }
                }
            }
            Step::Index(i) if n.kind != Kind::Obj => n.items.get(*i as usize).cloned(),
            Step::Parent if n.kind == Kind::Obj => n.parent.clone(),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- evaluation

#[derive(Clone, Debug, PartialEq)]
pub enum MErr {
    Cyclic,
    /// The file named by an include (or by the load) cannot be read as a file.
    NoFile,
    NonUtf8,
    Lang(&'static str),
    Unknown(&'static str),
}
pub type ER<T> = Result<T, MErr>;

/// Which document a file with these bytes is, read as this kind.
#[derive(Default, Clone, Debug)]
pub struct Registry(pub HashMap<(Kind, Vec<u8>), Doc>);

impl Registry {
    pub fn add(&mut self, doc: &Doc, bytes: Vec<u8>) {
        self.0.insert((doc.kind(), bytes.clone()), doc.clone());
        // The same text can be a document of several kinds.
        if let Doc::Arr(v) = doc {
            self.0.insert((Kind::Tup, bytes.clone()), Doc::Tup(v.clone()));
        }
        if matches!(doc, Doc::Arr(v) | Doc::Tup(v) if v.is_empty()) || matches!(doc, Doc::Obj(v) if v.is_empty()) {
            self.0.insert((Kind::Obj, bytes.clone()), Doc::Obj(vec![]));
            self.0.insert((Kind::Arr, bytes.clone()), Doc::Arr(vec![]));
            self.0.insert((Kind::Tup, bytes), Doc::Tup(vec![]));
        }
    }
    pub fn of(plan: &crate::plan::Plan) -> Self {
        let mut r = Registry::default();
        for s in plan.specs() {
            if let crate::plan::Body::Doc { doc, .. } = &s.body {
                r.add(doc, s.base());
            }
        }
        r
    }
    pub fn find(&self, k: Kind, bytes: &[u8]) -> ER<Doc> {
        let s = match std::str::from_utf8(bytes) {
            Ok(s) => s,
            Err(_) => return Err(MErr::NonUtf8),
        };
        if k == Kind::Str {
            return Ok(Doc::Text(s.into()));
        }
        if let Some(d) = self.0.get(&(k, bytes.to_vec())) {
            return Ok(d.clone());
        }
        // Nothing may be skipped in front of a document or behind it.
        if bytes.starts_with(b"\xEF\xBB\xBF") {
            return Err(MErr::Lang("byte order mark"));
        }
        for junk in [&b"\0"[..], b"\x1a", b"\xEF\xBF\xBE", b"\x04", b"\x7f"] {
            let mut t = bytes;
            while let Some(x) = t.strip_suffix(junk) {
                t = x;
            }
            let last = t.rsplit(|&b| b == b'\n').next().unwrap_or(b"");
            if t.len() < bytes.len() && !last.contains(&b'#') && self.0.contains_key(&(k, t.to_vec())) {
                return Err(MErr::Lang("junk at the end"));
            }
        }
        Err(MErr::Unknown("no document with these bytes"))
    }
}

pub struct Loader<'a> {
    pub vfs: &'a Vfs,
    pub reg: &'a Registry,
    pub cache: HashMap<(Kind, Vec<u8>), MV>,
    pub loading: Vec<Vec<u8>>,
    pub depth: u32,
    /// Files reached (canonical path, kind, path as named).
    pub reached: Vec<(Vec<u8>, Kind, String)>,
    pub includes: u32,
}

pub struct Scope {
    pub file: Option<String>,
    pub globals: BTreeMap<String, MV>,
}

pub fn join_path(file: Option<&str>, inc: &str) -> String {
    match file {
        Some(f) if !inc.starts_with('/') => match f.rfind('/') {
            Some(0) => format!("/{}", inc),
            Some(i) => format!("{}/{}", &f[..i], inc),
            None => inc.into(),
        },
        _ => inc.into(),
    }
}

/// The library promises 64 levels; nothing is claimed about the last few.
const MAX: u32 = 60;

impl<'a> Loader<'a> {
    pub fn new(vfs: &'a Vfs, reg: &'a Registry) -> Self {
        Loader { vfs, reg, cache: HashMap::new(), loading: vec![], depth: 0, reached: vec![], includes: 0 }
    }

    pub fn load(&mut self, path: &str) -> ER<MV> {
        self.file(path, Kind::Obj)
    }

    pub fn load_str(&mut self, bytes: &[u8]) -> ER<MV> {
        let d = self.reg.find(Kind::Obj, bytes)?;
        self.doc(&d, None)
    }

    fn file(&mut self, path: &str, kind: Kind) -> ER<MV> {
        let bytes = self.vfs.read(path.as_bytes()).map_err(|_| MErr::NoFile)?;
        let canon = self.vfs.canon(path.as_bytes()).map_err(|_| MErr::NoFile)?;
        self.reached.push((canon.clone(), kind, path.into()));
        let d = self.reg.find(kind, &bytes)?;
        self.loading.push(canon);
        let r = self.doc(&d, Some(path.into()));
        self.loading.pop();
        r
    }

    pub fn doc(&mut self, d: &Doc, file: Option<String>) -> ER<MV> {
        let mut sc = Scope { file, globals: BTreeMap::new() };
        match d {
            Doc::Text(s) => Ok(MV::Str(s.clone())),
            Doc::Obj(v) => self.obj(v, &mut sc),
            Doc::Arr(v) => {
                let items = self.list(v, &[], &mut sc)?;
                MV::arr(items).ok_or(MErr::Lang("mixed array"))
            }
            Doc::Tup(v) => Ok(MV::tup(self.list(v, &[], &mut sc)?)),
        }
    }

    fn list(&mut self, v: &[E], pairs: &[(String, MV)], sc: &mut Scope) -> ER<Vec<MV>> {
        v.iter().map(|e| self.eval(e, pairs, sc)).collect()
    }

    fn obj(&mut self, v: &[(F, E)], sc: &mut Scope) -> ER<MV> {
        let mut pairs: Vec<(String, MV)> = vec![];
        let mut parent = None;
        for (f, e) in v {
            self.field(f, e, &mut pairs, &mut parent, sc)?;
        }
        Ok(MV::obj_of(pairs, parent))
    }

    pub fn field(
        &mut self,
        f: &F,
        e: &E,
        pairs: &mut Vec<(String, MV)>,
        parent: &mut Option<MV>,
        sc: &mut Scope,
    ) -> ER<()> {
        match f {
            F::Name(n) => {
                if matches!(n.as_str(), "null" | "true" | "false" | "Obj" | "Str" | "Arr" | "Tup") {
                    return Err(MErr::Lang("reserved name"));
                }
                if pairs.iter().any(|p| &p.0 == n) {
                    return Err(MErr::Lang("duplicate field"));
                }
            }
            F::Global(n) => {
                if sc.globals.contains_key(n) {
                    return Err(MErr::Lang("duplicate global"));
                }
            }
            F::Parent => {
                if parent.is_some() {
                    return Err(MErr::Lang("duplicate parent"));
                }
            }
        }
        let x = self.eval(e, pairs, sc)?;
        match f {
            F::Name(n) => pairs.push((n.clone(), x)),
            F::Global(n) => {
                sc.globals.insert(n.clone(), x);
            }
            F::Parent => {
                if x.as_obj().is_none() {
                    return Err(MErr::Lang("parent is not an object"));
                }
                *parent = Some(x);
            }
        }
        Ok(())
    }

    pub fn eval(&mut self, e: &E, pairs: &[(String, MV)], sc: &mut Scope) -> ER<MV> {
        // Levels of nesting, as the limit of the library counts them.
        let k = match e {
            E::Arr(_) | E::Tup(_) | E::Obj(_) | E::Inc(..) | E::Un(..) => 1,
            E::Var(_, st) => st.len() as u32,
            _ => 0,
        };
        self.depth += k;
        let r = if self.depth > MAX { Err(MErr::Unknown("deep")) } else { self.eval1(e, pairs, sc) };
        self.depth -= k;
        r
    }

    fn eval1(&mut self, e: &E, pairs: &[(String, MV)], sc: &mut Scope) -> ER<MV> {
        Ok(match e {
            E::Null => MV::Null,
            E::Bool(b) => MV::Bool(*b),
            E::Int(s) => MV::Int(int(s)?),
            E::Dec(a, b, _) => {
                let (x, y) = (a.replace('_', ""), b.replace('_', ""));
                if x.is_empty() && y.is_empty() {
                    return Err(MErr::Lang("no digits"));
                }
                let n = int(&format!("{}{}", x, y))?;
                let mut den = BigInt::from(1);
                for _ in 0..y.len() {
                    den *= 10;
                }
                MV::Frac(BigRational::new(n, den))
            }
            E::Str(s) => MV::Str(s.clone()),
            E::Arr(v) => {
                let items = self.list(v, pairs, sc)?;
                MV::arr(items).ok_or(MErr::Lang("mixed array"))?
            }
            E::Tup(v) => MV::tup(self.list(v, pairs, sc)?),
            E::Obj(v) => self.obj(v, sc)?,
            E::Un(minus, x) => {
                if matches!(**x, E::Chain(..)) {
                    return Err(MErr::Unknown("chain as operand"));
                }
                match (self.eval(x, pairs, sc)?, minus) {
                    (MV::Int(i), true) => MV::Int(-i),
                    (MV::Frac(i), true) => MV::Frac(-i),
                    (x @ (MV::Int(_) | MV::Frac(_)), false) => x,
                    _ => return Err(MErr::Lang("unary operand")),
                }
            }
            E::Chain(first, rest) => {
                if std::iter::once(&**first).chain(rest.iter().map(|x| &x.1)).any(|x| matches!(x, E::Chain(..))) {
                    return Err(MErr::Unknown("chain as operand"));
                }
                let mut vals = vec![self.eval(first, pairs, sc)?];
                let mut ops = vec![];
                for (op, x) in rest {
                    let v = self.eval(x, pairs, sc)?;
                    if matches!(op, '*' | '/' | '%') {
                        let l = vals.pop().unwrap();
                        vals.push(binop(&l, *op, &v)?);
                    } else {
                        vals.push(v);
                        ops.push(*op);
                    }
                }
                let mut it = vals.into_iter();
                let mut acc = it.next().unwrap();
                for (op, v) in ops.into_iter().zip(it) {
                    acc = binop(&acc, op, &v)?;
                }
                acc
            }
            E::Var(r, steps) => {
                let mut v = match r {
                    Root::Name(n) => lookup(pairs, n)?,
                    Root::Global(g) => sc.globals.get(g).cloned().ok_or(MErr::Lang("global"))?,
                };
                let mut scope: Vec<(String, MV)> = pairs.to_vec();
                for (i, s) in steps.iter().enumerate() {
                    let MV::Node(n) = &v else { return Err(MErr::Lang("dot")) };
                    let n = n.clone();
                    if n.kind == Kind::Obj {
                        let (St::Field(f) | St::IdxName(f)) = s else { return Err(MErr::Lang("index of object")) };
                        scope = n.fields.iter().cloned().zip(n.items.iter().cloned()).collect();
                        v = lookup(&scope, f)?;
                    } else {
                        let ix = match s {
                            St::Idx(i) => *i as usize,
                            St::Big(s) => s.parse().map_err(|_| MErr::Lang("index"))?,
                            St::IdxName(m) => usize_of(&lookup(&scope, m)?)?,
                            St::IdxGlobal(g) => {
                                usize_of(sc.globals.get(g).ok_or(MErr::Lang("global"))?)?
                            }
                            St::Field(m) if i + 1 == steps.len() => usize_of(&lookup(&scope, m)?)?,
                            St::Field(_) => return Err(MErr::Unknown("name as index")),
                        };
                        v = n.items.get(ix).cloned().ok_or(MErr::Lang("index"))?;
                        if i + 1 < steps.len() {
                            return Err(MErr::Unknown("step after index"));
                        }
                    }
                }
                v
            }
            E::Inc(kind, p) => {
                let MV::Str(inc) = self.eval(p, pairs, sc)? else { return Err(MErr::Lang("include path")) };
                let kind = kind.unwrap_or(Kind::Obj);
                self.includes += 1;
                let path = join_path(sc.file.as_deref(), &inc);
                let v = self.vfs;
                let ino = v.lookup_path(path.as_bytes()).map_err(|_| MErr::NoFile)?;
                if !matches!(v.nodes[ino], crate::vfs::Node::File(_)) {
                    return Err(MErr::NoFile);
                }
                let canon = v.canon(path.as_bytes()).map_err(|_| MErr::NoFile)?;
                if std::str::from_utf8(&canon).is_err() {
                    return Err(MErr::Unknown("non-UTF-8 name"));
                }
                if self.loading.contains(&canon) {
                    return Err(MErr::Cyclic);
                }
                if let Some(x) = self.cache.get(&(kind, canon.clone())) {
                    return Ok(x.clone());
                }
                let x = self.file(&path, kind)?;
                self.cache.insert((kind, canon), x.clone());
                x
            }
        })
    }
}

impl MV {
    pub fn obj_of(pairs: Vec<(String, MV)>, parent: Option<MV>) -> MV {
        let (fields, items) = pairs.into_iter().unzip();
        MV::node(Kind::Obj, items, fields, parent, MT::Any)
    }
}

fn int(s: &str) -> ER<BigInt> {
    let d = s.replace('_', "");
    d.parse().map_err(|_| MErr::Unknown("number"))
}
fn lookup(pairs: &[(String, MV)], n: &str) -> ER<MV> {
    pairs.iter().find(|p| p.0 == n).map(|p| p.1.clone()).ok_or(MErr::Lang("variable"))
}
fn usize_of(v: &MV) -> ER<usize> {
    match v {
        MV::Int(i) => i.to_string().parse().map_err(|_| MErr::Lang("index")),
        _ => Err(MErr::Lang("index type")),
    }
}
fn frac(v: &MV) -> Option<BigRational> {
    match v {
        MV::Int(i) => Some(BigRational::new(i.clone(), BigInt::from(1))),
        MV::Frac(f) => Some(f.clone()),
        _ => None,
    }
}

pub fn binop(a: &MV, op: char, b: &MV) -> ER<MV> {
    let bad = Err(MErr::Lang("operand types"));
    Ok(match (a, op, b) {
        (MV::Str(x), '+', MV::Str(y)) => MV::Str(format!("{}{}", x, y)),
        (MV::Node(x), '+', MV::Node(y)) if x.kind == Kind::Arr && y.kind == Kind::Arr => {
            let Some(t) = join(&x.t, &y.t) else { return bad };
            let items = x.items.iter().chain(&y.items).cloned().collect();
            MV::node(Kind::Arr, items, vec![], None, t)
        }
        (MV::Int(x), _, MV::Int(y)) => match op {
            '+' => MV::Int(x + y),
            '-' => MV::Int(x - y),
            '*' => MV::Int(x * y),
            '/' if !y.is_zero() => MV::Frac(BigRational::new(x.clone(), y.clone())),
            '%' if !y.is_zero() => MV::Int(x % y),
            _ => return Err(MErr::Lang("zero divisor")),
        },
        _ => {
            let (Some(x), Some(y)) = (frac(a), frac(b)) else { return bad };
            match op {
                '+' => MV::Frac(x + y),
                '-' => MV::Frac(x - y),
                '*' => MV::Frac(x * y),
                '/' if !y.is_zero() => MV::Frac(x / y),
                '/' => return Err(MErr::Lang("zero divisor")),
                _ => return bad,
            }
        }
    })
}

// ---------------------------------------------------------------- rendering

struct W {
    o: String,
    r: Rng,
    style: usize,
}

const COMMENTS: [&str; 6] = ["# note\n", "#\n", "# a: 1 } ] ) > \"\n", "## \u{e9}t\u{e9} # {\n", "#<\"x\">\r\n", "# \\ ' $ @g ^\n"];

impl W {
    fn ws(&mut self, need: bool) {
        match self.style {
            0 => {
                if need {
                    self.o.push(' ');
                }
            }
            1 => {
                if need || self.r.pct(30) {
                    self.o.push_str(if self.r.pct(50) { " " } else { "\n" });
                }
            }
            _ => {
                let n = self.r.below(3) + usize::from(need);
                for _ in 0..n {
                    if self.r.pct(15) {
                        let c = *self.r.pick(&COMMENTS);
                        self.o.push_str(c);
                    } else if self.style == 3 && self.r.pct(30) {
                        let c = *self.r.pick(&['\u{a0}', '\u{2003}', '\u{3000}', '\u{85}', '\u{2028}', '\u{b}', '\u{c}']);
                        self.o.push(c);
                    } else {
                        let s = *self.r.pick(&[" ", "\n", "\t", "  ", "\r\n", "\n\n    "]);
                        self.o.push_str(s);
                    }
                }
            }
        }
    }
    fn str(&mut self, s: &str) {
        self.o.push('"');
        let esc = self.r.below(3);
        for c in s.chars() {
            let m = match c {
                '\\' => Some("\\\\"),
                '"' => Some("\\\""),
                '\'' => Some("\\'"),
                '$' => Some("\\$"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                _ => None,
            };
            match m {
                Some(x) if matches!(c, '\\' | '"') || esc == 0 || (esc == 1 && self.r.pct(50)) => self.o.push_str(x),
                _ => self.o.push(c),
            }
        }
        self.o.push('"');
    }
    fn fields(&mut self, v: &[(F, E)]) {
        for (i, (f, e)) in v.iter().enumerate() {
            if i > 0 {
                self.ws(true);
            }
            match f {
                F::Name(n) => self.o.push_str(n),
                F::Global(n) => {
                    self.o.push('@');
                    self.o.push_str(n);
                }
                F::Parent => self.o.push('^'),
            }
            self.o.push(':');
            self.ws(false);
            self.e(e);
        }
    }
    fn items(&mut self, v: &[E]) {
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                self.ws(true);
            }
            self.e(e);
        }
    }
    fn e(&mut self, e: &E) {
        match e {
            E::Null => self.o.push_str("null"),
            E::Bool(b) => self.o.push_str(if *b { "true" } else { "false" }),
            E::Int(s) => self.o.push_str(s),
            E::Dec(a, b, comma) => {
                self.o.push_str(a);
                self.o.push(if *comma { ',' } else { '.' });
                self.o.push_str(b);
            }
            E::Str(s) => self.str(s),
            E::Arr(v) => {
                self.o.push('[');
                self.ws(false);
                self.items(v);
                self.ws(false);
                self.o.push(']');
            }
            E::Tup(v) => {
                self.o.push('(');
                self.ws(false);
                self.items(v);
                self.ws(false);
                self.o.push(')');
            }
            E::Obj(v) => {
                self.o.push('{');
                self.ws(false);
                self.fields(v);
                self.ws(false);
                self.o.push('}');
            }
            E::Inc(k, p) => {
                self.o.push('<');
                self.ws(false);
                if let Some(k) = k {
                    self.o.push_str(match k {
                        Kind::Obj => "Obj",
                        Kind::Str => "Str",
                        Kind::Arr => "Arr",
                        Kind::Tup => "Tup",
                    });
                    self.ws(true);
                }
                self.e(p);
                self.ws(false);
                self.o.push('>');
            }
            E::Un(m, x) => {
                self.o.push(if *m { '-' } else { '+' });
                self.e(x);
            }
            E::Chain(a, v) => {
                self.e(a);
                for (op, x) in v {
                    self.o.push(*op);
                    self.e(x);
                }
            }
            E::Var(r, steps) => {
                match r {
                    Root::Name(n) => self.o.push_str(n),
                    Root::Global(n) => {
                        self.o.push('@');
                        self.o.push_str(n);
                    }
                }
                for s in steps {
                    self.o.push('.');
                    match s {
                        St::Field(n) | St::IdxName(n) | St::Big(n) => self.o.push_str(n),
                        St::Idx(i) => self.o.push_str(&i.to_string()),
                        St::IdxGlobal(g) => {
                            self.o.push('@');
                            self.o.push_str(g);
                        }
                    }
                }
            }
        }
    }
}

pub fn render(d: &Doc, fmt: u64) -> Vec<u8> {
    if let Doc::Text(s) = d {
        return s.clone().into_bytes();
    }
    let mut r = Rng::new(fmt);
    let style = r.below(4);
    let mut w = W { o: String::new(), r, style };
    w.ws(false);
    match d {
        Doc::Obj(v) => w.fields(v),
        Doc::Arr(v) | Doc::Tup(v) => w.items(v),
        Doc::Text(_) => {}
    }
    w.ws(false);
    if w.style == 2 && w.r.pct(20) {
        w.o.push_str(" # no newline at the end");
    }
    w.o.into_bytes()
}
