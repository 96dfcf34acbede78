//! Seeded generation of documents and of file graphs whose value the model knows.

use crate::{
    lang::*,
    plan::{Delivery, FileSpec, FsItem, FsNode},
    rng::Rng,
    vfs::{Node, Sp, Vfs},
};

#[derive(Clone, Debug)]
pub struct Opts {
    pub files: (usize, usize),
    pub fields: usize,
    pub depth: usize,
    /// Chance that a field of a file is an include (percent).
    pub inc: usize,
    pub links: bool,
    pub wild: bool,
    /// Bytes of padding in some texts.
    pub big: usize,
    /// Chance of a document that uses a name across a file boundary, or an include that names
    /// nothing (percent, per file).
    pub broken: usize,
    /// Chance of a document made without regard to meaning (percent, per file).
    pub loose: usize,
    /// The root is text in memory.
    pub mem: bool,
    /// Several names of one file in several directories.
    pub hard: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { files: (0, 5), fields: 6, depth: 3, inc: 35, links: true, wild: true, big: 0, broken: 0, loose: 0, mem: false, hard: false }
    }
}

#[derive(Clone, Debug)]
pub struct GFile {
    pub path: String,
    pub kind: Kind,
    pub doc: Doc,
    pub fmt: u64,
    /// Other names of it.
    pub alias: Vec<String>,
    pub incs: Vec<(String, Kind)>,
    /// Length of the include chains below it.
    pub chain: usize,
    pub relative: bool,
}

#[derive(Clone, Debug)]
pub struct Graph {
    pub items: Vec<FsItem>,
    pub vfs: Vfs,
    pub reg: Registry,
    pub files: Vec<GFile>,
    /// Index of the root file, and the name it is loaded by.
    pub root: usize,
    pub root_path: String,
    pub root_spec: FileSpec,
    pub cwd: String,
}

pub fn names(r: &mut Rng, i: usize) -> String {
    let base = *r.pick(&["a", "b", "val", "x", "_", "été", "Δx", "name", "nullable", "Objx", "trueish", "z_9", "ß", "日本"]);
    if r.pct(60) {
        format!("{}{}", base, i)
    } else {
        format!("{}_{}", base, i)
    }
}

pub fn string(r: &mut Rng, wild: bool) -> String {
    let n = r.below(6);
    let mut s = String::new();
    for _ in 0..n {
        if wild && r.pct(12) {
            // Any character below the planes that stand for raw bytes in plans.
            let c = match r.below(4) {
                0 => r.below(0x80),
                1 => r.below(0x300),
                2 => r.below(0x10000),
                _ => r.below(0x3_0000),
            };
            s.extend(char::from_u32(c as u32));
            continue;
        }
        let p = if wild {
            *r.pick(&[
                "a", "hello world", "\n", "\r\n", "\t", "\\", "\"", "'", "$", "# no", "}", "]", "<x>", "é", "e\u{301}",
                "\u{feff}", "日本", "😀", "\u{0}", " ", "\u{a0}", "\u{2028}", "{{", "\\n", "0", "ﬁ", "\u{7f}", "\r", "İ",
                "\u{200d}", "\u{10FFFF}", "\u{FFFD}",
            ])
        } else {
            *r.pick(&["a", "bc", "hello", " ", "é", "x\ny"])
        };
        if (p == "\u{10FFFF}") && r.pct(80) {
            continue;
        }
        s.push_str(p);
    }
    s
}

/// Any document: most do not denote a value, and the model knows which do.
pub fn loose(r: &mut Rng, kind: Kind, files: &[String]) -> Doc {
    let n = r.range(1, 7);
    match kind {
        Kind::Obj => Doc::Obj(loose_fields(r, n, 2, files)),
        Kind::Arr => Doc::Arr((0..n.min(3)).map(|_| loose_e(r, 2, files)).collect()),
        Kind::Tup => Doc::Tup((0..n.min(4)).map(|_| loose_e(r, 2, files)).collect()),
        Kind::Str => Doc::Text(string(r, true)),
    }
}

fn loose_name(r: &mut Rng) -> String {
    if r.pct(3) {
        return long_name(r.below(3));
    }
    (*r.pick(&["a", "b", "c", "d", "e", "f", "g", "h"])).into()
}

/// Long names of many-byte characters: byte n of one is rarely where a character starts.
fn long_name(i: usize) -> String {
    match i {
        0 => format!("x{}", "é".repeat(60)),
        1 => "日本".repeat(25),
        _ => "aé日😀".replace('😀', "ß").repeat(20),
    }
}

fn loose_fields(r: &mut Rng, n: usize, d: usize, files: &[String]) -> Vec<(F, E)> {
    let mut v: Vec<(F, E)> = vec![];
    for i in 0..n {
        let fresh = if r.below(40) == 0 { long_name(i % 3) } else { ["a", "b", "c", "d", "e", "f", "g", "h"][i % 8].to_string() };
        let f = match r.below(24) {
            0 => F::Name(loose_name(r)),
            1 => F::Name((*r.pick(&["null", "true", "false", "Obj", "Str", "Arr", "Tup"])).into()),
            2..=4 => F::Global(fresh),
            5 => F::Parent,
            _ => F::Name(fresh),
        };
        let e = loose_e(r, d, files);
        v.push((f, e));
    }
    v
}

fn loose_atom(r: &mut Rng, d: usize, files: &[String]) -> E {
    match r.below(if d == 0 { 12 } else { 17 }) {
        0 => (*r.pick(&[E::Null, E::Bool(true), E::Bool(false)])).clone(),
        1 | 2 => E::Int(r.below(4).to_string()),
        3 => E::Int((*r.pick(&["18446744073709551615", "18446744073709551616", "4294967296", "99999999999999999999999", "9223372036854775808", "00", "1_0"])).into()),
        4 => E::Un(r.pct(80), Box::new(loose_atom(r, 0, files))),
        5 => {
            let (a, b) = *r.pick(&[("1", "5"), ("0", "0"), ("", "25"), ("2", ""), ("3", "10"), ("", "")]);
            E::Dec(a.into(), b.into(), r.pct(10))
        }
        6 => E::Str(string(r, true)),
        7..=11 => {
            let root = match r.below(40) {
                0..=9 => Root::Global(loose_name(r)),
                10 => Root::Name((*r.pick(&["Obj", "Str", "Arr", "Tup"])).into()),
                _ => Root::Name(loose_name(r)),
            };
            let n = *r.pick(&[0, 0, 1, 1, 1, 2, 3]);
            let st = (0..n)
                .map(|_| match r.below(8) {
                    0..=2 => St::Idx(r.below(4) as u32),
                    3 => St::Idx(*r.pick(&[10, 4294967295, 1_000_000])),
                    4 => St::IdxGlobal(loose_name(r)),
                    _ => St::Field(loose_name(r)),
                })
                .collect();
            E::Var(root, st)
        }
        12 | 13 => E::Tup((0..r.below(4)).map(|_| loose_e(r, d - 1, files)).collect()),
        14 => {
            let n = r.below(4);
            if n > 0 && r.pct(60) {
                let x = loose_e(r, d - 1, files);
                E::Arr((0..n).map(|i| if i > 0 && r.pct(10) { loose_e(r, 0, files) } else { x.clone() }).collect())
            } else {
                E::Arr((0..n).map(|_| loose_e(r, d - 1, files)).collect())
            }
        }
        15 => {
            let n = r.below(4);
            E::Obj(loose_fields(r, n, d - 1, files))
        }
        _ => {
            let k = *r.pick(&[None, None, Some(Kind::Obj), Some(Kind::Str), Some(Kind::Arr), Some(Kind::Tup)]);
            let p = match r.below(10) {
                0 => loose_atom(r, 0, files),
                1 => E::Str((*r.pick(&["", ".", "..", "/", "nosuch", "./", "\u{0}", "a\u{0}b", "~", "//"])).into()),
                2 if r.pct(30) => E::Str(match r.below(3) {
                    0 => long_name(r.below(3)),
                    1 => format!("{}/{}.over", long_name(r.below(3)), "😀é".repeat(12)),
                    _ => "../".repeat(r.range(10, 40)) + &long_name(r.below(3)),
                }),
                _ if files.is_empty() => E::Str("nosuch".into()),
                _ => E::Str(r.pick(files).clone()),
            };
            E::Inc(k, Box::new(p))
        }
    }
}

fn loose_e(r: &mut Rng, d: usize, files: &[String]) -> E {
    let a = loose_atom(r, d, files);
    if r.pct(25) {
        let n = r.range(1, 3);
        let rest = (0..n).map(|_| (*r.pick(&['+', '-', '*', '/', '%']), loose_atom(r, d.min(1), files))).collect();
        return E::Chain(Box::new(a), rest);
    }
    a
}

const BIG: [&str; 9] = ["-1", "-0", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
    "18446744073709551616", "340282366920938463463374607431768211456", "99999999999999999999999999"];

fn exprs<'a>(e: &'a mut E, out: &mut Vec<*mut E>) {
    out.push(e as *mut E);
    match e {
        E::Arr(v) | E::Tup(v) => v.iter_mut().for_each(|x| exprs(x, out)),
        E::Obj(v) => v.iter_mut().for_each(|x| exprs(&mut x.1, out)),
        E::Inc(_, x) | E::Un(_, x) => exprs(x, out),
        E::Chain(a, v) => {
            exprs(a, out);
            v.iter_mut().for_each(|x| exprs(&mut x.1, out));
        }
        _ => {}
    }
}

/// There is no way to write a sum as an operand.
fn flat(e: &mut E) {
    match e {
        E::Arr(v) | E::Tup(v) => v.iter_mut().for_each(flat),
        E::Obj(v) => v.iter_mut().for_each(|x| flat(&mut x.1)),
        E::Inc(_, x) => flat(x),
        E::Un(_, x) => {
            if matches!(**x, E::Chain(..)) {
                **x = E::Int("1".into());
            }
            flat(x)
        }
        E::Chain(a, v) => {
            for x in std::iter::once(&mut **a).chain(v.iter_mut().map(|x| &mut x.1)) {
                if matches!(x, E::Chain(..)) {
                    *x = E::Int("2".into());
                }
                flat(x);
            }
        }
        _ => {}
    }
}

/// Changes one thing about a document.
pub fn twist(r: &mut Rng, doc: &mut Doc, files: &[String]) {
    twist1(r, doc, files);
    match doc {
        Doc::Obj(v) => v.iter_mut().for_each(|x| flat(&mut x.1)),
        Doc::Arr(v) | Doc::Tup(v) => v.iter_mut().for_each(flat),
        Doc::Text(_) => {}
    }
}

fn twist1(r: &mut Rng, doc: &mut Doc, files: &[String]) {
    if let Doc::Obj(v) = doc {
        if !v.is_empty() && r.pct(15) {
            let (i, j) = (r.below(v.len()), r.below(v.len()));
            match r.below(4) {
                0 => v.swap(i, j),
                1 => v[i].0 = v[j].0.clone(),
                2 => {
                    v[i].0 = match &v[i].0 {
                        F::Name(n) => F::Global(n.clone()),
                        F::Global(n) => F::Name(n.clone()),
                        F::Parent => F::Name("p".into()),
                    }
                }
                _ => v[i].0 = F::Parent,
            }
            return;
        }
    }
    if let Doc::Obj(v) = doc {
        // Something new about an existing field: a step into it, or an operation on it.
        if !v.is_empty() && r.pct(35) {
            let boxes: Vec<usize> = (0..v.len()).filter(|&i| matches!(v[i].1, E::Arr(_) | E::Tup(_))).collect();
            let i = if !boxes.is_empty() && r.pct(70) { *r.pick(&boxes) } else { r.below(v.len()) };
            let root = match &v[i].0 {
                F::Name(n) => Root::Name(n.clone()),
                F::Global(n) => Root::Global(n.clone()),
                F::Parent => return,
            };
            let j = r.below(v.len());
            let other = v[j].0.clone();
            let step = match (r.below(6), other) {
                (0, F::Name(n)) => vec![St::IdxName(n)],
                (1, F::Global(n)) => vec![St::IdxGlobal(n)],
                (2, _) => vec![],
                (3, _) => vec![St::Field(loose_name(r))],
                (4, _) => vec![St::Idx(r.below(4) as u32)],
                _ => vec![St::Big((*r.pick(&BIG)).into())],
            };
            let mut e = E::Var(root, step);
            match r.below(8) {
                0 => e = E::Un(r.pct(70), Box::new(e)),
                1 => {
                    let y = loose_atom(r, 1, files);
                    let op = *r.pick(&['+', '-', '*', '/', '%']);
                    e = if r.pct(50) { E::Chain(Box::new(e), vec![(op, y)]) } else { E::Chain(Box::new(y), vec![(op, e)]) };
                }
                2 => e = E::Arr(vec![e]),
                3 => e = E::Obj(vec![(F::Name("q".into()), e)]),
                _ => {}
            }
            let f = if r.pct(10) { F::Parent } else { F::Name(format!("tw{}", r.below(4))) };
            v.push((f, e));
            return;
        }
    }
    let mut ps = vec![];
    match doc {
        Doc::Obj(v) => v.iter_mut().for_each(|x| exprs(&mut x.1, &mut ps)),
        Doc::Arr(v) | Doc::Tup(v) => v.iter_mut().for_each(|x| exprs(x, &mut ps)),
        Doc::Text(_) => return,
    }
    if ps.is_empty() {
        return;
    }
    let vars: Vec<*mut E> = ps.iter().copied().filter(|&p| matches!(unsafe { &*p }, E::Var(..))).collect();
    let at = if !vars.is_empty() && r.pct(40) { *r.pick(&vars) } else { *r.pick(&ps) };
    let other = unsafe { (**r.pick(&ps)).clone() };
    // One reference at a time: `at` is only written through here.
    let e = unsafe { &mut *at };
    let big = |r: &mut Rng| E::Int((*r.pick(&BIG[2..])).into());
    match (r.below(10), &mut *e) {
        (0..=6, E::Var(root, st)) => match r.below(7) {
            0 => st.push(St::Big((*r.pick(&BIG)).into())),
            1 => st.push(St::Idx(r.below(4) as u32)),
            2 => st.push(St::Field(loose_name(r))),
            3 => st.push(St::IdxGlobal(loose_name(r))),
            4 => {
                st.pop();
            }
            5 => {
                st.pop();
                st.push(St::Big((*r.pick(&BIG)).into()));
            }
            _ => {
                *root = match root {
                    Root::Name(n) => Root::Global(n.clone()),
                    Root::Global(n) => Root::Name(n.clone()),
                }
            }
        },
        (0..=3, E::Inc(k, _)) => *k = *r.pick(&[None, Some(Kind::Obj), Some(Kind::Str), Some(Kind::Arr), Some(Kind::Tup)]),
        (0..=2, E::Arr(v)) => {
            let v = std::mem::take(v);
            *e = E::Tup(v);
        }
        (0..=2, E::Tup(v)) => {
            let v = std::mem::take(v);
            *e = E::Arr(v);
        }
        (3..=4, E::Arr(v) | E::Tup(v)) => v.push(other),
        (0..=4, E::Chain(_, v)) => {
            let i = r.below(v.len());
            v[i].0 = *r.pick(&['+', '-', '*', '/', '%']);
        }
        (5, _) => *e = big(r),
        (6, _) => {
            let x = e.clone();
            *e = E::Un(r.pct(70), Box::new(x));
        }
        (7, _) => {
            let x = e.clone();
            let y = if r.pct(50) { big(r) } else { other };
            *e = E::Chain(Box::new(x), vec![(*r.pick(&['+', '-', '*', '/', '%']), y)]);
        }
        (8, _) => *e = other,
        _ => *e = loose_atom(r, 1, files),
    }
}

fn digits(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        s.push((b'0' + r.below(10) as u8) as char);
        if i + 1 < n && r.pct(6) {
            s.push('_');
        }
    }
    s
}

pub struct Gen<'a, 'b> {
    pub r: &'a mut Rng,
    pub ld: Loader<'b>,
    pub sc: Scope,
    pub o: Opts,
    /// Includes this file may use: expression text, kind.
    pub incs: Vec<(String, Kind)>,
    /// Files that hold the path of another (that path, the file, whether in a field of an object).
    pub via: Vec<(String, String, bool)>,
    pub n: usize,
}

impl Gen<'_, '_> {
    pub fn ty(&mut self, d: usize) -> MT {
        let k = self.r.below(if d == 0 { 12 } else { 20 });
        match k {
            0 => MT::Null,
            1 | 2 => MT::Bool,
            3..=5 => MT::Int,
            6..=8 => MT::Frac,
            9..=11 => MT::Str,
            12 if self.r.pct(40) => MT::Arr(Box::new(MT::Any)),
            12..=14 => MT::Arr(Box::new(self.ty(d - 1))),
            15 | 16 => {
                let n = self.r.below(4);
                MT::Tup((0..n).map(|_| self.ty(d - 1)).collect())
            }
            _ => MT::Obj,
        }
    }

    fn refs(&self, pairs: &[(String, MV)], t: &MT) -> Vec<E> {
        let mut out = vec![];
        for (n, v) in pairs {
            self.walk(Root::Name(n.clone()), &mut vec![], v, pairs, t, &mut out);
        }
        for (n, v) in &self.sc.globals {
            self.walk(Root::Global(n.clone()), &mut vec![], v, pairs, t, &mut out);
        }
        out
    }

    fn walk(&self, root: Root, st: &mut Vec<St>, v: &MV, scope: &[(String, MV)], t: &MT, out: &mut Vec<E>) {
        if out.len() > 200 {
            return;
        }
        if &v.ty() == t && v.w() < 400 {
            out.push(E::Var(root.clone(), st.clone()));
        }
        let MV::Node(n) = v else { return };
        if n.kind == Kind::Obj {
            if st.len() >= 3 {
                return;
            }
            let sub: Vec<(String, MV)> = n.fields.iter().cloned().zip(n.items.iter().cloned()).collect();
            for (f, x) in &sub {
                st.push(St::Field(f.clone()));
                self.walk(root.clone(), st, x, &sub, t, out);
                st.pop();
            }
        } else {
            for (i, x) in n.items.iter().enumerate().take(6) {
                if &x.ty() != t || x.w() >= 400 {
                    continue;
                }
                let is_i = |v: &MV| matches!(v, MV::Int(k) if k.to_string() == i.to_string());
                st.push(St::Idx(i as u32));
                out.push(E::Var(root.clone(), st.clone()));
                st.pop();
                if let Some(p) = scope.iter().find(|p| is_i(&p.1)) {
                    st.push(St::IdxName(p.0.clone()));
                    out.push(E::Var(root.clone(), st.clone()));
                    st.pop();
                }
                if let Some(p) = self.sc.globals.iter().find(|p| is_i(p.1)) {
                    st.push(St::IdxGlobal(p.0.clone()));
                    out.push(E::Var(root.clone(), st.clone()));
                    st.pop();
                }
            }
        }
    }

    fn lit(&mut self, t: &MT, d: usize, pairs: &[(String, MV)]) -> E {
        match t {
            MT::Null | MT::Any => E::Null,
            MT::Bool => E::Bool(self.r.pct(50)),
            MT::Int => match self.r.below(10) {
                0 => {
                    let n = self.r.range(10, 60);
                    E::Int(digits(self.r, n))
                }
                1 => E::Un(true, Box::new(E::Int(digits(self.r, 2)))),
                2 => E::Int(digits(self.r, 5)),
                _ => E::Int(self.r.below(4).to_string()),
            },
            MT::Frac => {
                let (a, b) = match self.r.below(6) {
                    0 => (String::new(), digits(self.r, 3)),
                    1 => (digits(self.r, 2), String::new()),
                    2 => (digits(self.r, 12), digits(self.r, 14)),
                    _ => (digits(self.r, 1), digits(self.r, 2)),
                };
                let c = self.r.pct(15);
                let e = E::Dec(a, b, c);
                if self.r.pct(20) {
                    E::Un(self.r.pct(80), Box::new(e))
                } else {
                    e
                }
            }
            MT::Str => {
                let mut s = string(self.r, self.o.wild);
                if self.o.big > 0 && self.r.pct(if self.o.big > 5_000 { 20 } else { 5 }) {
                    let k = self.r.range(1, self.o.big);
                    s.push_str(&"é0123456789abcde".repeat(k / 16 + 1));
                }
                E::Str(s)
            }
            MT::Arr(x) => {
                let n = if **x == MT::Any { 0 } else { self.r.below(4) };
                E::Arr((0..n).map(|_| self.of(x, d.saturating_sub(1), pairs)).collect())
            }
            MT::Tup(v) => E::Tup(v.iter().map(|x| self.of(x, d.saturating_sub(1), pairs)).collect()),
            MT::Obj => {
                let n = self.r.below(if d == 0 { 2 } else { 4 });
                E::Obj(self.fields(n, d.saturating_sub(1)))
            }
        }
    }

    /// An expression of this type.
    pub fn of(&mut self, t: &MT, d: usize, pairs: &[(String, MV)]) -> E {
        for _ in 0..3 {
            let saved = self.sc.globals.clone();
            let e = self.of1(t, d, pairs);
            // Generating an object has evaluated its fields already: start from the same state.
            self.sc.globals = saved.clone();
            match self.ld.eval(&e, pairs, &mut self.sc) {
                Ok(v) if v.ty() == *t && v.w() < 1500 && v.d() < 14 => {
                    self.sc.globals = saved;
                    return e;
                }
                _ => self.sc.globals = saved,
            }
        }
        match t {
            MT::Null | MT::Any => E::Null,
            MT::Bool => E::Bool(true),
            MT::Int => E::Int("7".into()),
            MT::Frac => E::Dec("1".into(), "5".into(), false),
            MT::Str => E::Str("s".into()),
            MT::Arr(_) | MT::Tup(_) => self.plain(t),
            MT::Obj => E::Obj(vec![]),
        }
    }

    fn plain(&self, t: &MT) -> E {
        match t {
            MT::Arr(x) if **x == MT::Any => E::Arr(vec![]),
            MT::Arr(x) => {
                // Exactly this element type.
                E::Arr(vec![self.plain(x)])
            }
            MT::Tup(v) => E::Tup(v.iter().map(|x| self.plain(x)).collect()),
            MT::Bool => E::Bool(false),
            MT::Int => E::Int("1".into()),
            MT::Frac => E::Dec("2".into(), "5".into(), false),
            MT::Str => E::Str("p".into()),
            MT::Obj => E::Obj(vec![]),
            MT::Any => E::Null,
            MT::Null => E::Null,
        }
    }

    fn of1(&mut self, t: &MT, d: usize, pairs: &[(String, MV)]) -> E {
        if self.r.pct(22) {
            let v = self.refs(pairs, t);
            if !v.is_empty() {
                return self.r.pick(&v).clone();
            }
        }
        if *t == MT::Str && self.r.pct(8) {
            let v: Vec<_> = self.incs.clone();
            if !v.is_empty() {
                let (p, _) = self.r.pick(&v).clone();
                return E::Inc(Some(Kind::Str), Box::new(E::Str(p)));
            }
        }
        if self.r.pct(25) {
            let op: &[char] = match t {
                MT::Int => &['+', '-', '*', '%'],
                MT::Frac => &['+', '-', '*', '/'],
                MT::Str | MT::Arr(_) => &['+'],
                _ => &[],
            };
            if !op.is_empty() {
                let n = self.r.range(1, 3);
                let num = if *t == MT::Frac && self.r.pct(40) { MT::Int } else { t.clone() };
                let v = if self.r.pct(45) { self.refs(pairs, &num) } else { vec![] };
                let first = match t {
                    _ if !v.is_empty() => self.r.pick(&v).clone(),
                    MT::Arr(_) if self.r.pct(12) => E::Arr(vec![]),
                    _ => self.lit(&num, d.min(1), pairs),
                };
                let rest = (0..n)
                    .map(|_| {
                        let o = *self.r.pick(op);
                        let x = if self.r.pct(30) {
                            let v = self.refs(pairs, t);
                            if v.is_empty() {
                                self.lit(t, d.min(1), pairs)
                            } else {
                                self.r.pick(&v).clone()
                            }
                        } else if matches!(t, MT::Arr(_)) && self.r.pct(25) {
                            E::Arr(vec![])
                        } else {
                            self.lit(t, d.min(1), pairs)
                        };
                        (o, x)
                    })
                    .collect();
                return E::Chain(Box::new(first), rest);
            }
        }
        self.lit(t, d, pairs)
    }

    fn inc_expr(&mut self) -> Option<(E, Option<E>)> {
        if self.incs.is_empty() {
            return None;
        }
        let v = self.incs.clone();
        let (p, k) = self.r.pick(&v).clone();
        let k = if self.r.pct(12) { Kind::Str } else { k };
        let kind = if k == Kind::Obj && self.r.pct(50) { None } else { Some(k) };
        if let Some((_, f, obj)) = self.via.iter().find(|v| v.0 == p).cloned() {
            if self.r.pct(60) {
                return Some(if obj {
                    (E::Inc(kind, Box::new(E::Null)), Some(E::Inc(None, Box::new(E::Str(f)))))
                } else {
                    (E::Inc(kind, Box::new(E::Inc(Some(Kind::Str), Box::new(E::Str(f))))), None)
                });
            }
        }
        Some(match self.r.below(10) {
            0 => {
                let i = p.char_indices().nth(p.chars().count() / 2).map_or(0, |x| x.0);
                let (a, b) = p.split_at(i);
                (E::Inc(kind, Box::new(E::Chain(Box::new(E::Str(a.into())), vec![('+', E::Str(b.into()))]))), None)
            }
            1 => (E::Inc(kind, Box::new(E::Null)), Some(E::Str(p))),
            _ => (E::Inc(kind, Box::new(E::Str(p))), None),
        })
    }

    /// `n` fields of one object, in the current file.
    pub fn fields(&mut self, n: usize, d: usize) -> Vec<(F, E)> {
        self.fields_inc(n, d, if d > 0 { self.o.inc / 3 } else { 0 })
    }

    pub fn fields_inc(&mut self, n: usize, d: usize, inc: usize) -> Vec<(F, E)> {
        let mut out: Vec<(F, E)> = vec![];
        let mut pairs: Vec<(String, MV)> = vec![];
        let mut parent = None;
        for _ in 0..n {
            self.n += 1;
            let i = self.n;
            let f = match self.r.below(20) {
                0..=14 => F::Name(names(self.r, i)),
                15..=17 => F::Global(names(self.r, i)),
                _ if parent.is_none() => F::Parent,
                _ => F::Name(names(self.r, i)),
            };
            let mut e = None;
            if self.r.pct(inc) {
                if let Some((x, pre)) = self.inc_expr() {
                    match pre {
                        None => e = Some(x),
                        Some(p) => {
                            // The path is in a variable.
                            let g = format!("p{}", self.n);
                            let glob = self.r.pct(50);
                            let (pf, root) = if glob {
                                (F::Global(g.clone()), Root::Global(g))
                            } else {
                                (F::Name(g.clone()), Root::Name(g))
                            };
                            if self.ld.field(&pf, &p, &mut pairs, &mut parent, &mut self.sc).is_ok() {
                                out.push((pf, p));
                                if let E::Inc(k, _) = x {
                                    let st = if matches!(out.last(), Some((_, E::Inc(..)))) { vec![St::Field("path".into())] } else { vec![] };
                                    e = Some(E::Inc(k, Box::new(E::Var(root, st))));
                                }
                            }
                        }
                    }
                }
            }
            let again = if out.is_empty() || !self.r.pct(8) { None } else { Some(self.r.pick(&out).1.clone()) };
            let mut e = match e.or(again) {
                Some(e) => e,
                None => {
                    let t = if matches!(f, F::Parent) { MT::Obj } else { self.ty(d) };
                    self.of(&t, d, &pairs)
                }
            };
            if matches!(f, F::Parent) {
                let saved = self.sc.globals.clone();
                let isobj = matches!(self.ld.eval(&e, &pairs, &mut self.sc), Ok(ref v) if v.as_obj().is_some());
                self.sc.globals = saved;
                if !isobj {
                    e = E::Obj(vec![(F::Name(format!("par{}", i)), E::Int("1".into()))]);
                }
            }
            let saved = self.sc.globals.clone();
            if self.ld.field(&f, &e, &mut pairs, &mut parent, &mut self.sc).is_ok() {
                out.push((f, e));
            } else {
                self.sc.globals = saved;
            }
        }
        out
    }
}

const DIRS: [&str; 13] = [
    "/wa", "/w/ab", "/w", "/w/a", "/w/a/b", "/w/c d", "/x", "/x/y/z", "/w/über", "/", "/w/~", "/w/$HOME",
    // Longer than most buffers for a path somebody thought would do.
    "/w/a-directory-whose-name-is-rather-long-because-nobody-thought-about-it-when-it-was-made/and-another-one-inside-of-it-größer-als-alle-die-anderen-die-es-hier-gibt",
];
const EXTS: [&str; 5] = [".over", ".txt", "", ".over.bak", ".é"];

fn rel(from_dir: &str, to: &str) -> String {
    let a: Vec<&str> = from_dir.split('/').filter(|x| !x.is_empty()).collect();
    let b: Vec<&str> = to.split('/').filter(|x| !x.is_empty()).collect();
    let mut k = 0;
    while k < a.len() && k + 1 < b.len() && a[k] == b[k] {
        k += 1;
    }
    let mut o: Vec<&str> = vec![".."; a.len() - k];
    o.extend(&b[k..]);
    o.join("/")
}

pub fn dir_of(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}

/// Many levels of one kind of container, or of any.
pub fn nest(r: &mut Rng) -> E {
    let (n, k) = (r.range(8, 46), r.below(5));
    let mut e = E::Int(n.to_string());
    for _ in 0..n {
        e = match if k < 3 { k } else { r.below(3) } {
            0 => E::Arr(vec![e]),
            1 => E::Tup(if r.pct(15) { vec![E::Null, e] } else { vec![e] }),
            _ => E::Obj(vec![(F::Name("in".into()), e)]),
        };
    }
    e
}

/// A spelling of `to` for use in the file canonically at `from` (None: memory, at `cwd`).
pub fn spell(r: &mut Rng, vfs: &Vfs, from: Option<&str>, cwd: &str, to: &str) -> (String, bool) {
    let base = from.map_or_else(|| cwd.to_string(), dir_of);
    let full = |s: &str| -> String { if s.starts_with('/') { s.into() } else { format!("{}/{}", base, s) } };
    let want = vfs.canon(to.as_bytes());
    for _ in 0..4 {
        let mut s = match r.below(10) {
            0 => to.to_string(),
            1 => format!("./{}", rel(&base, to)),
            2 => {
                // Down and up again through some existing directory.
                let d = *r.pick(&DIRS);
                let k = d.split('/').filter(|x| !x.is_empty()).count();
                format!("{}/{}{}", rel(&base, &format!("{}/q", d)).trim_end_matches("/q").trim_end_matches('q'), "../".repeat(k), &to[1..])
            }
            3 => rel(&base, to).replacen('/', "//", 1),
            _ => rel(&base, to),
        };
        if s.is_empty() || s.starts_with('/') && !to.starts_with('/') {
            s = to.into();
        }
        if vfs.canon(full(&s).as_bytes()) == want {
            let rel = !s.starts_with('/');
            return (s, rel);
        }
    }
    (to.into(), false)
}

fn base_of(p: &str) -> String {
    p.rsplit('/').next().unwrap_or("").to_string()
}

/// The same document with other numbers and texts, of the same size.
pub fn other_digits(d: &mut Doc) {
    let turn = |s: &mut String| {
        *s = s.chars().map(|c| match c { '1' => '2', '2' => '1', '3' => '1', 'a' => 'b', 'b' => 'a', 'e' => 'a', c => c }).collect();
    };
    let mut ps = vec![];
    match d {
        Doc::Obj(v) => v.iter_mut().for_each(|x| exprs(&mut x.1, &mut ps)),
        Doc::Arr(v) | Doc::Tup(v) => v.iter_mut().for_each(|x| exprs(x, &mut ps)),
        Doc::Text(s) => turn(s),
    }
    // Paths of includes stay.
    let skip: Vec<*mut E> = ps.iter().filter_map(|&p| match unsafe { &mut *p } { E::Inc(_, x) => Some(&mut **x as *mut E), _ => None }).collect();
    for p in ps {
        if skip.contains(&p) {
            continue;
        }
        match unsafe { &mut *p } {
            E::Int(s) => turn(s),
            _ => {}
        }
    }
}

/// A name another program could take for `s`.
fn near(r: &mut Rng, s: &str) -> String {
    let mut v = vec![
        format!("{}.over", s),
        s.trim().to_string(),
        s.replace('\\', "/"),
        s.to_lowercase(),
        s.to_uppercase(),
        s.replace("%20", " "),
        s.replace("$HOME", "").replace('~', "x"),
        s.replace('ü', "u\u{308}"),
        s.trim_end_matches('.').to_string(),
        s.split(['?', '#', ':', '*']).next().unwrap_or("").to_string(),
        s.replace(' ', ""),
        format!(" {}", s),
        format!("{} ", s),
        format!("{}/", s),
        format!("{}/.", s),
        format!("{}\u{0}", s),
        format!("file://{}", s),
        format!("/{}", s.trim_start_matches("./").trim_start_matches("../")),
        format!("nope/../{}", s),
        format!("{}/../{}", s, base_of(s)),
        s.replace("$HOME", "/x"),
        s.strip_suffix(".over").unwrap_or(s).to_string(),
        match (s.rfind('.'), s.rfind('/')) {
            (Some(i), None) => s[..i].to_string(),
            (Some(i), Some(j)) if i > j => s[..i].to_string(),
            _ => format!("{}.txt", s),
        },
    ];
    v.retain(|x| x != s && !x.is_empty() && !x.ends_with("..") && x.trim_matches('/') != "");
    r.pick(&v).clone()
}

/// A graph of files, generated leaves first; the last one is the root (an Obj).
pub fn graph(r: &mut Rng, o: &Opts) -> Graph {
    let n = r.range(o.files.0, o.files.1);
    let cwd = (*r.pick(&["/w", "/w", "/w", "/w/a", "/x/y/z", "/"])).to_string();
    let mut vfs = Vfs::new();
    let mut items = vec![];
    for d in DIRS {
        let _ = vfs.mkdirs(d.as_bytes());
        if d != "/" {
            items.push(FsItem { path: d.into(), node: FsNode::Dir });
        }
    }
    vfs.cwd = cwd.split('/').filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect();
    let mut dirlinks: Vec<(String, String)> = vec![];
    if o.links {
        for i in 0..r.below(3) {
            let t = *r.pick(&["/w/a", "/x/y/z", "/w/c d", "/w"]);
            let p = format!("{}/ln{}", r.pick(&["/w", "/x", "/w/a"]), i);
            let text = if r.pct(50) { t.to_string() } else { rel(&dir_of(&p), t) };
            let text = if text.is_empty() { t.to_string() } else { text };
            let _ = vfs.replace(p.as_bytes(), Node::Link(text.clone().into_bytes()));
            if vfs.canon(p.as_bytes()).map_or(false, |c| c == t.as_bytes()) {
                items.push(FsItem { path: p.clone(), node: FsNode::Link(text) });
                dirlinks.push((p, t.into()));
            } else {
                let _ = vfs.remove(p.as_bytes());
            }
        }
    }
    let mut reg = Registry::default();
    let mut files: Vec<GFile> = vec![];
    // Files that do not load (as their kind).
    let mut failing: Vec<usize> = vec![];
    for i in 0..=n {
        let is_root = i == n;
        let dir = if r.pct(50) { "/w" } else { *r.pick(&DIRS) };
        let name = if r.pct(85) {
            format!("{}{}{}", r.pick(&["f", "file", "ü", "sp ace", "a.b"]), i, r.pick(&EXTS))
        } else {
            let odd = *r.pick(&[" q", "q ", "a\\q", "\\q", "~q", "$HOMEq", "${q}", "%20q", "a:q", "q*", "q.", ".q", "..q", "-q", "#q", "<q>", "\"q", "'q'", "Qq", "q?", "q\tx", "q\nx", "file:q", "q,"]);
            let mut s = odd.replace('q', &format!("q{}", i));
            if r.pct(50) {
                // Any other character, or an escape of some kind.
                let odd: &[&str] = &[
                    "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "`", "{", "|", "}", "~",
                    "\r", "\u{7f}", "\u{1b}", "\u{a0}", "e\u{301}", "\u{ad}", "\u{200b}", "\u{200d}", "\u{2028}", "\u{feff}", "\u{fb01}", "\u{ff0e}", "\u{1f600}", "%2e",
                    "%41", "&amp;", "\\n", "\\u00e9", "$$", "${x}", "{a,b}", "[a]", "[!a]", "@2x", "#1", "?v=1", ";1", "~1", "..", "...", "  ", "x:y",
                ];
                s = format!("q{}", i);
                for _ in 0..r.range(1, 2) {
                    let t = *r.pick(odd);
                    match r.below(3) {
                        0 => s.insert_str(0, t),
                        1 => s.push_str(t),
                        _ => s = s.replacen("q", &format!("q{}", t), 1),
                    }
                }
            }
            s
        };
        let mut path = if dir == "/" { format!("/{}", name) } else { format!("{}/{}", dir, name) };
        let mut kind = if is_root { Kind::Obj } else { *r.pick(&[Kind::Obj, Kind::Obj, Kind::Obj, Kind::Str, Kind::Arr, Kind::Tup]) };
        // Another file of the same name, and perhaps the same size, somewhere else.
        let mut twin = None;
        if !is_root && !files.is_empty() && r.pct(20) {
            let f = r.pick(&files);
            let b = base_of(&f.path);
            let mut p = format!("{}/{}", if dir == "/" { "" } else { dir }, b);
            if r.pct(40) {
                // Next to it, by a name that is nearly the same.
                let b = match r.below(5) {
                    0 | 1 => b.to_uppercase(),
                    2 => b.chars().next().map_or(String::new(), |c| c.to_uppercase().to_string() + &b[c.len_utf8()..]),
                    3 => format!("{} ", b),
                    _ => format!("{}0", b),
                };
                let d = dir_of(&f.path);
                p = format!("{}/{}", if d == "/" { "" } else { &d }, b);
            }
            if vfs.canon(p.as_bytes()).is_err() {
                path = p;
                if r.pct(70) {
                    kind = f.kind;
                    twin = Some((f.doc.clone(), f.fmt));
                }
            }
        }
        // The same text in another directory, where its includes name other files.
        let mut mirror = None;
        if !is_root && r.pct(if o.hard { 15 } else { 6 }) {
            let v: Vec<usize> = (0..files.len()).filter(|&k| files[k].relative && files[k].kind != Kind::Str).collect();
            if !v.is_empty() {
                let f = &files[*r.pick(&v)];
                let d = *r.pick(&DIRS);
                let p = format!("{}/{}", if d == "/" { "" } else { d }, if r.pct(70) { base_of(&f.path) } else { format!("m{}", i) });
                if vfs.canon(p.as_bytes()).is_err() && dir_of(&f.path) != d {
                    for (s, _) in f.incs.iter().filter(|x| !x.0.starts_with('/')) {
                        let from = vfs.canon(format!("{}/{}", dir_of(&f.path), s).as_bytes()).unwrap_or_default();
                        let Some(t) = files.iter().find(|t| t.path.as_bytes() == from) else { continue };
                        let q = format!("{}/{}", if d == "/" { "" } else { d }, s);
                        let Ok(qd) = vfs.canon(dir_of(&q).as_bytes()).map(|c| String::from_utf8(c).unwrap_or_default()) else { continue };
                        let q = format!("{}/{}", if qd == "/" { "" } else { &qd }, base_of(&q));
                        if vfs.canon(q.as_bytes()).is_ok() || q.ends_with("/..") || q.ends_with("/.") || q.ends_with('/') || q == p {
                            continue;
                        }
                        let mut doc = t.doc.clone();
                        other_digits(&mut doc);
                        let bytes = render(&doc, t.fmt);
                        reg.add(&doc, bytes.clone());
                        let _ = vfs.put(q.as_bytes(), bytes);
                        items.push(FsItem { path: q, node: FsNode::File(FileSpec::doc(doc, t.fmt)) });
                    }
                    if Loader::new(&vfs, &reg).doc(&f.doc, Some(p.clone())).is_ok() {
                        path = p;
                        kind = f.kind;
                        mirror = Some((f.doc.clone(), f.fmt, f.incs.clone(), if o.hard && r.pct(40) { Some(f.path.clone()) } else { None }));
                    }
                }
            }
        }
        let mut incs = vec![];
        let mut bad_incs = vec![];
        let mut chain = 0;
        let mut relative = false;
        if kind != Kind::Str && mirror.is_none() {
            let m = r.below(5).min(files.len() + usize::from(is_root));
            for _ in 0..m {
                if files.is_empty() {
                    break;
                }
                let k = if r.pct(50) { files.len() - 1 } else { r.below(files.len()) };
                if files[k].chain >= 5 {
                    continue;
                }
                let target = if r.pct(25) && !files[k].alias.is_empty() { r.pick(&files[k].alias).clone() } else { files[k].path.clone() };
                let from = if is_root && o.mem { None } else { Some(path.as_str()) };
                let (s, rl) = spell(r, &vfs, from, &cwd, &target);
                relative |= rl;
                let mut ik = files[k].kind;
                if ik == Kind::Arr && r.pct(25) {
                    ik = Kind::Tup;
                }
                if failing.contains(&k) && ik != Kind::Str {
                    bad_incs.push((s.clone(), ik));
                }
                incs.push((s, ik));
                chain = chain.max(files[k].chain + 1);
            }
        }
        let file = if is_root && o.mem { None } else { Some(path.clone()) };
        let mut via = vec![];
        for (s, _) in &incs {
            if r.pct(7) {
                let d = if file.is_none() { cwd.clone() } else { dir_of(&path) };
                let v = format!("via{}{}", i, ["", "b", "c", "d", "e", "f"][via.len().min(5)]);
                let obj = r.pct(40);
                let doc = if obj { Doc::Obj(vec![(F::Name("path".into()), E::Str(s.clone()))]) } else { Doc::Text(s.clone()) };
                let q = format!("{}/{}", if d == "/" { "" } else { &d }, v);
                if vfs.canon(q.as_bytes()).is_err() {
                    let bytes = render(&doc, 0);
                    reg.add(&doc, bytes.clone());
                    let _ = vfs.put(q.as_bytes(), bytes);
                    items.push(FsItem { path: q, node: FsNode::File(FileSpec::doc(doc, 0)) });
                    via.push((s.clone(), v, obj));
                }
            }
        }
        let mut news: Vec<(String, FsNode)> = vec![];
        let mut hard = None;
        let doc = if let Some((d, f, v, h)) = mirror {
            twin = Some((d.clone(), f));
            incs = v;
            chain = 1;
            relative = true;
            hard = h;
            d
        } else {
            let ld = Loader::new(&vfs, &reg);
            let mut g = Gen { r: &mut *r, ld, sc: Scope { file: file.clone(), globals: Default::default() }, o: o.clone(), incs: incs.clone(), via: via.clone(), n: 0 };
            let mut k = g.r.range(usize::from(is_root), o.fields);
            if o.fields > 3 && g.r.pct(4) {
                // Many fields, many of them global.
                k = g.r.range(10, 30);
            }
            let mut doc = match kind {
                Kind::Obj => Doc::Obj(g.fields_inc(k, o.depth, if i > 0 { o.inc } else { 0 })),
                Kind::Str => {
                    let mut s = String::new();
                    for _ in 0..g.r.below(5) {
                        let x = string(g.r, o.wild);
                        s.push_str(&x);
                    }
                    if o.big > 0 && g.r.pct(30) {
                        let k = g.r.range(1, o.big);
                        s.push_str(&"0123456789é\n".repeat(k / 13 + 1));
                    }
                    Doc::Text(s)
                }
                Kind::Arr => {
                    let t = g.ty(o.depth);
                    Doc::Arr((0..k.min(4)).map(|_| g.of(&t, o.depth.saturating_sub(1), &[])).collect())
                }
                Kind::Tup => {
                    let mut v = vec![];
                    for _ in 0..k.min(4) {
                        let t = g.ty(o.depth);
                        v.push(g.of(&t, o.depth.saturating_sub(1), &[]));
                    }
                    for _ in 0..2 {
                        if g.r.pct(o.inc) {
                            if let Some((e, None)) = g.inc_expr() {
                                v.push(e);
                            }
                        }
                    }
                    Doc::Tup(v)
                }
            };
            if g.r.pct(2) {
                // Very many.
                let n = g.r.range(40, 90) << g.r.below(4);
                match &mut doc {
                    Doc::Obj(v) => {
                        for i in 0..n {
                            let f = format!("wide{}", i);
                            let e = if g.r.pct(90) { E::Int(i.to_string()) } else { E::Str(string(g.r, o.wild)) };
                            v.push((if i % 5 == 3 { F::Global(f) } else { F::Name(f) }, e));
                        }
                    }
                    Doc::Arr(v) if v.iter().all(|e| matches!(e, E::Int(_))) => v.extend((0..n).map(|i| E::Int(i.to_string()))),
                    Doc::Tup(v) => v.extend((0..n).map(|i| E::Int(i.to_string()))),
                    _ => {}
                }
            }
            if g.r.pct(2) {
                // Very deep.
                let e = nest(g.r);
                match &mut doc {
                    Doc::Obj(v) => v.push((F::Name("deep".into()), e)),
                    Doc::Tup(v) => v.push(e),
                    _ => {}
                }
            }
            if let Some((d, _)) = &twin {
                doc = d.clone();
                other_digits(&mut doc);
            }
            if o.broken > 0 && i > 0 && g.r.pct(60) {
                if let Doc::Obj(v) = &mut doc {
                    let f = if g.r.pct(70) { F::Name("up".into()) } else { F::Global("up".into()) };
                    if v.iter().all(|x| x.0 != f) {
                        v.insert(0, (f, E::Int("9".into())));
                    }
                }
            }
            if g.r.pct(35) {
                // Names that many files of the graph define, each for itself.
                for _ in 0..g.r.range(1, 2) {
                    let n = format!("sh{}", g.r.below(2));
                    let f = if g.r.pct(65) { F::Global(n) } else { F::Name(n) };
                    if let Doc::Obj(v) = &mut doc {
                        if v.iter().all(|x| x.0 != f) {
                            v.insert(0, (f, E::Int(i.to_string())));
                        }
                    }
                }
            }
            if g.r.pct(o.broken) {
                let bad = match g.r.below(14) {
                    // Something that is neither a file nor a directory.
                    12 | 13 => {
                        let s = *g.r.pick(&[Sp::Fifo, Sp::Fifo, Sp::Null, Sp::Zero, Sp::Sock]);
                        let d = if g.r.pct(50) { dir_of(&path) } else { (*g.r.pick(&DIRS)).to_string() };
                        let mut q = format!("{}/dev{}{}", if d == "/" { "" } else { &d }, i, g.r.pick(&["", ".over"]));
                        news.push((q.clone(), FsNode::Special(s)));
                        if g.r.pct(25) {
                            news.push((format!("{}l", q), FsNode::Link(base_of(&q))));
                            q.push('l');
                        }
                        let mut v2 = vfs.clone();
                        for (q, n) in &news {
                            if let FsNode::Special(s) = n {
                                let _ = v2.replace(q.as_bytes(), Node::Special(*s));
                            } else if let FsNode::Link(t) = n {
                                let _ = v2.replace(q.as_bytes(), Node::Link(t.clone().into_bytes()));
                            }
                        }
                        let k = *g.r.pick(&[None, Some(Kind::Obj), Some(Kind::Str), Some(Kind::Str), Some(Kind::Arr), Some(Kind::Tup)]);
                        E::Inc(k, Box::new(E::Str(spell(g.r, &v2, file.as_deref(), &cwd, &q).0)))
                    }
                    // A name only files that include this one define.
                    10 | 11 => E::Var(if g.r.pct(75) { Root::Name("up".into()) } else { Root::Global("up".into()) }, vec![]),
                    // Names other files define.
                    0 | 1 => E::Var(Root::Global(format!("sh{}", g.r.below(2))), vec![]),
                    2 | 3 => E::Var(Root::Name(format!("sh{}", g.r.below(2))), vec![]),
                    4 => E::Var(Root::Global(names(g.r, 1)), vec![]),
                    5 => E::Var(Root::Name(names(g.r, 2)), vec![]),
                    // A file that is not here but elsewhere.
                    6..=8 if g.incs.is_empty() || g.r.pct(30) => {
                        let here = if file.is_none() { cwd.clone() } else { dir_of(&path) };
                        let v: Vec<String> = files.iter().filter(|f| f.kind == Kind::Obj).map(|f| base_of(&f.path)).filter(|b| vfs.canon(format!("{}/{}", here, b).as_bytes()).is_err()).collect();
                        let s = if v.is_empty() { "nosuch.over".to_string() } else { g.r.pick(&v).clone() };
                        E::Inc(None, Box::new(E::Str(s)))
                    }
                    6..=8 => {
                        let s = g.r.pick(&g.incs).0.clone();
                        E::Inc(None, Box::new(E::Str(near(g.r, &s))))
                    }
                    _ => {
                        let d = if g.r.pct(40) { dir.to_string() } else { (*g.r.pick(&[".", "..", "a", "../w", "", "b", "./", "c d"])).to_string() };
                        E::Inc(None, Box::new(E::Str(d)))
                    }
                };
                match &mut doc {
                    Doc::Obj(v) => v.push((F::Name("bad".into()), bad)),
                    Doc::Arr(v) | Doc::Tup(v) => v.push(bad),
                    Doc::Text(_) => {}
                }
            }
            if o.broken > 0 && !is_root && g.r.pct(10) {
                let up = E::Var(if g.r.pct(75) { Root::Name("up".into()) } else { Root::Global("up".into()) }, vec![]);
                match &mut doc {
                    Doc::Arr(v) => *v = vec![up],
                    Doc::Tup(v) => v.insert(0, up),
                    _ => {}
                }
            }
            if kind != Kind::Str && g.r.pct(o.loose) {
                let names: Vec<String> = g.incs.iter().map(|x| x.0.clone()).collect();
                for _ in 0..4 {
                    let l = if g.r.pct(60) {
                        let mut d = doc.clone();
                        for _ in 0..g.r.range(1, 2) {
                            twist(g.r, &mut d, &names);
                        }
                        d
                    } else {
                        loose(g.r, kind, &names)
                    };
                    let mut l2 = Loader::new(&vfs, &reg);
                    match l2.doc(&l, file.clone()) {
                        Ok(v) if v.w() < 1500 && v.d() < 14 => {
                            doc = l;
                            break;
                        }
                        Err(e) if o.broken > 0 && !matches!(e, MErr::Unknown(_)) => {
                            doc = l;
                            break;
                        }
                        _ => {}
                    }
                }
            }
            // (Fields that fail are not kept above.)
            if !bad_incs.is_empty() && g.r.pct(70) {
                let (s, k) = g.r.pick(&bad_incs).clone();
                let e = E::Inc(Some(k), Box::new(E::Str(s)));
                match &mut doc {
                    Doc::Obj(v) => {
                        let at = if g.r.pct(70) { v.len() } else { g.r.below(v.len() + 1) };
                        v.insert(at, (F::Name("ib".into()), e))
                    }
                    Doc::Tup(v) => v.push(e),
                    _ => {}
                }
            }
            if o.broken > 0 && Loader::new(&vfs, &reg).doc(&doc, file.clone()).is_err() {
                failing.push(i);
            }
            // Arr and Tup items were checked one by one; drop the document if it does not evaluate.
            if o.broken == 0 {
                let mut l2 = Loader::new(&vfs, &reg);
                if l2.doc(&doc, file).is_err() {
                    doc = match kind {
                        Kind::Arr => Doc::Arr(vec![]),
                        Kind::Tup => Doc::Tup(vec![]),
                        Kind::Obj => Doc::Obj(vec![]),
                        Kind::Str => Doc::Text(String::new()),
                    };
                }
            }
            doc
        };
        for (q, n) in news {
            let _ = match &n {
                FsNode::Special(s) => vfs.replace(q.as_bytes(), Node::Special(*s)),
                FsNode::Link(t) => vfs.replace(q.as_bytes(), Node::Link(t.clone().into_bytes())),
                _ => Ok(()),
            };
            items.push(FsItem { path: q, node: n });
        }
        let fmt = r.next() >> 12;
        let fmt = twin.map_or(fmt, |x| x.1);
        let bytes = render(&doc, fmt);
        reg.add(&doc, bytes.clone());
        // Files that a wrong resolution of an include would find instead.
        let mut decoy = |r: &mut Rng, vfs: &mut Vfs, items: &mut Vec<FsItem>, base: &str, s: &str, k: Kind| {
            if s.starts_with('/') {
                return;
            }
            let full = format!("{}/{}", base, s);
            let Ok(d) = vfs.canon(dir_of(&full).as_bytes()) else { return };
            let Ok(d) = String::from_utf8(d) else { return };
            let q = format!("{}/{}", if d == "/" { "" } else { &d }, base_of(&full));
            if q.contains('\u{0}') || vfs.canon(q.as_bytes()).is_ok() || q.ends_with('/') || q.ends_with("/..") || q.ends_with("/.") {
                return;
            }
            let n = E::Int((1000 + r.below(9000)).to_string());
            let doc = match k {
                Kind::Obj => Doc::Obj(vec![(F::Name("decoy".into()), n)]),
                Kind::Arr => Doc::Arr(vec![n]),
                Kind::Tup => Doc::Tup(vec![n]),
                Kind::Str => Doc::Text("decoy".into()),
            };
            let bytes = render(&doc, 0);
            reg.add(&doc, bytes.clone());
            let _ = vfs.put(q.as_bytes(), bytes);
            items.push(FsItem { path: q, node: FsNode::File(FileSpec::doc(doc, 0)) });
        };
        for (s, k) in &incs {
            if r.pct(20) {
                let d = *r.pick(&DIRS);
                decoy(r, &mut vfs, &mut items, d, s, *k);
            }
            if r.pct(25) {
                let d = if r.pct(80) { dir_of(&path) } else { (*r.pick(&DIRS)).to_string() };
                for _ in 0..r.range(1, 4) {
                    let s = near(r, s);
                    decoy(r, &mut vfs, &mut items, &d, &s, *k);
                }
            }
        }
        if is_root && o.mem {
            files.push(GFile { path, kind, doc, fmt, alias: vec![], incs, chain, relative });
            continue;
        }
        match hard {
            Some(h) => {
                let _ = vfs.hardlink(path.as_bytes(), h.as_bytes());
                items.push(FsItem { path: path.clone(), node: FsNode::Hard(h) });
            }
            None => {
                let _ = vfs.put(path.as_bytes(), bytes);
                items.push(FsItem { path: path.clone(), node: FsNode::File(FileSpec::doc(doc.clone(), fmt)) });
            }
        }
        let mut alias = vec![];
        for (l, t) in &dirlinks {
            if path.starts_with(t) && path.as_bytes().get(t.len()) == Some(&b'/') {
                alias.push(format!("{}{}", l, &path[t.len()..]));
            }
        }
        if o.links && r.pct(25) {
            let d = dir_of(&path);
            let d = if relative && r.pct(40) { d } else { (*r.pick(&DIRS)).to_string() };
            for (s, k) in &incs {
                decoy(r, &mut vfs, &mut items, &d, s, *k);
            }
            let p = format!("{}/sym{}", if d == "/" { "" } else { &d }, i);
            let text = if r.pct(50) { path.clone() } else { rel(&dir_of(&p), &path) };
            let _ = vfs.replace(p.as_bytes(), Node::Link(text.clone().into_bytes()));
            items.push(FsItem { path: p.clone(), node: FsNode::Link(text) });
            alias.push(p);
        }
        files.push(GFile { path, kind, doc, fmt, alias, incs, chain, relative });
    }
    let root = files.len() - 1;
    let mut more = vec![];
    if r.pct(12) {
        // What editors leave behind.
        let sfx = *r.pick(&[".bak", "~", ".old", ".orig", ".tmp", ".new", ".swp", ".lock"]);
        for f in &files[..root] {
            let mut doc = f.doc.clone();
            other_digits(&mut doc);
            more.push((format!("{}{}", f.path, sfx), doc, f.fmt));
        }
    }
    // What a path gives whose separators get lost, or appear.
    for f in &files {
        for (a, b) in [("/w/ab/", "/w/a/b/"), ("/wa/", "/w/a/"), ("/w/a/b/", "/w/ab/"), ("/w/a/", "/wa/")] {
            if f.path.starts_with(a) && r.pct(50) {
                let mut doc = f.doc.clone();
                other_digits(&mut doc);
                more.push((f.path.replacen(a, b, 1), doc, f.fmt));
            }
        }
    }
    if o.broken > 0 && r.pct(25) {
        // What some programs take a directory for.
        let name = *r.pick(&["index.over", "index.over", "main.over", "mod.over", "default.over", "init.over", ".over", "index"]);
        for d in DIRS {
            let doc = Doc::Obj(vec![(F::Name("index".into()), E::Int("1".into()))]);
            more.push((format!("{}/{}", if d == "/" { "" } else { d }, name), doc, 0));
        }
    }
    for (q, doc, fmt) in more {
        if vfs.canon(q.as_bytes()).is_err() {
            let bytes = render(&doc, fmt);
            reg.add(&doc, bytes.clone());
            let _ = vfs.put(q.as_bytes(), bytes);
            items.push(FsItem { path: q, node: FsNode::File(FileSpec::doc(doc, fmt)) });
        }
    }
    let root_spec = FileSpec::doc(files[root].doc.clone(), files[root].fmt);
    let rp = if r.pct(20) && !files[root].alias.is_empty() { r.pick(&files[root].alias).clone() } else { files[root].path.clone() };
    let root_path = if r.pct(30) { rp } else { rel(&cwd, &rp) };
    Graph { items, vfs, reg, files, root, root_path, root_spec, cwd }
}

pub fn delivery(r: &mut Rng) -> Delivery {
    if r.pct(35) {
        return Delivery::default();
    }
    let n = r.range(1, 4);
    let chunks = (0..n)
        .map(|_| match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.range(2, 5) as u32,
            3 => r.range(6, 40) as u32,
            _ => r.logu(20_000) as u32,
        })
        .collect();
    Delivery { chunks, eintr: if r.pct(40) { r.range(2, 5) as u32 } else { 0 } }
}

