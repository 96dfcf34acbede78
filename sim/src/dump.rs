//! What a value looks like through the library's public interface, as a graph; and comparison of
//! such a graph with the model's.

use crate::{lang::*, rt::api};
use over::{types::Type, value::Value, ReferenceType};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DN {
    Null,
    Bool(bool),
    Int(String),
    Frac(String, String),
    Str(String),
    Ref(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Node {
    pub kind: Kind,
    pub id: u64,
    pub refs: u64,
    /// The type, printed.
    pub t: String,
    pub items: Vec<DN>,
    pub fields: Vec<String>,
    pub parent: Option<u32>,
    /// What it answers to what it has not got, and how an array or tuple of plain values is shown
    /// (for the first instances).
    pub says: Vec<String>,
    /// What different handles said about this one instance when they disagreed.
    pub odd: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Dump {
    pub nodes: Vec<Node>,
    pub roots: Vec<(u32, DN)>,
}

#[derive(Default)]
pub struct Dumper {
    pub d: Dump,
    seen: HashMap<usize, u32>,
}

pub fn ty(t: &Type) -> MT {
    match t {
        Type::Any => MT::Any,
        Type::Null => MT::Null,
        Type::Bool => MT::Bool,
        Type::Int => MT::Int,
        Type::Frac => MT::Frac,
        Type::Str => MT::Str,
        Type::Arr(t) => MT::Arr(Box::new(ty(t))),
        Type::Tup(v) => MT::Tup(v.iter().map(ty).collect()),
        Type::Obj => MT::Obj,
    }
}

/// Instances that are asked what they say.
const ASKED: u32 = 10;

/// Error messages of the typed access to a value.
fn mismatches(v: &Value, says: &mut Vec<String>) {
    if !matches!(v, Value::Int(_)) {
        says.extend(v.get_int().err().map(|e| e.to_string()));
    }
    if !matches!(v, Value::Str(_)) {
        says.extend(v.get_str().err().map(|e| e.to_string()));
    }
    if !matches!(v, Value::Obj(_)) {
        says.extend(v.get_obj().err().map(|e| e.to_string()));
    }
}

fn plain<'a>(mut v: impl Iterator<Item = &'a Value>) -> bool {
    v.all(|v| !matches!(v, Value::Obj(_) | Value::Arr(_) | Value::Tup(_)))
}

impl Dumper {
    fn node(&mut self, kind: Kind, addr: usize, id: usize, refs: usize) -> (u32, bool) {
        if let Some(&i) = self.seen.get(&addr) {
            let n = &mut self.d.nodes[i as usize];
            if n.id != id as u64 {
                n.odd = Some(format!("one instance reports ids {} and {}", n.id, id));
            }
            return (i, false);
        }
        let i = self.d.nodes.len() as u32;
        self.seen.insert(addr, i);
        self.d.nodes.push(Node {
            kind,
            id: id as u64,
            refs: refs as u64,
            t: String::new(),
            items: vec![],
            fields: vec![],
            parent: None,
            says: vec![],
            odd: None,
        });
        (i, true)
    }

    pub fn obj(&mut self, o: &over::Obj) -> u32 {
        let (addr, id, refs) = api(|| (o.pairs_ref() as *const _ as usize, o.id(), o.num_references()));
        let (i, new) = self.node(Kind::Obj, addr, id, refs);
        if new {
            let mut items = vec![];
            let mut fields = vec![];
            for p in api(|| o.pairs_ref()) {
                fields.push(p.0.clone());
                items.push(self.value(&p.1));
            }
            let par = api(|| o.get_parent());
            let hp = api(|| o.has_parent());
            let parent = par.as_ref().map(|p| {
                let known = self.d.nodes.len();
                let j = self.obj(p);
                if j as usize == known {
                    // Seen through the extra handle get_parent() made.
                    self.d.nodes[known].refs -= 1;
                }
                j
            });
            if let Some(p) = par {
                api(|| drop(p));
            }
            let n = &mut self.d.nodes[i as usize];
            if hp != parent.is_some() {
                n.odd = Some("has_parent and get_parent disagree".into());
            }
            n.items = items;
            n.fields = fields;
            n.parent = parent;
            n.t = "Obj".into();
            if i < ASKED {
                api(|| {
                    let mut says = vec![];
                    says.extend(o.get_int("no such").err().map(|e| e.to_string()));
                    for p in o.pairs_ref().iter().take(2) {
                        mismatches(&p.1, &mut says);
                        says.extend(o.get_bool(&p.0).err().map(|e| e.to_string()));
                    }
                    n.says = says;
                });
            }
        }
        i
    }

    pub fn value(&mut self, v: &Value) -> DN {
        match v {
            Value::Null => DN::Null,
            Value::Bool(b) => DN::Bool(*b),
            Value::Int(i) => DN::Int(i.to_string()),
            Value::Frac(f) => DN::Frac(f.numer().to_string(), f.denom().to_string()),
            Value::Str(s) => DN::Str(s.clone()),
            Value::Obj(o) => DN::Ref(self.obj(o)),
            Value::Arr(a) => {
                let (addr, id, refs) = api(|| (a.values_ref() as *const _ as usize, a.id(), a.num_references()));
                let (i, new) = self.node(Kind::Arr, addr, id, refs);
                if new {
                    let items = api(|| a.values_ref()).iter().map(|x| self.value(x)).collect();
                    let t = api(|| a.inner_type());
                    let n = &mut self.d.nodes[i as usize];
                    n.items = items;
                    n.t = format!("Arr({})", ty(&t));
                    if i < ASKED {
                        api(|| {
                            n.says.extend(a.get(a.len()).err().map(|e| e.to_string()));
                            if let Some(v) = a.values_ref().first() {
                                mismatches(v, &mut n.says);
                            }
                            if a.len() < 50 && plain(a.iter()) {
                                n.says.push(a.to_string());
                            }
                        });
                    }
                    api(|| drop(t));
                }
                DN::Ref(i)
            }
            Value::Tup(a) => {
                let (addr, id, refs) = api(|| (a.values_ref() as *const _ as usize, a.id(), a.num_references()));
                let (i, new) = self.node(Kind::Tup, addr, id, refs);
                if new {
                    let items = api(|| a.values_ref()).iter().map(|x| self.value(x)).collect();
                    let t = api(|| a.inner_type_vec());
                    let n = &mut self.d.nodes[i as usize];
                    n.items = items;
                    n.t = format!("{}", MT::Tup(t.iter().map(ty).collect()));
                    if i < ASKED {
                        api(|| {
                            n.says.extend(a.get(a.len()).err().map(|e| e.to_string()));
                            if let Some(v) = a.values_ref().first() {
                                mismatches(v, &mut n.says);
                            }
                            if a.len() < 50 && plain(a.iter()) {
                                n.says.push(a.to_string());
                            }
                        });
                    }
                    api(|| drop(t));
                }
                DN::Ref(i)
            }
        }
    }

    pub fn root(&mut self, key: u32, v: &Value) {
        let x = self.value(v);
        self.d.roots.push((key, x));
    }
}

pub fn dump(v: &Value) -> Dump {
    let mut d = Dumper::default();
    d.root(0, v);
    d.d
}

// ---------------------------------------------------------------- comparison

#[derive(Default)]
pub struct Cmp {
    to: HashMap<*const MNode, u32>,
    from: HashMap<u32, *const MNode>,
    done: std::collections::HashSet<(*const MNode, u32)>,
    /// Sharing must match exactly (one model instance = one real instance).
    pub identity: bool,
}

pub type Diff = Result<(), String>;

fn short(s: &str) -> String {
    let mut o: String = s.chars().take(60).collect();
    if o.len() < s.len() {
        o.push_str(&format!("... ({} bytes)", s.len()));
    }
    o
}

impl Cmp {
    pub fn new(identity: bool) -> Self {
        Cmp { identity, ..Default::default() }
    }
    pub fn value(&mut self, m: &MV, d: &Dump, x: &DN, at: &str) -> Diff {
        let same = match (m, x) {
            (MV::Null, DN::Null) => true,
            (MV::Bool(a), DN::Bool(b)) => a == b,
            (MV::Int(a), DN::Int(b)) => &a.to_string() == b,
            (MV::Frac(a), DN::Frac(n, q)) => &a.numer().to_string() == n && &a.denom().to_string() == q,
            (MV::Str(a), DN::Str(b)) => a == b,
            (MV::Node(n), DN::Ref(i)) => return self.node(n, d, *i, at),
            _ => false,
        };
        if same {
            Ok(())
        } else {
            Err(format!("{}: expected {}, got {}", at, show_m(m), show_d(d, x)))
        }
    }

    fn node(&mut self, n: &std::rc::Rc<MNode>, d: &Dump, i: u32, at: &str) -> Diff {
        let p = std::rc::Rc::as_ptr(n);
        if self.identity {
            match (self.to.get(&p), self.from.get(&i)) {
                (None, None) => {
                    self.to.insert(p, i);
                    self.from.insert(i, p);
                }
                (Some(&j), Some(&q)) if j == i && q == p => return Ok(()),
                (Some(_), _) => return Err(format!("{}: should be one shared instance, but is a separate one", at)),
                (None, Some(_)) => return Err(format!("{}: should be an instance of its own, but is shared", at)),
            }
        } else if !self.done.insert((p, i)) {
            return Ok(());
        }
        let x = &d.nodes[i as usize];
        if let Some(o) = &x.odd {
            return Err(format!("{}: {}", at, o));
        }
        if x.kind != n.kind {
            return Err(format!("{}: expected {:?}, got {:?}", at, n.kind, x.kind));
        }
        let t = MV::Node(n.clone()).ty().to_string();
        if t != x.t {
            return Err(format!("{}: expected type {}, got {}", at, t, x.t));
        }
        if n.fields != x.fields {
            return Err(format!("{}: expected fields {:?}, got {:?}", at, n.fields, x.fields));
        }
        if n.items.len() != x.items.len() {
            return Err(format!("{}: expected {} elements, got {}", at, n.items.len(), x.items.len()));
        }
        match (&n.parent, &x.parent) {
            (None, None) => {}
            (Some(a), Some(b)) => self.value(a, d, &DN::Ref(*b), &format!("{}.^", at))?,
            (a, _) => {
                return Err(format!("{}: expected {} parent", at, if a.is_some() { "a" } else { "no" }));
            }
        }
        for (k, (a, b)) in n.items.iter().zip(&x.items).enumerate() {
            let l = if n.kind == Kind::Obj { n.fields[k].clone() } else { k.to_string() };
            self.value(a, d, b, &format!("{}.{}", at, l))?;
        }
        Ok(())
    }
}

pub fn show_m(m: &MV) -> String {
    match m {
        MV::Str(s) => format!("Str {:?}", short(s)),
        MV::Node(n) => format!("{:?} of {} elements", n.kind, n.items.len()),
        MV::Int(i) => short(&format!("Int {}", i)),
        MV::Frac(i) => short(&format!("Frac {}", i)),
        x => format!("{:?}", x),
    }
}
pub fn show_d(d: &Dump, x: &DN) -> String {
    match x {
        DN::Str(s) => format!("Str {:?}", short(s)),
        DN::Ref(i) => format!("{:?} of {} elements", d.nodes[*i as usize].kind, d.nodes[*i as usize].items.len()),
        DN::Int(s) => short(&format!("Int {}", s)),
        x => short(&format!("{:?}", x)),
    }
}

/// Compares two observed graphs: values, types, sharing (ids and reference counts aside).
pub fn same(a: &Dump, b: &Dump) -> Diff {
    if a.nodes.len() != b.nodes.len() {
        return Err(format!("{} instances against {}", a.nodes.len(), b.nodes.len()));
    }
    // Both were numbered by the same traversal.
    for (i, (x, y)) in a.nodes.iter().zip(&b.nodes).enumerate() {
        if x.kind != y.kind || x.t != y.t || x.fields != y.fields || x.parent != y.parent {
            return Err(format!("instance {}: {} {:?} against {} {:?}", i, x.t, x.fields, y.t, y.fields));
        }
        if x.says != y.says {
            return Err(format!("instance {}: it says {:?} against {:?}", i, x.says, y.says));
        }
        if x.items != y.items {
            for (k, (p, q)) in x.items.iter().zip(&y.items).enumerate() {
                if p != q {
                    return Err(format!("instance {} element {}: {} against {}", i, k, show_d(a, p), show_d(b, q)));
                }
            }
            return Err(format!("instance {}: {} elements against {}", i, x.items.len(), y.items.len()));
        }
    }
    let (x, y): (Vec<&DN>, Vec<&DN>) = (a.roots.iter().map(|r| &r.1).collect(), b.roots.iter().map(|r| &r.1).collect());
    if x != y {
        return Err("different roots".into());
    }
    Ok(())
}
