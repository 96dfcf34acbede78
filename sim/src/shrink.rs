//! Makes a failing plan smaller while it keeps failing in the same way.
//!
//! It works on the plan as JSON: removes elements of arrays, reduces numbers, shortens texts. What
//! is no plan any more is skipped.

use crate::plan::Plan;
use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum At {
    K(String),
    I(usize),
}

fn get<'a>(v: &'a mut Value, p: &[At]) -> Option<&'a mut Value> {
    let mut v = v;
    for a in p {
        v = match a {
            At::K(k) => v.get_mut(k)?,
            At::I(i) => v.get_mut(*i)?,
        };
    }
    Some(v)
}

fn walk(v: &Value, p: &mut Vec<At>, f: &mut dyn FnMut(&[At], &Value)) {
    f(p, v);
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(At::I(i));
                walk(x, p, f);
                p.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                if p.is_empty() && !matches!(k.as_str(), "fs" | "epochs") {
                    continue;
                }
                p.push(At::K(k.clone()));
                walk(x, p, f);
                p.pop();
            }
        }
        _ => {}
    }
}

pub struct Shrink<'a> {
    pub fails: &'a mut dyn FnMut(&Plan) -> bool,
    pub tried: u64,
    pub until: Instant,
}

impl Shrink<'_> {
    fn ok(&mut self, v: &Value) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        let Ok(p) = serde_json::from_value::<Plan>(v.clone()) else { return false };
        if p.epochs.is_empty() {
            return false;
        }
        self.tried += 1;
        (self.fails)(&p)
    }

    pub fn run(plan: &Plan, secs: u64, fails: &mut dyn FnMut(&Plan) -> bool) -> (Plan, u64) {
        let mut s = Shrink { fails, tried: 0, until: Instant::now() + Duration::from_secs(secs) };
        let mut v = serde_json::to_value(plan).unwrap();
        loop {
            let before = v.to_string().len();
            s.arrays(&mut v);
            s.scalars(&mut v);
            if v.to_string().len() >= before || Instant::now() > s.until {
                break;
            }
        }
        (serde_json::from_value(v).unwrap(), s.tried)
    }

    fn arrays(&mut self, v: &mut Value) {
        // Outer arrays first: they take the most with them.
        let mut at: Vec<Vec<At>> = vec![];
        walk(v, &mut vec![], &mut |p, x| {
            if let Value::Array(a) = x {
                if !a.is_empty() {
                    at.push(p.to_vec());
                }
            }
        });
        at.sort_by_key(|p| p.len());
        for p in at {
            let Some(Value::Array(a)) = get(v, &p) else { continue };
            let mut n = a.len();
            let mut size = n;
            while size >= 1 {
                let mut i = 0;
                while i < n {
                    if Instant::now() > self.until {
                        return;
                    }
                    let mut w = v.clone();
                    let Some(Value::Array(a)) = get(&mut w, &p) else { break };
                    let j = (i + size).min(n);
                    a.drain(i..j);
                    if self.ok(&w) {
                        *v = w;
                        n -= j - i;
                    } else {
                        i += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size = (size / 2).max(1);
            }
        }
    }

    fn scalars(&mut self, v: &mut Value) {
        let mut at: Vec<Vec<At>> = vec![];
        walk(v, &mut vec![], &mut |p, x| {
            // Names and digits would no longer be what the model takes them for.
            let text = match p.last() {
                Some(At::K(k)) => matches!(k.as_str(), "Str" | "Raw"),
                Some(At::I(_)) => p.iter().any(|a| matches!(a, At::K(k) if k == "Insert" || k == "Append")),
                None => false,
            };
            if matches!(x, Value::Number(_)) || (text && x.is_string()) {
                at.push(p.to_vec());
            }
        });
        for p in at {
            if Instant::now() > self.until {
                return;
            }
            let Some(x) = get(v, &p) else { continue };
            let cands: Vec<Value> = match x.clone() {
                Value::Number(n) => match n.as_u64() {
                    Some(n) if n > 0 => {
                        let mut c = vec![0, 1];
                        let mut k = n / 2;
                        while k > 1 && c.len() < 8 {
                            c.push(k);
                            k += (n - k) / 2;
                            if k + 1 >= n {
                                break;
                            }
                        }
                        c.push(n - 1);
                        c.into_iter().filter(|&c| c < n).map(Value::from).collect()
                    }
                    _ => continue,
                },
                Value::String(s) => {
                    let c: Vec<char> = s.chars().collect();
                    if c.len() < 2 {
                        continue;
                    }
                    let h: String = c[..c.len() / 2].iter().collect();
                    let t: String = c[c.len() / 2..].iter().collect();
                    let l: String = c[..c.len() - 1].iter().collect();
                    let f: String = c[1..].iter().collect();
                    vec![Value::String(String::new()), Value::String(h), Value::String(t), Value::String(l), Value::String(f)]
                }
                _ => continue,
            };
            for c in cands {
                let mut w = v.clone();
                *get(&mut w, &p).unwrap() = c;
                if self.ok(&w) {
                    *v = w;
                    break;
                }
            }
        }
    }
}
