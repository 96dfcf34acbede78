//! The simulated file system: inodes, directories, symbolic links, POSIX path resolution.

use serde::{Deserialize, Serialize};
use std::{collections::BTreeMap, sync::Arc};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Node {
    File(Arc<Vec<u8>>),
    Dir(BTreeMap<Vec<u8>, usize>),
    Link(Vec<u8>),
    Special(Sp),
}

/// Files that are neither regular files nor directories.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sp {
    /// Opening one waits for the other side, which never comes.
    Fifo,
    /// Reads nothing; takes anything.
    Null,
    /// Reads without an end.
    Zero,
    Sock,
}

/// What an inode has besides its content: permissions (0: as created), and how often its times or owner
/// were set.
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Attr {
    pub mode: u32,
    pub set: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Vfs {
    pub nodes: Vec<Node>,
    #[serde(default)]
    pub attrs: BTreeMap<usize, Attr>,
    pub cwd: Vec<Vec<u8>>,
}

pub struct Res {
    pub ino: Option<usize>,
    pub dir: usize,
    pub name: Vec<u8>,
    pub canon: Vec<Vec<u8>>,
}

pub type R<T> = Result<T, i32>;

impl Vfs {
    pub fn new() -> Self {
        Vfs { nodes: vec![Node::Dir(BTreeMap::new())], attrs: BTreeMap::new(), cwd: vec![] }
    }

    pub fn chdir(&mut self, path: &[u8]) -> R<()> {
        let r = self.resolve(path, true)?;
        let i = r.ino.ok_or(libc::ENOENT)?;
        if !matches!(self.nodes[i], Node::Dir(_)) {
            return Err(libc::ENOTDIR);
        }
        self.cwd = r.canon;
        Ok(())
    }

    pub fn mode(&self, ino: usize) -> u32 {
        match self.attrs.get(&ino) {
            Some(a) if a.mode != 0 => a.mode & 0o7777,
            _ => match &self.nodes[ino] {
                Node::File(_) => 0o644,
                Node::Dir(_) => 0o755,
                Node::Link(_) => 0o777,
                Node::Special(_) => 0o666,
            },
        }
    }

    /// Whether the owner has all of these permissions (4 read, 2 write, 1 execute or search).
    pub fn may(&self, ino: usize, bits: u32) -> R<()> {
        if self.mode(ino) >> 6 & bits == bits {
            Ok(())
        } else {
            Err(libc::EACCES)
        }
    }

    pub fn set_mode(&mut self, ino: usize, mode: u32) {
        // (The high bit tells "no permission at all" from "as created".)
        self.attrs.entry(ino).or_default().mode = mode & 0o7777 | 0x8000;
    }

    pub fn chmod(&mut self, path: &[u8], mode: u32) -> R<()> {
        let i = self.lookup_path(path)?;
        self.set_mode(i, mode);
        Ok(())
    }

    /// The number of names of an inode.
    pub fn nlink(&self, ino: usize) -> u32 {
        let n = self.nodes.iter().filter_map(|n| if let Node::Dir(m) = n { Some(m.values().filter(|&&i| i == ino).count() as u32) } else { None }).sum();
        match self.nodes[ino] {
            Node::Dir(_) => 2,
            _ => n,
        }
    }

    fn lookup(&self, dir: usize, name: &[u8]) -> R<Option<usize>> {
        self.may(dir, 1)?;
        match &self.nodes[dir] {
            Node::Dir(m) => Ok(m.get(name).copied()),
            _ => Err(libc::ENOTDIR),
        }
    }

    /// Resolves a path. `follow`: follow a symbolic link in the last component.
    pub fn resolve(&self, path: &[u8], follow: bool) -> R<Res> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.contains(&0) {
            return Err(libc::EINVAL);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut stack: Vec<(usize, Vec<u8>)> = vec![(0, vec![])];
        if path[0] != b'/' {
            for c in &self.cwd {
                let d = stack.last().unwrap().0;
                let i = self.lookup(d, c)?.ok_or(libc::ENOENT)?;
                stack.push((i, c.clone()));
            }
        }
        let mut todo: Vec<Vec<u8>> = split(path);
        let mut must_dir = path.ends_with(b"/") || path.ends_with(b"/.");
        todo.reverse();
        let mut links = 0;
        loop {
            let Some(c) = todo.pop() else {
                let (ino, name) = stack.last().unwrap().clone();
                let dir = if stack.len() > 1 { stack[stack.len() - 2].0 } else { 0 };
                let canon = stack[1..].iter().map(|x| x.1.clone()).collect();
                if must_dir && !matches!(self.nodes[ino], Node::Dir(_)) {
                    return Err(libc::ENOTDIR);
                }
                return Ok(Res { ino: Some(ino), dir, name, canon });
            };
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let d = stack.last().unwrap().0;
            if !matches!(self.nodes[d], Node::Dir(_)) {
                return Err(libc::ENOTDIR);
            }
            if c == b"." {
                continue;
            }
            if c == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            match self.lookup(d, &c)? {
                None => {
                    if todo.is_empty() {
                        let mut canon: Vec<Vec<u8>> = stack[1..].iter().map(|x| x.1.clone()).collect();
                        canon.push(c.clone());
                        return Ok(Res { ino: None, dir: d, name: c, canon });
                    }
                    return Err(libc::ENOENT);
                }
                Some(i) => {
                    if let Node::Link(t) = &self.nodes[i] {
                        if !todo.is_empty() || follow || must_dir {
                            links += 1;
                            if links > 40 {
                                return Err(libc::ELOOP);
                            }
                            if t.is_empty() {
                                return Err(libc::ENOENT);
                            }
                            if t[0] == b'/' {
                                stack.truncate(1);
                            }
                            if todo.is_empty() && t.ends_with(b"/") {
                                must_dir = true;
                            }
                            let mut s = split(t);
                            s.reverse();
                            todo.extend(s);
                            continue;
                        }
                    }
                    stack.push((i, c));
                }
            }
        }
    }

    pub fn lookup_path(&self, path: &[u8]) -> R<usize> {
        self.resolve(path, true)?.ino.ok_or(libc::ENOENT)
    }

    pub fn canon(&self, path: &[u8]) -> R<Vec<u8>> {
        let r = self.resolve(path, true)?;
        r.ino.ok_or(libc::ENOENT)?;
        Ok(join_canon(&r.canon))
    }

    pub fn read(&self, path: &[u8]) -> R<Arc<Vec<u8>>> {
        self.content(path).and_then(|d| self.may(self.lookup_path(path)?, 4).map(|_| d))
    }

    /// As somebody who may read every file.
    pub fn content(&self, path: &[u8]) -> R<Arc<Vec<u8>>> {
        let i = self.lookup_path(path)?;
        match &self.nodes[i] {
            Node::File(d) => Ok(d.clone()),
            Node::Dir(_) => Err(libc::EISDIR),
            Node::Link(_) => Err(libc::ELOOP),
            Node::Special(_) => Err(libc::ENXIO),
        }
    }

    fn link_in(&mut self, dir: usize, name: Vec<u8>, ino: usize) -> R<()> {
        match &mut self.nodes[dir] {
            Node::Dir(m) => {
                m.insert(name, ino);
                Ok(())
            }
            _ => Err(libc::ENOTDIR),
        }
    }

    pub fn add(&mut self, n: Node) -> usize {
        self.nodes.push(n);
        self.nodes.len() - 1
    }

    pub fn mkdirs(&mut self, path: &[u8]) -> R<()> {
        let mut cur = Vec::new();
        if path.first() == Some(&b'/') {
            cur.push(b'/');
        }
        for c in split(path) {
            if !cur.is_empty() && cur != b"/" {
                cur.push(b'/');
            }
            cur.extend(&c);
            let r = self.resolve(&cur, true)?;
            if r.ino.is_none() {
                let i = self.add(Node::Dir(BTreeMap::new()));
                self.link_in(r.dir, r.name, i)?;
            }
        }
        Ok(())
    }

    fn parent_dir(&mut self, path: &[u8]) {
        if let Some(p) = path.iter().rposition(|&b| b == b'/') {
            if p > 0 {
                let _ = self.mkdirs(&path[..p]);
            }
        }
    }

    /// Creates or rewrites (same inode) a regular file.
    pub fn put(&mut self, path: &[u8], data: Vec<u8>) -> R<()> {
        self.parent_dir(path);
        let r = self.resolve(path, true)?;
        match r.ino {
            Some(i) => match &mut self.nodes[i] {
                Node::File(d) => *d = Arc::new(data),
                _ => return Err(libc::EISDIR),
            },
            None => {
                let i = self.add(Node::File(Arc::new(data)));
                self.link_in(r.dir, r.name, i)?;
            }
        }
        Ok(())
    }

    /// Puts a new inode under this name (as rename(2) of a temporary file would).
    pub fn replace(&mut self, path: &[u8], node: Node) -> R<()> {
        self.parent_dir(path);
        let r = self.resolve(path, false)?;
        let i = self.add(node);
        self.link_in(r.dir, r.name, i)
    }

    pub fn hardlink(&mut self, path: &[u8], target: &[u8]) -> R<()> {
        let i = self.lookup_path(target)?;
        self.parent_dir(path);
        let r = self.resolve(path, false)?;
        self.link_in(r.dir, r.name, i)
    }

    pub fn remove(&mut self, path: &[u8]) -> R<()> {
        let r = self.resolve(path, false)?;
        if r.ino.is_none() {
            return Err(libc::ENOENT);
        }
        match &mut self.nodes[r.dir] {
            Node::Dir(m) => {
                m.remove(&r.name);
            }
            _ => return Err(libc::ENOTDIR),
        }
        Ok(())
    }

    /// The tree as (path, description) pairs; unreachable inodes are not part of it.
    pub fn tree(&self) -> BTreeMap<Vec<u8>, TreeItem> {
        let mut out = BTreeMap::new();
        self.walk(0, &mut vec![], &mut out);
        out
    }

    fn attr(&self, ino: usize) -> Attr {
        let mut a = self.attrs.get(&ino).copied().unwrap_or_default();
        a.mode = self.mode(ino);
        a
    }

    fn walk(&self, ino: usize, path: &mut Vec<u8>, out: &mut BTreeMap<Vec<u8>, TreeItem>) {
        match &self.nodes[ino] {
            Node::File(d) => {
                out.insert(path.clone(), TreeItem::File(d.clone(), self.attr(ino)));
            }
            Node::Link(t) => {
                out.insert(path.clone(), TreeItem::Link(t.clone()));
            }
            Node::Special(s) => {
                out.insert(path.clone(), TreeItem::Special(*s));
            }
            Node::Dir(m) => {
                out.insert(path.clone(), TreeItem::Dir(self.attr(ino)));
                for (n, i) in m {
                    let l = path.len();
                    path.push(b'/');
                    path.extend(n);
                    self.walk(*i, path, out);
                    path.truncate(l);
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TreeItem {
    File(Arc<Vec<u8>>, Attr),
    Link(Vec<u8>),
    Special(Sp),
    Dir(Attr),
}

fn split(p: &[u8]) -> Vec<Vec<u8>> {
    p.split(|&b| b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect()
}

pub fn join_canon(c: &[Vec<u8>]) -> Vec<u8> {
    if c.is_empty() {
        return b"/".to_vec();
    }
    let mut o = vec![];
    for x in c {
        o.push(b'/');
        o.extend(x);
    }
    o
}

/// Plan strings are JSON strings; a raw non-UTF-8 byte 0xNN is written as U+10FFNN.
pub fn raw(s: &str) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut b = [0u8; 4];
    for c in s.chars() {
        let u = c as u32;
        if (0x10_FF00..=0x10_FFFF).contains(&u) {
            o.push((u & 0xFF) as u8);
        } else {
            o.extend(c.encode_utf8(&mut b).as_bytes());
        }
    }
    o
}

pub fn unraw(mut b: &[u8]) -> String {
    let mut o = String::new();
    loop {
        match std::str::from_utf8(b) {
            Ok(s) => {
                o.push_str(s);
                return o;
            }
            Err(e) => {
                let v = e.valid_up_to();
                o.push_str(std::str::from_utf8(&b[..v]).unwrap());
                o.push(char::from_u32(0x10_FF00 + u32::from(b[v])).unwrap());
                b = &b[v + 1..];
            }
        }
    }
}
