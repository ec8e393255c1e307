//! In-memory file system a simulated process sees instead of the real one.
use crate::util::{Dec, Enc};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Node {
    File(Arc<Vec<u8>>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub nlink: u32,
    pub mtime: u64,
    /// Content changed since the image was loaded (only those travel back).
    pub dirty: bool,
    /// Opening fails with EACCES.
    pub denied: bool,
    /// Cannot be written (EROFS-like).
    pub readonly: bool,
}

#[derive(Clone, Debug)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub cwd: Ino,
    /// Bytes the device can still take (None: unlimited).
    pub free: Option<u64>,
}

pub const ROOT: Ino = 0;
pub type R<T> = Result<T, i32>;

impl Default for Vfs {
    fn default() -> Self {
        Self::new()
    }
}

impl Vfs {
    pub fn new() -> Self {
        let mut v = Vfs { inodes: Vec::new(), cwd: ROOT, free: None };
        v.mk(Node::Dir(BTreeMap::new()));
        v
    }
    fn mk(&mut self, node: Node) -> Ino {
        self.inodes.push(Inode { node, nlink: 1, mtime: 0, dirty: true, denied: false, readonly: false });
        self.inodes.len() - 1
    }
    pub fn dir(&self, i: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match &self.inodes[i].node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    fn dir_mut(&mut self, i: Ino) -> R<&mut BTreeMap<Vec<u8>, Ino>> {
        self.inodes[i].dirty = true;
        match &mut self.inodes[i].node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn data(&self, i: Ino) -> R<&Arc<Vec<u8>>> {
        match &self.inodes[i].node {
            Node::File(d) => Ok(d),
            Node::Dir(_) => Err(libc::EISDIR),
            Node::Link(_) => Err(libc::ELOOP),
        }
    }
    pub fn data_mut(&mut self, i: Ino) -> R<&mut Vec<u8>> {
        self.inodes[i].dirty = true;
        match &mut self.inodes[i].node {
            Node::File(d) => Ok(Arc::make_mut(d)),
            Node::Dir(_) => Err(libc::EISDIR),
            Node::Link(_) => Err(libc::ELOOP),
        }
    }
    fn parent_of(&self, i: Ino) -> Ino {
        for (p, n) in self.inodes.iter().enumerate() {
            if n.nlink > 0 {
                if let Node::Dir(d) = &n.node {
                    if d.values().any(|x| *x == i) {
                        return p;
                    }
                }
            }
        }
        ROOT
    }
    /// Absolute path of a linked inode (first one found), for logs and realpath.
    pub fn path_of(&self, i: Ino) -> Option<Vec<u8>> {
        if i == ROOT {
            return Some(b"/".to_vec());
        }
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let mut cur = i;
        let mut guard = 0;
        while cur != ROOT {
            guard += 1;
            if guard > 200 {
                return None;
            }
            let p = self.parent_of(cur);
            let name = match &self.inodes[p].node {
                Node::Dir(d) => d.iter().find(|(_, v)| **v == cur).map(|(k, _)| k.clone())?,
                _ => return None,
            };
            parts.push(name);
            cur = p;
        }
        let mut out = Vec::new();
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        Some(out)
    }
    /// Resolve to (parent dir, last name, inode if it exists).
    pub fn lookup(&self, path: &[u8], follow: bool) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        self.walk(path, follow, self.cwd, 0)
    }
    fn walk(&self, path: &[u8], follow: bool, start: Ino, depth: u32) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if depth > 40 {
            return Err(libc::ELOOP);
        }
        if path.len() > 4095 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { ROOT } else { start };
        let trailing = path.last() == Some(&b'/');
        let comps: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok((ROOT, b"/".to_vec(), Some(ROOT)));
        }
        let n = comps.len();
        let mut last = (cur, b".".to_vec(), Some(cur));
        for (k, c) in comps.iter().enumerate() {
            let is_last = k + 1 == n;
            self.dir(cur)?;
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if *c == b"." {
                last = (cur, b".".to_vec(), Some(cur));
                continue;
            }
            if *c == b".." {
                cur = if cur == ROOT { ROOT } else { self.parent_of(cur) };
                last = (cur, b"..".to_vec(), Some(cur));
                continue;
            }
            let child = self.dir(cur)?.get(*c).copied();
            match child {
                None => {
                    if is_last {
                        return Ok((cur, c.to_vec(), None));
                    }
                    return Err(libc::ENOENT);
                }
                Some(i) => {
                    if let Node::Link(t) = &self.inodes[i].node {
                        if !is_last || follow || trailing {
                            let (p, nm, r) = self.walk(t, true, cur, depth + 1)?;
                            match r {
                                None if is_last => return Ok((p, nm, None)),
                                None => return Err(libc::ENOENT),
                                Some(j) => {
                                    last = (p, nm, Some(j));
                                    if is_last {
                                        if trailing {
                                            self.dir(j)?;
                                        }
                                        return Ok(last);
                                    }
                                    cur = j;
                                    continue;
                                }
                            }
                        }
                    }
                    last = (cur, c.to_vec(), Some(i));
                    if is_last {
                        if trailing {
                            self.dir(i)?;
                        }
                        return Ok(last);
                    }
                    cur = i;
                }
            }
        }
        Ok(last)
    }
    pub fn find(&self, path: &[u8], follow: bool) -> R<Ino> {
        self.lookup(path, follow)?.2.ok_or(libc::ENOENT)
    }
    pub fn create(&mut self, parent: Ino, name: &[u8], node: Node) -> R<Ino> {
        if self.inodes[parent].readonly {
            return Err(libc::EROFS);
        }
        if self.inodes[parent].nlink == 0 {
            return Err(libc::ENOENT);
        }
        self.dir(parent)?;
        let i = self.mk(node);
        self.dir_mut(parent)?.insert(name.to_vec(), i);
        Ok(i)
    }
    pub fn mkdir(&mut self, path: &[u8]) -> R<()> {
        let (p, n, c) = self.lookup(path, false)?;
        if c.is_some() {
            return Err(libc::EEXIST);
        }
        self.create(p, &n, Node::Dir(BTreeMap::new()))?;
        Ok(())
    }
    pub fn unlink(&mut self, path: &[u8]) -> R<()> {
        let (p, n, c) = self.lookup(path, false)?;
        let i = c.ok_or(libc::ENOENT)?;
        if matches!(self.inodes[i].node, Node::Dir(_)) {
            return Err(libc::EISDIR);
        }
        if self.inodes[p].readonly {
            return Err(libc::EROFS);
        }
        self.dir_mut(p)?.remove(&n);
        self.inodes[i].nlink -= 1;
        Ok(())
    }
    pub fn rmdir(&mut self, path: &[u8]) -> R<()> {
        let (p, n, c) = self.lookup(path, false)?;
        let i = c.ok_or(libc::ENOENT)?;
        if !self.dir(i)?.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        self.dir_mut(p)?.remove(&n);
        self.inodes[i].nlink = 0;
        Ok(())
    }
    pub fn link(&mut self, from: &[u8], to: &[u8]) -> R<()> {
        let i = self.find(from, false)?;
        let (p, n, c) = self.lookup(to, false)?;
        if c.is_some() {
            return Err(libc::EEXIST);
        }
        self.dir_mut(p)?.insert(n, i);
        self.inodes[i].nlink += 1;
        Ok(())
    }
    pub fn symlink(&mut self, target: &[u8], path: &[u8]) -> R<()> {
        let (p, n, c) = self.lookup(path, false)?;
        if c.is_some() {
            return Err(libc::EEXIST);
        }
        self.create(p, &n, Node::Link(target.to_vec()))?;
        Ok(())
    }
    pub fn rename(&mut self, from: &[u8], to: &[u8]) -> R<()> {
        let (fp, fname, fi) = self.lookup(from, false)?;
        let i = fi.ok_or(libc::ENOENT)?;
        let (tp, tname, ti) = self.lookup(to, false)?;
        if self.inodes[tp].readonly || self.inodes[fp].readonly {
            return Err(libc::EROFS);
        }
        if let Some(t) = ti {
            if t == i {
                return Ok(());
            }
            match (&self.inodes[i].node, &self.inodes[t].node) {
                (Node::Dir(_), Node::Dir(d)) => {
                    if !d.is_empty() {
                        return Err(libc::ENOTEMPTY);
                    }
                }
                (_, Node::Dir(_)) => return Err(libc::EISDIR),
                (Node::Dir(_), _) => return Err(libc::ENOTDIR),
                _ => {}
            }
            self.inodes[t].nlink = self.inodes[t].nlink.saturating_sub(1);
        }
        self.dir_mut(fp)?.remove(&fname);
        self.dir_mut(tp)?.insert(tname, i);
        Ok(())
    }

    // ---- conveniences for scenario set-up and inspection -----------------
    pub fn mkdirs(&mut self, path: &str) {
        let mut acc = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            acc.push('/');
            acc.push_str(c);
            let _ = self.mkdir(acc.as_bytes());
        }
    }
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        if let Some((d, _)) = path.rsplit_once('/') {
            self.mkdirs(d);
        }
        let (p, n, c) = self.lookup(path.as_bytes(), true).expect("put: bad path");
        match c {
            Some(i) => {
                self.inodes[i].node = Node::File(Arc::new(data));
                self.inodes[i].dirty = true;
            }
            None => {
                self.create(p, &n, Node::File(Arc::new(data))).expect("put");
            }
        }
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.find(path.as_bytes(), true).ok()?;
        self.data(i).ok().map(|d| d.to_vec())
    }
    pub fn ln(&mut self, target: &str, path: &str) {
        if let Some((d, _)) = path.rsplit_once('/') {
            self.mkdirs(d);
        }
        self.symlink(target.as_bytes(), path.as_bytes()).expect("ln");
    }
    /// Every entry below `/`: path -> description of its content.
    pub fn listing(&self) -> BTreeMap<String, Entry> {
        let mut out = BTreeMap::new();
        let mut stack = vec![(ROOT, String::new())];
        while let Some((d, p)) = stack.pop() {
            if let Node::Dir(m) = &self.inodes[d].node {
                for (k, v) in m {
                    let q = format!("{p}/{}", String::from_utf8_lossy(k));
                    match &self.inodes[*v].node {
                        Node::Dir(_) => {
                            out.insert(q.clone(), Entry::Dir);
                            stack.push((*v, q));
                        }
                        Node::File(d) => {
                            out.insert(q, Entry::File(d.clone()));
                        }
                        Node::Link(t) => {
                            out.insert(q, Entry::Link(String::from_utf8_lossy(t).into_owned()));
                        }
                    }
                }
            }
        }
        out
    }
    pub fn clean(&mut self) {
        for i in &mut self.inodes {
            i.dirty = false;
        }
    }

    pub fn encode_diff(&self, base_len: usize, e: &mut Enc) {
        e.u64(self.inodes.len() as u64);
        e.u64(self.cwd as u64);
        e.u64(self.free.map(|f| f + 1).unwrap_or(0));
        let dirty: Vec<usize> =
            (0..self.inodes.len()).filter(|i| *i >= base_len || self.inodes[*i].dirty).collect();
        e.u64(dirty.len() as u64);
        for i in dirty {
            let n = &self.inodes[i];
            e.u64(i as u64);
            e.u64(n.mtime);
            e.u64(n.denied as u64 | (n.readonly as u64) << 1);
            match &n.node {
                Node::File(d) => {
                    e.u64(0);
                    e.bytes(d);
                }
                Node::Dir(m) => {
                    e.u64(1);
                    e.u64(m.len() as u64);
                    for (k, v) in m {
                        e.bytes(k);
                        e.u64(*v as u64);
                    }
                }
                Node::Link(t) => {
                    e.u64(2);
                    e.bytes(t);
                }
            }
        }
        for n in &self.inodes {
            e.u64(n.nlink as u64);
        }
    }
    pub fn apply_diff(&mut self, d: &mut Dec) -> Option<()> {
        let n = d.u64()? as usize;
        self.cwd = d.u64()? as usize;
        let f = d.u64()?;
        self.free = if f == 0 { None } else { Some(f - 1) };
        while self.inodes.len() < n {
            self.mk(Node::Link(Vec::new()));
        }
        let k = d.u64()?;
        for _ in 0..k {
            let i = d.u64()? as usize;
            let mtime = d.u64()?;
            let fl = d.u64()?;
            let node = match d.u64()? {
                0 => Node::File(Arc::new(d.bytes()?.to_vec())),
                1 => {
                    let m = d.u64()?;
                    let mut map = BTreeMap::new();
                    for _ in 0..m {
                        let key = d.bytes()?.to_vec();
                        map.insert(key, d.u64()? as usize);
                    }
                    Node::Dir(map)
                }
                _ => Node::Link(d.bytes()?.to_vec()),
            };
            self.inodes[i] = Inode {
                node,
                nlink: 1,
                mtime,
                dirty: false,
                denied: fl & 1 != 0,
                readonly: fl & 2 != 0,
            };
        }
        for i in 0..n {
            self.inodes[i].nlink = d.u64()? as u32;
        }
        Some(())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Dir,
    File(Arc<Vec<u8>>),
    Link(String),
}
