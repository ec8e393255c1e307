//! A small ONNX writer and an independent ONNX reader, sharing nothing with
//! the code under test.
use std::collections::BTreeMap;

pub const F32: i32 = 1;
pub const U8: i32 = 2;
pub const I8: i32 = 3;
pub const U16: i32 = 4;
pub const I16: i32 = 5;
pub const I32: i32 = 6;
pub const I64: i32 = 7;
pub const BOOL: i32 = 9;
pub const F16: i32 = 10;
pub const F64: i32 = 11;
pub const U32: i32 = 12;
pub const U64: i32 = 13;
pub const BF16: i32 = 16;

pub fn width(dt: i32) -> usize {
    match dt {
        U8 | I8 | BOOL => 1,
        F16 | BF16 | U16 | I16 => 2,
        F32 | I32 | U32 => 4,
        _ => 8,
    }
}

// ---- writer ---------------------------------------------------------------
#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn varint(&mut self, mut v: u64) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
    pub fn tag(&mut self, field: u32, wt: u32) {
        self.varint((field << 3 | wt) as u64);
    }
    pub fn int(&mut self, field: u32, v: i64) {
        self.tag(field, 0);
        self.varint(v as u64);
    }
    pub fn bytes(&mut self, field: u32, b: &[u8]) {
        self.tag(field, 2);
        self.varint(b.len() as u64);
        self.0.extend_from_slice(b);
    }
    pub fn str(&mut self, field: u32, s: &str) {
        self.bytes(field, s.as_bytes());
    }
    pub fn f32(&mut self, field: u32, v: f32) {
        self.tag(field, 5);
        self.0.extend_from_slice(&v.to_le_bytes());
    }
}

/// Where a tensor's elements are written.
#[derive(Clone, Debug, PartialEq)]
pub enum Chan {
    Raw,
    Typed,
    /// location, offset, length (None: omitted)
    Ext(String, Option<String>, Option<String>),
    /// External reference with these entries, in this order.
    Kv(Vec<(String, String)>),
}

#[derive(Clone, Debug)]
pub struct Tensor {
    pub name: String,
    pub dt: i32,
    pub dims: Vec<i64>,
    /// Little-endian elements.
    pub data: Vec<u8>,
    pub chan: Chan,
}

fn elems(t: &Tensor) -> Vec<u64> {
    let w = width(t.dt);
    t.data
        .chunks_exact(w)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..w].copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect()
}

impl Tensor {
    pub fn enc(&self) -> Vec<u8> {
        let mut w = W::default();
        for d in &self.dims {
            w.int(1, *d);
        }
        w.int(2, self.dt as i64);
        match &self.chan {
            Chan::Raw => {
                w.str(8, &self.name);
                w.bytes(9, &self.data);
            }
            Chan::Typed => {
                let e = elems(self);
                match self.dt {
                    F32 => w.bytes(4, &self.data),
                    F64 => w.bytes(10, &self.data),
                    I64 => {
                        let mut p = W::default();
                        e.iter().for_each(|v| p.varint(*v));
                        w.bytes(7, &p.0);
                    }
                    U32 | U64 => {
                        let mut p = W::default();
                        e.iter().for_each(|v| p.varint(*v));
                        w.bytes(11, &p.0);
                    }
                    dt => {
                        let mut p = W::default();
                        for v in e {
                            let s = match dt {
                                I8 => v as u8 as i8 as i64 as u64,
                                I16 => v as u16 as i16 as i64 as u64,
                                I32 => v as u32 as i32 as i64 as u64,
                                _ => v,
                            };
                            p.varint(s);
                        }
                        w.bytes(5, &p.0);
                    }
                }
                w.str(8, &self.name);
            }
            Chan::Kv(list) => {
                w.str(8, &self.name);
                for (k, v) in list {
                    let mut e = W::default();
                    e.str(1, k);
                    e.str(2, v);
                    w.bytes(13, &e.0);
                }
                w.int(14, 1);
            }
            Chan::Ext(loc, off, len) => {
                w.str(8, &self.name);
                let mut kv = |k: &str, v: &str| {
                    let mut e = W::default();
                    e.str(1, k);
                    e.str(2, v);
                    w.bytes(13, &e.0);
                };
                kv("location", loc);
                if let Some(o) = off {
                    kv("offset", o);
                }
                if let Some(l) = len {
                    kv("length", l);
                }
                w.int(14, 1);
            }
        }
        w.0
    }
}

#[derive(Clone, Debug)]
pub enum Attr {
    I(i64),
    F(f32),
    S(String),
    Is(Vec<i64>),
    Ss(Vec<String>),
    T(Tensor),
    G(Graph),
}

#[derive(Clone, Debug, Default)]
pub struct Node {
    pub op: String,
    pub name: String,
    pub ins: Vec<String>,
    pub outs: Vec<String>,
    pub attrs: Vec<(String, Attr)>,
}
pub fn node(op: &str, name: &str, ins: &[&str], outs: &[&str]) -> Node {
    Node {
        op: op.into(),
        name: name.into(),
        ins: ins.iter().map(|s| s.to_string()).collect(),
        outs: outs.iter().map(|s| s.to_string()).collect(),
        attrs: vec![],
    }
}
impl Node {
    pub fn at(mut self, k: &str, a: Attr) -> Self {
        self.attrs.push((k.into(), a));
        self
    }
    fn enc(&self) -> Vec<u8> {
        let mut w = W::default();
        self.ins.iter().for_each(|s| w.str(1, s));
        self.outs.iter().for_each(|s| w.str(2, s));
        w.str(3, &self.name);
        w.str(4, &self.op);
        for (k, a) in &self.attrs {
            let mut e = W::default();
            e.str(1, k);
            let ty = match a {
                Attr::F(f) => {
                    e.f32(2, *f);
                    1
                }
                Attr::I(i) => {
                    e.int(3, *i);
                    2
                }
                Attr::S(s) => {
                    e.str(4, s);
                    3
                }
                Attr::T(t) => {
                    e.bytes(5, &t.enc());
                    4
                }
                Attr::G(g) => {
                    e.bytes(6, &g.enc());
                    5
                }
                Attr::Is(v) => {
                    v.iter().for_each(|i| e.int(8, *i));
                    7
                }
                Attr::Ss(v) => {
                    v.iter().for_each(|s| e.str(9, s));
                    8
                }
            };
            e.int(20, ty);
            w.bytes(5, &e.0);
        }
        w.0
    }
}

#[derive(Clone, Debug)]
pub struct Io {
    pub name: String,
    pub dt: i32,
    pub dims: Option<Vec<i64>>,
}
pub fn io(name: &str, dt: i32, dims: &[i64]) -> Io {
    Io { name: name.into(), dt, dims: Some(dims.to_vec()) }
}
fn enc_io(i: &Io) -> Vec<u8> {
    let mut tt = W::default();
    tt.int(1, i.dt as i64);
    if let Some(d) = &i.dims {
        let mut sh = W::default();
        for x in d {
            let mut dim = W::default();
            if *x < 0 {
                dim.str(2, "n");
            } else {
                dim.int(1, *x);
            }
            sh.bytes(1, &dim.0);
        }
        tt.bytes(2, &sh.0);
    }
    let mut ty = W::default();
    ty.bytes(1, &tt.0);
    let mut w = W::default();
    w.str(1, &i.name);
    w.bytes(2, &ty.0);
    w.0
}

#[derive(Clone, Debug, Default)]
pub struct Graph {
    pub name: String,
    pub nodes: Vec<Node>,
    pub inits: Vec<Tensor>,
    pub ins: Vec<Io>,
    pub outs: Vec<Io>,
}
impl Graph {
    pub fn enc(&self) -> Vec<u8> {
        let mut w = W::default();
        self.nodes.iter().for_each(|n| w.bytes(1, &n.enc()));
        w.str(2, &self.name);
        self.inits.iter().for_each(|t| w.bytes(5, &t.enc()));
        self.ins.iter().for_each(|i| w.bytes(11, &enc_io(i)));
        self.outs.iter().for_each(|i| w.bytes(12, &enc_io(i)));
        w.0
    }
}
pub fn model(g: &Graph, opset: i64) -> Vec<u8> {
    let mut w = W::default();
    w.int(1, 8);
    w.str(2, "onnxsim");
    w.bytes(7, &g.enc());
    let mut o = W::default();
    o.str(1, "");
    o.int(2, opset);
    w.bytes(8, &o.0);
    w.0
}

/// Same content; protobuf leaves the order of fields to the writer.
pub fn model_opset_first(g: &Graph, opset: i64) -> Vec<u8> {
    let mut w = W::default();
    w.int(1, 8);
    let mut o = W::default();
    o.str(1, "");
    o.int(2, opset);
    w.bytes(8, &o.0);
    w.str(2, "onnxsim");
    w.bytes(7, &g.enc());
    w.0
}
/// Where the graph and the operator-set fields of a model file end.
pub fn landmarks(b: &[u8]) -> Option<(usize, usize)> {
    let base = b.as_ptr() as usize;
    let (mut g, mut o) = (None, None);
    for (f, v) in fields(b)? {
        if let F::B(x) = v {
            let end = x.as_ptr() as usize + x.len() - base;
            match f {
                7 => g = Some(end),
                // The default domain's entry; others may be lost unnoticed.
                8 if !fields(x)?.iter().any(|(n, v)| *n == 1 && matches!(v, F::B(d) if !d.is_empty() && *d != b"ai.onnx")) => {
                    o = Some(o.map_or(end, |p: usize| p.max(end)))
                }
                _ => {}
            }
        }
    }
    Some((g?, o?))
}

/// Start positions of the model file's top-level fields.
pub fn top_fields(b: &[u8]) -> Vec<usize> {
    let base = b.as_ptr() as usize;
    let mut out = vec![0];
    for (_, v) in fields(b).unwrap_or_default() {
        if let F::B(x) = v {
            out.push(x.as_ptr() as usize + x.len() - base);
        }
    }
    out
}

// ---- independent reader ----------------------------------------------------
pub enum F<'a> {
    V(u64),
    B(&'a [u8]),
    F4(u32),
}
pub fn fields(mut b: &[u8]) -> Option<Vec<(u32, F<'_>)>> {
    fn vi(b: &mut &[u8]) -> Option<u64> {
        let mut r = 0u64;
        for k in 0..10 {
            let (x, rest) = b.split_first()?;
            *b = rest;
            r |= ((*x & 0x7f) as u64) << (7 * k);
            if x & 0x80 == 0 {
                return Some(r);
            }
        }
        None
    }
    let mut out = vec![];
    while !b.is_empty() {
        let t = vi(&mut b)?;
        let f = (t >> 3) as u32;
        match t & 7 {
            0 => out.push((f, F::V(vi(&mut b)?))),
            1 => {
                if b.len() < 8 {
                    return None;
                }
                out.push((f, F::B(&b[..8])));
                b = &b[8..];
            }
            2 => {
                let n = vi(&mut b)? as usize;
                if b.len() < n {
                    return None;
                }
                out.push((f, F::B(&b[..n])));
                b = &b[n..];
            }
            5 => {
                if b.len() < 4 {
                    return None;
                }
                out.push((f, F::F4(u32::from_le_bytes(b[..4].try_into().unwrap()))));
                b = &b[4..];
            }
            _ => return None,
        }
    }
    Some(out)
}
fn packed(out: &mut Vec<u64>, f: F) {
    match f {
        F::V(v) => out.push(v),
        F::B(mut b) => {
            while !b.is_empty() {
                let mut r = 0u64;
                let mut k = 0;
                while let Some((x, rest)) = b.split_first() {
                    b = rest;
                    r |= ((*x & 0x7f) as u64) << (7 * k);
                    k += 1;
                    if x & 0x80 == 0 || k == 10 {
                        break;
                    }
                }
                out.push(r);
            }
        }
        F::F4(_) => {}
    }
}

/// A tensor as found in a model, elements decoded to little-endian bytes.
#[derive(Clone, Debug)]
pub struct Found {
    #[allow(dead_code)]
    pub name: String,
    pub dt: i32,
    pub dims: Vec<i64>,
    pub data: Vec<u8>,
}

/// External payloads: location -> bytes.
pub type Ext = BTreeMap<String, Vec<u8>>;

pub fn read_tensor(b: &[u8], ext: &Ext) -> Option<Found> {
    let mut dims = vec![];
    let mut dt = 0;
    let mut name = String::new();
    let (mut f4, mut i4, mut i8v, mut f8, mut u8v, mut raw) =
        (Vec::<u8>::new(), vec![], vec![], Vec::<u8>::new(), vec![], None);
    let mut kv = BTreeMap::new();
    let mut loc = 0;
    for (f, v) in fields(b)? {
        match (f, v) {
            (1, v) => packed(&mut dims, v),
            (2, F::V(v)) => dt = v as i32,
            (4, F::F4(v)) => f4.extend_from_slice(&v.to_le_bytes()),
            (4, F::B(v)) => f4.extend_from_slice(v),
            (5, v) => packed(&mut i4, v),
            (7, v) => packed(&mut i8v, v),
            (8, F::B(s)) => name = String::from_utf8_lossy(s).into_owned(),
            (9, F::B(s)) => raw = Some(s.to_vec()),
            (10, F::B(s)) => f8.extend_from_slice(s),
            (11, v) => packed(&mut u8v, v),
            (13, F::B(s)) => {
                let mut k = String::new();
                let mut val = String::new();
                for (f, v) in fields(s)? {
                    if let F::B(x) = v {
                        match f {
                            1 => k = String::from_utf8_lossy(x).into_owned(),
                            2 => val = String::from_utf8_lossy(x).into_owned(),
                            _ => {}
                        }
                    }
                }
                kv.insert(k, val);
            }
            (14, F::V(v)) => loc = v,
            _ => {}
        }
    }
    let w = width(dt);
    let ints = |v: &[u64]| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()[..w].to_vec()).collect() };
    let data = if loc == 1 {
        let d = ext.get(kv.get("location")?)?;
        let o: usize = kv.get("offset").and_then(|s| s.parse().ok()).unwrap_or(0);
        let l: usize = kv.get("length").and_then(|s| s.parse().ok()).unwrap_or(d.len().saturating_sub(o).min(dims.iter().fold(w, |n, d| n.saturating_mul(*d as usize))));
        d.get(o..o.checked_add(l)?)?.to_vec()
    } else if let Some(r) = raw.filter(|r| !r.is_empty()) {
        r
    } else if !f4.is_empty() {
        f4
    } else if !f8.is_empty() {
        f8
    } else if !i8v.is_empty() {
        ints(&i8v)
    } else if !u8v.is_empty() {
        ints(&u8v)
    } else {
        ints(&i4)
    };
    Some(Found { name, dt, dims: dims.iter().map(|d| *d as i64).collect(), data })
}

#[derive(Default, Debug)]
pub struct Survey {
    pub tensors: Vec<Found>,
    pub ops: BTreeMap<String, u64>,
    pub nodes: u64,
    pub unreadable: u64,
}
fn read_graph(b: &[u8], ext: &Ext, s: &mut Survey) -> Option<()> {
    for (f, v) in fields(b)? {
        match (f, v) {
            (1, F::B(n)) => {
                s.nodes += 1;
                for (f, v) in fields(n)? {
                    match (f, v) {
                        (4, F::B(o)) => {
                            *s.ops.entry(String::from_utf8_lossy(o).into_owned()).or_insert(0) += 1;
                        }
                        (5, F::B(a)) => {
                            let mut floats: Vec<u8> = vec![];
                            let mut ints: Vec<u64> = vec![];
                            for (f, v) in fields(a)? {
                                match (f, v) {
                                    (2, F::F4(x)) => floats.extend_from_slice(&x.to_le_bytes()),
                                    (3, F::V(x)) => ints.push(x),
                                    (5, F::B(t)) | (10, F::B(t)) => match read_tensor(t, ext) {
                                        Some(t) => s.tensors.push(t),
                                        None => s.unreadable += 1,
                                    },
                                    (6, F::B(g)) | (11, F::B(g)) => read_graph(g, ext, s)?,
                                    (7, F::F4(x)) => floats.extend_from_slice(&x.to_le_bytes()),
                                    (7, F::B(x)) => floats.extend_from_slice(x),
                                    (8, v) => packed(&mut ints, v),
                                    _ => {}
                                }
                            }
                            // Constant's value_float(s) / value_int(s) forms.
                            if !floats.is_empty() {
                                s.tensors.push(Found {
                                    name: "attr".into(),
                                    dt: F32,
                                    dims: vec![floats.len() as i64 / 4],
                                    data: floats,
                                });
                            }
                            if !ints.is_empty() {
                                s.tensors.push(Found {
                                    name: "attr".into(),
                                    dt: I64,
                                    dims: vec![ints.len() as i64],
                                    data: ints.iter().flat_map(|v| v.to_le_bytes()).collect(),
                                });
                            }
                        }
                        _ => {}
                    }
                }
            }
            (5, F::B(t)) => match read_tensor(t, ext) {
                Some(t) => s.tensors.push(t),
                None => s.unreadable += 1,
            },
            _ => {}
        }
    }
    Some(())
}
/// Every tensor in the model, at any depth, and the operator census.
pub fn survey(b: &[u8], ext: &Ext) -> Option<Survey> {
    let mut s = Survey::default();
    for (f, v) in fields(b)? {
        if let (7, F::B(g)) = (f, v) {
            read_graph(g, ext, &mut s)?;
        }
    }
    Some(s)
}
