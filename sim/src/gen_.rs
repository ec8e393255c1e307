//! Models as data: a JSON recipe, the ONNX bytes it stands for, and the
//! weights the converter is expected to carry over.
use crate::onnx::{self, *};
use crate::util::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// One weight expected in the weight file.
#[derive(Clone, Debug)]
pub struct Exp {
    pub layer: u64,
    /// Path below the field in the weight file, "" for a plain constant.
    pub role: String,
    pub dt: i32,
    pub dims: Vec<i64>,
    pub data: Vec<u8>,
    /// 1: the model applies the matrix transposed, 2: as it is, 0: not a matrix.
    pub lin: u8,
    /// Tensor of the model it comes from, and the part of the network that
    /// applies it.
    pub tensor: String,
    pub unit: String,
}

#[derive(Clone, Debug, Default)]
pub struct Built {
    pub bytes: Vec<u8>,
    /// Side files, relative to the model's directory.
    pub files: BTreeMap<String, Vec<u8>>,
    pub exp: Vec<Exp>,
    /// Every tensor placed in the model, whether or not it must surface.
    pub all: Vec<Tensor>,
    /// Names of tensors no layer uses.
    pub dead: Vec<String>,
    pub opset: i64,
}
impl Built {
    /// Write to a VFS below `dir` as `name`.
    pub fn place(&self, v: &mut crate::vfs::Vfs, dir: &str, name: &str) {
        v.put(&format!("{dir}/{name}"), self.bytes.clone());
        for (f, d) in &self.files {
            v.put(&format!("{dir}/{f}"), d.clone());
        }
    }
}

pub fn payload(rng: &mut Rng, dt: i32, n: usize, special: bool) -> Vec<u8> {
    let mut out = Vec::with_capacity(n * width(dt));
    for _ in 0..n {
        match dt {
            F32 => {
                let bits = if special && rng.chance(1, 6) {
                    *rng.pick(&[0x7fc0_0001u32, 0xffc1_2345, 0x8000_0000, 1, 0x7f80_0000, 0xff80_0000, 0x7f7f_ffff])
                } else {
                    // Random sign and mantissa, moderate exponent.
                    let r = rng.next() as u32;
                    (r & 0x807f_ffff) | ((120 + (r >> 23 & 7)) << 23)
                };
                out.extend_from_slice(&bits.to_le_bytes());
            }
            F64 => {
                let r = rng.next();
                let bits = (r & 0x800f_ffff_ffff_ffff) | ((1020 + (r >> 52 & 3)) << 52);
                out.extend_from_slice(&bits.to_le_bytes());
            }
            F16 => {
                let r = rng.next() as u16;
                out.extend_from_slice(&((r & 0x83ff) | (0x0c + (r >> 10 & 7)) << 10).to_le_bytes());
            }
            BF16 => {
                let r = rng.next() as u16;
                out.extend_from_slice(&((r & 0x807f) | (0x78 + (r >> 7 & 7)) << 7).to_le_bytes());
            }
            BOOL => out.push(rng.below(2) as u8),
            _ => out.extend_from_slice(&rng.next().to_le_bytes()[..width(dt)]),
        }
    }
    out
}

fn id_unit(id: u64) -> String {
    id.to_string()
}

const CONST_TYPES: &[i32] = &[F32, F64, F16, BF16, I64, I32, I16, I8, U64, U32, U16, U8, BOOL];

/// Names that mean something in generated source.
pub const WORDS: &[&str] = &[
    "type", "device", "self", "match", "loop", "Tensor", "B", "indices", "Self", "model", "Model", "forward", "burn", "fn", "input",
    "output", "x", "cond", "record", "true", "0", "__", "_", "crate", "actual_idx", "tensor", "new", "move", "shape", "phantom",
    "i", "seq_len", "scan_output_collector_0", "scan_collector_0", "scan_output_0", "len", "next", "data", "iter", "result",
];
/// Names of the form the converter gives to the outputs of nodes.
pub const NODES: &[&str] = &["relu", "constant", "if", "loop", "scan", "add", "linear", "conv", "identity", "matmul"];

type Edit<'a> = &'a mut dyn FnMut(usize, &mut Tensor);
struct B<'e> {
    edit: Option<Edit<'e>>,
    seed: u64,
    /// Steps between a weight and its use.
    via: u64,
    /// Weights of bodies live in the main graph.
    outer: bool,
    /// Matrices of layers so far.
    mats: Vec<(String, Exp)>,
    g: Graph,
    all: Vec<Tensor>,
    exp: Vec<Exp>,
    files: BTreeMap<String, Vec<u8>>,
    dead: Vec<String>,
    ext: Value,
    special: bool,
    nset: u64,
    /// Side-file regions in use: file, offset, content.
    placed: Vec<(String, usize, Vec<u8>, i32)>,
    vals: u64,
    shared: Option<(String, Exp)>,
}

impl B<'_> {
    fn fresh(&mut self, p: &str) -> String {
        self.vals += 1;
        match self.nset {
            1 => format!("/net.{}/{p}::{}", self.vals % 3, self.vals),
            2 => format!("{}", 1000 + self.vals),
            3 => format!("onnx::{}_{}", p.to_uppercase(), self.vals),
            // Different names that look alike once reduced to identifiers.
            4 => ["T.{}", "T_{}", "t/{}", "T:{}", "t_{}", "T__{}"][self.vals as usize % 6].replace("{}", &(self.vals / 6).to_string()),
            5 => match self.vals as usize - 1 {
                k if k < WORDS.len() => WORDS[(k + self.seed as usize) % WORDS.len()].to_string(),
                k => format!("{p}_{k}"),
            },
            6 => format!("{}{}_out{}", NODES[(self.vals + self.seed) as usize % NODES.len()], self.vals / 3 + 1, self.vals % 3 + 1),
            _ => format!("{p}_{}", self.vals),
        }
    }
    fn place_ext(&mut self, data: &[u8]) -> Chan {
        let mode = js(&self.ext, "mode").to_string();
        let k = self.all.len();
        let file = match mode.as_str() {
            "per_tensor" => format!("t{k}.bin"),
            "subdir" => "data/sub/weights.data".to_string(),
            "two_files" => format!("w{}.bin", k % 2),
            _ => "weights.bin".to_string(),
        };
        let align = ju(&self.ext, "align").max(1) as usize;
        let gap = ju(&self.ext, "gap") as usize;
        let f = self.files.entry(file.clone()).or_default();
        if gap > 0 {
            f.extend(std::iter::repeat_n(0xA5u8, gap));
        }
        while f.len() % align != 0 {
            f.push(0x5A);
        }
        let off = f.len();
        f.extend_from_slice(data);
        let mut o = Some(off.to_string());
        let mut l = Some(data.len().to_string());
        if mode == "per_tensor" && off == 0 {
            match k % 3 {
                0 => o = None,
                1 => l = None,
                _ => {}
            }
        }
        Chan::Ext(file, o, l)
    }
    /// Random tensor content, stable for (model seed, layer id, role).
    fn tensor(&mut self, id: u64, role: &str, dt: i32, dims: &[i64], ch: &str) -> Tensor {
        let mut r = Rng::fork(self.seed ^ mix(id, 77), role);
        let n: i64 = dims.iter().product();
        let mut data = payload(&mut r, dt, n as usize, self.special && n > 1);
        let tie = if ch == "ext" && jb(&self.ext, "tie") && !matches!(dt, BOOL | F16 | BF16 | F64) {
            // A region an earlier tensor uses, seen with another shape or type.
            let c: Vec<_> = self.placed.iter().filter(|p| (dt != F32 || p.3 == F32) && (p.2.len() == data.len() || p.2.len() > data.len() && self.all.len() % 3 == 0)).collect();
            if c.is_empty() { None } else { Some(r.pick(&c[..]).to_owned().clone()) }
        } else {
            None
        };
        let chan = match ch {
            "typed" => Chan::Typed,
            "ext" => match tie {
                Some((f, o, d, _)) => {
                    data = d[..data.len()].to_vec();
                    Chan::Ext(f, Some(o.to_string()), Some(data.len().to_string()))
                }
                None => {
                    let c = self.place_ext(&data);
                    if let Chan::Ext(f, o, _) = &c {
                        let o = o.as_deref().map_or(0, |o| o.parse().unwrap_or(0));
                        self.placed.push((f.clone(), o, data.clone(), dt));
                    }
                    c
                }
            },
            _ => Chan::Raw,
        };
        let name = self.fresh("w");
        let mut t = Tensor { name, dt, dims: dims.to_vec(), data, chan };
        if let Some(e) = &mut self.edit {
            e(self.all.len(), &mut t);
        }
        self.all.push(t.clone());
        t
    }
    /// Put a tensor into the graph, as an initializer or a Constant node.
    fn source(&mut self, g: &mut Graph, t: Tensor, ch: &str) -> String {
        let name = t.name.clone();
        if ch == "attr" {
            let nm = self.fresh("const");
            g.nodes.push(node("Constant", &nm, &[], &[&name]).at("value", Attr::T(Tensor { name: String::new(), ..t })));
        } else {
            g.inits.push(t);
        }
        // Reached in a few steps.
        (0..self.via).fold(name, |x, _| self.unary(g, "Identity", &x))
    }
    /// Where the weight of a body lives.
    fn near(&mut self, g: &mut Graph, t: Tensor, ch: &str) -> String {
        if self.outer {
            let n = t.name.clone();
            self.g.inits.push(t);
            n
        } else {
            self.source(g, t, ch)
        }
    }
    fn expect(&mut self, layer: u64, role: &str, t: &Tensor) {
        self.exp.push(Exp { layer, role: role.into(), dt: t.dt, dims: t.dims.clone(), data: t.data.clone(), lin: 0, tensor: t.name.clone(), unit: id_unit(layer) });
    }
    fn put(&mut self, id: u64, role: &str, dt: i32, dims: &[i64], ch: &str) -> String {
        let t = self.tensor(id, role, dt, dims, ch);
        self.expect(id, role, &t);
        let mut g = std::mem::take(&mut self.g);
        let n = self.source(&mut g, t, ch);
        self.g = g;
        n
    }
    /// A one-input one-output body with its own weight, for subgraphs.
    fn body(&mut self, id: u64, what: &str, role: &str, x: &str, f: i64, ch: &str) -> (Graph, String) {
        let mut g = Graph { name: self.fresh("body"), ..Default::default() };
        let out = self.fresh("b");
        let nm = self.fresh("n");
        if what == "gemm" {
            let t = self.tensor(id, role, F32, &[f, f], ch);
            self.expect(id, "weight", &t);
            self.exp.last_mut().unwrap().lin = 1;
            self.exp.last_mut().unwrap().unit = format!("{id}:{role}");
            let w = self.near(&mut g, t, if ch == "attr" { "raw" } else { ch });
            g.nodes.push(node("Gemm", &nm, &[x, &w], &[&out]).at("transB", Attr::I(1)));
        } else {
            let t = self.tensor(id, role, F32, &[f], ch);
            self.expect(id, "", &t);
            self.exp.last_mut().unwrap().unit = format!("{id}:{role}");
            let w = self.near(&mut g, t, ch);
            g.nodes.push(node("Add", &nm, &[x, &w], &[&out]));
        }
        (g, out)
    }
}

struct Ctl<'a> {
    id: u64,
    what: &'a str,
    f: i64,
    ch: &'a str,
    shape: Vec<i64>,
    batch: i64,
    /// What else the bodies do, in bits.
    deco: u64,
    /// A constant of the main graph that bodies may use.
    con: Option<String>,
    /// A value of the main graph that bodies may use.
    val: Option<String>,
}

impl B<'_> {
    fn input(&mut self, p: &str, dt: i32, dims: &[i64]) -> String {
        let n = self.fresh(p);
        self.g.ins.push(io(&n, dt, dims));
        n
    }
    /// Let a body also use values from around it.
    fn dress(&mut self, g: &mut Graph, o: String, c: &Ctl, bit: u64) -> String {
        let mut o = o;
        for (b, op, name) in [(1, "Add", &c.val), (2, "Mul", &c.con)] {
            if let Some(v) = name.as_ref().filter(|_| c.deco & (b << bit) != 0) {
                let (nn, no) = (self.fresh("dn"), self.fresh("d"));
                let args = if c.deco & 256 == 0 { [o.as_str(), v.as_str()] } else { [v.as_str(), o.as_str()] };
                g.nodes.push(node(op, &nn, &args, &[&no]));
                o = no;
            }
        }
        o
    }
    fn unary(&mut self, g: &mut Graph, op: &str, x: &str) -> String {
        let (n, o) = (self.fresh("un"), self.fresh("u"));
        g.nodes.push(node(op, &n, &[x], &[&o]));
        o
    }
    /// Append the control structure `nest[0]` to `g`; the rest of `nest` goes
    /// inside its body. Conditions and trip counts are inputs of the model.
    fn control(&mut self, g: &mut Graph, nest: &[&str], c: &Ctl, x: &str, tag: &str) -> String {
        let y = self.fresh("y");
        let nm = self.fresh("n");
        let val = |n: &str| io(n, F32, &c.shape);
        // A second value beside the first, and which way it goes.
        let two = c.deco & 16 != 0;
        let turn = c.deco & 32 != 0;
        let y2 = if two { self.fresh("y") } else { String::new() };
        match nest[0] {
            "if" => {
                let cond = self.input("cond", BOOL, &[]);
                let (mut t, to) = self.body(c.id, c.what, &format!("{tag}then"), x, c.f, c.ch);
                let (mut e, mut eo) = self.body(c.id, c.what, &format!("{tag}else"), x, c.f, c.ch);
                if nest.len() > 1 {
                    eo = self.control(&mut e, &nest[1..], c, &eo, &format!("{tag}e"));
                }
                let to = self.dress(&mut t, to, c, 0);
                let eo = self.dress(&mut e, eo, c, 2);
                t.outs.push(val(&to));
                e.outs.push(val(&eo));
                let mut outs = vec![y.as_str()];
                if two {
                    let t2 = self.unary(&mut t, "Tanh", if turn { x } else { &to });
                    let e2 = self.unary(&mut e, "Neg", x);
                    t.outs.push(val(&t2));
                    e.outs.push(val(&e2));
                    outs.push(&y2);
                }
                g.nodes.push(node("If", &nm, &[&cond], &outs).at("then_branch", Attr::G(t)).at("else_branch", Attr::G(e)));
            }
            "loop" => {
                let m = self.input("m", I64, &[]);
                let c0 = self.input("c0", BOOL, &[]);
                let (it, ci, st) = (self.fresh("it"), self.fresh("ci"), self.fresh("st"));
                let st2 = if two { self.fresh("st") } else { String::new() };
                // The weight is applied to the state that is not passed on as it is.
                let from = if two && turn { &st2 } else { &st };
                let (mut b, mut o) = self.body(c.id, c.what, &format!("{tag}body"), from, c.f, c.ch);
                if nest.len() > 1 {
                    o = self.control(&mut b, &nest[1..], c, &o, &format!("{tag}l"));
                }
                let o = self.dress(&mut b, o, c, 0);
                let (co, cn) = (self.fresh("co"), self.fresh("cid"));
                b.ins = vec![io(&it, I64, &[]), io(&ci, BOOL, &[]), val(&st)];
                b.nodes.push(node("Identity", &cn, &[&ci], &[&co]));
                b.outs = vec![io(&co, BOOL, &[]), val(&o)];
                let mut ins = vec![m.clone(), c0.clone(), x.to_string()];
                let mut outs = vec![y.as_str()];
                if two {
                    b.ins.push(val(&st2));
                    // The second state takes the first one, or a function of itself.
                    let o2 = if turn { st.clone() } else { self.unary(&mut b, "Tanh", &st2) };
                    b.outs.push(val(&o2));
                    ins.push(c.val.clone().unwrap_or(x.to_string()));
                    outs.push(&y2);
                }
                let ys = self.fresh("ys");
                if c.deco & 64 != 0 {
                    let so = self.unary(&mut b, "Abs", &o);
                    b.outs.push(val(&so));
                    outs.push(&ys);
                }
                let r: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                g.nodes.push(node("Loop", &nm, &r, &outs).at("body", Attr::G(b)));
            }
            _ => {
                // Scan over a fresh sequence input with the activation as state.
                let seq = self.input("seq", F32, &[3, c.batch, c.f]);
                let (st, el) = (self.fresh("st"), self.fresh("el"));
                let st2 = if two { self.fresh("st") } else { String::new() };
                let from = if two && turn { &st2 } else { &st };
                let (mut b, mut o) = self.body(c.id, c.what, &format!("{tag}body"), from, c.f, c.ch);
                if nest.len() > 1 {
                    o = self.control(&mut b, &nest[1..], c, &o, &format!("{tag}s"));
                }
                let o = self.dress(&mut b, o, c, 0);
                let (so, an) = (self.fresh("so"), self.fresh("an"));
                b.ins = vec![val(&st)];
                b.nodes.push(node("Add", &an, &[&o, &el], &[&so]));
                b.outs = vec![val(&so)];
                let mut ins = vec![x.to_string()];
                let mut outs = vec![y.as_str()];
                if two {
                    b.ins.push(val(&st2));
                    let o2 = if turn { st.clone() } else { self.unary(&mut b, "Tanh", &st2) };
                    b.outs.push(val(&o2));
                    ins.push(c.val.clone().unwrap_or(x.to_string()));
                    outs.push(&y2);
                }
                b.ins.push(val(&el));
                ins.push(seq.clone());
                let ys = self.fresh("ys");
                if c.deco & 64 != 0 {
                    let so = self.unary(&mut b, "Abs", &o);
                    b.outs.push(val(&so));
                    outs.push(&ys);
                }
                let r: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                g.nodes.push(node("Scan", &nm, &r, &outs).at("num_scan_inputs", Attr::I(1)).at("body", Attr::G(b)));
            }
        }
        if two && c.deco & 128 != 0 {
            let (n, o) = (self.fresh("jn"), self.fresh("j"));
            g.nodes.push(node("Sub", &n, &[&y, &y2], &[&o]));
            return o;
        }
        y
    }
}

/// Build the model a recipe describes.
pub fn build(spec: &Value) -> Built {
    build_inner(spec, None)
}
/// The same, with each tensor (by position) open to change before it is written.
pub fn build_with(spec: &Value, edit: Edit) -> Built {
    build_inner(spec, Some(edit))
}
fn build_inner(spec: &Value, edit: Option<Edit>) -> Built {
    let chain = js(spec, "chain");
    let mut b = B {
        edit,
        seed: ju(spec, "seed"),
        g: Graph { name: "main".into(), ..Default::default() },
        all: vec![],
        exp: vec![],
        files: BTreeMap::new(),
        dead: vec![],
        ext: spec.get("ext").cloned().unwrap_or(json!({})),
        special: jb(spec, "special"),
        nset: ju(spec, "names"),
        placed: vec![],
        vals: 0,
        shared: None,
        via: 0,
        outer: false,
        mats: vec![],
    };
    let batch = ju(spec, "b").max(1) as i64;
    let mut f = ju(spec, "f").max(1) as i64;
    let spatial: i64 = 6;
    let shape = |f: i64| -> Vec<i64> {
        match chain {
            "seq" => vec![batch, f, spatial],
            "img" => vec![batch, f, spatial, spatial],
            "vol" => vec![batch, f, spatial, spatial, spatial],
            "rnn" => vec![spatial, batch, f],
            _ => vec![batch, f],
        }
    };
    let rank = shape(f).len();
    let xin = b.fresh("input");
    b.g.ins.push(io(&xin, F32, &shape(f)));
    let mut x = xin;
    // Values so far, and those that are outputs as well.
    let mut pool: Vec<(String, Vec<i64>)> = vec![(x.clone(), shape(f))];
    let mut taps: Vec<Io> = vec![];
    let opset = if ju(spec, "opset") > 0 { ju(spec, "opset") as i64 } else { 18 };
    for l in ja(spec, "layers") {
        let id = ju(l, "id");
        let op = js(l, "op");
        let ch = if js(l, "ch").is_empty() { "raw" } else { js(l, "ch") };
        let g = ju(l, "g").max(1) as i64;
        b.via = ju(l, "via");
        b.outer = jb(l, "outer");
        let nm = b.fresh("node");
        let y = b.fresh("h");
        // Channel-wise broadcast shape.
        let mut cw = vec![1i64; rank - 1];
        cw[0] = f;
        match op {
            "gemm" if rank == 2 => {
                let t = !jb(l, "flat");
                let dims = if t { [g, f] } else { [f, g] };
                let old = b.mats.iter().rev().find(|m| m.1.dims == dims && jb(l, "reuse")).cloned();
                let w = match old {
                    // The matrix of an earlier layer once more.
                    Some((w, e)) => {
                        b.exp.push(Exp { layer: id, unit: id_unit(id), ..e });
                        w
                    }
                    None => {
                        let w = b.put(id, "weight", F32, &dims, ch);
                        b.mats.push((w.clone(), b.exp.last().unwrap().clone()));
                        w
                    }
                };
                b.exp.last_mut().unwrap().lin = if t { 1 } else { 2 };
                let mut ins = vec![x.clone(), w];
                if jb(l, "bias") {
                    let d = match ju(l, "form") {
                        1 if jb(l, "one") => vec![1, g],
                        2 if jb(l, "one") => vec![1],
                        _ => vec![g],
                    };
                    ins.push(b.put(id, "bias", F32, &d, ch));
                } else if jb(l, "void") {
                    ins.push(String::new());
                }
                let r: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                let mut n = node("Gemm", &nm, &r, &[&y]);
                if t || jb(l, "ab") {
                    n = n.at("transB", Attr::I(t as i64));
                }
                if jb(l, "ab") {
                    // All attributes spelled out: becomes a linear layer.
                    n = n.at("alpha", Attr::F(if jb(l, "half") { 0.5 } else { 1.0 })).at("beta", Attr::F(1.0));
                }
                b.g.nodes.push(n);
                f = g;
            }
            "matmul" if rank == 2 => {
                let w = b.put(id, "weight", F32, &[f, g], ch);
                b.exp.last_mut().unwrap().lin = 2;
                b.g.nodes.push(node("MatMul", &nm, &[&x, &w], &[&y]));
                f = g;
            }
            "conv" if (3..=5).contains(&rank) => {
                let k = if id % 2 == 0 { 1 } else { 3 };
                // Each channel on its own.
                let gr = if jb(l, "flat") && f == g { f } else { 1 };
                let mut d = vec![g, f / gr];
                d.extend(std::iter::repeat_n(k, rank - 2));
                let w = b.put(id, "weight", F32, &d, ch);
                let mut ins = vec![x.clone(), w];
                if jb(l, "bias") {
                    ins.push(b.put(id, "bias", F32, &[g], ch));
                } else if jb(l, "void") {
                    ins.push(String::new());
                }
                let r: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                b.g.nodes.push(
                    node("Conv", &nm, &r, &[&y])
                        .at("kernel_shape", Attr::Is(vec![k; rank - 2]))
                        .at("strides", Attr::Is(vec![1; rank - 2]))
                        .at("dilations", Attr::Is(vec![1; rank - 2]))
                        .at("group", Attr::I(gr))
                        .at("pads", Attr::Is(vec![k / 2; 2 * (rank - 2)])),
                );
                f = g;
            }
            "convt" if (3..=5).contains(&rank) => {
                let mut d = vec![f, g];
                d.extend(std::iter::repeat_n(1, rank - 2));
                let w = b.put(id, "weight", F32, &d, ch);
                let mut ins = vec![x.clone(), w];
                if jb(l, "bias") {
                    ins.push(b.put(id, "bias", F32, &[g], ch));
                } else if jb(l, "void") {
                    ins.push(String::new());
                }
                let r: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                b.g.nodes.push(
                    node("ConvTranspose", &nm, &r, &[&y])
                        .at("kernel_shape", Attr::Is(vec![1; rank - 2]))
                        .at("strides", Attr::Is(vec![1; rank - 2]))
                        .at("dilations", Attr::Is(vec![1; rank - 2]))
                        .at("group", Attr::I(1))
                        .at("pads", Attr::Is(vec![0; 2 * (rank - 2)])),
                );
                f = g;
            }
            "batchnorm" if (3..=4).contains(&rank) => {
                let p: Vec<String> = ["gamma", "beta", "running_mean", "running_var"]
                    .into_iter()
                    .map(|r| b.put(id, r, F32, &[f], ch))
                    .collect();
                b.g.nodes.push(
                    node("BatchNormalization", &nm, &[&x, &p[0], &p[1], &p[2], &p[3]], &[&y])
                        .at("epsilon", Attr::F(1e-5))
                        .at("momentum", Attr::F(0.9)),
                );
            }
            "instnorm" if (3..=4).contains(&rank) => {
                let a = b.put(id, "gamma", F32, &[f], ch);
                let c = b.put(id, "beta", F32, &[f], ch);
                b.g.nodes.push(
                    node("InstanceNormalization", &nm, &[&x, &a, &c], &[&y]).at("epsilon", Attr::F(1e-5)),
                );
            }
            "layernorm" => {
                let last = *shape(f).last().unwrap();
                let a = b.put(id, "gamma", F32, &[last], ch);
                let c = b.put(id, "beta", F32, &[last], ch);
                b.g.nodes.push(
                    node("LayerNormalization", &nm, &[&x, &a, &c], &[&y])
                        .at("axis", Attr::I(-1))
                        .at("epsilon", Attr::F(1e-5)),
                );
            }
            "prelu" if rank != 3 => {
                let d = if jb(l, "one") { vec![1] } else { cw.clone() };
                let a = b.put(id, "alpha", F32, &d, ch);
                b.g.nodes.push(node("PRelu", &nm, &[&x, &a], &[&y]));
            }
            "addc" | "mulc" | "subc" | "divc" => {
                let d: Vec<i64> = match ju(l, "form") {
                    1 => vec![1],
                    2 => [vec![1], cw.clone()].concat(),
                    3 => shape(f),
                    _ => {
                        if rank == 2 {
                            vec![f]
                        } else {
                            cw.clone()
                        }
                    }
                };
                let c = b.put(id, "", F32, &d, ch);
                let o = match op {
                    "addc" => "Add",
                    "mulc" => "Mul",
                    "subc" => "Sub",
                    _ => "Div",
                };
                if jb(l, "swap") {
                    b.g.nodes.push(node(o, &nm, &[&c, &x], &[&y]));
                } else {
                    b.g.nodes.push(node(o, &nm, &[&x, &c], &[&y]));
                }
                let e = b.exp.last().unwrap().clone();
                b.shared = Some((c, e));
            }
            "sharec" if b.shared.is_some() => {
                let (c, e) = b.shared.clone().unwrap();
                let mut want = shape(f);
                if rank == 2 {
                    want = vec![f];
                }
                if e.dims != want && e.dims != cw && e.dims != [1] {
                    continue;
                }
                b.g.nodes.push(node("Mul", &nm, &[&x, &c], &[&y]));
            }
            "typedc" => {
                // A constant of any element type, cast before use.
                let dt = CONST_TYPES[ju(l, "dt") as usize % CONST_TYPES.len()];
                let d = if rank == 2 { vec![f] } else { cw.clone() };
                let c = b.put(id, "", dt, &d, ch);
                if dt == F32 {
                    b.g.nodes.push(node("Add", &nm, &[&x, &c], &[&y]));
                } else {
                    let k = b.fresh("cast");
                    let cn = b.fresh("castn");
                    b.g.nodes.push(node("Cast", &cn, &[&c], &[&k]).at("to", Attr::I(F32 as i64)));
                    b.g.nodes.push(node("Add", &nm, &[&x, &k], &[&y]));
                }
            }
            "if" | "loop" | "scan" if rank == 2 => {
                let what = if jb(l, "lin") { "gemm" } else { "add" };
                let inner = if jb(l, "nested") { *["if", "loop", "scan"].get((ju(l, "dt") % 3) as usize).unwrap() } else { "" };
                let deep = if ju(l, "form") == 0 { "if" } else { "" };
                let mut g2 = std::mem::take(&mut b.g);
                let nest: Vec<&str> = [op, inner, deep].into_iter().filter(|s| !s.is_empty()).collect();
                let deco = ju(l, "deco");
                let mut con = None;
                if deco & 10 != 0 {
                    let t = b.tensor(id, "con", F32, &[f], ch);
                    // A body that is dressed with it uses it.
                    if deco & 2 != 0 || deco & 8 != 0 && nest.contains(&"if") {
                        b.expect(id, "", &t);
                        b.exp.last_mut().unwrap().unit = format!("{id}:con");
                    } else {
                        b.dead.push(t.name.clone());
                    }
                    con = Some(b.source(&mut g2, t, ch));
                }
                let val = pool.iter().rev().find(|p| p.1 == shape(f) && p.0 != x).map(|p| p.0.clone());
                let o = b.control(&mut g2, &nest, &Ctl { id, what, f, ch, shape: shape(f), batch, deco, con, val }, &x, "");
                // Inputs the control structures need were collected aside.
                let extra = std::mem::take(&mut b.g);
                g2.ins.extend(extra.ins);
                g2.inits.extend(extra.inits);
                b.g = g2;
                b.g.nodes.push(node("Identity", &nm, &[&o], &[&y]));
            }
            "lstm" | "gru" | "rnn" if chain == "rnn" => {
                let h = g.max(2);
                let (gates, names): (i64, &[&str]) = match op {
                    "lstm" => (4, &["input_gate", "output_gate", "forget_gate", "cell_gate"]),
                    "gru" => (3, &["update_gate", "reset_gate", "new_gate"]),
                    _ => (1, &["gate"]),
                };
                let dir = ["forward", "reverse", "bidirectional"][(ju(l, "form") % 3) as usize];
                let nd: i64 = if dir == "bidirectional" { 2 } else { 1 };
                let w = b.tensor(id, "W", F32, &[nd, gates * h, f], ch);
                let rr = b.tensor(id, "R", F32, &[nd, gates * h, h], ch);
                let bias = jb(l, "bias").then(|| b.tensor(id, "B", F32, &[nd, 2 * gates * h], ch));
                let fl = |t: &Tensor| -> Vec<f32> { t.data.chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect() };
                let (wv, rv, bv) = (fl(&w), fl(&rr), bias.as_ref().map(fl));
                let by = |v: Vec<f32>| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() };
                for d in 0..nd {
                    for (k, gn) in names.iter().enumerate() {
                        let k = k as i64;
                        let pre = if nd == 2 { ["forward.", "reverse."][d as usize] } else { "" };
                        // [hidden, input] slices, transposed.
                        let tr = |v: &[f32], n: i64| -> Vec<u8> {
                            let at = |r: i64, c: i64| v[(((d * gates + k) * h + r) * n + c) as usize];
                            by((0..n).flat_map(|c| (0..h).map(move |r| (r, c))).map(|(r, c)| at(r, c)).collect())
                        };
                        let mut add = |tail: &str, dims: Vec<i64>, data: Vec<u8>| {
                            let t = match tail {
                                "input_transform.weight" => &w.name,
                                "hidden_transform.weight" => &rr.name,
                                _ => &bias.as_ref().unwrap().name,
                            };
                            b.exp.push(Exp { layer: id, role: format!("{pre}{gn}.{tail}"), dt: F32, dims, data, lin: 0, tensor: t.clone(), unit: id_unit(id) });
                        };
                        add("input_transform.weight", vec![f, h], tr(&wv, f));
                        add("hidden_transform.weight", vec![h, h], tr(&rv, h));
                        if let Some(bv) = &bv {
                            let part = |half: i64| -> Vec<f32> {
                                let o = (d * 2 * gates * h + (half * gates + k) * h) as usize;
                                bv[o..o + h as usize].to_vec()
                            };
                            let (p, q) = (part(0), part(1));
                            if op == "gru" {
                                add("input_transform.bias", vec![h], by(p));
                                add("hidden_transform.bias", vec![h], by(q));
                            } else {
                                add("input_transform.bias", vec![h], by(p.iter().zip(&q).map(|(a, b)| a + b).collect()));
                                add("hidden_transform.bias", vec![h], by(vec![0.0; h as usize]));
                            }
                        }
                    }
                }
                let mut g2 = std::mem::take(&mut b.g);
                let sch = if ch == "attr" { "raw" } else { ch };
                let mut ins = vec![x.clone(), b.source(&mut g2, w, sch), b.source(&mut g2, rr, sch)];
                if let Some(t) = bias {
                    ins.push(b.source(&mut g2, t, sch));
                }
                b.g = g2;
                if jb(l, "void") {
                    ins.resize(5, String::new());
                }
                if jb(l, "flat") {
                    ins.resize(5, String::new());
                    ins.push(b.input("h0", F32, &[nd, batch, h]));
                    if op == "lstm" {
                        ins.push(b.input("c0", F32, &[nd, batch, h]));
                    }
                }
                let r: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                let yo = b.fresh("yo");
                let mut outs = vec![yo.clone()];
                if jb(l, "reuse") {
                    for _ in 0..if op == "lstm" { 2 } else { 1 } {
                        let o = b.fresh("yh");
                        taps.push(io(&o, F32, &[nd, batch, h]));
                        outs.push(o);
                    }
                }
                let outs: Vec<&str> = outs.iter().map(|s| s.as_str()).collect();
                let mut n = node(&op.to_uppercase(), &nm, &r, &outs).at("hidden_size", Attr::I(h)).at("direction", Attr::S(dir.into()));
                if op == "gru" {
                    n = n.at("linear_before_reset", Attr::I(1));
                }
                b.g.nodes.push(n);
                let n2 = b.fresh("sq");
                if nd == 1 {
                    let ax = Tensor { name: b.fresh("axes"), dt: I64, dims: vec![1], data: 1i64.to_le_bytes().to_vec(), chan: Chan::Raw };
                    let an = ax.name.clone();
                    b.g.inits.push(ax);
                    b.g.nodes.push(node("Squeeze", &n2, &[&yo, &an], &[&y]));
                } else {
                    let t1 = b.fresh("tr");
                    let n3 = b.fresh("re");
                    b.g.nodes.push(node("Transpose", &n2, &[&yo], &[&t1]).at("perm", Attr::Is(vec![0, 2, 1, 3])));
                    let d: Vec<u8> = [spatial, batch, 2 * h].iter().flat_map(|v| v.to_le_bytes()).collect();
                    let sh = Tensor { name: b.fresh("shape"), dt: I64, dims: vec![3], data: d, chan: Chan::Raw };
                    let sn = sh.name.clone();
                    b.g.inits.push(sh);
                    b.g.nodes.push(node("Reshape", &n3, &[&t1, &sn], &[&y]));
                }
                f = nd * h;
            }
            "join" => match pool.iter().rev().filter(|p| p.1 == shape(f) && p.0 != x).nth((ju(l, "dt") % 3) as usize) {
                Some((p, _)) => {
                    let o = ["Add", "Mul", "Sub", "Max"][(ju(l, "form") % 4) as usize];
                    let args = if jb(l, "swap") { [p.as_str(), x.as_str()] } else { [x.as_str(), p.as_str()] };
                    b.g.nodes.push(node(o, &nm, &args, &[&y]));
                }
                None => continue,
            },
            "tap" if !taps.iter().any(|t: &Io| t.name == x) && !b.g.nodes.is_empty() => {
                taps.push(io(&x, F32, &shape(f)));
                continue;
            }
            "identity" => b.g.nodes.push(node("Identity", &nm, &[&x], &[&y])),
            "tanh" | "relu" | "sigmoid" | "neg" | "abs" => {
                let o = match op {
                    "tanh" => "Tanh",
                    "relu" => "Relu",
                    "sigmoid" => "Sigmoid",
                    "neg" => "Neg",
                    _ => "Abs",
                };
                b.g.nodes.push(node(o, &nm, &[&x], &[&y]));
            }
            "dead" => {
                // Unused initializer and unused node.
                let t = b.tensor(id, "dead", F32, &[f], ch);
                b.dead.push(t.name.clone());
                let mut g2 = std::mem::take(&mut b.g);
                b.source(&mut g2, t, if ch == "attr" { "raw" } else { ch });
                b.g = g2;
                continue;
            }
            _ => continue,
        }
        x = y;
        pool.push((x.clone(), shape(f)));
    }
    b.g.outs.push(io(&x, F32, &shape(f)));
    b.g.outs.extend(taps.into_iter().filter(|t| t.name != x));
    if b.g.nodes.is_empty() {
        let y = b.fresh("out");
        let nm = b.fresh("relu");
        b.g.nodes.push(node("Relu", &nm, &[&x], &[&y]));
        b.g.outs = vec![io(&y, F32, &shape(f))];
    }
    let bytes = if jb(spec, "opset_first") { onnx::model_opset_first(&b.g, opset) } else { onnx::model(&b.g, opset) };
    Built { bytes, files: b.files, exp: b.exp, all: b.all, dead: b.dead, opset }
}

pub struct Style {
    pub ext: bool,
    pub subgraphs: bool,
    pub max_layers: u64,
    pub big: bool,
}
impl Default for Style {
    fn default() -> Self {
        Style { ext: true, subgraphs: true, max_layers: 10, big: false }
    }
}

/// A random recipe.
pub fn recipe(r: &mut Rng, st: &Style) -> Value {
    let chain = *r.pick(&["vec", "vec", "vec", "vec", "img", "seq", "vol", "rnn"]);
    let ext_mode = *r.pick(&["single", "per_tensor", "subdir", "two_files"]);
    let chans: Vec<&str> = {
        // Swarm: each model uses a random subset of the channels.
        let mut v: Vec<&str> = vec!["raw", "typed", "attr"];
        if st.ext && r.chance(1, 2) {
            v.push("ext");
            v.push("ext");
        }
        r.shuffle(&mut v);
        let k = r.range(1, v.len() as u64) as usize;
        v.truncate(k);
        v
    };
    let vec_ops: &[&str] = if st.subgraphs {
        &[
            "gemm", "gemm", "matmul", "addc", "mulc", "subc", "divc", "prelu", "layernorm", "typedc", "typedc", "if",
            "if", "loop", "scan", "relu", "tanh", "identity", "dead", "sharec", "join", "join", "tap",
        ]
    } else {
        &[
            "gemm", "gemm", "matmul", "addc", "mulc", "subc", "divc", "prelu", "layernorm", "typedc", "typedc", "relu",
            "tanh", "identity", "dead", "sharec", "join", "join", "tap",
        ]
    };
    let map_ops: &[&str] = &[
        "conv", "conv", "convt", "batchnorm", "instnorm", "prelu", "addc", "mulc", "typedc", "relu", "tanh", "identity",
        "sharec", "join", "tap",
    ];
    let rnn_ops: &[&str] = &["lstm", "gru", "rnn", "lstm", "gru", "relu", "tanh", "layernorm", "addc", "mulc", "join", "tap"];
    let n = r.range(1, if chain == "rnn" { st.max_layers.min(5) } else { st.max_layers });
    let f0 = r.range(1, 9);
    let same = r.chance(1, 2);
    let layers: Vec<Value> = (0..n)
        .map(|i| {
            let op = *r.pick(match chain {
                "vec" => vec_ops,
                "rnn" => rnn_ops,
                _ => map_ops,
            });
            let mut ch = *r.pick(&chans);
            if op == "layernorm" || op == "gemm" || op == "conv" || op == "convt" || op == "batchnorm" || op == "prelu" || op == "matmul" || op == "instnorm" {
                if ch == "attr" && r.chance(1, 2) {
                    ch = "raw";
                }
            }
            let g = if same { f0 } else if st.big && r.chance(1, 4) { r.range(64, 400) } else { r.range(1, 12) };
            json!({
                "op": op, "id": i, "ch": ch, "g": g, "bias": r.chance(1, 2), "form": r.below(4),
                "swap": r.chance(1, 4), "dt": r.below(13), "lin": r.chance(1, 2), "nested": r.chance(1, 3),
                "one": r.chance(1, 3), "ab": r.chance(1, 2), "via": if r.chance(1, 25) { r.range(1, 3) } else { 0 }, "outer": r.chance(1, 4),
                "reuse": r.chance(1, 4), "flat": r.chance(1, 3), "void": r.chance(1, 12), "half": r.chance(1, 4), "deco": if r.chance(1, 2) { r.below(512) } else { 0 },
            })
        })
        .collect();
    json!({
        "kind": "gen", "chain": chain, "seed": r.next() >> 12, "b": r.range(1, 3), "f": f0,
        "special": r.chance(1, 4), "names": r.below(7), "opset": *r.pick(&[16u64, 17, 18, 20, 21]),
        "ext": {"mode": ext_mode, "align": *r.pick(&[1u64, 1, 4, 64, 4096]), "gap": *r.pick(&[0u64, 0, 3, 100]),
                "tie": chain != "rnn" && r.chance(1, 3)},
        "layers": layers,
    })
}
