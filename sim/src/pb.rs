//! ONNX protobuf files as trees, for structure-aware damage.
use crate::onnx::W;
use crate::util::*;
use serde_json::Value;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Model,
    Graph,
    Node,
    Attr,
    Tensor,
    Info,
    Type,
    TType,
    Seq,
    Shape,
    Dim,
    Kv,
    Opset,
    Leaf,
}
pub fn child(t: Ty, f: u32) -> Ty {
    use Ty::*;
    match (t, f) {
        (Model, 7) => Graph,
        (Model, 8) => Opset,
        (Model, 14) => Kv,
        (Graph, 1) => Node,
        (Graph, 5) => Tensor,
        (Graph, 11..=13) => Info,
        (Node, 5) => Attr,
        (Attr, 5 | 10) => Tensor,
        (Attr, 6 | 11) => Graph,
        (Tensor, 13) => Kv,
        (Info, 2) => Type,
        (Type, 1) => TType,
        (Type, 4 | 9) => Seq,
        (Seq, 1) => Type,
        (TType, 2) => Shape,
        (Shape, 1) => Dim,
        _ => Leaf,
    }
}
/// Is field `f` of `t` a text field?
fn text(t: Ty, f: u32) -> bool {
    use Ty::*;
    matches!((t, f), (Graph, 2) | (Node, 1..=4) | (Node, 7) | (Attr, 1 | 4 | 9) | (Tensor, 8) | (Info, 1) | (Dim, 2) | (Kv, 1 | 2) | (Opset, 1))
}

#[derive(Clone, Debug)]
pub enum Val {
    Int(u64),
    F32([u8; 4]),
    F64([u8; 8]),
    Bytes(Vec<u8>),
    Msg(Ty, Vec<Field>),
}
#[derive(Clone, Debug)]
pub struct Field {
    pub n: u32,
    pub of: Ty,
    pub v: Val,
}

fn varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for k in 0..10 {
        let x = *b.get(*p)?;
        *p += 1;
        v |= ((x & 0x7f) as u64) << (7 * k);
        if x & 0x80 == 0 {
            return Some(v);
        }
    }
    None
}
pub fn parse(b: &[u8], t: Ty, depth: usize) -> Option<Vec<Field>> {
    if depth > 90 {
        return None;
    }
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let tag = varint(b, &mut p)?;
        let n = (tag >> 3) as u32;
        let v = match tag & 7 {
            0 => Val::Int(varint(b, &mut p)?),
            1 => {
                let x = b.get(p..p + 8)?.try_into().ok()?;
                p += 8;
                Val::F64(x)
            }
            5 => {
                let x = b.get(p..p + 4)?.try_into().ok()?;
                p += 4;
                Val::F32(x)
            }
            2 => {
                let l = varint(b, &mut p)? as usize;
                let x = b.get(p..p.checked_add(l)?)?;
                p += l;
                let c = child(t, n);
                match if c == Ty::Leaf { None } else { parse(x, c, depth + 1) } {
                    Some(m) => Val::Msg(c, m),
                    None => Val::Bytes(x.to_vec()),
                }
            }
            _ => return None,
        };
        out.push(Field { n, of: t, v });
    }
    Some(out)
}
pub fn enc(m: &[Field]) -> Vec<u8> {
    let mut w = W::default();
    for f in m {
        match &f.v {
            Val::Int(v) => {
                w.tag(f.n, 0);
                w.varint(*v);
            }
            Val::F32(x) => {
                w.tag(f.n, 5);
                w.0.extend_from_slice(x);
            }
            Val::F64(x) => {
                w.tag(f.n, 1);
                w.0.extend_from_slice(x);
            }
            Val::Bytes(b) => w.bytes(f.n, b),
            Val::Msg(_, m) => w.bytes(f.n, &enc(m)),
        }
    }
    w.0
}

/// Visit every field of the tree; stop when the visitor answers true.
pub fn walk(m: &mut Vec<Field>, f: &mut dyn FnMut(&mut Vec<Field>, usize) -> bool) -> bool {
    let mut i = 0;
    while i < m.len() {
        if f(m, i) {
            return true;
        }
        if let Some(Field { v: Val::Msg(_, c), .. }) = m.get_mut(i) {
            if walk(c, f) {
                return true;
            }
        }
        i += 1;
    }
    false
}
fn count(m: &mut Vec<Field>, want: &dyn Fn(&Field) -> bool) -> u64 {
    let mut n = 0;
    walk(m, &mut |v, i| {
        n += want(&v[i]) as u64;
        false
    });
    n
}
/// Do something at the k-th field (modulo) that `want` picks.
fn at(m: &mut Vec<Field>, k: u64, want: &dyn Fn(&Field) -> bool, f: &mut dyn FnMut(&mut Vec<Field>, usize)) {
    let n = count(m, want);
    if n == 0 {
        return;
    }
    let mut left = k % n;
    walk(m, &mut |v, i| {
        if !want(&v[i]) {
            return false;
        }
        if left == 0 {
            f(v, i);
            return true;
        }
        left -= 1;
        false
    });
}
fn strings(m: &mut Vec<Field>) -> Vec<Vec<u8>> {
    let mut s = vec![];
    walk(m, &mut |v, i| {
        if let (true, Val::Bytes(b)) = (text(v[i].of, v[i].n), &v[i].v) {
            s.push(b.clone());
        }
        false
    });
    s
}
pub const INTS: &[u64] = &[
    0, 1, 2, 3, 5, 7, 13, 16, 31, 100, 255, 1000, 65536, 1 << 20, 1 << 30, 1 << 31, 1 << 32, 1 << 40, 1 << 61, 1 << 62, i64::MAX as u64, i64::MIN as u64, u64::MAX, u64::MAX - 1,
    u64::MAX - 3, (-2i64.pow(31)) as u64, 4_294_967_295,
];
/// Names of operators that change what attributes and inputs are looked for.
pub const OPS: &[&str] = &[
    "Gemm", "MatMul", "Conv", "ConvTranspose", "Reshape", "Slice", "Gather", "Concat", "Split", "Squeeze", "Unsqueeze", "Transpose", "Tile", "Pad", "Resize", "Expand", "Range",
    "ConstantOfShape", "Constant", "Shape", "Size", "If", "Loop", "Scan", "TopK", "Trilu", "OneHot", "EyeLike", "ArgMax", "ReduceSum", "LSTM", "GRU", "RNN", "BatchNormalization",
    "LayerNormalization", "InstanceNormalization", "GroupNormalization", "MaxPool", "AveragePool", "GlobalAveragePool", "DepthToSpace", "SpaceToDepth", "Cast", "Clip", "Dropout",
    "Flatten", "Identity", "Where", "NonZero", "ScatterND", "GatherND", "GatherElements", "ScatterElements", "Attention", "Bernoulli", "RandomNormal", "RandomUniformLike", "Softmax", "BitShift",
    "Mod", "Pow", "Einsum", "CumSum", "GridSample", "ModelCheck", "", "Unknown", "QuantizeLinear", "DequantizeLinear", "MatMulInteger", "Cos", "Neg", "Equal", "Not", "And", "Min", "Max",
];

/// Apply one damage, a JSON object {what, a, b, c}.
pub fn damage(m: &mut Vec<Field>, e: &Value) {
    let (a, b, c) = (ju(e, "a"), ju(e, "b"), ju(e, "c"));
    let is_msg = |f: &Field| matches!(f.v, Val::Msg(..));
    match js(e, "what") {
        "int" => at(m, a, &|f| matches!(f.v, Val::Int(_)), &mut |v, i| v[i].v = Val::Int(INTS[(b % INTS.len() as u64) as usize])),
        "dim" => at(m, a, &|f| matches!((f.of, f.n), (Ty::Tensor, 1) | (Ty::Dim, 1)), &mut |v, i| v[i].v = Val::Int(INTS[(b % INTS.len() as u64) as usize])),
        "attr_int" => at(m, a, &|f| f.of == Ty::Attr && matches!(f.v, Val::Int(_)) || f.of == Ty::Attr && f.n == 8, &mut |v, i| {
            let x = INTS[(b % INTS.len() as u64) as usize];
            if let (Val::Bytes(p), 8) = (&v[i].v, v[i].n) {
                // One element of a packed list.
                let mut l = vec![];
                let mut q = 0;
                while q < p.len() {
                    match varint(p, &mut q) {
                        Some(y) => l.push(y),
                        None => break,
                    }
                }
                if !l.is_empty() {
                    let k = (c % l.len() as u64) as usize;
                    l[k] = x;
                }
                let mut w = W::default();
                l.iter().for_each(|y| w.varint(*y));
                v[i].v = Val::Bytes(w.0);
            } else {
                v[i].v = Val::Int(x);
            }
        }),
        "int64s" => at(m, a, &|f| f.of == Ty::Tensor && matches!(f.n, 9) && matches!(&f.v, Val::Bytes(x) if x.len() % 8 == 0 && x.len() <= 64), &mut |v, i| {
            // Elements of small integer tensors: shapes, indices, pads.
            if let Val::Bytes(x) = &mut v[i].v {
                if x.len() >= 8 {
                    let k = (c % (x.len() as u64 / 8)) as usize * 8;
                    x[k..k + 8].copy_from_slice(&INTS[(b % INTS.len() as u64) as usize].to_le_bytes());
                }
            }
        }),
        "float" => at(m, a, &|f| matches!(f.v, Val::F32(_)), &mut |v, i| {
            v[i].v = Val::F32([f32::NAN, f32::INFINITY, -0.0, 1e38, -1e38, 1e-45][(b % 6) as usize].to_le_bytes());
        }),
        "str" => {
            let s = strings(m);
            if s.is_empty() {
                return;
            }
            let x = match c % 8 {
                0 => vec![],
                1 => vec![b'a'; 20000],
                2 => b"../../x\"{}\\\n;/*".to_vec(),
                3 => vec![0xff, 0xfe, 0x80],
                4 => b"fn".to_vec(),
                _ => s[(b % s.len() as u64) as usize].clone(),
            };
            at(m, a, &|f| text(f.of, f.n) && matches!(f.v, Val::Bytes(_)), &mut |v, i| v[i].v = Val::Bytes(x.clone()));
        }
        "wire" => {
            // Dangling, crossed and cyclic connections.
            let s = strings(m);
            if s.is_empty() {
                return;
            }
            let x = s[(b % s.len() as u64) as usize].clone();
            at(m, a, &|f| f.of == Ty::Node && matches!(f.n, 1 | 2) || f.of == Ty::Info && f.n == 1, &mut |v, i| v[i].v = Val::Bytes(x.clone()));
        }
        "op" => at(m, a, &|f| f.of == Ty::Node && f.n == 4, &mut |v, i| v[i].v = Val::Bytes(OPS[(b % OPS.len() as u64) as usize].as_bytes().to_vec())),
        "del" => at(m, a, &|_| true, &mut |v, i| {
            v.remove(i);
        }),
        "delmsg" => at(m, a, &is_msg, &mut |v, i| {
            v.remove(i);
        }),
        "dup" => at(m, a, &|_| true, &mut |v, i| {
            let n = [1, 1, 2, 5, 300][(b % 5) as usize];
            let x = v[i].clone();
            let n = if enc(std::slice::from_ref(&x)).len() > 2000 { 1 } else { n };
            for _ in 0..n {
                v.insert(i, x.clone());
            }
        }),
        "swap" => at(m, a, &|_| true, &mut |v, i| {
            let j = (b % v.len() as u64) as usize;
            v.swap(i, j);
        }),
        "retag" => at(m, a, &|_| true, &mut |v, i| v[i].n = (b % 22 + 1) as u32),
        "move" => {
            let mut x = None;
            at(m, a, &is_msg, &mut |v, i| x = Some(v[i].clone()));
            if let Some(x) = x {
                let t = x.of;
                at(m, b, &|f| f.of == t && matches!(f.v, Val::Msg(..)), &mut |v, i| v[i] = x.clone());
            }
        }
        "blob" => at(m, a, &|f| matches!(f.v, Val::Bytes(_)), &mut |v, i| {
            if let Val::Bytes(x) = &mut v[i].v {
                match c % 5 {
                    0 => x.clear(),
                    1 => x.truncate((b % (x.len() as u64 + 1)) as usize),
                    2 => x.extend(vec![(b & 0xff) as u8; (b % 4000) as usize]),
                    3 => {
                        if !x.is_empty() {
                            let k = (b % x.len() as u64) as usize;
                            x[k] ^= 1 << (a & 7);
                        }
                    }
                    _ => {
                        let n = x.len();
                        *x = vec![0xff; n];
                    }
                }
            }
        }),
        "relay" => {
            // Pass-through nodes that bind names of their graph again.
            let leaf = |of, n, s: &[u8]| Field { n, of, v: Val::Bytes(s.to_vec()) };
            at(m, a, &|f| matches!(&f.v, Val::Msg(Ty::Graph, g) if g.len() < 2000), &mut |v, i| {
                let Val::Msg(_, g) = &mut v[i].v else { return };
                let mut r = Rng::new(mix(b, c));
                let bytes = |x: &Field| if let Val::Bytes(b) = &x.v { Some(b.clone()) } else { None };
                let (mut ins, mut outs) = (vec![], vec![]);
                for f in g.iter() {
                    if let Val::Msg(t, x) = &f.v {
                        match (*t, f.n) {
                            (Ty::Info, 11) => ins.extend(x.iter().find(|y| y.n == 1).and_then(bytes)),
                            (Ty::Info, 12) => outs.extend(x.iter().find(|y| y.n == 1).and_then(bytes)),
                            (Ty::Node, _) => ins.extend(x.iter().filter(|y| y.n <= 2).filter_map(bytes)),
                            _ => {}
                        }
                    }
                }
                // A few names, so that they meet.
                r.shuffle(&mut ins);
                ins.truncate(4);
                let mut names: Vec<Vec<u8>> = ins.clone();
                names.extend(outs.iter().take(2).cloned());
                names.push(b"relay".to_vec());
                let first = g.iter().position(|f| f.n == 1).unwrap_or(0);
                let last = g.iter().rposition(|f| f.n == 1).map_or(first, |k| k + 1);
                let mut at = if r.chance(1, 2) { first } else { r.range(first as u64, last as u64) as usize };
                for k in 0..r.range(2, 6) {
                    let op: &[u8] = if r.chance(5, 6) { b"Identity" } else { b"Dropout" };
                    let (x, y) = (r.pick(&names).clone(), r.pick(&names).clone());
                    let node = vec![leaf(Ty::Node, 1, &x), leaf(Ty::Node, 2, &y), leaf(Ty::Node, 3, format!("relay{k}").as_bytes()), leaf(Ty::Node, 4, op)];
                    g.insert(at, Field { n: 1, of: Ty::Graph, v: Val::Msg(Ty::Node, node) });
                    at += 1;
                }
                if r.chance(1, 2) {
                    // An output of the graph comes from one of them.
                    let x = r.pick(&names).clone();
                    let o = g.iter().filter(|f| f.n == 12).count();
                    if o > 0 {
                        let pick = r.below(o as u64) as usize;
                        if let Some(Field { v: Val::Msg(_, info), .. }) = g.iter_mut().filter(|f| f.n == 12).nth(pick) {
                            if let Some(f) = info.iter_mut().find(|f| f.n == 1) {
                                f.v = Val::Bytes(x);
                            }
                        }
                    }
                }
            });
        }
        "deep_if" => {
            // Well-formed nesting: each level an If whose branches are the
            // level below; values come from the outermost graph.
            let n = [1, 3, 8, 16, 24, 28, 29, 30, 31, 32][(b % 10) as usize];
            let Some(k) = m.iter().position(|f| f.n == 7) else { return };
            let Val::Msg(_, g) = m[k].v.clone() else { return };
            let both = c % 2 == 1 && n <= 8;
            if enc(&g).len() > if both || n > 8 { 12_000 } else { 200_000 } {
                return;
            }
            let leaf = |of, n, s: &str| Field { n, of, v: Val::Bytes(s.as_bytes().to_vec()) };
            let named = |f: &Field, s: &str| {
                let mut f = f.clone();
                if let Val::Msg(_, x) = &mut f.v {
                    x.iter_mut().filter(|y| y.n == 1).for_each(|y| y.v = Val::Bytes(s.as_bytes().to_vec()));
                }
                f
            };
            let Some(out) = g.iter().find(|f| f.n == 12).cloned() else { return };
            let mut inner: Vec<Field> = g.iter().filter(|f| f.n != 11).cloned().collect();
            inner.retain(|f| f.n != 12);
            inner.push(out.clone());
            for lv in 0..n {
                let y = format!("level_{lv}");
                let attr = |name: &str, g: &Vec<Field>| Field {
                    n: 5,
                    of: Ty::Node,
                    v: Val::Msg(Ty::Attr, vec![leaf(Ty::Attr, 1, name), Field { n: 6, of: Ty::Attr, v: Val::Msg(Ty::Graph, g.clone()) }, Field { n: 20, of: Ty::Attr, v: Val::Int(5) }]),
                };
                let mut flat: Vec<Field> = g.iter().filter(|f| f.n != 11 && f.n != 12).cloned().collect();
                flat.push(out.clone());
                let node = vec![
                    leaf(Ty::Node, 1, "deep_cond"),
                    leaf(Ty::Node, 2, &y),
                    leaf(Ty::Node, 3, &y),
                    leaf(Ty::Node, 4, "If"),
                    attr("then_branch", &inner),
                    attr("else_branch", if both { &inner } else { &flat }),
                ];
                inner = vec![leaf(Ty::Graph, 2, "deep"), Field { n: 1, of: Ty::Graph, v: Val::Msg(Ty::Node, node) }, named(&out, &y)];
            }
            inner.extend(g.iter().filter(|f| f.n == 11).cloned());
            let dims = vec![];
            let tt = vec![Field { n: 1, of: Ty::TType, v: Val::Int(9) }, Field { n: 2, of: Ty::TType, v: Val::Msg(Ty::Shape, dims) }];
            let ty = vec![Field { n: 1, of: Ty::Type, v: Val::Msg(Ty::TType, tt) }];
            inner.push(Field { n: 11, of: Ty::Graph, v: Val::Msg(Ty::Info, vec![leaf(Ty::Info, 1, "deep_cond"), Field { n: 2, of: Ty::Info, v: Val::Msg(Ty::Type, ty) }]) });
            m[k].v = Val::Msg(Ty::Graph, inner);
        }
        "deep_graph" => {
            // A control-flow node holding the whole graph, again and again.
            let n = [1, 2, 5, 20, 28, 30, 31, 32, 33, 400][(b % 10) as usize];
            for _ in 0..n {
                let Some(k) = m.iter().position(|f| f.n == 7) else { return };
                let (Val::Msg(_, g), mut top) = (m[k].v.clone(), m[k].clone()) else { return };
                if enc(&g).len() > 200_000 {
                    return;
                }
                let leaf = |of, n, s: &str| Field { n, of, v: Val::Bytes(s.as_bytes().to_vec()) };
                let attr = |name: &str| Field {
                    n: 5,
                    of: Ty::Node,
                    v: Val::Msg(Ty::Attr, vec![leaf(Ty::Attr, 1, name), Field { n: 6, of: Ty::Attr, v: Val::Msg(Ty::Graph, g.clone()) }, Field { n: 20, of: Ty::Attr, v: Val::Int(5) }]),
                };
                let mut node = vec![leaf(Ty::Node, 1, "cond"), leaf(Ty::Node, 2, "yy"), leaf(Ty::Node, 3, "deep"), leaf(Ty::Node, 4, if c % 3 == 0 { "Loop" } else { "If" })];
                if c % 3 == 0 {
                    node.push(attr("body"));
                } else {
                    node.push(attr("then_branch"));
                    if c % 3 == 1 && n < 6 {
                        node.push(attr("else_branch"));
                    }
                }
                let outs: Vec<Field> = g.iter().filter(|f| f.n == 11 || f.n == 12).cloned().collect();
                let mut ng = vec![Field { n: 1, of: Ty::Graph, v: Val::Msg(Ty::Node, node) }];
                ng.extend(outs);
                top.v = Val::Msg(Ty::Graph, ng);
                m[k] = top;
            }
        }
        "deep_type" => at(m, a, &|f| f.of == Ty::Info && f.n == 2, &mut |v, i| {
            let n = [1, 10, 40, 60, 3000][(b % 5) as usize];
            let mut b = match &v[i].v {
                Val::Msg(_, x) => enc(x),
                Val::Bytes(x) => x.clone(),
                _ => return,
            };
            for _ in 0..n {
                let mut s = W::default();
                s.bytes(1, &b);
                let mut t = W::default();
                t.bytes(if c % 2 == 0 { 4 } else { 9 }, &s.0);
                b = t.0;
            }
            v[i].v = Val::Bytes(b);
        }),
        "chain" => {
            // A very long straight graph.
            let n = [200, 1000, 3000][(b % 3) as usize];
            let op = ["Relu", "Identity", "Neg", "Shape"][(c % 4) as usize];
            at(m, a, &|f| f.of == Ty::Graph && f.n == 1, &mut |v, i| {
                let Val::Msg(_, nd) = &v[i].v else { return };
                let Some(Field { v: Val::Bytes(out), .. }) = nd.iter().find(|f| f.n == 2) else { return };
                let mut prev = out.clone();
                for k in 0..n {
                    let y = format!("chain_{k}").into_bytes();
                    let l = |n, x: Vec<u8>| Field { n, of: Ty::Node, v: Val::Bytes(x) };
                    v.insert(i + 1 + k, Field { n: 1, of: Ty::Graph, v: Val::Msg(Ty::Node, vec![l(1, prev), l(2, y.clone()), l(4, op.as_bytes().to_vec())]) });
                    prev = y;
                }
                for f in v.iter_mut().filter(|f| f.n == 12) {
                    if let Val::Msg(_, x) = &mut f.v {
                        for y in x.iter_mut().filter(|y| y.n == 1) {
                            y.v = Val::Bytes(prev.clone());
                        }
                    }
                }
            });
        }
        "doubling" => {
            // Each node uses the one before twice: exponential when walked naively.
            let n = 40 + (b % 60) as usize;
            at(m, a, &|f| f.of == Ty::Graph && f.n == 1, &mut |v, i| {
                let Val::Msg(_, nd) = &v[i].v else { return };
                let Some(Field { v: Val::Bytes(out), .. }) = nd.iter().find(|f| f.n == 2) else { return };
                let mut prev = out.clone();
                let op = ["Add", "Mul", "Concat", "Max"][(c % 4) as usize];
                for k in 0..n {
                    let y = format!("dbl_{k}").into_bytes();
                    let l = |n, x: Vec<u8>| Field { n, of: Ty::Node, v: Val::Bytes(x) };
                    let mut f = vec![l(1, prev.clone()), l(1, prev), l(2, y.clone()), l(4, op.as_bytes().to_vec())];
                    if op == "Concat" {
                        f.push(Field { n: 5, of: Ty::Node, v: Val::Msg(Ty::Attr, vec![Field { n: 1, of: Ty::Attr, v: Val::Bytes(b"axis".to_vec()) }, Field { n: 3, of: Ty::Attr, v: Val::Int(0) }, Field { n: 20, of: Ty::Attr, v: Val::Int(2) }]) });
                    }
                    v.insert(i + 1 + k, Field { n: 1, of: Ty::Graph, v: Val::Msg(Ty::Node, f) });
                    prev = y;
                }
                for f in v.iter_mut().filter(|f| f.n == 12) {
                    if let Val::Msg(_, x) = &mut f.v {
                        for y in x.iter_mut().filter(|y| y.n == 1) {
                            y.v = Val::Bytes(prev.clone());
                        }
                    }
                }
            });
        }
        _ => {}
    }
}
pub const KINDS: &[&str] = &[
    "int", "dim", "dim", "attr_int", "attr_int", "int64s", "int64s", "float", "str", "str", "wire", "wire", "wire", "op", "op", "op", "del", "del", "delmsg", "dup", "swap", "retag", "move", "blob", "blob",
    "relay", "relay", "deep_graph", "deep_if", "deep_if", "deep_type", "chain", "doubling",
];
