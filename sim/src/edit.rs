//! Edits of a model that do not change what it means.
use crate::onnx;
use crate::pb::{self, Field, Ty, Val};
use crate::util::*;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum D {
    I(i64),
    F(f32),
    S(&'static str),
    L(Vec<i64>),
}
use D::*;

/// Attributes of an operator with the value ONNX gives them when they are left
/// out, where the operator of that opset version has them. `n` is the number
/// of spatial dimensions, if the node says it.
fn defaults(op: &str, v: i64, n: Option<usize>) -> Vec<(&'static str, D)> {
    let mut a: Vec<(&'static str, D)> = vec![];
    let pads = |a: &mut Vec<(&'static str, D)>, dil: bool| {
        if let Some(n) = n {
            a.push(("strides", L(vec![1; n])));
            a.push(("pads", L(vec![0; 2 * n])));
            if dil {
                a.push(("dilations", L(vec![1; n])));
            }
        }
    };
    let from = |a: &mut Vec<(&'static str, D)>, since: i64, k: &'static str, d: D| {
        if v >= since {
            a.push((k, d));
        }
    };
    match op {
        "Gemm" => a.extend([("alpha", F(1.0)), ("beta", F(1.0)), ("transA", I(0)), ("transB", I(0))]),
        "Conv" | "ConvInteger" => {
            a.extend([("auto_pad", S("NOTSET")), ("group", I(1))]);
            pads(&mut a, true);
        }
        "ConvTranspose" => {
            a.extend([("auto_pad", S("NOTSET")), ("group", I(1))]);
            pads(&mut a, true);
            if let Some(n) = n {
                a.push(("output_padding", L(vec![0; n])));
            }
        }
        "DeformConv" => {
            a.extend([("group", I(1)), ("offset_group", I(1))]);
            pads(&mut a, true);
        }
        "MaxPool" => {
            a.extend([("auto_pad", S("NOTSET")), ("storage_order", I(0)), ("ceil_mode", I(0))]);
            pads(&mut a, true);
        }
        "AveragePool" => {
            a.extend([("auto_pad", S("NOTSET")), ("count_include_pad", I(0)), ("ceil_mode", I(0))]);
            pads(&mut a, v >= 19);
        }
        "BatchNormalization" => {
            a.extend([("epsilon", F(1e-5)), ("momentum", F(0.9))]);
            from(&mut a, 14, "training_mode", I(0));
        }
        "InstanceNormalization" => a.push(("epsilon", F(1e-5))),
        "GroupNormalization" => {
            a.push(("epsilon", F(1e-5)));
            from(&mut a, 21, "stash_type", I(1));
        }
        "LayerNormalization" => a.extend([("axis", I(-1)), ("epsilon", F(1e-5)), ("stash_type", I(1))]),
        "Softmax" | "LogSoftmax" | "Hardmax" if v >= 13 => a.push(("axis", I(-1))),
        "Flatten" => a.push(("axis", I(1))),
        "Gather" | "GatherElements" => a.push(("axis", I(0))),
        "GatherND" => from(&mut a, 12, "batch_dims", I(0)),
        "ScatterElements" => {
            a.push(("axis", I(0)));
            from(&mut a, 16, "reduction", S("none"));
        }
        "ScatterND" => from(&mut a, 16, "reduction", S("none")),
        "ArgMax" | "ArgMin" => {
            a.extend([("axis", I(0)), ("keepdims", I(1))]);
            from(&mut a, 12, "select_last_index", I(0));
        }
        "ReduceSum" => {
            a.push(("keepdims", I(1)));
            from(&mut a, 13, "noop_with_empty_axes", I(0));
        }
        _ if op.starts_with("Reduce") => {
            a.push(("keepdims", I(1)));
            from(&mut a, 18, "noop_with_empty_axes", I(0));
        }
        "Resize" => {
            a.extend([
                ("coordinate_transformation_mode", S("half_pixel")),
                ("cubic_coeff_a", F(-0.75)),
                ("exclude_outside", I(0)),
                ("extrapolation_value", F(0.0)),
                // Not mode: a test of the repository asks for a refusal.
                ("nearest_mode", S("round_prefer_floor")),
            ]);
            from(&mut a, 18, "antialias", I(0));
            from(&mut a, 18, "keep_aspect_ratio_policy", S("stretch"));
        }
        "LSTM" => {
            a.extend([("direction", S("forward")), ("input_forget", I(0))]);
            from(&mut a, 14, "layout", I(0));
        }
        "GRU" => {
            a.extend([("direction", S("forward")), ("linear_before_reset", I(0))]);
            from(&mut a, 14, "layout", I(0));
        }
        "RNN" => {
            a.push(("direction", S("forward")));
            from(&mut a, 14, "layout", I(0));
        }
        "TopK" => a.extend([("axis", I(-1)), ("largest", I(1)), ("sorted", I(1))]),
        "CumSum" => a.extend([("exclusive", I(0)), ("reverse", I(0))]),
        "DepthToSpace" => a.push(("mode", S("DCR"))),
        "OneHot" => a.push(("axis", I(-1))),
        "Pad" => a.push(("mode", S("constant"))),
        "EyeLike" => a.push(("k", I(0))),
        "Trilu" => a.push(("upper", I(1))),
        "Elu" | "Celu" | "ThresholdedRelu" | "Swish" => a.push(("alpha", F(1.0))),
        "LeakyRelu" => a.push(("alpha", F(0.01))),
        "Selu" => a.extend([("alpha", F(1.673_263_2)), ("gamma", F(1.050_701))]),
        "HardSigmoid" => a.extend([("alpha", F(0.2)), ("beta", F(0.5))]),
        "Gelu" => a.push(("approximate", S("none"))),
        "GridSample" => a.extend([("mode", S(if v >= 20 { "linear" } else { "bilinear" })), ("padding_mode", S("zeros")), ("align_corners", I(0))]),
        "Mod" => a.push(("fmod", I(0))),
        "RandomNormal" => a.extend([("mean", F(0.0)), ("scale", F(1.0)), ("dtype", I(1))]),
        "RandomNormalLike" => a.extend([("mean", F(0.0)), ("scale", F(1.0))]),
        "RandomUniform" => a.extend([("low", F(0.0)), ("high", F(1.0)), ("dtype", I(1))]),
        "RandomUniformLike" => a.extend([("low", F(0.0)), ("high", F(1.0))]),
        "IsInf" => a.extend([("detect_positive", I(1)), ("detect_negative", I(1))]),
        "Cast" => from(&mut a, 19, "saturate", I(1)),
        "Split" => a.push(("axis", I(0))),
        "Reshape" => from(&mut a, 14, "allowzero", I(0)),
        "Attention" => {
            a.extend([("is_causal", I(0)), ("qk_matmul_output_mode", I(0)), ("softcap", F(0.0))]);
        }
        "Col2Im" => {}
        _ => {}
    }
    a
}

/// Operators whose `axis` counts dimensions of their first input, from the end
/// when negative.
const AXIS: &[&str] = &[
    "Softmax", "LogSoftmax", "Hardmax", "Flatten", "Gather", "GatherElements", "ScatterElements", "ArgMax", "ArgMin", "Concat", "Split", "TopK", "LayerNormalization",
];

fn bytes(b: &Val) -> String {
    match b {
        Val::Bytes(b) => String::from_utf8_lossy(b).into_owned(),
        _ => String::new(),
    }
}
fn text(m: &[Field], n: u32) -> String {
    m.iter().find(|f| f.n == n).map(|f| bytes(&f.v)).unwrap_or_default()
}
fn list(m: &[Field], n: u32) -> Vec<String> {
    m.iter().filter(|f| f.n == n).map(|f| bytes(&f.v)).collect()
}
fn ints(m: &[Field], n: u32) -> Vec<i64> {
    let mut v = vec![];
    for f in m.iter().filter(|f| f.n == n) {
        match &f.v {
            Val::Int(i) => v.push(*i as i64),
            Val::Bytes(b) => {
                let (mut x, mut s) = (0u64, 0);
                for c in b {
                    x |= ((c & 0x7f) as u64).checked_shl(s).unwrap_or(0);
                    s += 7;
                    if c & 0x80 == 0 {
                        v.push(x as i64);
                        (x, s) = (0, 0);
                    }
                }
            }
            _ => {}
        }
    }
    v
}
fn field(n: u32, of: Ty, v: Val) -> Field {
    Field { n, of, v }
}
fn attr_of<'a>(node: &'a [Field], k: &str) -> Option<&'a Vec<Field>> {
    node.iter().find_map(|f| match &f.v {
        Val::Msg(Ty::Attr, a) if text(a, 1) == k => Some(a),
        _ => None,
    })
}
fn same(a: &[Field], d: &D) -> bool {
    let ty = ints(a, 20).first().copied().unwrap_or(0);
    match d {
        I(i) => ty == 2 && ints(a, 3).first().copied().unwrap_or(0) == *i,
        F(x) => ty == 1 && a.iter().find_map(|f| if let (2, Val::F32(b)) = (f.n, &f.v) { Some(f32::from_le_bytes(*b)) } else { None }).unwrap_or(0.0) == *x,
        S(s) => ty == 3 && text(a, 4) == *s,
        L(v) => ty == 7 && ints(a, 8) == *v,
    }
}
fn make(k: &str, d: &D) -> Field {
    let mut a = vec![field(1, Ty::Attr, Val::Bytes(k.into()))];
    let ty = match d {
        I(i) => {
            a.push(field(3, Ty::Attr, Val::Int(*i as u64)));
            2
        }
        F(x) => {
            a.push(field(2, Ty::Attr, Val::F32(x.to_le_bytes())));
            1
        }
        S(s) => {
            a.push(field(4, Ty::Attr, Val::Bytes(s.as_bytes().to_vec())));
            3
        }
        L(v) => {
            a.extend(v.iter().map(|i| field(8, Ty::Attr, Val::Int(*i as u64))));
            7
        }
    };
    a.push(field(20, Ty::Attr, Val::Int(ty)));
    field(5, Ty::Node, Val::Msg(Ty::Attr, a))
}

/// Every graph of the model, the outermost first.
fn graphs(m: &mut Vec<Field>, depth: usize, f: &mut dyn FnMut(&mut Vec<Field>, usize)) {
    for x in m.iter_mut() {
        if let Val::Msg(t, k) = &mut x.v {
            if *t == Ty::Graph {
                f(k, depth);
                graphs(k, depth + 1, f);
            } else if matches!(t, Ty::Node | Ty::Attr) {
                graphs(k, depth, f);
            }
        }
    }
}
fn nodes(m: &mut Vec<Field>, f: &mut dyn FnMut(&mut Vec<Field>)) {
    graphs(m, 0, &mut |g, _| {
        for x in g.iter_mut() {
            if let Val::Msg(Ty::Node, n) = &mut x.v {
                f(n);
            }
        }
    });
}

/// What the model declares about its values.
#[derive(Default)]
pub struct Known {
    pub opset: i64,
    rank: BTreeMap<String, Option<usize>>,
}
pub fn known(m: &mut Vec<Field>) -> Known {
    let mut k = Known { opset: 1, ..Default::default() };
    for f in m.iter() {
        if let Val::Msg(Ty::Opset, o) = &f.v {
            if text(o, 1).is_empty() {
                k.opset = ints(o, 2).first().copied().unwrap_or(1);
            }
        }
    }
    let mut put = |n: String, r: usize| {
        k.rank.entry(n).and_modify(|x| if *x != Some(r) { *x = None }).or_insert(Some(r));
    };
    graphs(m, 0, &mut |g, _| {
        for x in g.iter() {
            match &x.v {
                Val::Msg(Ty::Tensor, t) => put(text(t, 8), ints(t, 1).len()),
                Val::Msg(Ty::Info, i) => {
                    let shape = i.iter().find_map(|f| match &f.v {
                        Val::Msg(Ty::Type, t) => t.iter().find_map(|f| match &f.v {
                            Val::Msg(Ty::TType, t) => t.iter().find_map(|f| match &f.v {
                                Val::Msg(Ty::Shape, s) => Some(s.iter().filter(|f| f.n == 1).count()),
                                _ => None,
                            }),
                            _ => None,
                        }),
                        _ => None,
                    });
                    if let Some(r) = shape {
                        put(text(i, 1), r);
                    }
                }
                _ => {}
            }
        }
    });
    k
}

/// All candidates of one kind: call with `pick` at the one to edit.
struct Sel {
    pick: Option<u64>,
    seen: u64,
    done: Option<String>,
}
impl Sel {
    fn here(&mut self) -> bool {
        self.seen += 1;
        self.pick == Some(self.seen - 1) && self.done.is_none()
    }
}

fn is_default_domain(n: &[Field]) -> bool {
    text(n, 7).is_empty()
}

fn step(m: &mut Vec<Field>, kind: &str, x: u64, y: u64, k: &Known, s: &mut Sel) {
    match kind {
        "add" | "drop" => nodes(m, &mut |n| {
            if !is_default_domain(n) {
                return;
            }
            let op = text(n, 4);
            let sp = attr_of(n, "kernel_shape").map(|a| ints(a, 8).len());
            for (key, d) in defaults(&op, k.opset, sp) {
                let have = attr_of(n, key);
                // Explicit pads only go with that setting of auto_pad.
                let auto = attr_of(n, "auto_pad").map(|a| text(a, 4)).unwrap_or_default();
                if key == "pads" && !(auto.is_empty() || auto == "NOTSET") {
                    continue;
                }
                match (kind, have) {
                    ("add", None) if s.here() => {
                        let at = (x as usize) % (n.len() + 1);
                        n.insert(at, make(key, &d));
                        s.done = Some(format!("add {op}.{key}"));
                    }
                    ("drop", Some(a)) if same(a, &d) && s.here() => {
                        n.retain(|f| !matches!(&f.v, Val::Msg(Ty::Attr, a) if text(a, 1) == key));
                        s.done = Some(format!("drop {op}.{key}"));
                    }
                    _ => {}
                }
            }
        }),
        "axis" => nodes(m, &mut |n| {
            let op = text(n, 4);
            if !is_default_domain(n) || !AXIS.contains(&op.as_str()) {
                return;
            }
            let Some(Some(r)) = list(n, 1).first().and_then(|i| k.rank.get(i)).copied() else { return };
            let r = r as i64;
            for f in n.iter_mut() {
                let Val::Msg(Ty::Attr, a) = &mut f.v else { continue };
                if text(a, 1) != "axis" || r == 0 {
                    continue;
                }
                for v in a.iter_mut() {
                    let (3, Val::Int(i)) = (v.n, &mut v.v) else { continue };
                    let old = *i as i64;
                    // Flatten takes r as well, which has no other form.
                    if old < -r || old >= r || !s.here() {
                        continue;
                    }
                    *i = if old < 0 { old + r } else { old - r } as u64;
                    s.done = Some(format!("axis {op} {}", if old < 0 { "positive" } else { "negative" }));
                }
            }
        }),
        "axes" => {
            // The constant axes of a node, if it is the only one to use them.
            let mut want: Vec<(String, i64, String)> = vec![];
            let mut uses: BTreeMap<String, u32> = BTreeMap::new();
            nodes(m, &mut |n| {
                let op = text(n, 4);
                let ins = list(n, 1);
                for i in &ins {
                    *uses.entry(i.clone()).or_default() += 1;
                }
                let Some(Some(r)) = ins.first().and_then(|i| k.rank.get(i)).copied() else { return };
                if is_default_domain(n) && ins.len() == 2 && (op.starts_with("Reduce") || op == "CumSum") && !ins[1].is_empty() {
                    want.push((ins[1].clone(), r as i64, op));
                }
            });
            graphs(m, 0, &mut |g, d| {
                for f in g.iter_mut() {
                    let Val::Msg(Ty::Tensor, t) = &mut f.v else { continue };
                    let name = text(t, 8);
                    let Some((_, r, op)) = want.iter().find(|w| w.0 == name) else { continue };
                    if d != 0 || uses[&name] != 1 || ints(t, 2) != [onnx::I64 as i64] {
                        continue;
                    }
                    let Some(Val::Bytes(raw)) = t.iter_mut().find(|f| f.n == 9).map(|f| &mut f.v) else { continue };
                    if raw.is_empty() || raw.len() % 8 != 0 || !s.here() {
                        continue;
                    }
                    for c in raw.chunks_exact_mut(8) {
                        let v = i64::from_le_bytes((&*c).try_into().unwrap());
                        if v >= -r && v < *r {
                            c.copy_from_slice(&if v < 0 { v + r } else { v - r }.to_le_bytes());
                        }
                    }
                    s.done = Some(format!("axes {op}"));
                }
            });
        }
        "doc" => drop(pb::walk(m, &mut |v, i| {
            let (ty, n) = match &v[i].v {
                Val::Msg(Ty::Graph, _) => (Ty::Graph, 10),
                Val::Msg(Ty::Node, _) => (Ty::Node, 6),
                Val::Msg(Ty::Attr, _) => (Ty::Attr, 13),
                Val::Msg(Ty::Tensor, _) => (Ty::Tensor, 12),
                Val::Msg(Ty::Info, _) => (Ty::Info, 3),
                _ => return false,
            };
            if s.here() {
                let Val::Msg(_, k) = &mut v[i].v else { unreachable!() };
                k.retain(|f| f.n != n);
                if y % 4 != 0 {
                    k.push(field(n, ty, Val::Bytes(["\"quoted\" \\ {}\n//", "x", "/* é */ \u{2028}"][(x % 3) as usize].into())));
                }
                s.done = Some(format!("doc {ty:?}"));
            }
            s.done.is_some()
        })),
        "meta" => {
            if s.here() {
                let n = [2, 3, 4, 6][(x % 4) as usize];
                m.retain(|f| f.n != n);
                m.push(field(n, Ty::Model, Val::Bytes("another \"tool\"".into())));
                let kv = vec![field(1, Ty::Kv, Val::Bytes(format!("k{y}").into_bytes())), field(2, Ty::Kv, Val::Bytes("v".into()))];
                m.insert((y as usize) % m.len(), field(14, Ty::Model, Val::Msg(Ty::Kv, kv)));
                if y % 2 == 0 {
                    m.retain(|f| f.n != 5);
                    m.push(field(5, Ty::Model, Val::Int(x)));
                }
                s.done = Some("meta".into());
            }
        }
        "unknown" => {
            pb::walk(m, &mut |v, i| {
                let Val::Msg(ty, k) = &mut v[i].v else { return false };
                if s.here() {
                    let t = *ty;
                    let v = match x % 3 {
                        0 => Val::Int(y),
                        1 => Val::Bytes(vec![y as u8; 3]),
                        _ => Val::F32([1, 2, 3, y as u8]),
                    };
                    k.insert((y as usize) % (k.len() + 1), field(1000 + (x as u32 % 7), t, v));
                    s.done = Some(format!("unknown {t:?}"));
                }
                s.done.is_some()
            });
        }
        "domain" => nodes(m, &mut |n| {
            if is_default_domain(n) && s.here() {
                if n.iter().any(|f| f.n == 7) {
                    n.retain(|f| f.n != 7);
                } else {
                    n.push(field(7, Ty::Node, Val::Bytes(vec![])));
                }
                s.done = Some("domain".into());
            }
        }),
        "attrs" => nodes(m, &mut |n| {
            let at: Vec<usize> = (0..n.len()).filter(|i| n[*i].n == 5).collect();
            if at.len() > 1 && s.here() {
                let (p, q) = (at[x as usize % at.len()], at[(x as usize + 1 + y as usize % (at.len() - 1)) % at.len()]);
                n.swap(p, q);
                s.done = Some("attribute order".into());
            }
        }),
        "fields" => {
            pb::walk(m, &mut |v, i| {
                let Val::Msg(ty, k) = &mut v[i].v else { return false };
                if k.len() > 1 && s.here() {
                    let mut key: Vec<u64> = (0..64).map(|n| fnv(format!("{x} {y} {n}").as_bytes())).collect();
                    key[0] = 0;
                    k.sort_by_key(|f| key[f.n as usize % 64]);
                    s.done = Some(format!("field order {ty:?}"));
                }
                s.done.is_some()
            });
        }
        "inits" => graphs(m, 0, &mut |g, _| {
            let at: Vec<usize> = (0..g.len()).filter(|i| g[*i].n == 5).collect();
            if at.len() > 1 && s.here() {
                let (p, q) = (at[x as usize % at.len()], at[(x as usize + 1 + y as usize % (at.len() - 1)) % at.len()]);
                g.swap(p, q);
                s.done = Some("initializer order".into());
            }
        }),
        "infos" => graphs(m, 0, &mut |g, _| {
            let at: Vec<usize> = (0..g.len()).filter(|i| g[*i].n == 13).collect();
            if at.len() > 1 && s.here() {
                g.swap(at[x as usize % at.len()], at[y as usize % at.len()]);
                s.done = Some("value info order".into());
            }
        }),
        "pack" => {
            pb::walk(m, &mut |v, i| {
                let (Val::Msg(t, k), of) = (&mut v[i].v, ()) else { return false };
                let _ = of;
                let n = match t {
                    Ty::Attr => 8,
                    Ty::Tensor => 1,
                    _ => return false,
                };
                let ty = *t;
                let vals = ints(k, n);
                if vals.is_empty() || !s.here() {
                    return false;
                }
                let at = k.iter().position(|f| f.n == n).unwrap();
                let packed = matches!(k[at].v, Val::Bytes(_));
                k.retain(|f| f.n != n);
                if packed {
                    for (j, v) in vals.iter().enumerate() {
                        k.insert(at + j, field(n, ty, Val::Int(*v as u64)));
                    }
                } else {
                    let mut w = onnx::W::default();
                    vals.iter().for_each(|v| w.varint(*v as u64));
                    k.insert(at, field(n, ty, Val::Bytes(w.0)));
                }
                s.done = Some(format!("packing {ty:?}"));
                true
            });
        }
        "store" => {
            pb::walk(m, &mut |v, i| {
                let Val::Msg(Ty::Tensor, k) = &mut v[i].v else { return false };
                let dt = ints(k, 2).first().copied().unwrap_or(0) as i32;
                if !matches!(dt, 1..=7 | 9..=13 | 16) || ints(k, 14).first().is_some_and(|l| *l != 0) {
                    return false;
                }
                let dims = ints(k, 1);
                let count: i64 = dims.iter().product();
                if !(1..=4096).contains(&count) {
                    return false;
                }
                let w = onnx::width(dt);
                let tensor = pb::enc(k);
                let Some(d) = onnx::read_tensor(&tensor, &onnx::Ext::default()) else { return false };
                if d.data.len() != w * count as usize || !s.here() {
                    return false;
                }
                let raw = k.iter().any(|f| f.n == 9);
                let t = onnx::Tensor { name: text(k, 8), dt, dims, data: d.data, chan: if raw { onnx::Chan::Typed } else { onnx::Chan::Raw } };
                let Some(new) = pb::parse(&t.enc(), Ty::Tensor, 0) else { return false };
                *k = new;
                s.done = Some(format!("storage {dt} {}", if raw { "typed" } else { "raw" }));
                true
            });
        }
        "lift" => graphs(m, 0, &mut |g, d| {
            // An initializer as a Constant node at the start of the graph.
            if s.done.is_some() {
                return;
            }
            let ins: Vec<String> = g.iter().filter(|f| f.n == 11).map(|f| if let Val::Msg(_, i) = &f.v { text(i, 1) } else { String::new() }).collect();
            let at: Vec<usize> = (0..g.len()).filter(|i| matches!(&g[*i].v, Val::Msg(Ty::Tensor, t) if !ins.contains(&text(t, 8)))).collect();
            for i in at {
                if matches!(&g[i].v, Val::Msg(_, t) if ints(t, 14).iter().any(|l| *l != 0)) || !s.here() {
                    continue;
                }
                let Val::Msg(_, t) = g.remove(i).v else { unreachable!() };
                let name = text(&t, 8);
                let first = g.iter().position(|f| f.n == 1).unwrap_or(g.len());
                let a = vec![
                    field(1, Ty::Attr, Val::Bytes(b"value".to_vec())),
                    field(5, Ty::Attr, Val::Msg(Ty::Tensor, t)),
                    field(20, Ty::Attr, Val::Int(4)),
                ];
                let n = vec![
                    field(2, Ty::Node, Val::Bytes(name.into_bytes())),
                    field(4, Ty::Node, Val::Bytes(b"Constant".to_vec())),
                    field(5, Ty::Node, Val::Msg(Ty::Attr, a)),
                ];
                g.insert(first, field(1, Ty::Graph, Val::Msg(Ty::Node, n)));
                s.done = Some(format!("initializer as Constant{}", if d > 0 { " inside" } else { "" }));
                return;
            }
        }),
        "lower" => graphs(m, 0, &mut |g, d| {
            // A Constant node as an initializer.
            if s.done.is_some() {
                return;
            }
            for i in 0..g.len() {
                let Val::Msg(Ty::Node, n) = &g[i].v else { continue };
                if text(n, 4) != "Constant" || !is_default_domain(n) {
                    continue;
                }
                let Some(t) = attr_of(n, "value").and_then(|a| a.iter().find_map(|f| if let Val::Msg(Ty::Tensor, t) = &f.v { Some(t.clone()) } else { None })) else { continue };
                if !s.here() {
                    continue;
                }
                let mut t = t;
                let name = text(n, 2);
                t.retain(|f| f.n != 8);
                t.push(field(8, Ty::Tensor, Val::Bytes(name.into_bytes())));
                g[i] = field(5, Ty::Graph, Val::Msg(Ty::Tensor, t));
                s.done = Some(format!("Constant as initializer{}", if d > 0 { " inside" } else { "" }));
                return;
            }
        }),
        "dead" => graphs(m, 0, &mut |g, d| {
            if !s.here() {
                return;
            }
            let t = onnx::Tensor { name: format!("unused_{x}"), dt: onnx::F32, dims: vec![2], data: vec![1; 8], chan: onnx::Chan::Raw };
            let at = g.iter().position(|f| f.n == 5).unwrap_or(g.len());
            g.insert(at, field(5, Ty::Graph, Val::Msg(Ty::Tensor, pb::parse(&t.enc(), Ty::Tensor, 0).unwrap())));
            s.done = Some(format!("unused initializer{}", if d > 0 { " inside" } else { "" }));
        }),
        "empty" => nodes(m, &mut |n| {
            // An omitted trailing optional input, written as an empty name.
            let op = text(n, 4);
            let max = match op.as_str() {
                "Conv" | "ConvTranspose" | "Gemm" | "Clip" | "LayerNormalization" => 3,
                "Resize" | "Pad" => 4,
                "Squeeze" | "Split" => 2,
                _ if op.starts_with("Reduce") => 2,
                "LSTM" => 8,
                "GRU" | "RNN" => 6,
                _ => 0,
            };
            let have = n.iter().filter(|f| f.n == 1).count();
            if is_default_domain(n) && have < max && have > 0 && s.here() {
                n.push(field(1, Ty::Node, Val::Bytes(vec![])));
                s.done = Some(format!("empty input {op}"));
            }
        }),
        "identity" => graphs(m, 0, &mut |g, d| {
            // An Identity between a node and its first input.
            if s.done.is_some() || d > 0 {
                return;
            }
            let mut fixed: Vec<String> = vec![];
            for x in g.iter() {
                match &x.v {
                    Val::Msg(Ty::Tensor, t) => fixed.push(text(t, 8)),
                    // What may be folded into a constant.
                    Val::Msg(Ty::Node, n) if !list(n, 1).iter().any(|i| !fixed.contains(i)) || ["Shape", "Size"].contains(&text(n, 4).as_str()) => fixed.extend(list(n, 2)),
                    _ => {}
                }
            }
            for i in 0..g.len() {
                let Val::Msg(Ty::Node, n) = &mut g[i].v else { continue };
                let ins: Vec<usize> = (0..n.len()).filter(|j| n[*j].n == 1 && !bytes(&n[*j].v).is_empty() && !fixed.contains(&bytes(&n[*j].v))).collect();
                if ins.is_empty() || !s.here() {
                    continue;
                }
                let op = text(n, 4);
                let j = ins[x as usize % ins.len()];
                let old = bytes(&n[j].v);
                let new = format!("same_{}_{i}", x % 1000);
                n[j].v = Val::Bytes(new.clone().into_bytes());
                let id = vec![
                    field(1, Ty::Node, Val::Bytes(old.into_bytes())),
                    field(2, Ty::Node, Val::Bytes(new.into_bytes())),
                    field(4, Ty::Node, Val::Bytes(b"Identity".to_vec())),
                ];
                g.insert(i, field(1, Ty::Graph, Val::Msg(Ty::Node, id)));
                s.done = Some(format!("identity {op}"));
                return;
            }
        }),
        "undeclare" => graphs(m, 0, &mut |g, _| {
            if s.done.is_some() {
                return;
            }
            for i in 0..g.len() {
                if g[i].n == 13 && s.here() {
                    g.remove(i);
                    s.done = Some("value info dropped".into());
                    return;
                }
            }
        }),
        "form" => nodes(m, &mut |n| {
            // A Constant as a tensor or as a number or list of numbers.
            if text(n, 4) != "Constant" || !is_default_domain(n) {
                return;
            }
            let Some(at) = n.iter().position(|f| f.n == 5) else { return };
            let Val::Msg(_, a) = &n[at].v else { return };
            let new = match text(a, 1).as_str() {
                "value" => {
                    let Some(t) = a.iter().find_map(|f| if let Val::Msg(Ty::Tensor, t) = &f.v { Some(t) } else { None }) else { return };
                    if ints(t, 14).iter().any(|l| *l != 0) {
                        return;
                    }
                    let Some(d) = onnx::read_tensor(&pb::enc(t), &onnx::Ext::default()) else { return };
                    let f: Vec<[u8; 4]> = d.data.chunks_exact(4).map(|c| c.try_into().unwrap()).collect();
                    let i: Vec<i64> = d.data.chunks_exact(8).map(|c| i64::from_le_bytes(c.try_into().unwrap())).collect();
                    let (name, body, ty) = match (d.dt, d.dims.len()) {
                        (onnx::F32, 0) if f.len() == 1 => ("value_float", vec![field(2, Ty::Attr, Val::F32(f[0]))], 1),
                        (onnx::I64, 0) if i.len() == 1 => ("value_int", vec![field(3, Ty::Attr, Val::Int(i[0] as u64))], 2),
                        (onnx::F32, 1) if !f.is_empty() => ("value_floats", f.iter().map(|x| field(7, Ty::Attr, Val::F32(*x))).collect(), 6),
                        (onnx::I64, 1) if !i.is_empty() => ("value_ints", i.iter().map(|x| field(8, Ty::Attr, Val::Int(*x as u64))).collect(), 7),
                        _ => return,
                    };
                    let mut v = vec![field(1, Ty::Attr, Val::Bytes(name.into()))];
                    v.extend(body);
                    v.push(field(20, Ty::Attr, Val::Int(ty)));
                    v
                }
                "value_int" | "value_ints" => {
                    let one = text(a, 1) == "value_int";
                    let v = if one { vec![ints(a, 3).first().copied().unwrap_or(0)] } else { ints(a, 8) };
                    if v.is_empty() {
                        return;
                    }
                    let data = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                    let dims = if one { vec![] } else { vec![v.len() as i64] };
                    let chan = if x % 2 == 0 { onnx::Chan::Raw } else { onnx::Chan::Typed };
                    let t = onnx::Tensor { name: String::new(), dt: onnx::I64, dims, data, chan };
                    let t = pb::parse(&t.enc(), Ty::Tensor, 0).unwrap();
                    vec![field(1, Ty::Attr, Val::Bytes(b"value".to_vec())), field(5, Ty::Attr, Val::Msg(Ty::Tensor, t)), field(20, Ty::Attr, Val::Int(4))]
                }
                _ => return,
            };
            if s.here() {
                s.done = Some(format!("constant form {}", text(&new, 1)));
                n[at].v = Val::Msg(Ty::Attr, new);
            }
        }),
        "order" => graphs(m, 0, &mut |g, _| {
            // Two neighbours that do not depend on each other change places.
            for i in 0..g.len().saturating_sub(1) {
                let (Val::Msg(Ty::Node, p), Val::Msg(Ty::Node, q)) = (&g[i].v, &g[i + 1].v) else { continue };
                let outs = list(p, 2);
                let deep = q.iter().any(|f| matches!(&f.v, Val::Msg(Ty::Attr, a) if a.iter().any(|f| matches!(f.v, Val::Msg(Ty::Graph, _)))));
                // A product and the sum after it are one layer only as neighbours.
                let pair = [p, q].iter().any(|n| ["MatMul", "Add"].contains(&text(n, 4).as_str()));
                if deep || pair || list(q, 1).iter().any(|i| outs.contains(i)) || s.done.is_some() || !s.here() {
                    continue;
                }
                g.swap(i, i + 1);
                s.done = Some("node order".into());
            }
        }),
        "import" => {
            if s.here() {
                let mut o = vec![field(1, Ty::Opset, Val::Bytes(format!("com.example.{x}").into_bytes())), field(2, Ty::Opset, Val::Int(1 + y % 3))];
                if y % 2 == 0 {
                    o.reverse();
                }
                let at = if x % 2 == 0 { m.len() } else { 0 };
                m.insert(at, field(8, Ty::Model, Val::Msg(Ty::Opset, o)));
                s.done = Some("unused operator set".into());
            }
        }
        "version" => {
            for f in m.iter_mut() {
                if let (1, Val::Int(v)) = (f.n, &mut f.v) {
                    if *v >= 4 && s.here() {
                        *v = 4 + x % 7;
                        s.done = Some("format version".into());
                    }
                }
            }
        }
        "location" => {
            pb::walk(m, &mut |v, i| {
                let Val::Msg(Ty::Tensor, k) = &mut v[i].v else { return false };
                if !k.iter().any(|f| f.n == 14) && s.here() {
                    k.push(field(14, Ty::Tensor, Val::Int(0)));
                    s.done = Some("location stated".into());
                }
                s.done.is_some()
            });
        }
        "symbol" => {
            // Names of symbolic dimensions.
            pb::walk(m, &mut |v, i| {
                let Val::Msg(Ty::Dim, k) = &mut v[i].v else { return false };
                for f in k.iter_mut() {
                    if let (2, Val::Bytes(b)) = (f.n, &mut f.v) {
                        if s.here() {
                            *b = format!("{}_{x}", String::from_utf8_lossy(b)).into_bytes();
                            s.done = Some("dimension name".into());
                        }
                    }
                }
                s.done.is_some()
            });
        }
        _ => {}
    }
}

/// Edit the model at the k-th place (modulo) where this kind of edit applies.
pub fn apply(m: &mut Vec<Field>, e: &Value) -> Option<String> {
    let (kind, k) = (e[0].as_str()?, e[1].as_u64()?);
    let (x, y) = (e[2].as_u64().unwrap_or(0), e[3].as_u64().unwrap_or(0));
    let known = known(m);
    let mut s = Sel { pick: None, seen: 0, done: None };
    let mut probe = m.clone();
    step(&mut probe, kind, x, y, &known, &mut s);
    if s.seen == 0 {
        return None;
    }
    let mut t = Sel { pick: Some(k % s.seen), seen: 0, done: None };
    step(m, kind, x, y, &known, &mut t);
    t.done
}
pub const KINDS: &[&str] = &[
    "add", "add", "add", "drop", "drop", "drop", "axis", "axes", "doc", "meta", "unknown", "domain", "attrs", "fields", "inits", "infos", "pack", "store", "store", "lift", "lower",
    "dead", "form", "order", "import", "version", "location", "empty", "identity", "undeclare", "symbol",
];
