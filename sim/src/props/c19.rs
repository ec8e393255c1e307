//! C19: memory needed to read a model does not grow with its weights.
use super::common::*;
use crate::core::*;
use crate::inc::Job;
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, _ctx: &Ctx, _i: u64) -> Value {
    let chain = *r.pick(&["vec", "vec", "vec", "img", "rnn"]);
    let n = r.range(12, 40);
    let side = r.below(3);
    let layers: Vec<Value> = (0..n)
        .map(|i| {
            let op = *r.pick(match chain {
                "img" => &["conv", "conv", "convt", "batchnorm", "instnorm", "prelu", "mulc", "relu"] as &[&str],
                "rnn" => &["lstm", "gru", "rnn", "layernorm", "tanh"],
                _ => &["gemm", "gemm", "matmul", "matmul", "addc", "layernorm", "if", "loop", "scan", "dead", "relu", "typedc", "sharec", "identity"],
            });
            let ch = match side {
                0 => "raw",
                1 => "ext",
                _ => *r.pick(&["raw", "ext"]),
            };
            json!({"op": op, "id": i, "ch": ch, "bias": r.chance(1, 2), "form": *r.pick(&[0u64, 3]), "swap": false, "dt": *r.pick(&[0u64, 1, 4, 5]), "lin": true,
                   "nested": r.chance(1, 3), "ab": r.chance(1, 2)})
        })
        .collect();
    let m = json!({"kind": "gen", "chain": chain, "seed": r.next() >> 12, "b": 2, "special": false, "names": r.below(4), "opset": *r.pick(&[16u64, 18, 21]),
        "ext": {"mode": *r.pick(&["single", "per_tensor", "two_files"]), "align": *r.pick(&[1u64, 4, 4096]), "gap": *r.pick(&[0u64, 3])}, "layers": layers});
    let large = match chain {
        "vec" => r.range(150, 260),
        "img" => r.range(60, 120),
        _ => r.range(60, 120),
    };
    json!({"model": m, "small": 6, "large": large, "nosimplify": r.chance(1, 3), "hash": r.next() >> 12})
}

fn scaled(c: &Value, n: u64) -> Value {
    let mut m = c["model"].clone();
    m["f"] = json!(n);
    for l in m["layers"].as_array_mut().unwrap() {
        l["g"] = json!(n);
    }
    m
}

/// Copies of the largest single weight that may live at one time: the parser's
/// numeric views of a constant are wider than the stored elements.
const COPIES: u64 = 10;
/// Growth of names, numbers and shapes with the sizes in them.
const SLACK: u64 = 96 << 10;

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let e = Env::seeded(ju(c, "hash"));
    let simp = !jb(c, "nosimplify");
    let (mut parse, mut conv, mut big, mut total, mut rnn) = (vec![], vec![], 0, 0, 0);
    for n in [ju(c, "small"), ju(c, "large")] {
        let b = crate::gen_::build(&scaled(c, n));
        let vfs = world(&b, "/w/in", "m.onnx");
        let job: Job = Box::new(move || match onnx_ir::OnnxGraphBuilder::new().simplify(simp).parse_file("/w/in/m.onnx") {
            Ok(g) => {
                std::hint::black_box(&g);
                b"parsed".to_vec()
            }
            Err(_) => b"refused".to_vec(),
        });
        parse.push(run.go(&e, &vfs, vec![job]));
        let mut cv = Conv::new("/w/in/m.onnx", "/w/out");
        cv.simplify = simp;
        conv.push(run.go(&e, &vfs, vec![cv.job()]));
        let size = |t: &crate::onnx::Tensor| t.data.len() as u64;
        big = b.all.iter().map(size).max().unwrap_or(0);
        total = b.all.iter().map(size).sum();
        // The weights of recurrent layers are cut into gates, all at once.
        rnn = if js(&c["model"], "chain") == "rnn" { total } else { 0 };
    }
    run.hit(mix(fnv(c["model"].to_string().as_bytes()), ju(c, "large")));
    let k = |s: &str| format!("generated:{s}");
    for (o, what, extra) in [(&parse, "reading", 0), (&conv, "converting", COPIES * rnn)] {
        if o[0].describe() != o[1].describe() {
            return viol("outcome_differs", &k("outcome_differs"), format!("{what}: small weights: {}; large weights: {}", strip(&o[0].describe()), strip(&o[1].describe())), &[&o[1]]);
        }
        let bound = o[0].peak + COPIES * big + extra + SLACK;
        run.probe(if total > bound { "weights exceed the bound" } else { "weights below the bound" });
        if o[1].peak > bound {
            return viol(
                "heap",
                &k("heap"),
                format!("{what} took {} bytes of heap at once; the largest weight has {big} bytes (all together {total}), and the same model with tiny weights takes {} bytes", o[1].peak, o[0].peak),
                &[&o[1]],
            );
        }
    }
    None
}
