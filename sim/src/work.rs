//! What the simulated processes run: the converter through its public API.
use crate::inc::Job;
use crate::util::*;
use onnx_ir::{Argument, Node, OnnxGraph, OnnxGraphBuilder};
use serde_json::{Value, json};
use std::fmt::Write as _;

/// One use of the code generator.
#[derive(Clone, Debug)]
pub struct Conv {
    pub inputs: Vec<String>,
    pub out: String,
    pub dev: bool,
    pub embed: bool,
    pub simplify: bool,
    /// run_from_script (OUT_DIR) instead of run_from_cli.
    pub script: bool,
    /// How the options are given: 0 each once; 1 only those that differ from
    /// the documented defaults; 2 in another order; 3 twice, the last counts.
    pub calls: u64,
}
impl Conv {
    pub fn new(input: &str, out: &str) -> Self {
        Conv {
            inputs: vec![input.into()],
            out: out.into(),
            dev: false,
            embed: false,
            simplify: true,
            script: false,
            calls: 0,
        }
    }
    pub fn opts(mut self, o: &Value) -> Self {
        self.dev = jb(o, "dev");
        self.embed = jb(o, "embed");
        self.simplify = !jb(o, "nosimplify");
        self.script = jb(o, "script");
        self
    }
    pub fn run(&self) {
        let mut g = burn_onnx::ModelGen::new();
        if self.calls == 3 {
            g.simplify(!self.simplify).embed_states(!self.embed).development(!self.dev).out_dir("/w/elsewhere/never");
        }
        if self.calls == 2 {
            g.simplify(self.simplify);
            g.out_dir(&self.out);
        }
        for i in &self.inputs {
            g.input(i);
        }
        if self.calls != 2 {
            g.out_dir(&self.out);
        }
        if self.calls != 1 || self.dev {
            g.development(self.dev);
        }
        if self.calls != 1 || self.embed {
            g.embed_states(self.embed);
        }
        if self.calls < 1 || self.calls > 2 || (self.calls == 1 && !self.simplify) {
            g.simplify(self.simplify);
        }
        if self.script {
            g.run_from_script();
        } else {
            g.run_from_cli();
        }
    }
    pub fn job<'a>(&self) -> Job<'a> {
        let c = self.clone();
        Box::new(move || {
            c.run();
            vec![]
        })
    }
}
/// Random generator options (swarm).
pub fn rand_opts(r: &mut Rng) -> Value {
    json!({"dev": r.chance(1, 5), "embed": r.chance(1, 5), "nosimplify": r.chance(1, 4)})
}

fn arg(o: &mut String, a: &Argument, values: bool) {
    let _ = write!(o, "    {} {:?} {:?}", a.name, a.ty, a.value_source);
    if values && (a.is_constant() || a.is_static()) {
        match a.value() {
            Some(v) => {
                let b: &[u8] = &v.bytes;
                let _ = write!(o, " = {:?} {:?} {}:{:016x}", v.dtype, v.shape, b.len(), fnv(b));
            }
            None => {
                let _ = write!(o, " = none");
            }
        }
    }
    o.push('\n');
}
/// Text form of a parsed graph: structure, types and every constant's content.
pub fn dump(g: &OnnxGraph, values: bool) -> String {
    let mut o = String::new();
    walk(&mut o, g, values, 0);
    o
}
/// Variant name, without formatting the payload.
fn kind(n: &Node) -> String {
    struct Short(String);
    impl std::fmt::Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.push_str(s);
            if self.0.contains('(') { Err(std::fmt::Error) } else { Ok(()) }
        }
    }
    let mut s = Short(String::new());
    let _ = write!(s, "{n:?}");
    s.0.split('(').next().unwrap_or("").to_string()
}
fn walk(o: &mut String, g: &OnnxGraph, values: bool, depth: usize) {
    if depth > 8 {
        return;
    }
    let _ = writeln!(o, "graph");
    g.inputs.iter().for_each(|a| arg(o, a, values));
    for n in &g.nodes {
        let kind = kind(n);
        let _ = writeln!(o, "  {kind} {}", n.name());
        n.inputs().iter().for_each(|a| arg(o, a, values));
        let _ = writeln!(o, "    ->");
        n.outputs().iter().for_each(|a| arg(o, a, values));
        match n {
            Node::If(x) => {
                walk(o, &x.config.then_branch, values, depth + 1);
                walk(o, &x.config.else_branch, values, depth + 1);
            }
            Node::Loop(x) => walk(o, &x.config.body, values, depth + 1),
            Node::Scan(x) => walk(o, &x.config.body, values, depth + 1),
            _ => {}
        }
    }
    let _ = writeln!(o, "  outputs");
    g.outputs.iter().for_each(|a| arg(o, a, values));
}

/// (dtype name, shape, bytes) of every constant the graph can still produce.
pub fn values(g: &OnnxGraph) -> Vec<(String, Vec<usize>, Vec<u8>)> {
    fn go(g: &OnnxGraph, out: &mut Vec<(String, Vec<usize>, Vec<u8>)>) {
        for n in &g.nodes {
            for a in n.inputs() {
                if a.is_constant() || a.is_static() {
                    if let Some(v) = a.value() {
                        out.push((format!("{:?}", v.dtype), v.shape.clone(), v.bytes.to_vec()));
                    }
                }
            }
            match n {
                Node::If(x) => {
                    go(&x.config.then_branch, out);
                    go(&x.config.else_branch, out);
                }
                Node::Loop(x) => go(&x.config.body, out),
                Node::Scan(x) => go(&x.config.body, out),
                _ => {}
            }
        }
    }
    let mut v = vec![];
    go(g, &mut v);
    v
}
pub fn enc_values(v: &[(String, Vec<usize>, Vec<u8>)]) -> Vec<u8> {
    let mut e = Enc::default();
    e.u64(v.len() as u64);
    for (d, s, b) in v {
        e.str(d);
        e.u64(s.len() as u64);
        s.iter().for_each(|x| e.u64(*x as u64));
        e.bytes(b);
    }
    e.0
}
pub fn dec_values(b: &[u8]) -> Option<Vec<(String, Vec<usize>, Vec<u8>)>> {
    let mut d = Dec(b);
    let mut out = vec![];
    for _ in 0..d.u64()? {
        let t = d.str()?;
        let n = d.u64()?;
        let mut s = vec![];
        for _ in 0..n {
            s.push(d.u64()? as usize);
        }
        out.push((t, s, d.bytes()?.to_vec()));
    }
    Some(out)
}

/// How a model reaches the IR builder.
#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    File(String),
    Bytes,
    Reader,
}
/// Parse and dump, "ok:..." or "err:...".
pub fn parse_file(path: &str, simplify: bool) -> Result<OnnxGraph, String> {
    OnnxGraphBuilder::new().simplify(simplify).parse_file(path).map_err(|e| e.to_string())
}
