//! C04: a model reads the same from a file, from memory and from a stream.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::Job;
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};
use std::io::{self, Read};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let n = ctx.corpus.items.len() as u64;
    let m = if i % 4 == 0 && n > 0 {
        json!({"kind": "real", "rel": ctx.corpus.items[((i / 4 + ctx.seed * 11) % n) as usize].rel})
    } else {
        let big = r.chance(1, 6);
        crate::gen_::recipe(r, &Style { ext: false, max_layers: 9, big, ..Style::default() })
    };
    // What the reader does, call by call: n > 0 hand out at most n bytes,
    // 0 report an interruption. Repeats when used up.
    let unit = *r.pick(&[1u64, 3, 16, 100, 4096, 1 << 20]);
    let chunks: Vec<u64> = (0..r.range(1, 12)).map(|_| if r.chance(1, 4) { 0 } else { r.range(1, unit) }).collect();
    // Anywhere in the stream; often before the first byte or after the last.
    let fail = r.chance(1, 2);
    let some = r.below(1_000_001);
    let fail_at = *r.pick(&[0, 1_000_000, 1_000_000, some, some]);
    json!({"model": m, "nosimplify": r.chance(1, 3), "hash": r.next() >> 12, "chunks": chunks,
           "fail_at": if fail { json!(fail_at) } else { Value::Null }, "error": r.below(7),
           "file_faults": faults_json(&if r.chance(1, 2) { benign(r, 4, 20, false) } else { vec![] }),
           "file_error": r.chance(1, 4), "error_at": r.below(12)})
}

struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    chunks: Vec<u64>,
    k: usize,
    /// Fail once this much was handed out.
    fail: Option<(usize, io::ErrorKind)>,
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = if self.chunks.iter().all(|c| *c == 0) { 4096 } else { self.chunks[self.k % self.chunks.len()] } as usize;
        self.k += 1;
        if c == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut end = self.data.len();
        if let Some((at, kind)) = self.fail {
            if self.pos >= at {
                return Err(io::Error::new(kind, "simulated failure of the stream"));
            }
            end = end.min(at);
        }
        let n = c.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn tell(r: Result<onnx_ir::OnnxGraph, onnx_ir::Error>) -> Vec<u8> {
    match r {
        Ok(g) => [b"ok\n".to_vec(), dump(&g, true).into_bytes()].concat(),
        Err(_) => b"error".to_vec(),
    }
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let vfs = world(&b, "/w", "m.onnx");
    let simp = !jb(c, "nosimplify");
    let builder = move || onnx_ir::OnnxGraphBuilder::new().simplify(simp);
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    let base = run.go(&Env::seeded(1), &vfs, vec![Box::new(move || tell(builder().parse_file("/w/m.onnx")))]);
    let want = base.one().map(|b| b.to_vec()).map_err(|_| ());
    let bytes = &b.bytes[..];
    let chunks: Vec<u64> = ja(c, "chunks").iter().filter_map(|x| x.as_u64()).collect();
    let kinds = [
        io::ErrorKind::Other,
        io::ErrorKind::UnexpectedEof,
        io::ErrorKind::BrokenPipe,
        io::ErrorKind::TimedOut,
        io::ErrorKind::WouldBlock,
        io::ErrorKind::ConnectionReset,
        io::ErrorKind::InvalidData,
    ];
    let fail = c["fail_at"].as_u64().map(|p| ((p as u128 * bytes.len() as u128 / 1_000_000) as usize, kinds[(ju(c, "error") % 7) as usize]));
    run.hit(mix(fnv(bytes), fnv(format!("{chunks:?}{fail:?}").as_bytes())));

    let e = Env::seeded(ju(c, "hash"));
    let mem = run.go(&e, &vfs, vec![Box::new(move || tell(builder().parse_bytes(bytes)))]);
    let pieces = |fail| {
        let chunks = if chunks.is_empty() { vec![64] } else { chunks.clone() };
        let j: Job = Box::new(move || tell(builder().parse_reader(Pieces { data: bytes, pos: 0, chunks, k: 0, fail })));
        j
    };
    let st = run.go(&e, &vfs, vec![pieces(None)]);
    let mut ef = e.clone();
    ef.faults = faults_of(c, "file_faults");
    let from_file = || -> Job { Box::new(move || tell(builder().parse_reader(std::fs::File::open("/w/m.onnx").expect("open")))) };
    let fr = run.go(&ef, &vfs, vec![from_file()]);
    // Interrupted and partial transfers must not matter to the path entry either.
    let pf = run.go(&ef, &vfs, vec![Box::new(move || tell(builder().parse_file("/w/m.onnx")))]);
    for (what, o) in [("a byte slice", &mem), ("a reader handing out pieces", &st), ("a reader over the file", &fr), ("the file, with interruptions", &pf)] {
        let got = o.one().map(|b| b.to_vec()).map_err(|_| ());
        if got != want {
            let show = |r: &Result<Vec<u8>, ()>| match r {
                Ok(b) => String::from_utf8_lossy(&b[..b.len().min(60)]).replace('\n', " "),
                Err(_) => "a panic".into(),
            };
            return viol("entry_points_differ", &k("entry_points_differ"),
                format!("read from the file: {}; from {what}: {} ({})", show(&want), show(&got), first_diff(&want, &got)), &[&base, o]);
        }
    }
    if want.as_ref().is_ok_and(|w| w.starts_with(b"ok")) {
        run.probe("graphs compared");
    } else {
        run.probe("model rejected by all");
    }
    if fail.is_some() {
        let o = run.go(&e, &vfs, vec![pieces(fail)]);
        run.probe("stream failed");
        if o.one().ok() != Some(b"error") {
            return viol("stream_error_swallowed", &k("stream_error_swallowed"),
                format!("the stream failed after {} of {} bytes ({:?}), but the call did not return an error: {}", fail.unwrap().0, bytes.len(), fail.unwrap().1, o.describe()), &[&o]);
        }
    }
    if jb(c, "file_error") {
        let mut e2 = e.clone();
        e2.faults = vec![Fault { at: ju(c, "error_at"), kind: FaultKind::ReadEio, arg: 0, sticky: true }];
        let o = run.go(&e2, &vfs, vec![from_file()]);
        if o.fault_done.iter().any(|f| *f) {
            run.probe("file read failed");
            if o.one().ok() != Some(b"error") {
                return viol("stream_error_swallowed", &k("stream_error_swallowed"), format!("reading the file failed, but the call did not return an error: {}", o.describe()), &[&o]);
            }
        }
    }
    None
}

fn first_diff(a: &Result<Vec<u8>, ()>, b: &Result<Vec<u8>, ()>) -> String {
    let (Ok(a), Ok(b)) = (a, b) else { return String::new() };
    let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("first difference: {:?} / {:?}", strip(x), strip(y));
        }
    }
    "one is longer".into()
}
