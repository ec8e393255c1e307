//! Reader of the weight file the stand-in writer produces, with its own
//! consistency checks.
#[derive(Clone, Debug, PartialEq)]
pub struct BTensor {
    pub path: String,
    pub dtype: String,
    pub shape: Vec<usize>,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Bpk {
    pub meta: Vec<(String, String)>,
    pub tensors: Vec<BTensor>,
}
pub fn parse(b: &[u8]) -> Result<Bpk, String> {
    if b.len() < 10 || &b[..4] != b"NRUB" {
        return Err("bad magic or header".into());
    }
    let n = u32::from_le_bytes(b[6..10].try_into().unwrap()) as usize;
    let meta = b.get(10..10 + n).ok_or("metadata cut short")?;
    let base = (10 + n).next_multiple_of(256);
    let text = std::str::from_utf8(meta).map_err(|e| e.to_string())?;
    let mut o = Bpk::default();
    for l in text.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p.as_slice() {
            ["M", k, v] => o.meta.push((k.to_string(), v.to_string())),
            ["T", path, dt, shape, s, e, ..] => {
                let s: usize = s.parse().map_err(|_| "start")?;
                let e: usize = e.parse().map_err(|_| "end")?;
                let shape = shape
                    .trim_matches(|c| c == '[' || c == ']')
                    .split(',')
                    .map(|x| x.trim())
                    .filter(|x| !x.is_empty())
                    .map(|x| x.parse().map_err(|_| "shape".to_string()))
                    .collect::<Result<Vec<usize>, _>>()?;
                let data = if s == e {
                    vec![]
                } else {
                    b.get(base + s..base + e).ok_or(format!("tensor {path} cut short"))?.to_vec()
                };
                o.tensors.push(BTensor { path: path.to_string(), dtype: dt.to_string(), shape, data });
            }
            _ => return Err(format!("bad line {l:?}")),
        }
    }
    Ok(o)
}
/// Content with the random parameter identities left out.
pub fn canon(b: &[u8]) -> Vec<u8> {
    match parse(b) {
        Ok(p) => format!("{p:?}").into_bytes(),
        Err(_) if b.len() >= 10 && &b[..4] == b"NRUB" => {
            let n = u32::from_le_bytes(b[6..10].try_into().unwrap()) as usize;
            let (meta, rest) = b[10..].split_at(n.min(b.len() - 10));
            let lines: Vec<String> = String::from_utf8_lossy(meta).lines().map(|l| l.split('\t').take(6).collect::<Vec<_>>().join("\t")).collect();
            [b[..10].to_vec(), lines.join("\n").into_bytes(), rest.to_vec()].concat()
        }
        Err(_) => b.to_vec(),
    }
}
