//! The real .onnx files that ship with the repository, found at run time.
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub struct Item {
    /// Path relative to the repository, the stable name of the item.
    pub rel: String,
    pub bytes: Arc<Vec<u8>>,
}
pub struct Corpus {
    pub items: Vec<Item>,
}
fn scan(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        let name = p.file_name().unwrap_or_default().to_string_lossy().into_owned();
        if p.is_dir() {
            if name != "target" && name != ".git" {
                scan(&p, out);
            }
        } else if name.ends_with(".onnx") {
            out.push(p);
        }
    }
}
impl Corpus {
    pub fn load(repo: &str) -> Corpus {
        let mut v = vec![];
        for d in ["crates", "examples"] {
            scan(&Path::new(repo).join(d), &mut v);
        }
        let items = v
            .into_iter()
            .filter_map(|p| {
                let rel = p.strip_prefix(repo).ok()?.to_string_lossy().into_owned();
                let b = std::fs::read(&p).ok()?;
                (b.len() < 4 << 20).then(|| Item { rel, bytes: Arc::new(b) })
            })
            .collect();
        Corpus { items }
    }
    pub fn get(&self, rel: &str) -> Option<&Item> {
        self.items.iter().find(|i| i.rel == rel)
    }
    pub fn pick(&self, r: &mut crate::util::Rng) -> Option<&Item> {
        if self.items.is_empty() { None } else { Some(&self.items[r.below(self.items.len() as u64) as usize]) }
    }
}
