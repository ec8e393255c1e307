//! Offline stand-in for the burnpack writer of `burn-store`.
//!
//! Same shape as the real one: a fixed header, a metadata block keyed by tensor
//! path, then tensors materialised one at a time through their closures, each
//! at a 256-byte aligned offset, straight into the file created at the target
//! path. Lengths are checked against the declared shape and type.
use burn::module::ParamId;
use burn_tensor::{DType, TensorData};
use std::collections::BTreeMap;
use std::fmt;
use std::io::Write;
use std::path::Path;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum TensorSnapshotError {
    IoError(String),
    DataError(String),
    PanicError(String),
}
impl fmt::Display for TensorSnapshotError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for TensorSnapshotError {}

type DataFn = Rc<dyn Fn() -> Result<TensorData, TensorSnapshotError>>;

pub struct TensorSnapshot {
    data_fn: DataFn,
    pub dtype: DType,
    pub shape: Vec<usize>,
    pub path_stack: Option<Vec<String>>,
    pub container_stack: Option<Vec<String>>,
    pub tensor_id: Option<ParamId>,
}
impl TensorSnapshot {
    pub fn from_closure(
        data_fn: DataFn,
        dtype: DType,
        shape: Vec<usize>,
        path_stack: Vec<String>,
        container_stack: Vec<String>,
        tensor_id: ParamId,
    ) -> Self {
        Self {
            data_fn,
            dtype,
            shape,
            path_stack: Some(path_stack),
            container_stack: Some(container_stack),
            tensor_id: Some(tensor_id),
        }
    }
    pub fn to_data(&self) -> Result<TensorData, TensorSnapshotError> {
        (self.data_fn)()
    }
    pub fn full_path(&self) -> String {
        self.path_stack.as_ref().map(|p| p.join(".")).unwrap_or_default()
    }
    pub fn data_len(&self) -> usize {
        self.shape.iter().product::<usize>() * self.dtype.size()
    }
}

#[derive(Debug)]
pub enum BurnpackError {
    Io(std::io::Error),
    Validation(String),
}
impl fmt::Display for BurnpackError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for BurnpackError {}
impl From<std::io::Error> for BurnpackError {
    fn from(e: std::io::Error) -> Self {
        BurnpackError::Io(e)
    }
}

pub const MAGIC: &[u8; 4] = b"NRUB";
pub const ALIGN: usize = 256;

pub struct BurnpackWriter {
    snapshots: Vec<TensorSnapshot>,
    metadata: BTreeMap<String, String>,
}
impl BurnpackWriter {
    pub fn new(snapshots: Vec<TensorSnapshot>) -> Self {
        Self { snapshots, metadata: BTreeMap::new() }
    }
    pub fn with_metadata(mut self, k: &str, v: &str) -> Self {
        self.metadata.insert(k.to_string(), v.to_string());
        self
    }
    pub fn write_to_file<P: AsRef<Path>>(self, path: P) -> Result<(), BurnpackError> {
        let mut file = std::fs::File::create(path)?;
        // Metadata: text lines, one per key / tensor (CBOR in the real crate).
        let mut meta = String::new();
        for (k, v) in &self.metadata {
            meta.push_str(&format!("M\t{k}\t{v}\n"));
        }
        let mut off = 0usize;
        let mut spans = Vec::new();
        for s in &self.snapshots {
            let start = off.next_multiple_of(ALIGN);
            let end = start + s.data_len();
            off = end;
            spans.push((start, end));
            meta.push_str(&format!(
                "T\t{}\t{}\t{:?}\t{}\t{}\t{:016x}\n",
                s.full_path(),
                s.dtype.name(),
                s.shape,
                start,
                end,
                s.tensor_id.map(|i| i.val()).unwrap_or(0)
            ));
        }
        let mut header = Vec::new();
        header.extend_from_slice(MAGIC);
        header.extend_from_slice(&1u16.to_le_bytes());
        header.extend_from_slice(&(meta.len() as u32).to_le_bytes());
        file.write_all(&header)?;
        file.write_all(meta.as_bytes())?;
        let pos0 = header.len() + meta.len();
        let base = pos0.next_multiple_of(ALIGN);
        let mut pos = pos0;
        for (s, (start, end)) in self.snapshots.iter().zip(spans) {
            let data = s.to_data().map_err(|e| {
                BurnpackError::Io(std::io::Error::other(format!("Failed to get tensor data: {e:?}")))
            })?;
            let want = base + start;
            if want > pos {
                file.write_all(&vec![0u8; want - pos])?;
            }
            if data.bytes.len() != end - start {
                return Err(BurnpackError::Validation(format!(
                    "Data corruption: tensor '{}' has inconsistent data length (expected {}, got {})",
                    s.full_path(),
                    end - start,
                    data.bytes.len()
                )));
            }
            file.write_all(&data.bytes)?;
            pos = base + end;
        }
        file.flush()?;
        Ok(())
    }
}
