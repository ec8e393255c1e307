//! Offline stand-in for the part of `burn-tensor` the ONNX converter links
//! against: element types, `TensorData` and its conversions.
use std::fmt;

pub use half::{bf16, f16};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum DType {
    F64,
    F32,
    Flex32,
    F16,
    BF16,
    I64,
    I32,
    I16,
    I8,
    U64,
    U32,
    U16,
    U8,
    Bool,
}

impl DType {
    pub const fn size(&self) -> usize {
        match self {
            DType::F64 | DType::I64 | DType::U64 => 8,
            DType::F32 | DType::Flex32 | DType::I32 | DType::U32 => 4,
            DType::F16 | DType::BF16 | DType::I16 | DType::U16 => 2,
            DType::I8 | DType::U8 | DType::Bool => 1,
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, DType::F64 | DType::F32 | DType::Flex32 | DType::F16 | DType::BF16)
    }
    pub fn is_int(&self) -> bool {
        matches!(self, DType::I64 | DType::I32 | DType::I16 | DType::I8)
    }
    pub fn is_uint(&self) -> bool {
        matches!(self, DType::U64 | DType::U32 | DType::U16 | DType::U8)
    }
    pub fn is_bool(&self) -> bool {
        matches!(self, DType::Bool)
    }
    pub fn name(&self) -> &'static str {
        match self {
            DType::F64 => "f64",
            DType::F32 => "f32",
            DType::Flex32 => "flex32",
            DType::F16 => "f16",
            DType::BF16 => "bf16",
            DType::I64 => "i64",
            DType::I32 => "i32",
            DType::I16 => "i16",
            DType::I8 => "i8",
            DType::U64 => "u64",
            DType::U32 => "u32",
            DType::U16 => "u16",
            DType::U8 => "u8",
            DType::Bool => "bool",
        }
    }
}

#[derive(Debug, Clone)]
pub enum DataError {
    CastError(bytemuck::checked::CheckedCastError),
    TypeMismatch(String),
}
impl fmt::Display for DataError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            DataError::CastError(e) => write!(f, "Failed to cast values: {e:?}"),
            DataError::TypeMismatch(s) => write!(f, "Type mismatch: {s}"),
        }
    }
}
impl std::error::Error for DataError {}

/// Byte buffer whose start is 16-byte aligned, like burn's `Bytes`.
#[derive(Clone)]
pub struct Bytes {
    words: Vec<u128>,
    len: usize,
}
impl Bytes {
    pub fn from_bytes_vec(v: Vec<u8>) -> Self {
        let n = v.len();
        let mut words = vec![0u128; n.div_ceil(16)];
        bytemuck::cast_slice_mut::<u128, u8>(&mut words)[..n].copy_from_slice(&v);
        Bytes { words, len: n }
    }
}
impl std::ops::Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &bytemuck::cast_slice::<u128, u8>(&self.words)[..self.len]
    }
}
impl std::ops::DerefMut for Bytes {
    fn deref_mut(&mut self) -> &mut [u8] {
        let n = self.len;
        &mut bytemuck::cast_slice_mut::<u128, u8>(&mut self.words)[..n]
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl Eq for Bytes {}
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        struct Head<'a>(&'a [u8]);
        impl fmt::Debug for Head<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if self.0.len() > 3 {
                    f.debug_list().entries(&self.0[..3]).entry(&"...").finish()
                } else {
                    f.debug_list().entries(self.0).finish()
                }
            }
        }
        f.debug_struct("Bytes").field("data", &Head(self)).field("len", &self.len).finish()
    }
}

/// Element types a `TensorData` can hold.
pub trait Element: Copy + bytemuck::NoUninit + bytemuck::CheckedBitPattern + fmt::Debug + 'static {
    fn dtype() -> DType;
    fn from_f64(v: f64) -> Self;
    fn from_i64(v: i64) -> Self;
    fn from_u64(v: u64) -> Self;
}
macro_rules! elem {
    ($($t:ty => $d:ident),*) => {$(
        impl Element for $t {
            fn dtype() -> DType { DType::$d }
            fn from_f64(v: f64) -> Self { v as $t }
            fn from_i64(v: i64) -> Self { v as $t }
            fn from_u64(v: u64) -> Self { v as $t }
        }
    )*};
}
elem!(f64 => F64, f32 => F32, i64 => I64, i32 => I32, i16 => I16, i8 => I8, u64 => U64, u32 => U32, u16 => U16, u8 => U8);
macro_rules! elem16 {
    ($($t:ty => $d:ident),*) => {$(
        impl Element for $t {
            fn dtype() -> DType { DType::$d }
            fn from_f64(v: f64) -> Self { <$t>::from_f64(v) }
            fn from_i64(v: i64) -> Self { <$t>::from_f64(v as f64) }
            fn from_u64(v: u64) -> Self { <$t>::from_f64(v as f64) }
        }
    )*};
}
elem16!(f16 => F16, bf16 => BF16);
impl Element for bool {
    fn dtype() -> DType {
        DType::Bool
    }
    fn from_f64(v: f64) -> Self {
        v != 0.0
    }
    fn from_i64(v: i64) -> Self {
        v != 0
    }
    fn from_u64(v: u64) -> Self {
        v != 0
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TensorData {
    pub bytes: Bytes,
    pub shape: Vec<usize>,
    pub dtype: DType,
}

pub trait IntoShape {
    fn dims(self) -> Vec<usize>;
}
impl IntoShape for Vec<usize> {
    fn dims(self) -> Vec<usize> {
        self
    }
}
impl IntoShape for &[usize] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const D: usize> IntoShape for [usize; D] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}

enum Num {
    F(f64),
    I(i64),
    U(u64),
}

impl TensorData {
    pub fn new<E: Element, S: IntoShape>(value: Vec<E>, shape: S) -> Self {
        let shape = shape.dims();
        let numel: usize = shape.iter().product();
        assert_eq!(
            numel,
            value.len(),
            "Shape {shape:?} is invalid for input of size {:?}",
            value.len()
        );
        Self {
            bytes: Bytes::from_bytes_vec(bytemuck::cast_slice::<E, u8>(&value).to_vec()),
            shape,
            dtype: E::dtype(),
        }
    }
    pub fn from_bytes_vec<S: IntoShape>(bytes: Vec<u8>, shape: S, dtype: DType) -> Self {
        Self { bytes: Bytes::from_bytes_vec(bytes), shape: shape.dims(), dtype }
    }
    pub fn num_elements(&self) -> usize {
        self.shape.iter().product()
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes
    }
    pub fn as_slice<E: Element>(&self) -> Result<&[E], DataError> {
        if E::dtype() == self.dtype {
            bytemuck::checked::try_cast_slice(&self.bytes).map_err(DataError::CastError)
        } else {
            Err(DataError::TypeMismatch(format!(
                "Invalid target element type (expected {:?}, got {:?})",
                self.dtype,
                E::dtype()
            )))
        }
    }
    pub fn to_vec<E: Element>(&self) -> Result<Vec<E>, DataError> {
        Ok(self.as_slice::<E>()?.to_vec())
    }
    pub fn into_vec<E: Element>(self) -> Result<Vec<E>, DataError> {
        self.to_vec()
    }
    fn nums(&self) -> Vec<Num> {
        fn g<E: Element>(b: &[u8]) -> &[E] {
            bytemuck::checked::cast_slice(b)
        }
        let b: &[u8] = &self.bytes;
        match self.dtype {
            DType::F64 => g::<f64>(b).iter().map(|v| Num::F(*v)).collect(),
            DType::F32 | DType::Flex32 => g::<f32>(b).iter().map(|v| Num::F(*v as f64)).collect(),
            DType::F16 => g::<f16>(b).iter().map(|v| Num::F(v.to_f64())).collect(),
            DType::BF16 => g::<bf16>(b).iter().map(|v| Num::F(v.to_f64())).collect(),
            DType::I64 => g::<i64>(b).iter().map(|v| Num::I(*v)).collect(),
            DType::I32 => g::<i32>(b).iter().map(|v| Num::I(*v as i64)).collect(),
            DType::I16 => g::<i16>(b).iter().map(|v| Num::I(*v as i64)).collect(),
            DType::I8 => g::<i8>(b).iter().map(|v| Num::I(*v as i64)).collect(),
            DType::U64 => g::<u64>(b).iter().map(|v| Num::U(*v)).collect(),
            DType::U32 => g::<u32>(b).iter().map(|v| Num::U(*v as u64)).collect(),
            DType::U16 => g::<u16>(b).iter().map(|v| Num::U(*v as u64)).collect(),
            DType::U8 => g::<u8>(b).iter().map(|v| Num::U(*v as u64)).collect(),
            DType::Bool => g::<bool>(b).iter().map(|v| Num::U(*v as u64)).collect(),
        }
    }
    pub fn iter<E: Element>(&self) -> Box<dyn Iterator<Item = E> + '_> {
        if self.dtype == E::dtype() {
            return Box::new(self.as_slice::<E>().unwrap().iter().copied());
        }
        Box::new(self.nums().into_iter().map(|n| match n {
            Num::F(v) => E::from_f64(v),
            Num::I(v) => E::from_i64(v),
            Num::U(v) => E::from_u64(v),
        }))
    }
    pub fn convert<E: Element>(self) -> Self {
        if self.dtype == E::dtype() {
            return self;
        }
        let v: Vec<E> = self.iter::<E>().collect();
        TensorData::new(v, self.shape)
    }
    pub fn convert_dtype(self, dtype: DType) -> Self {
        match dtype {
            DType::F64 => self.convert::<f64>(),
            DType::F32 | DType::Flex32 => self.convert::<f32>(),
            DType::F16 => self.convert::<f16>(),
            DType::BF16 => self.convert::<bf16>(),
            DType::I64 => self.convert::<i64>(),
            DType::I32 => self.convert::<i32>(),
            DType::I16 => self.convert::<i16>(),
            DType::I8 => self.convert::<i8>(),
            DType::U64 => self.convert::<u64>(),
            DType::U32 => self.convert::<u32>(),
            DType::U16 => self.convert::<u16>(),
            DType::U8 => self.convert::<u8>(),
            DType::Bool => self.convert::<bool>(),
        }
    }
}

impl<E: Element, const A: usize> From<[E; A]> for TensorData {
    fn from(v: [E; A]) -> Self {
        TensorData::new(v.to_vec(), [A])
    }
}
impl<E: Element> From<&[E]> for TensorData {
    fn from(v: &[E]) -> Self {
        TensorData::new(v.to_vec(), [v.len()])
    }
}
impl<E: Element, const A: usize, const B: usize> From<[[E; B]; A]> for TensorData {
    fn from(v: [[E; B]; A]) -> Self {
        TensorData::new(v.concat(), [A, B])
    }
}
