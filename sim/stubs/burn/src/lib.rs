//! Offline stand-in for the part of `burn` the ONNX converter links against.
pub mod tensor {
    pub use burn_tensor::*;

    /// Backend marker with a float element type.
    pub trait Backend: Clone + std::fmt::Debug + 'static {
        type Device: Default + Clone;
    }

    /// Minimal CPU tensor (f64 storage): what RNN/LSTM/GRU weight splitting uses.
    #[derive(Clone, Debug)]
    pub struct Tensor<B: Backend, const D: usize> {
        shape: Vec<usize>,
        data: Vec<f64>,
        _b: std::marker::PhantomData<B>,
    }
    impl<B: Backend, const D: usize> Tensor<B, D> {
        fn mk(shape: Vec<usize>, data: Vec<f64>) -> Self {
            assert_eq!(shape.len(), D, "rank mismatch");
            Self { shape, data, _b: std::marker::PhantomData }
        }
        pub fn from_data(data: TensorData, _device: &B::Device) -> Self {
            let data = data.convert::<f64>();
            let v = data.to_vec::<f64>().unwrap();
            let numel: usize = data.shape.iter().product();
            assert_eq!(numel, v.len(), "tensor data length does not match its shape");
            Self::mk(data.shape, v)
        }
        pub fn zeros(shape: [usize; D], _device: &B::Device) -> Self {
            Self::mk(shape.to_vec(), vec![0.0; shape.iter().product()])
        }
        pub fn slice<const D2: usize>(self, ranges: [std::ops::Range<usize>; D2]) -> Self {
            let mut lo = vec![0; D];
            let mut hi = self.shape.clone();
            for (i, r) in ranges.iter().enumerate() {
                assert!(r.end <= self.shape[i] && r.start <= r.end, "slice out of bounds");
                lo[i] = r.start;
                hi[i] = r.end;
            }
            let shape: Vec<usize> = (0..D).map(|i| hi[i] - lo[i]).collect();
            let n: usize = shape.iter().product();
            let mut out = Vec::with_capacity(n);
            for k in 0..n {
                let mut rem = k;
                let mut off = 0;
                let mut stride = 1;
                let mut idx = vec![0; D];
                for i in (0..D).rev() {
                    idx[i] = lo[i] + rem % shape[i];
                    rem /= shape[i];
                }
                for i in (0..D).rev() {
                    off += idx[i] * stride;
                    stride *= self.shape[i];
                }
                out.push(self.data[off]);
            }
            Self::mk(shape, out)
        }
        pub fn squeeze<const D2: usize>(self) -> Tensor<B, D2> {
            let mut shape = self.shape.clone();
            while shape.len() > D2 {
                let i = shape.iter().position(|d| *d == 1).expect("cannot squeeze");
                shape.remove(i);
            }
            Tensor::mk(shape, self.data)
        }
        pub fn transpose(self) -> Self {
            assert!(D >= 2);
            let (r, c) = (self.shape[D - 2], self.shape[D - 1]);
            let mut shape = self.shape.clone();
            shape.swap(D - 2, D - 1);
            let mut out = Vec::with_capacity(self.data.len());
            for chunk in self.data.chunks((r * c).max(1)) {
                for j in 0..c {
                    for i in 0..r {
                        out.push(chunk[i * c + j]);
                    }
                }
            }
            Self::mk(shape, out)
        }
        #[allow(clippy::should_implement_trait)]
        pub fn add(self, o: Self) -> Self {
            assert_eq!(self.shape, o.shape);
            let d = self.data.iter().zip(&o.data).map(|(a, b)| a + b).collect();
            Self::mk(self.shape, d)
        }
        pub fn into_data(self) -> TensorData {
            TensorData::new(self.data, self.shape)
        }
    }
}

pub mod module {
    /// Random parameter identifier (random in burn as well).
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct ParamId(u64);
    impl ParamId {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            use std::hash::{BuildHasher, Hasher};
            ParamId(std::collections::hash_map::RandomState::new().build_hasher().finish())
        }
        pub fn val(&self) -> u64 {
            self.0
        }
    }
}

pub mod nn {
    macro_rules! cfg {
        ($($t:ident),*) => {$(
            #[derive(Debug, Clone, PartialEq, Default)]
            pub struct $t;
            impl $t { pub fn new() -> Self { $t } }
        )*};
    }
    cfg!(HardSigmoidConfig, LeakyReluConfig, SoftplusConfig);
    pub mod activation {
        #[derive(Debug, Clone, PartialEq)]
        #[non_exhaustive]
        pub enum ActivationConfig {
            Gelu,
            Relu,
            Sigmoid,
            Tanh,
            HardSigmoid(super::HardSigmoidConfig),
            LeakyRelu(super::LeakyReluConfig),
            Softplus(super::SoftplusConfig),
        }
    }
}
