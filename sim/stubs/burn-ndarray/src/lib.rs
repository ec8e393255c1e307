//! Offline stand-in for `burn-ndarray`: a backend marker.
#[derive(Clone, Debug, Default)]
pub struct NdArray<E = f32>(std::marker::PhantomData<E>);
#[derive(Clone, Debug, Default)]
pub struct NdArrayDevice;
impl<E: Clone + std::fmt::Debug + 'static> burn::tensor::Backend for NdArray<E> {
    type Device = NdArrayDevice;
}
