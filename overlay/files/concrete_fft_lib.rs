//! Stand-in for concrete-fft, used only for the symbolic build: the transform itself is modelled
//! exactly inside the engine (see overlay of concrete-core's `FftView`).
#![allow(non_camel_case_types)]
pub type c64 = num_complex::Complex64;
pub mod ordered {
    #[derive(Clone, Copy, Debug)]
    pub enum Method {
        Measure(core::time::Duration),
    }
}
pub mod unordered {
    pub use super::c64;
    use dyn_stack::{DynStack, SizeOverflow, StackReq};
    #[derive(Clone, Copy, Debug)]
    pub enum Method {
        Measure(core::time::Duration),
    }
    #[derive(Clone, Debug)]
    pub struct Plan {
        n: usize,
    }
    impl Plan {
        pub fn new(n: usize, _m: Method) -> Self {
            assert!(n.is_power_of_two());
            Plan { n }
        }
        pub fn fft_size(&self) -> usize {
            self.n
        }
        pub fn fft_scratch(&self) -> Result<StackReq, SizeOverflow> {
            StackReq::try_new_aligned::<c64>(self.n, 64)
        }
        pub fn fwd(&self, _buf: &mut [c64], _stack: DynStack) {
            panic!("vp: raw fft plan used")
        }
        pub fn inv(&self, _buf: &mut [c64], _stack: DynStack) {
            panic!("vp: raw fft plan used")
        }
        pub fn serialize_fourier_buffer<S: serde::Serializer>(
            &self,
            _s: S,
            _b: &[c64],
        ) -> Result<S::Ok, S::Error> {
            panic!("vp: fourier serialisation not modelled")
        }
        pub fn deserialize_fourier_buffer<'de, D: serde::Deserializer<'de>>(
            &self,
            _d: D,
            _b: &mut [c64],
        ) -> Result<(), D::Error> {
            panic!("vp: fourier serialisation not modelled")
        }
    }
}
