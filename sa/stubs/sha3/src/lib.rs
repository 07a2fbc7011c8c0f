//! Signature-level stand-in for `sha3`; only its types are consulted.
#![no_std]
pub use digest::{self, Digest};
use digest::{
    consts::U32, core_api::BlockSizeUser, FixedOutput, FixedOutputReset, HashMarker, Output,
    OutputSizeUser, Reset, Update,
};
macro_rules! stub_hash {
    ($name:ident, $block:ty) => {
        #[derive(Clone, Default, Debug)]
        pub struct $name([u8; 32]);
        impl HashMarker for $name {}
        impl OutputSizeUser for $name {
            type OutputSize = U32;
        }
        impl BlockSizeUser for $name {
            type BlockSize = $block;
        }
        impl Update for $name {
            fn update(&mut self, data: &[u8]) {
                for b in data {
                    self.0[0] ^= *b;
                }
            }
        }
        impl FixedOutput for $name {
            fn finalize_into(self, out: &mut Output<Self>) {
                out.copy_from_slice(&self.0)
            }
        }
        impl Reset for $name {
            fn reset(&mut self) {
                self.0 = [0; 32]
            }
        }
        impl FixedOutputReset for $name {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                out.copy_from_slice(&self.0)
            }
        }
    };
}
stub_hash!(Keccak256, digest::consts::U136);
stub_hash!(Sha3_256, digest::consts::U136);
stub_hash!(Sha3_512, digest::consts::U72);
