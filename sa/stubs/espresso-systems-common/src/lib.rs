//! Signature-level stand-in for `espresso-systems-common`.
#![no_std]
pub mod jellyfish {
    pub mod tag {
        pub const PROOF: &str = "PROOF";
        pub const BATCHPROOF: &str = "BATCHPROOF";
    }
}
