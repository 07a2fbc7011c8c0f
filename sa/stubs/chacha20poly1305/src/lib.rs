//! Signature-level stand-in for `chacha20poly1305`.
#![no_std]
extern crate alloc;
use generic_array::{typenum, ArrayLength, GenericArray};
pub type Key = GenericArray<u8, typenum::U32>;
pub type XNonce = GenericArray<u8, typenum::U24>;
pub type Nonce = GenericArray<u8, typenum::U12>;
#[derive(Clone)]
pub struct XChaCha20Poly1305(Key);
pub trait KeyInit: Sized {
    fn new(key: &Key) -> Self;
}
impl KeyInit for XChaCha20Poly1305 {
    fn new(key: &Key) -> Self {
        Self(*key)
    }
}
pub mod aead {
    use super::*;
    use alloc::vec::Vec;
    pub use super::KeyInit;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct Error;
    pub type Result<T> = core::result::Result<T, Error>;
    pub struct Payload<'msg, 'aad> {
        pub msg: &'msg [u8],
        pub aad: &'aad [u8],
    }
    impl<'msg> From<&'msg [u8]> for Payload<'msg, '_> {
        fn from(msg: &'msg [u8]) -> Self {
            Self { msg, aad: b"" }
        }
    }
    pub trait AeadCore {
        type NonceSize: ArrayLength<u8>;
        fn generate_nonce(
            rng: impl rand_core::CryptoRng + rand_core::RngCore,
        ) -> GenericArray<u8, Self::NonceSize>;
    }
    pub trait Aead: AeadCore {
        fn encrypt<'msg, 'aad>(
            &self,
            nonce: &GenericArray<u8, Self::NonceSize>,
            plaintext: impl Into<Payload<'msg, 'aad>>,
        ) -> Result<Vec<u8>>;
        fn decrypt<'msg, 'aad>(
            &self,
            nonce: &GenericArray<u8, Self::NonceSize>,
            ciphertext: impl Into<Payload<'msg, 'aad>>,
        ) -> Result<Vec<u8>>;
    }
    impl AeadCore for XChaCha20Poly1305 {
        type NonceSize = typenum::U24;
        fn generate_nonce(
            mut rng: impl rand_core::CryptoRng + rand_core::RngCore,
        ) -> GenericArray<u8, Self::NonceSize> {
            let mut n = GenericArray::<u8, Self::NonceSize>::default();
            rng.fill_bytes(&mut n);
            n
        }
    }
    impl Aead for XChaCha20Poly1305 {
        fn encrypt<'msg, 'aad>(
            &self,
            nonce: &XNonce,
            plaintext: impl Into<Payload<'msg, 'aad>>,
        ) -> Result<Vec<u8>> {
            let p = plaintext.into();
            let _ = (nonce, p.aad, &self.0);
            Ok(p.msg.to_vec())
        }
        fn decrypt<'msg, 'aad>(
            &self,
            nonce: &XNonce,
            ciphertext: impl Into<Payload<'msg, 'aad>>,
        ) -> Result<Vec<u8>> {
            let p = ciphertext.into();
            let _ = (nonce, p.aad, &self.0);
            Ok(p.msg.to_vec())
        }
    }
}
pub use aead::{Aead, AeadCore, Error};
