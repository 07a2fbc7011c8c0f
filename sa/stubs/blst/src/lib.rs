//! Signature-level stand-in for `blst`.
#![no_std]
#![allow(non_camel_case_types)]
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum BLST_ERROR {
    BLST_SUCCESS = 0,
    BLST_BAD_ENCODING = 1,
    BLST_POINT_NOT_ON_CURVE = 2,
    BLST_POINT_NOT_IN_GROUP = 3,
    BLST_AGGR_TYPE_MISMATCH = 4,
    BLST_VERIFY_FAIL = 5,
    BLST_PK_IS_INFINITY = 6,
    BLST_BAD_SCALAR = 7,
}
pub mod min_sig {
    use super::BLST_ERROR;
    use zeroize::Zeroize;
    #[derive(Default, Debug, Clone, Zeroize)]
    #[zeroize(drop)]
    pub struct SecretKey([u8; 32]);
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct PublicKey([u8; 32]);
    impl Default for PublicKey {
        fn default() -> Self {
            Self([0; 32])
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Signature([u8; 32]);
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], key_info: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = (ikm, key_info);
            Ok(Self::default())
        }
        pub fn key_gen_v3(ikm: &[u8], key_info: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = (ikm, key_info);
            Ok(Self::default())
        }
        pub fn key_gen_v4_5(ikm: &[u8], salt: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = (ikm, salt, info);
            Ok(Self::default())
        }
        pub fn key_gen_v5(ikm: &[u8], salt: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = (ikm, salt, info);
            Ok(Self::default())
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(self.0)
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            let _ = (msg, dst, aug);
            Signature(self.0)
        }
        pub fn serialize(&self) -> [u8; 32] {
            self.0
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = b;
            Ok(Self::default())
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::deserialize(b)
        }
    }
    impl PublicKey {
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            Ok(())
        }
        pub fn key_validate(key: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = key;
            Ok(Self([0; 32]))
        }
        pub fn compress(&self) -> [u8; 96] {
            [0; 96]
        }
        pub fn serialize(&self) -> [u8; 192] {
            [0; 192]
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            [0; 96]
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = b;
            Ok(Self([0; 32]))
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = b;
            Ok(Self([0; 32]))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::deserialize(b)
        }
    }
    impl Signature {
        pub fn verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            aug: &[u8],
            pk: &PublicKey,
            pk_validate: bool,
        ) -> BLST_ERROR {
            let _ = (sig_groupcheck, msg, dst, aug, pk, pk_validate);
            BLST_ERROR::BLST_SUCCESS
        }
        pub fn validate(&self, sig_infcheck: bool) -> Result<(), BLST_ERROR> {
            let _ = sig_infcheck;
            Ok(())
        }
        pub fn sig_validate(sig: &[u8], sig_infcheck: bool) -> Result<Self, BLST_ERROR> {
            let _ = (sig, sig_infcheck);
            Ok(Self([0; 32]))
        }
        pub fn compress(&self) -> [u8; 48] {
            [0; 48]
        }
        pub fn serialize(&self) -> [u8; 96] {
            [0; 96]
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            [0; 48]
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = b;
            Ok(Self([0; 32]))
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let _ = b;
            Ok(Self([0; 32]))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::deserialize(b)
        }
    }
}
