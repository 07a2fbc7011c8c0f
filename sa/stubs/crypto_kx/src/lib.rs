//! Signature-level stand-in for `crypto_kx`.
#![no_std]
use rand_core::{CryptoRng, RngCore};
use serde::{Deserialize, Serialize};
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct PublicKey([u8; 32]);
impl PublicKey {
    pub const BYTES: usize = 32;
}
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
impl AsRef<[u8; 32]> for PublicKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
#[derive(Clone, Serialize, Deserialize)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
    pub const BYTES: usize = 32;
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl From<[u8; 32]> for SecretKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
#[derive(Clone, Debug)]
pub struct SessionKey([u8; 32]);
impl AsRef<[u8; 32]> for SessionKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
pub struct SessionKeys {
    pub rx: SessionKey,
    pub tx: SessionKey,
}
pub type ClientSessionKeys = SessionKeys;
pub type ServerSessionKeys = SessionKeys;
#[derive(Clone)]
pub struct Keypair {
    secret: SecretKey,
    public: PublicKey,
}
impl Keypair {
    pub fn generate(rng: &mut (impl CryptoRng + RngCore)) -> Self {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        Self::from(SecretKey(b))
    }
    pub fn public(&self) -> &PublicKey {
        &self.public
    }
    pub fn secret(&self) -> &SecretKey {
        &self.secret
    }
    pub fn split(self) -> (PublicKey, SecretKey) {
        (self.public, self.secret)
    }
    pub fn session_keys_to(&self, server_pk: &PublicKey) -> ClientSessionKeys {
        SessionKeys { rx: SessionKey(self.secret.0), tx: SessionKey(server_pk.0) }
    }
    pub fn session_keys_from(&self, client_pk: &PublicKey) -> ServerSessionKeys {
        SessionKeys { rx: SessionKey(client_pk.0), tx: SessionKey(self.secret.0) }
    }
}
impl From<SecretKey> for Keypair {
    fn from(secret: SecretKey) -> Self {
        let public = PublicKey(secret.0);
        Self { secret, public }
    }
}
