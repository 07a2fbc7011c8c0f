//! Instantiates the macros exported by jf-utils so that their expansions are part of the analysed program.
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_utils::{deserialize_canonical_bytes, to_bytes, CanonicalBytes};

#[derive(CanonicalSerialize, CanonicalDeserialize)]
pub struct Plain {
    pub a: u64,
}

#[derive(CanonicalSerialize, CanonicalDeserialize)]
pub struct Generic<T: CanonicalSerialize + CanonicalDeserialize> {
    pub a: T,
}

pub trait Both: CanonicalSerialize + CanonicalDeserialize {}
impl<T: CanonicalSerialize + CanonicalDeserialize> Both for T {}

deserialize_canonical_bytes!(Plain);
deserialize_canonical_bytes!(Generic<T: Both>);

pub fn bytes_of<T: CanonicalSerialize>(x: &T) -> Result<Vec<u8>, ark_serialize::SerializationError> {
    to_bytes!(x)
}
