//! Stand-in for `spongefish`: the unit, permutation and duplex sponge traits.
#![no_std]
use ark_ff::{Fp, FpConfig};
use zeroize::Zeroize;

pub trait Unit: Clone + Sized + Zeroize {}
impl Unit for u8 {}
impl<C: FpConfig<N>, const N: usize> Unit for Fp<C, N> {}

pub trait DuplexSpongeInterface<U = u8>: Default + Clone + Zeroize
where
    U: Unit,
{
    fn new(iv: [u8; 32]) -> Self;
    fn absorb_unchecked(&mut self, input: &[U]) -> &mut Self;
    fn squeeze_unchecked(&mut self, output: &mut [U]) -> &mut Self;
    fn ratchet_unchecked(&mut self) -> &mut Self;
}

pub mod duplex_sponge {
    use super::{DuplexSpongeInterface, Unit};
    use zeroize::Zeroize;

    pub trait Permutation: Zeroize + Default + Clone + AsRef<[Self::U]> + AsMut<[Self::U]> {
        type U: Unit;
        const N: usize;
        const R: usize;
        fn new(iv: [u8; 32]) -> Self;
        fn permute(&mut self);
    }

    #[derive(Clone, PartialEq, Eq, Default, Debug)]
    pub struct DuplexSponge<C: Permutation> {
        permutation: C,
        absorb_pos: usize,
        squeeze_pos: usize,
    }
    impl<C: Permutation> Zeroize for DuplexSponge<C> {
        fn zeroize(&mut self) {
            self.permutation.zeroize();
        }
    }
    impl<U: Unit, C: Permutation<U = U>> DuplexSpongeInterface<U> for DuplexSponge<C> {
        fn new(iv: [u8; 32]) -> Self {
            Self { permutation: C::new(iv), absorb_pos: 0, squeeze_pos: C::R }
        }
        fn absorb_unchecked(&mut self, input: &[U]) -> &mut Self {
            for x in input {
                if self.absorb_pos == C::R {
                    self.permutation.permute();
                    self.absorb_pos = 0;
                }
                self.permutation.as_mut()[self.absorb_pos] = x.clone();
                self.absorb_pos += 1;
            }
            self.squeeze_pos = C::R;
            self
        }
        fn squeeze_unchecked(&mut self, output: &mut [U]) -> &mut Self {
            for o in output {
                if self.squeeze_pos == C::R {
                    self.squeeze_pos = 0;
                    self.absorb_pos = 0;
                    self.permutation.permute();
                }
                *o = self.permutation.as_ref()[self.squeeze_pos].clone();
                self.squeeze_pos += 1;
            }
            self
        }
        fn ratchet_unchecked(&mut self) -> &mut Self {
            self.permutation.permute();
            self.squeeze_pos = C::R;
            self
        }
    }
}
