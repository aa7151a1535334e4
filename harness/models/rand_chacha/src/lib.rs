//! Stand-in for ChaCha: word `i` of the stream of a seed is an arbitrary function of (seed, i).
pub use rand_core;
use rand_core::block::{BlockRng, BlockRngCore};
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};

extern "C" {
    fn sym_prg_u32(seed: *const u8, index: u64) -> u32;
    fn sym_pick(i: u64) -> u64;
}
fn word(seed: &[u8; 32], i: u64) -> u32 {
    if getrandom::control::stream_concrete() {
        let mut h = 0x06_0000_0000u64 ^ i;
        for b in seed {
            h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        return unsafe { sym_pick(h) } as u32;
    }
    unsafe { sym_prg_u32(seed.as_ptr(), i) }
}

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
#[repr(transparent)]
pub struct Block([u32; 16]);
impl AsRef<[u32]> for Block {
    fn as_ref(&self) -> &[u32] {
        &self.0
    }
}
impl AsMut<[u32]> for Block {
    fn as_mut(&mut self) -> &mut [u32] {
        &mut self.0
    }
}

macro_rules! chacha {
    ($core:ident, $rng:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $core {
            seed: [u8; 32],
            next: u64,
        }
        impl BlockRngCore for $core {
            type Item = u32;
            type Results = Block;
            fn generate(&mut self, r: &mut Block) {
                for x in r.0.iter_mut() {
                    *x = word(&self.seed, self.next);
                    self.next += 1;
                }
            }
        }
        impl SeedableRng for $core {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self {
                $core { seed, next: 0 }
            }
        }
        impl CryptoRng for $core {}

        /// drawn word by word, not block by block, so that only what is used is asked for
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $rng($core);
        impl SeedableRng for $rng {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self {
                $rng($core { seed, next: 0 })
            }
        }
        impl $rng {
            pub fn get_seed(&self) -> [u8; 32] {
                self.0.seed
            }
            pub fn get_word_pos(&self) -> u128 {
                self.0.next as u128
            }
            pub fn set_word_pos(&mut self, p: u128) {
                self.0.next = p as u64
            }
        }
        impl RngCore for $rng {
            fn next_u32(&mut self) -> u32 {
                let i = self.0.next;
                self.0.next += 1;
                word(&self.0.seed, i)
            }
            fn next_u64(&mut self) -> u64 {
                let lo = self.next_u32() as u64;
                let hi = self.next_u32() as u64;
                hi << 32 | lo
            }
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                for c in dest.chunks_mut(4) {
                    let w = self.next_u32().to_le_bytes();
                    c.copy_from_slice(&w[..c.len()]);
                }
            }
            fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
                self.fill_bytes(dest);
                Ok(())
            }
        }
        impl CryptoRng for $rng {}
    };
}
chacha!(ChaCha20Core, ChaCha20Rng);
chacha!(ChaCha12Core, ChaCha12Rng);
chacha!(ChaCha8Core, ChaCha8Rng);
pub type ChaChaRng = ChaCha20Rng;
pub type ChaChaCore = ChaCha20Core;
#[doc(hidden)]
pub type Unused = BlockRng<ChaCha20Core>;
