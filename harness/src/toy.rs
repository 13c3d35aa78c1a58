//! User-supplied primitives: deliberately weak, but simple enough to be specified exactly in
//! spec/Mac.tla (ToyHash) and spec/Ciphers.tla (ToyXor, ToyMix).
use crypto_pure::aes::BlockCipher;
use crypto_pure::sha2::HashFunction;

pub struct Toy<const D: usize, const B: usize> {
    lanes: [u32; 4],
    len: u32,
}

impl<const D: usize, const B: usize> Default for Toy<D, B> {
    fn default() -> Self {
        Self {
            lanes: [20, 33, 46, 59],
            len: 0,
        }
    }
}

impl<const D: usize, const B: usize> HashFunction for Toy<D, B> {
    const DIGEST_SIZE: usize = D;
    const BLOCK_SIZE: usize = B;

    fn update(&mut self, input: &[u8]) {
        for &x in input {
            for (l, lane) in self.lanes.iter_mut().enumerate() {
                *lane = (*lane * 31 + u32::from(x) + l as u32 + 1) % 65521;
            }
            self.len = (self.len + 1) % 65521;
        }
    }

    fn write_digest(self, output: &mut [u8]) {
        assert_eq!(D, output.len());
        for (i, b) in output.iter_mut().enumerate() {
            let lane = (self.lanes[i % 4] + self.len) % 65521;
            *b = (lane * (i as u32 + 3) / 16) as u8;
        }
    }
}

pub struct ToyId;

impl BlockCipher for ToyId {
    fn new(_key: &[u8]) -> Self {
        ToyId
    }

    fn permute(&self, input: &[u8; 16]) -> [u8; 16] {
        *input
    }
}

fn cyclic(key: &[u8], i: usize) -> u8 {
    if key.is_empty() {
        90
    } else {
        key[i % key.len()]
    }
}

pub struct ToyXor([u8; 16]);

impl BlockCipher for ToyXor {
    fn new(key: &[u8]) -> Self {
        let mut k = [0; 16];
        for (i, b) in k.iter_mut().enumerate() {
            *b = cyclic(key, i);
        }
        ToyXor(k)
    }

    fn permute(&self, input: &[u8; 16]) -> [u8; 16] {
        let mut o = *input;
        for (x, k) in o.iter_mut().zip(&self.0) {
            *x ^= k;
        }
        o
    }
}

pub struct ToyMix(Vec<u8>);

impl BlockCipher for ToyMix {
    fn new(key: &[u8]) -> Self {
        ToyMix(key.to_vec())
    }

    fn permute(&self, input: &[u8; 16]) -> [u8; 16] {
        let mut s = *input;
        for i in 0..48usize {
            let j = i % 16;
            let p = (j + 15) % 16;
            let q = (j + 5) % 16;
            let left = s[j]
                .wrapping_add(s[p].wrapping_mul(3))
                .wrapping_add(cyclic(&self.0, i));
            let right = s[q].wrapping_mul(5).wrapping_add(i as u8 + 1);
            s[j] = left ^ right;
        }
        s
    }
}
