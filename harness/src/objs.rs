//! Type-erased wrappers around the library's generic types.
use crate::toy::*;
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hkdf;
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::*;

pub trait DynHash {
    fn update(&mut self, d: &[u8]);
    fn finish(self: Box<Self>, out: &mut [u8]);
}
struct HashBox<H>(H);
impl<H: HashFunction> DynHash for HashBox<H> {
    fn update(&mut self, d: &[u8]) {
        self.0.update(d)
    }
    fn finish(self: Box<Self>, out: &mut [u8]) {
        self.0.write_digest(out)
    }
}

pub trait DynHmac {
    fn update(&mut self, d: &[u8]);
    fn tag(self: Box<Self>) -> Vec<u8>;
}
struct HmacBox<H>(Hmac<H>);
impl<H: HashFunction> DynHmac for HmacBox<H> {
    fn update(&mut self, d: &[u8]) {
        self.0.update(d)
    }
    fn tag(self: Box<Self>) -> Vec<u8> {
        let tag = self.0.tag();
        // both views of the tag
        if tag.to_vec() != tag.as_ref() { [&tag[..], tag.as_ref()].concat() } else { tag.to_vec() }
    }
}

/// The operations that are generic over a hash function.
pub struct HashOps {
    pub new: fn() -> Box<dyn DynHash>,
    pub sizes: (usize, usize),
    pub one: Option<fn(&[u8]) -> Vec<u8>>,
    pub hmac_new: fn(&[u8]) -> Box<dyn DynHmac>,
    pub hmac_one: Option<fn(&[u8], &[u8]) -> Vec<u8>>,
    pub hmac_verify: fn(&[u8], &[u8], &[u8]) -> bool,
    pub extract: fn(&[u8], &[u8], &mut [u8]),
    pub expand: fn(&[u8], &[u8], &mut [u8]),
}

fn ops<H: HashFunction + 'static>() -> HashOps {
    HashOps {
        new: || Box::new(HashBox(H::default())),
        sizes: (H::DIGEST_SIZE, H::BLOCK_SIZE),
        one: None,
        hmac_new: |k| Box::new(HmacBox(Hmac::<H>::new(k))),
        hmac_one: None,
        hmac_verify: |k, m, t| hmac::verify::<H>(k, m, t),
        extract: |s, i, p| hkdf::extract::<H>(s, i, p),
        expand: |p, i, o| hkdf::expand::<H>(p, i, o),
    }
}

macro_rules! toys {
    ($name:expr, $(($d:expr, $b:expr)),*) => {
        match $name {
            $(concat!("toy:", $d, ":", $b) => Some(ops::<Toy<$d, $b>>()),)*
            _ => None,
        }
    };
}

pub fn hash_ops(name: &str) -> HashOps {
    macro_rules! sha {
        ($t:ty, $one:path, $mac:path) => {
            HashOps {
                one: Some(|d| $one(d).to_vec()),
                hmac_one: Some(|k, d| $mac(k, d).to_vec()),
                ..ops::<$t>()
            }
        };
    }
    match name {
        "sha224" => sha!(Sha224, sha224, hmac::hmac_sha224),
        "sha256" => sha!(Sha256, sha256, hmac::hmac_sha256),
        "sha384" => sha!(Sha384, sha384, hmac::hmac_sha384),
        "sha512" => sha!(Sha512, sha512, hmac::hmac_sha512),
        _ => toys!(
            name, (1, 1), (1, 7), (2, 3), (4, 8), (8, 8), (16, 16), (16, 64), (20, 64), (28, 64), (31, 33),
            (32, 32), (32, 64), (32, 136), (33, 64), (47, 48), (48, 104), (63, 65), (64, 64), (64, 72), (64, 128), (64, 200),
            (64, 256), (64, 257), (48, 300), (32, 1024), (16, 5000)
        )
        .unwrap_or_else(|| panic!("harness: unknown hash {}", name)),
    }
}

pub trait DynBlock: MaybeSync {
    fn permute(&self, b: &[u8; 16]) -> [u8; 16];
}
pub trait DynAead: MaybeSync {
    fn seal(&self, input: &[u8], nonce: &[u8], aad: &[u8], out: &mut [u8]) -> [u8; 16];
    fn open(&self, input: &[u8], nonce: &[u8], aad: &[u8], tag: &[u8], out: &mut [u8]) -> bool;
}

#[cfg(feature = "threads")]
pub trait MaybeSync: Sync {}
#[cfg(feature = "threads")]
impl<T: Sync> MaybeSync for T {}
#[cfg(not(feature = "threads"))]
pub trait MaybeSync {}
#[cfg(not(feature = "threads"))]
impl<T> MaybeSync for T {}

struct BlockBox<E>(E);
impl<E: BlockCipher + MaybeSync> DynBlock for BlockBox<E>
where
    BlockBox<E>: MaybeSync,
{
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        self.0.permute(b)
    }
}
struct AeadBox<A>(A);
impl<A: AeadCipher> DynAead for AeadBox<A>
where
    AeadBox<A>: MaybeSync,
{
    fn seal(&self, input: &[u8], nonce: &[u8], aad: &[u8], out: &mut [u8]) -> [u8; 16] {
        self.0.encrypt(input, nonce, aad, out)
    }
    fn open(&self, input: &[u8], nonce: &[u8], aad: &[u8], tag: &[u8], out: &mut [u8]) -> bool {
        self.0.decrypt(input, nonce, aad, tag, out)
    }
}

pub fn new_block(alg: &str, key: &[u8]) -> Box<dyn DynBlock> {
    match alg {
        "aes128" => Box::new(BlockBox(Aes128::new(key))),
        "aes192" => Box::new(BlockBox(Aes192::new(key))),
        "aes256" => Box::new(BlockBox(Aes256::new(key))),
        "toyid" => Box::new(BlockBox(ToyId::new(key))),
        "toyxor" => Box::new(BlockBox(ToyXor::new(key))),
        "toymix" => Box::new(BlockBox(ToyMix::new(key))),
        _ => panic!("harness: unknown block cipher {}", alg),
    }
}

pub fn new_aead(alg: &str, key: &[u8]) -> Box<dyn DynAead> {
    match alg {
        "gcm-aes128" => Box::new(AeadBox(Gcm::<Aes128>::new(key))),
        "gcm-aes192" => Box::new(AeadBox(Gcm::<Aes192>::new(key))),
        "gcm-aes256" => Box::new(AeadBox(Gcm::<Aes256>::new(key))),
        "gcm-toyid" => Box::new(AeadBox(Gcm::<ToyId>::new(key))),
        "gcm-toyxor" => Box::new(AeadBox(Gcm::<ToyXor>::new(key))),
        "gcm-toymix" => Box::new(AeadBox(Gcm::<ToyMix>::new(key))),
        "chachapoly" => Box::new(AeadBox(ChaCha20Poly1305::new(key))),
        _ => panic!("harness: unknown aead {}", alg),
    }
}

pub enum Obj {
    Hash(Option<Box<dyn DynHash>>),
    Hmac(Option<Box<dyn DynHmac>>),
    Stream(Stream),
    Block(Box<dyn DynBlock>),
    Aead(Box<dyn DynAead>),
}
