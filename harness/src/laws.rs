//! Laws checked in bulk: each instance gives two values the specification says are equal; what is
//! reported is a digest of all left-hand and of all right-hand sides.
use crate::objs::*;
use crypto_pure::chacha20::Stream;
use crypto_pure::{curve25519, ed25519};

pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15, seed.wrapping_mul(0xbf58_476d_1ce4_e5b9) | 1);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut a = self.0;
        let b = self.1;
        self.0 = b;
        a ^= a << 23;
        a ^= a >> 17;
        a ^= b ^ (b >> 26);
        self.1 = a;
        a.wrapping_add(b)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        // mostly uniform, sometimes runs of extreme bytes
        match self.below(8) {
            0 => {
                let fill = [0, 0xff, 0x80, 0x7f][self.below(4)];
                let mut v = vec![fill; n];
                if n > 0 {
                    for _ in 0..self.below(4) {
                        let i = self.below(n);
                        v[i] = self.next() as u8;
                    }
                }
                v
            }
            _ => (0..n).map(|_| self.next() as u8).collect(),
        }
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let mut a = [0; 32];
        a.copy_from_slice(&self.bytes(32));
        a
    }
}

/// Order-dependent digest of a list of byte strings.
struct Acc(u64, u64);
impl Acc {
    fn new() -> Self {
        Acc(0xcbf2_9ce4_8422_2325, 0x8422_2325_cbf2_9ce4)
    }
    fn add(&mut self, b: &[u8]) {
        for &x in b.iter().chain(&[b.len() as u8]) {
            self.0 = (self.0 ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01b3);
            self.1 = (self.1.rotate_left(5) ^ u64::from(x)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
    }
    fn hex(&self) -> String {
        format!("{:016x}{:016x}", self.0, self.1)
    }
}

pub fn law(name: &str, seed: u64, count: usize) -> String {
    let mut rng = Rng::new(seed);
    let (mut l, mut r) = (Acc::new(), Acc::new());
    let mut first = String::from("-");
    for i in 0..count {
        let (a, b, inputs) = instance(name, &mut rng);
        l.add(&a);
        r.add(&b);
        if a != b && first == "-" {
            first = format!("{}:{}", i, inputs);
        }
    }
    format!("ok {} {} {}", l.hex(), r.hex(), first)
}

fn split(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = n;
    while left > 0 {
        let m = match rng.below(4) {
            0 => rng.below(3),
            1 => [15, 16, 17, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129][rng.below(13)],
            _ => rng.below(left + 1),
        }
        .min(left);
        v.push(m);
        left -= m;
    }
    v
}

const SHAS: [&str; 4] = ["sha224", "sha256", "sha384", "sha512"];
const AEADS: [(&str, usize); 4] = [("gcm-aes128", 16), ("gcm-aes192", 24), ("gcm-aes256", 32), ("chachapoly", 32)];

fn instance(name: &str, rng: &mut Rng) -> (Vec<u8>, Vec<u8>, String) {
    let hx = |v: &[u8]| crate::hex(v);
    match name {
        // both parties derive the same secret
        "dh" => {
            let (a, b) = (rng.arr32(), rng.arr32());
            let x = curve25519::dh(&curve25519::gen_pk(&a), &b);
            let y = curve25519::dh(&curve25519::gen_pk(&b), &a);
            (x.to_vec(), y.to_vec(), format!("{},{}", hx(&a), hx(&b)))
        }
        // agreement from an arbitrary starting point
        "dh3" => {
            let (a, b, u) = (rng.arr32(), rng.arr32(), rng.arr32());
            let x = curve25519::dh(&curve25519::dh(&u, &a), &b);
            let y = curve25519::dh(&curve25519::dh(&u, &b), &a);
            (x.to_vec(), y.to_vec(), format!("{},{},{}", hx(&a), hx(&b), hx(&u)))
        }
        // bits fixed by RFC 7748 do not matter
        "clamp" => {
            let (a, u) = (rng.arr32(), rng.arr32());
            let (mut a2, mut u2) = (a, u);
            a2[0] ^= rng.below(8) as u8;
            a2[31] ^= (rng.below(4) as u8) << 6;
            u2[31] ^= (rng.below(2) as u8) << 7;
            let x = curve25519::dh(&u, &a);
            let y = curve25519::dh(&u2, &a2);
            (x.to_vec(), y.to_vec(), format!("{},{}", hx(&a), hx(&u)))
        }
        // honest signatures verify
        "sig" => {
            let sk = rng.arr32();
            let n = rng.below(200);
            let m = rng.bytes(n);
            let s = ed25519::sign(&m, &sk);
            let v = ed25519::verify(&m, &s, &ed25519::gen_pk(&sk));
            (vec![1], vec![u8::from(v)], format!("{},{}", hx(&sk), hx(&m)))
        }
        // altered ones do not
        "sigbad" => {
            let sk = rng.arr32();
            let n = 1 + rng.below(100);
            let m = rng.bytes(n);
            let s = ed25519::sign(&m, &sk);
            let pk = ed25519::gen_pk(&sk);
            let (mut m2, mut s2, mut pk2) = (m.clone(), s, pk);
            let bit = 1u8 << rng.below(8);
            match rng.below(4) {
                0 => m2[rng.below(n)] ^= bit,
                1 => pk2[rng.below(32)] ^= bit,
                _ => s2[rng.below(64)] ^= bit,
            }
            let v = ed25519::verify(&m2, &s2, &pk2);
            (vec![0], vec![u8::from(v)], format!("{},{},{}", hx(&pk2), hx(&m2), hx(&s2)))
        }
        // pieces do not matter
        "chunk" => {
            let h = hash_ops(SHAS[rng.below(4)]);
            let n = rng.below(700);
            let m = rng.bytes(n);
            let mut s = (h.new)();
            let mut at = 0;
            for k in split(rng, n) {
                s.update(&m[at..at + k]);
                at += k;
            }
            let mut d = vec![0; h.sizes.0];
            s.finish(&mut d);
            (h.one.unwrap()(&m), d, hx(&m))
        }
        "macchunk" => {
            let h = hash_ops(SHAS[rng.below(4)]);
            let (n, k) = (rng.below(500), rng.below(300));
            let (m, key) = (rng.bytes(n), rng.bytes(k));
            let mut s = (h.hmac_new)(&key);
            let mut at = 0;
            for k in split(rng, n) {
                s.update(&m[at..at + k]);
                at += k;
            }
            (h.hmac_one.unwrap()(&key, &m), s.tag(), format!("{},{}", hx(&key), hx(&m)))
        }
        // verification accepts the tag and nothing near it
        "macverify" => {
            let h = hash_ops(SHAS[rng.below(4)]);
            let (n, k) = (rng.below(100), rng.below(200));
            let (m, key) = (rng.bytes(n), rng.bytes(k));
            let tag = h.hmac_one.unwrap()(&key, &m);
            let mut bad = tag.clone();
            match rng.below(4) {
                0 => bad.truncate(rng.below(tag.len())),
                1 => bad.push(rng.next() as u8),
                _ => {
                    // several changes, possibly cancelling in a sum or an exclusive-or
                    let i = rng.below(tag.len());
                    let x = 1 + rng.below(255) as u8;
                    bad[i] ^= x;
                    let j = rng.below(tag.len());
                    if j != i && rng.below(2) == 0 {
                        bad[j] ^= x;
                    }
                }
            }
            (
                vec![1, 0],
                vec![u8::from((h.hmac_verify)(&key, &m, &tag)), u8::from((h.hmac_verify)(&key, &m, &bad))],
                format!("{},{}", hx(&key), hx(&m)),
            )
        }
        // a shorter expansion is a prefix
        "hkdfprefix" => {
            let h = hash_ops(SHAS[rng.below(4)]);
            let (k, i) = (h.sizes.0 + rng.below(70), rng.below(80));
            let (prk, info) = (rng.bytes(k), rng.bytes(i));
            let n = rng.below(400);
            let m = rng.below(n + 1);
            let (mut x, mut y) = (vec![0; n], vec![0; m]);
            (h.expand)(&prk, &info, &mut x);
            (h.expand)(&prk, &info, &mut y);
            x.truncate(m);
            (x, y, format!("{},{}", hx(&prk), hx(&info)))
        }
        // any two ways of consuming a stream agree
        "stream" => {
            let (k, nn) = (rng.arr32(), rng.bytes(12));
            let n = rng.below(600);
            let z = vec![0; n];
            let whole: Vec<u8> = Stream::new(&k, &nn).take(n).collect();
            let mut s = Stream::new(&k, &nn);
            let mut got = Vec::new();
            for m in split(rng, n) {
                let at = got.len();
                match rng.below(3) {
                    0 => got.extend(s.by_ref().take(m)),
                    1 => {
                        got.resize(at + m, 0x33);
                        s.encrypt(&z[..m], &mut got[at..]);
                    }
                    _ => {
                        got.resize(at + m, 0x44);
                        s.decrypt(&z[..m], &mut got[at..]);
                    }
                }
            }
            (whole, got, format!("{},{}", hx(&k), hx(&nn)))
        }
        // sealing and opening restore the message; an altered message is rejected without output
        "aead" => {
            let (alg, kl) = AEADS[rng.below(4)];
            let key = rng.bytes(kl);
            let c = new_aead(alg, &key);
            let (n, a) = (rng.below(300), rng.below(60));
            let (m, aad, nonce) = (rng.bytes(n), rng.bytes(a), rng.bytes(12));
            let mut ct = vec![0; n];
            let tag = c.seal(&m, &nonce, &aad, &mut ct);
            let mut back = vec![0x77; n];
            let ok = c.open(&ct, &nonce, &aad, &tag, &mut back);
            back.push(u8::from(ok));
            let (mut ct2, mut aad2, mut nonce2, mut tag2) = (ct, aad, nonce, tag.to_vec());
            let bit = 1u8 << rng.below(8);
            match rng.below(5) {
                0 if n > 0 => ct2[rng.below(n)] ^= bit,
                1 if a > 0 => aad2[rng.below(a)] ^= bit,
                2 => nonce2[rng.below(12)] ^= bit,
                3 => tag2.truncate(rng.below(16)),
                _ => tag2[rng.below(16)] ^= bit,
            }
            let mut untouched = vec![0x66; n];
            let bad = c.open(&ct2, &nonce2, &aad2, &tag2, &mut untouched);
            back.extend_from_slice(&untouched);
            back.push(u8::from(bad));
            let mut want = m;
            want.push(1);
            want.extend(std::iter::repeat(0x66).take(n));
            want.push(0);
            (want, back, format!("{},{}", alg, hx(&key)))
        }
        x => panic!("harness: unknown law {}", x),
    }
}

/// Iterated calls.  spec/CryptoPure.tla defines the same iterations (Chain).
pub fn chain(name: &str, seed: &[u8], count: usize) -> Vec<u8> {
    let mut s = seed.to_vec();
    for _ in 0..count {
        s = step(name, &s);
    }
    s
}

fn step(name: &str, s: &[u8]) -> Vec<u8> {
    match name {
        // block <- E(key, block), key fixed
        "aes128" | "aes192" | "aes256" => {
            let k = s.len() - 16;
            let mut b = [0; 16];
            b.copy_from_slice(&s[k..]);
            let c = new_block(name, &s[..k]).permute(&b);
            // the key changes with the block
            let mut o: Vec<u8> = s[..k].to_vec();
            for i in 0..k {
                o[i] ^= c[i % 16].wrapping_add((i / 16) as u8);
            }
            o.extend_from_slice(&c);
            o
        }
        "x25519" => {
            // <<k, u>> <- <<X25519(k, u), k>>
            let mut o = curve25519::dh(&s[32..], &s[..32]).to_vec();
            o.extend_from_slice(&s[..32]);
            o
        }
        "xpk" => curve25519::gen_pk(s).to_vec(),
        "edpk" => ed25519::gen_pk(s).to_vec(),
        // the message is the previous signature
        "edsign" => {
            let mut o = s[..32].to_vec();
            o.extend_from_slice(&ed25519::sign(&s[32..], &s[..32]));
            o
        }
        "sha224" | "sha256" | "sha384" | "sha512" => {
            // previous two digests, and the length varies with the digest
            let h = hash_ops(name);
            let d = h.sizes.0;
            let n = s.len().min(d + usize::from(s[0]) + 1);
            let mut o = h.one.unwrap()(&s[..n]);
            o.extend_from_slice(&s[..s.len() - d]);
            o
        }
        "hmac-sha224" | "hmac-sha256" | "hmac-sha384" | "hmac-sha512" => {
            let h = hash_ops(&name[5..]);
            let d = h.sizes.0;
            let k = usize::from(s[0]);
            let n = usize::from(s[1]);
            let mut o = h.hmac_one.unwrap()(&s[..k], &s[256..256 + n]);
            o.extend_from_slice(&s[..s.len() - d]);
            o
        }
        // key, nonce and message lengths from the state
        "chachapoly" | "gcm-aes128" | "gcm-aes192" | "gcm-aes256" => {
            let kl = AEADS.iter().find(|x| x.0 == name).unwrap().1;
            let c = new_aead(name, &s[..kl]);
            let (a, m) = (usize::from(s[44] % 64), usize::from(s[45]));
            let (aad, pt) = (&s[46..46 + a], &s[110..110 + m]);
            let mut ct = vec![0; m];
            let tag = c.seal(pt, &s[32..44], aad, &mut ct);
            let mut o = tag.to_vec();
            o.extend_from_slice(&ct);
            o.extend_from_slice(s);
            o.truncate(s.len());
            o
        }
        "stream" => {
            let m = usize::from(s[44]) + 1;
            let mut o: Vec<u8> = Stream::new(&s[..32], &s[32..44]).take(m).collect();
            o.extend_from_slice(s);
            o.truncate(s.len());
            o
        }
        x => panic!("harness: unknown chain {}", x),
    }
}
