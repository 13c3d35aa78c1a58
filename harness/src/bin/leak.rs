//! Executes a plan like the main harness, with every call between two stores to a known address, and
//! everything it works on at fixed addresses.  Run under a tool that reports each instruction and each
//! memory access, it shows which of them happen during a call; `leak hash` reads such a report and
//! prints one line per call: how many events, and their digest.
//!
//!     leak run PLAN OUT
//!     leak hash mem|blocks < report
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hkdf;
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::*;
use crypto_pure::{curve25519, ed25519, util};
use std::io::{BufRead, Write};

/// A page that holds a return instruction: calling it is the mark for tools that report blocks of
/// instructions only; a store behind it, for those that report memory accesses.
const PAGE: usize = 0x6fff_0000_0000;
const MARK: usize = PAGE + 8;
const SIZE: usize = 8192;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

#[inline(always)]
fn mark() {
    std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
    unsafe {
        (MARK as *mut u64).write_volatile(1);
        let f: extern "C" fn() = std::mem::transmute(PAGE);
        f();
    }
    std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
}

#[allow(clippy::large_enum_variant)]
enum Slot {
    None,
    B1(Aes128),
    B2(Aes192),
    B3(Aes256),
    G1(Gcm<Aes128>),
    G2(Gcm<Aes192>),
    G3(Gcm<Aes256>),
    Cp(ChaCha20Poly1305),
    St(Stream),
    H1(Sha224),
    H2(Sha256),
    H3(Sha384),
    H4(Sha512),
    M1(Hmac<Sha224>),
    M2(Hmac<Sha256>),
    M3(Hmac<Sha384>),
    M4(Hmac<Sha512>),
}
use Slot::*;

/// Arguments and results, always at the same addresses.
struct Place {
    slot: Slot,
    arg: [[u8; SIZE]; 4],
    out: [u8; SIZE],
}
static mut PLACE: Place = Place { slot: None, arg: [[0; SIZE]; 4], out: [0; SIZE] };

fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).expect("bad hex") as u8;
    if s == "-" {
        return Vec::new();
    }
    s.as_bytes().chunks(2).map(|p| 16 * d(p[0]) + d(p[1])).collect()
}

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// One call between two marks.
macro_rules! m {
    ($e:expr) => {{
        mark();
        let x = $e;
        mark();
        x
    }};
}

macro_rules! by_hash {
    ($h:expr, $f:ident ( $($a:expr),* )) => {
        match $h {
            "sha224" => m!(hmac::$f::<Sha224>($($a),*)),
            "sha256" => m!(hmac::$f::<Sha256>($($a),*)),
            "sha384" => m!(hmac::$f::<Sha384>($($a),*)),
            "sha512" => m!(hmac::$f::<Sha512>($($a),*)),
            _ => panic!("hash"),
        }
    };
}
macro_rules! by_hkdf {
    ($h:expr, $f:ident ( $($a:expr),* )) => {
        match $h {
            "sha224" => m!(hkdf::$f::<Sha224>($($a),*)),
            "sha256" => m!(hkdf::$f::<Sha256>($($a),*)),
            "sha384" => m!(hkdf::$f::<Sha384>($($a),*)),
            "sha512" => m!(hkdf::$f::<Sha512>($($a),*)),
            _ => panic!("hash"),
        }
    };
}
macro_rules! aead {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            G1($x) => m!($e),
            G2($x) => m!($e),
            G3($x) => m!($e),
            Cp($x) => m!($e),
            _ => panic!("aead"),
        }
    };
}
macro_rules! one {
    ($out:expr, $e:expr) => {{
        let x = m!($e);
        $out[..x.as_ref().len()].copy_from_slice(x.as_ref());
        x.as_ref().len()
    }};
}

/// Makes the call with arguments of lengths l; returns the length of the result and a verdict.
#[inline(never)]
fn call(p: &mut Place, t: &[&str], l: &[usize; 4], n: usize) -> (usize, Option<bool>) {
    let [a0, a1, a2, a3] = &p.arg;
    let (a, b, c, d) = (&a0[..l[0]], &a1[..l[1]], &a2[..l[2]], &a3[..l[3]]);
    let out = &mut p.out;
    let s = &mut p.slot;
    match t[0] {
        "hash_one" => {
            let k = match t[1] {
                "sha224" => one!(out, sha224(a)),
                "sha256" => one!(out, sha256(a)),
                "sha384" => one!(out, sha384(a)),
                "sha512" => one!(out, sha512(a)),
                _ => panic!("hash"),
            };
            (k, Option::None)
        }
        "hmac_one" => {
            let k = match t[1] {
                "sha224" => one!(out, hmac::hmac_sha224(a, b)),
                "sha256" => one!(out, hmac::hmac_sha256(a, b)),
                "sha384" => one!(out, hmac::hmac_sha384(a, b)),
                "sha512" => one!(out, hmac::hmac_sha512(a, b)),
                _ => panic!("hash"),
            };
            (k, Option::None)
        }
        "hmac_verify" => (0, Some(by_hash!(t[1], verify(a, b, c)))),
        "hkdf_ext" => {
            by_hkdf!(t[1], extract(a, b, &mut out[..n]));
            (n, Option::None)
        }
        "hkdf_exp" => {
            by_hkdf!(t[1], expand(a, b, &mut out[..n]));
            (n, Option::None)
        }
        "hash_new" => {
            match t[2] {
                "sha224" => m!(*s = H1(Sha224::default())),
                "sha256" => m!(*s = H2(Sha256::default())),
                "sha384" => m!(*s = H3(Sha384::default())),
                "sha512" => m!(*s = H4(Sha512::default())),
                _ => panic!("hash"),
            }
            (0, Option::None)
        }
        "hash_up" => {
            match s {
                H1(x) => m!(x.update(a)),
                H2(x) => m!(x.update(a)),
                H3(x) => m!(x.update(a)),
                H4(x) => m!(x.update(a)),
                _ => panic!("hasher"),
            }
            (0, Option::None)
        }
        "hash_fin" => {
            match std::mem::replace(s, None) {
                H1(x) => m!(x.write_digest(&mut out[..n])),
                H2(x) => m!(x.write_digest(&mut out[..n])),
                H3(x) => m!(x.write_digest(&mut out[..n])),
                H4(x) => m!(x.write_digest(&mut out[..n])),
                _ => panic!("hasher"),
            }
            (n, Option::None)
        }
        "hmac_new" => {
            match t[2] {
                "sha224" => m!(*s = M1(Hmac::new(a))),
                "sha256" => m!(*s = M2(Hmac::new(a))),
                "sha384" => m!(*s = M3(Hmac::new(a))),
                "sha512" => m!(*s = M4(Hmac::new(a))),
                _ => panic!("hash"),
            }
            (0, Option::None)
        }
        "hmac_up" => {
            match s {
                M1(x) => m!(x.update(a)),
                M2(x) => m!(x.update(a)),
                M3(x) => m!(x.update(a)),
                M4(x) => m!(x.update(a)),
                _ => panic!("MAC"),
            }
            (0, Option::None)
        }
        "hmac_tag" => {
            let k = match std::mem::replace(s, None) {
                M1(x) => one!(out, x.tag()),
                M2(x) => one!(out, x.tag()),
                M3(x) => one!(out, x.tag()),
                M4(x) => one!(out, x.tag()),
                _ => panic!("MAC"),
            };
            (k, Option::None)
        }
        "blk_new" => {
            match t[2] {
                "aes128" => m!(*s = B1(Aes128::new(a))),
                "aes192" => m!(*s = B2(Aes192::new(a))),
                "aes256" => m!(*s = B3(Aes256::new(a))),
                _ => panic!("cipher"),
            }
            (0, Option::None)
        }
        "blk" => {
            let mut x = [0; 16];
            x.copy_from_slice(a);
            let y = match s {
                B1(c) => m!(c.permute(&x)),
                B2(c) => m!(c.permute(&x)),
                B3(c) => m!(c.permute(&x)),
                _ => panic!("cipher"),
            };
            out[..16].copy_from_slice(&y);
            (16, Option::None)
        }
        "aead_new" => {
            match t[2] {
                "gcm-aes128" => m!(*s = G1(Gcm::new(a))),
                "gcm-aes192" => m!(*s = G2(Gcm::new(a))),
                "gcm-aes256" => m!(*s = G3(Gcm::new(a))),
                "chachapoly" => m!(*s = Cp(ChaCha20Poly1305::new(a))),
                _ => panic!("aead"),
            }
            (0, Option::None)
        }
        "aead_seal" => {
            // nonce, associated data, message
            let y: [u8; 16] = aead!(s, x => x.encrypt(c, a, b, &mut out[..n]));
            out[n..n + 16].copy_from_slice(&y);
            (n + 16, Option::None)
        }
        "aead_open" => {
            let v = aead!(s, x => x.decrypt(c, a, b, d, &mut out[..n]));
            (n, Some(v))
        }
        "st_new" => {
            m!(*s = St(Stream::new(a, b)));
            (0, Option::None)
        }
        "st_enc" | "st_dec" => {
            let St(x) = s else { panic!("stream") };
            if t[0] == "st_enc" {
                m!(x.encrypt(a, &mut out[..n]));
            } else {
                m!(x.decrypt(a, &mut out[..n]));
            }
            (n, Option::None)
        }
        "st_take" => {
            let St(x) = s else { panic!("stream") };
            m!(for (o, k) in out[..n].iter_mut().zip(&mut *x) {
                *o = k;
            });
            (n, Option::None)
        }
        "x_pk" => (one!(out, curve25519::gen_pk(a)), Option::None),
        "x_dh" => (one!(out, curve25519::dh(b, a)), Option::None),
        "ed_pk" => (one!(out, ed25519::gen_pk(a)), Option::None),
        "ed_sign" => (one!(out, ed25519::sign(b, a)), Option::None),
        "v16" => {
            let mut x = [0; 16];
            x.copy_from_slice(a);
            (0, Some(m!(util::verify_16(&x, b))))
        }
        _ => panic!("operation {}", t[0]),
    }
}

/// where the byte arguments of an operation are, and the number if there is one
fn shape(op: &str) -> (&'static [usize], usize) {
    match op {
        "hash_one" | "hash_up" | "hmac_up" | "blk" => (&[2], 0),
        "hmac_one" => (&[2, 3], 0),
        "hmac_verify" => (&[2, 3, 4], 0),
        "hkdf_ext" | "hkdf_exp" => (&[2, 3], 4),
        "hash_new" | "hmac_tag" => (&[], 0),
        "hash_fin" | "st_take" => (&[], 2),
        "hmac_new" | "blk_new" | "aead_new" => (&[3], 0),
        "st_new" => (&[2, 3], 0),
        "st_enc" | "st_dec" => (&[2], 3),
        "aead_seal" => (&[2, 3, 4], 5),
        "aead_open" => (&[2, 3, 4, 5], 6),
        "x_pk" | "ed_pk" => (&[1], 0),
        "x_dh" | "ed_sign" | "v16" => (&[1, 2], 0),
        _ => panic!("operation {}", op),
    }
}

fn run(plan: &str, to: &str) {
    let p = unsafe { mmap(PAGE as *mut u8, 4096, 7, 0x32, -1, 0) };
    assert_eq!(p as usize, PAGE);
    unsafe { p.write(0xc3) };
    let text = std::fs::read_to_string(plan).unwrap();
    let place = unsafe { &mut *std::ptr::addr_of_mut!(PLACE) };
    let mut replies = String::new();
    for line in text.lines() {
        let t: Vec<&str> = line.split(' ').collect();
        if t[0] == "S" {
            continue;
        }
        let (args, num) = shape(t[0]);
        let n: usize = if num > 0 { t[num].parse().unwrap() } else { 0 };
        let mut l = [0; 4];
        for (k, &i) in args.iter().enumerate() {
            let v = unhex(t[i]);
            l[k] = v.len();
            place.arg[k] = [0; SIZE];
            place.arg[k][..v.len()].copy_from_slice(&v);
        }
        place.out = [if t[0] == "aead_open" { t[7].parse().unwrap() } else { 0xa5 }; SIZE];
        let (k, v) = call(place, &t, &l, n);
        let out = &place.out[..k];
        replies += &match (t[0], v) {
            ("aead_seal", _) => format!("ok {} {}", hex(&out[..n]), hex(&out[n..])),
            ("aead_open", Some(v)) => format!("ok {} {}", if v { "T" } else { "F" }, hex(out)),
            (_, Some(v)) => format!("ok {}", if v { "T" } else { "F" }),
            _ => format!("ok {}", hex(out)),
        };
        replies.push('\n');
    }
    std::fs::write(to, replies).unwrap();
}

/// Digests of what lies between marks: lines "I  addr,size", " L addr,size", " S ...", " M ...", or
/// only "SB addr".
fn digest(kind: &str) {
    let stdin = std::io::stdin();
    let mut r = std::io::BufReader::with_capacity(1 << 20, stdin.lock());
    let mark = if kind == "mem" { format!(" S {:x},", MARK) } else { format!("SB {:x}\n", PAGE) };
    let (mut inside, mut h, mut i, mut n) = (false, 0u64, 0u64, 0u64);
    let mut line = Vec::new();
    let out = std::io::stdout();
    let mut out = out.lock();
    loop {
        line.clear();
        if r.read_until(b'\n', &mut line).unwrap() == 0 {
            break;
        }
        if line.starts_with(mark.as_bytes()) {
            if inside {
                writeln!(out, "{} {:016x}{:016x}", n, h, i).unwrap();
            }
            inside = !inside;
            h = 0xcbf2_9ce4_8422_2325;
            i = 0x9e37_79b9_7f4a_7c15;
            n = 0;
            continue;
        }
        if inside && matches!(line[..2], [b'I', b' '] | [b' ', b'L'] | [b' ', b'S'] | [b' ', b'M'] | [b'S', b'B']) {
            n += 1;
            for &b in &line {
                h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
                i = (i.rotate_left(7) ^ u64::from(b)).wrapping_mul(0x9fb2_1c65_1e98_df25);
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], &a[3]),
        Some("hash") if a.len() > 2 => digest(&a[2]),
        _ => std::process::exit(4),
    }
}
