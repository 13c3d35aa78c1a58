//! Executes plans: sessions of calls on the real library, one reply per call.
//!
//!     harness PLAN OUT [seconds a session may take]
//!
//! The harness knows nothing about what replies are right; that is decided by spec/Trace.tla.
mod big;
mod jump;
mod laws;
mod mem;
mod objs;
mod toy;

use crypto_pure::chacha20::Stream;
use crypto_pure::{curve25519, ed25519, util};
use mem::{Data, Out};
use objs::*;
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).expect("harness: bad hex") as u8;
    s.as_bytes().chunks(2).map(|p| 16 * d(p[0]) + d(p[1])).collect()
}

/// "-" is empty; "hex*n" is the first n bytes of the repetition of hex
pub fn data(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    match s.split_once('*') {
        None => unhex(s),
        Some((p, n)) => {
            let p = unhex(p);
            let n: usize = n.parse().unwrap();
            if p.iter().all(|&b| b == 0) {
                return vec![0; n];
            }
            let mut v = Vec::with_capacity(n + p.len());
            while v.len() < n {
                if v.len() < 1 << 16 {
                    v.extend_from_slice(&p);
                } else {
                    // whole number of periods so far
                    let l = (v.len() / p.len() * p.len()).min(n - v.len());
                    v.extend_from_within(..l);
                }
            }
            v.truncate(n);
            v
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(char::from_digit(u32::from(x >> 4), 16).unwrap());
        s.push(char::from_digit(u32::from(x & 15), 16).unwrap());
    }
    s
}

type Heap = HashMap<u32, Obj>;

struct Env<'a> {
    own: Heap,
    turn: usize,
    shared: Option<&'a Shared>,
}

/// Objects visible to all threads of a parallel section: only ciphers, which take &self.
struct Shared {
    ciphers: HashMap<u32, Cipher>,
}
enum Cipher {
    Block(Box<dyn DynBlock>),
    Aead(Box<dyn DynAead>),
}

impl<'a> Env<'a> {
    fn block(&self, o: u32) -> &dyn DynBlock {
        if let Some(Obj::Block(b)) = self.own.get(&o) {
            return b.as_ref();
        }
        match self.shared.and_then(|s| s.ciphers.get(&o)) {
            Some(Cipher::Block(b)) => b.as_ref(),
            _ => panic!("harness: no block cipher {}", o),
        }
    }
    fn aead(&self, o: u32) -> &dyn DynAead {
        if let Some(Obj::Aead(b)) = self.own.get(&o) {
            return b.as_ref();
        }
        match self.shared.and_then(|s| s.ciphers.get(&o)) {
            Some(Cipher::Aead(b)) => b.as_ref(),
            _ => panic!("harness: no aead {}", o),
        }
    }
    fn stream(&mut self, o: u32) -> &mut Stream {
        match self.own.get_mut(&o) {
            Some(Obj::Stream(s)) => s,
            _ => panic!("harness: no stream {}", o),
        }
    }
}

fn n(s: &str) -> usize {
    s.parse().expect("harness: number")
}

/// windows "off:len,off:len" of a long output
fn windows(out: &[u8], w: &str) -> String {
    if w == "-" {
        return "-".into();
    }
    let mut v = Vec::new();
    for p in w.split(',') {
        let (o, l) = p.split_once(':').unwrap();
        v.extend_from_slice(&out[n(o)..n(o) + n(l)]);
    }
    hex(&v)
}

/// One call; a call on an object that an earlier call failed to make counts as a panic of its own.
fn call(env: &mut Env, t: &[&str]) -> String {
    match catch_unwind(AssertUnwindSafe(|| call_inner(env, t))) {
        Ok(_) if mem::damaged() => "panic memory damaged".into(),
        Ok(s) => s,
        Err(e) => {
            let m = message(&e);
            if m.starts_with("harness: no ") || m.starts_with("harness: dead") {
                return "panic missing object".into();
            }
            eprintln!("{}", m);
            std::process::exit(4);
        }
    }
}

/// The replies to one line of the plan.  "times k call": the call is made k times; replies are that to
/// the first and the first that differs from it, or the last.
fn calls(env: &mut Env, t: &[&str]) -> Vec<String> {
    if t[0] != "times" {
        return vec![call(env, t)];
    }
    let k = n(t[1]);
    let first = call(env, &t[2..]);
    let mut last = first.clone();
    for _ in 1..k {
        last = call(env, &t[2..]);
        if last != first {
            break;
        }
    }
    vec![first, last]
}

fn message(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

/// Arguments are prepared before, so that a panic is the library's.
fn call_inner(env: &mut Env, t: &[&str]) -> String {
    let run = |f: &mut dyn FnMut() -> String| -> String {
        match catch_unwind(AssertUnwindSafe(|| f())) {
            Ok(s) => s,
            Err(e) => {
                let msg = message(&e);
                if msg.starts_with("harness: dead") {
                    return "panic missing object".into();
                }
                if msg.starts_with("harness:") {
                    eprintln!("{}", msg);
                    std::process::exit(4);
                }
                format!("panic {}", msg.replace(['\n', '\r'], " "))
            }
        }
    };
    let b = |i: usize| Data::new(&data(t[i]));
    let o = || t[1].parse::<u32>().unwrap();
    let truth = |x: bool| if x { "ok T".to_string() } else { "ok F".to_string() };
    match t[0] {
        "hash_new" => {
            let h = hash_ops(t[2]);
            let id = o();
            run(&mut || {
                env.own.insert(id, Obj::Hash(Some((h.new)())));
                "ok -".into()
            })
        }
        "hash_up" => {
            let d = b(2);
            match env.own.get_mut(&o()) {
                Some(Obj::Hash(Some(h))) => run(&mut || {
                    h.update(&d);
                    "ok -".into()
                }),
                _ => panic!("harness: no hash"),
            }
        }
        "hash_fin" => {
            let mut out = Out::new(n(t[2]), 0xa5);
            match env.own.get_mut(&o()) {
                Some(Obj::Hash(h)) => {
                    let mut h = h.take();
                    run(&mut || {
                        h.take().expect("harness: dead").finish(&mut out);
                        format!("ok {}", hex(&out))
                    })
                }
                _ => panic!("harness: no hash"),
            }
        }
        "hash_one" => {
            let d = b(2);
            let f = hash_ops(t[1]).one.expect("harness: one-shot");
            run(&mut || format!("ok {}", hex(&f(&d))))
        }
        "hash_sizes" => {
            let s = hash_ops(t[1]).sizes;
            format!("ok {} {}", s.0, s.1)
        }
        "hmac_new" => {
            let h = hash_ops(t[2]);
            let k = b(3);
            let id = o();
            run(&mut || {
                env.own.insert(id, Obj::Hmac(Some((h.hmac_new)(&k))));
                "ok -".into()
            })
        }
        "hmac_up" => {
            let d = b(2);
            match env.own.get_mut(&o()) {
                Some(Obj::Hmac(Some(h))) => run(&mut || {
                    h.update(&d);
                    "ok -".into()
                }),
                _ => panic!("harness: no hmac"),
            }
        }
        "hmac_tag" => match env.own.get_mut(&o()) {
            Some(Obj::Hmac(h)) => {
                let mut h = h.take();
                run(&mut || format!("ok {}", hex(&h.take().expect("harness: dead").tag())))
            }
            _ => panic!("harness: no hmac"),
        },
        "hmac_one" => {
            let f = hash_ops(t[1]).hmac_one.expect("harness: one-shot");
            let (k, d) = (b(2), b(3));
            run(&mut || format!("ok {}", hex(&f(&k, &d))))
        }
        "hmac_verify" => {
            let f = hash_ops(t[1]).hmac_verify;
            let (k, d, tag) = (b(2), b(3), b(4));
            run(&mut || truth(f(&k, &d, &tag)))
        }
        "hkdf_ext" => {
            let f = hash_ops(t[1]).extract;
            let (s, i) = (b(2), b(3));
            let mut out = Out::new(n(t[4]), 0xa5);
            run(&mut || {
                f(&s, &i, &mut out);
                format!("ok {}", hex(&out))
            })
        }
        "hkdf_exp" => {
            let f = hash_ops(t[1]).expand;
            let (p, i) = (b(2), b(3));
            let mut out = Out::new(n(t[4]), 0xa5);
            run(&mut || {
                f(&p, &i, &mut out);
                format!("ok {}", hex(&out))
            })
        }
        "blk_new" => {
            let k = b(3);
            let id = o();
            run(&mut || {
                env.own.insert(id, Obj::Block(new_block(t[2], &k)));
                "ok -".into()
            })
        }
        "blk" => {
            let d = b(2);
            let mut a = [0; 16];
            a.copy_from_slice(&d);
            let c = env.block(o());
            run(&mut || format!("ok {}", hex(&c.permute(&a))))
        }
        "st_new" => {
            let (k, nn) = (b(2), b(3));
            let id = o();
            run(&mut || {
                env.own.insert(id, Obj::Stream(Stream::new(&k, &nn)));
                "ok -".into()
            })
        }
        "st_take" => {
            let k = n(t[2]);
            // any way of iterating will do
            env.turn += 1;
            let way = env.turn % 6;
            let s = env.stream(o());
            run(&mut || {
                let mut v = Vec::new();
                match way {
                    0 => v = s.take(k).collect(),
                    1 => (0..k).for_each(|_| v.extend(s.next())),
                    2 => (0..k).zip(&mut *s).for_each(|(_, b)| v.push(b)),
                    3 => s.step_by(1).take(k).for_each(|b| v.push(b)),
                    4 => (0..k).for_each(|_| v.extend(s.nth(0))),
                    _ => {
                        let _ = s.take(k).try_for_each(|b| {
                            v.push(b);
                            Some(())
                        });
                    }
                }
                format!("ok {}", hex(&v))
            })
        }
        // st_nthl: beyond what TLC counts in integers
        "st_nth" | "st_nthl" => {
            let k = n(t[2]);
            let s = env.stream(o());
            run(&mut || format!("ok {}", hex(&s.nth(k).into_iter().collect::<Vec<u8>>())))
        }
        "st_skip" => {
            let mut k = n(t[2]);
            let z = vec![0; 1 << 16];
            let mut x = z.clone();
            let s = env.stream(o());
            run(&mut || {
                while k > 0 {
                    let m = k.min(z.len());
                    s.encrypt(&z[..m], &mut x[..m]);
                    k -= m;
                }
                "ok -".into()
            })
        }
        // advances the stream without drawing the bytes, by changing the counters found in it
        "st_jump" => {
            let k = n(t[2]);
            let s = env.stream(o());
            run(&mut || if jump::jump(s, k) { "ok -".into() } else { "unavailable".into() })
        }
        "st_enc" | "st_dec" => {
            let d = b(2);
            let mut out = Out::new(n(t[3]), 0xa5);
            let enc = t[0] == "st_enc";
            let s = env.stream(o());
            run(&mut || {
                if enc {
                    s.encrypt(&d, &mut out);
                } else {
                    s.decrypt(&d, &mut out);
                }
                format!("ok {}", hex(&out))
            })
        }
        "aead_new" => {
            let k = b(3);
            let id = o();
            run(&mut || {
                env.own.insert(id, Obj::Aead(new_aead(t[2], &k)));
                "ok -".into()
            })
        }
        "aead_seal" => {
            let (nonce, aad, d) = (b(2), b(3), b(4));
            let mut out = Out::new(n(t[5]), 0xa5);
            let c = env.aead(o());
            run(&mut || {
                let tag = c.seal(&d, &nonce, &aad, &mut out);
                format!("ok {} {}", hex(&out), hex(&tag))
            })
        }
        "aead_open" => {
            let (nonce, aad, d, tag) = (b(2), b(3), b(4), b(5));
            let mut out = Out::new(n(t[6]), n(t[7]) as u8);
            let c = env.aead(o());
            run(&mut || {
                let v = c.open(&d, &nonce, &aad, &tag, &mut out);
                format!("{} {}", truth(v), hex(&out))
            })
        }
        // Long messages: seals zeros to learn the keystream, of which windows are reported, then seals
        // the message whose ciphertext is n copies of one block, under associated data of an copies
        // of another, and opens that: [is the ciphertext that?, tag, windows, opened to the message?]
        "aead_fix" => {
            let (nonce, ax, an, cx, cn) = (b(2), b(3), n(t[4]), b(5), n(t[6]));
            let rep = |x: &[u8], n: usize| {
                let mut v = Vec::with_capacity(16 * n);
                for _ in 0..n {
                    v.extend_from_slice(x);
                }
                v
            };
            let aad = rep(&ax, an);
            let mut pt = vec![0; 16 * cn];
            let mut ks = vec![0xa5; 16 * cn];
            let c = env.aead(o());
            run(&mut || {
                c.seal(&pt, &nonce, &[], &mut ks);
                let win = windows(&ks, t[7]);
                for (p, k) in pt.chunks_mut(16).zip(ks.chunks(16)) {
                    for i in 0..16 {
                        p[i] = k[i] ^ cx[i];
                    }
                }
                let tag = c.seal(&pt, &nonce, &aad, &mut ks);
                let same = ks.chunks(16).all(|x| x == &cx[..]);
                let mut back = vec![0x5a; 16 * cn];
                let v = c.open(&ks, &nonce, &aad, &tag, &mut back);
                format!("{} {} {} {}", truth(same), hex(&tag), win, if v && back == pt { "T" } else { "F" })
            })
        }
        // message: reps copies of a block, then a tail, given in pieces of the given size (0: at once)
        "hash_big" | "hmac_big" => {
            let mac = t[0] == "hmac_big";
            let h = hash_ops(t[1]);
            let (block, tail) = (b(2), b(4));
            let key = if mac { b(6) } else { Data::new(&[]) };
            let (reps, piece) = (n(t[3]), n(t[5]));
            let mut out = Out::new(h.sizes.0, 0xa5);
            // the message without its tail, from any position below the block length on
            let len = reps * block.len();
            let most = if piece == 0 { len } else { piece.min(len) };
            let one = piece == 0;
            // very long pieces are mappings of the same memory
            let area = if most > 1 << 30 {
                assert!(tail[..] == block[..tail.len()], "harness: tail of a very long message");
                Some(big::Area::filled(most + block.len(), &block))
            } else {
                None
            };
            let mut chunk = Vec::new();
            if area.is_none() {
                while chunk.len() < if one { len } else { most + block.len() } {
                    chunk.extend_from_slice(&block);
                }
                if one {
                    chunk.extend_from_slice(&tail);
                }
            }
            let chunk = match &area {
                Some(a) if one => &a.get()[..len + tail.len()],
                Some(a) => a.get(),
                None => &chunk[..],
            };
            run(&mut || {
                if piece == 0 {
                    return format!(
                        "ok {}",
                        hex(&if mac {
                            h.hmac_one.expect("harness: one-shot")(&key, chunk)
                        } else {
                            h.one.expect("harness: one-shot")(chunk)
                        })
                    );
                }
                let mut s = if mac { None } else { Some((h.new)()) };
                let mut m = if mac { Some((h.hmac_new)(&key)) } else { None };
                let mut up = |d: &[u8]| match (&mut s, &mut m) {
                    (Some(s), _) => s.update(d),
                    (_, Some(m)) => m.update(d),
                    _ => (),
                };
                let mut at = 0;
                while at < len {
                    let k = piece.min(len - at);
                    let off = at % block.len();
                    up(&chunk[off..off + k]);
                    at += k;
                }
                up(&tail);
                if let Some(m) = m {
                    return format!("ok {}", hex(&m.tag()));
                }
                s.unwrap().finish(&mut out);
                format!("ok {}", hex(&out))
            })
        }
        // key: n copies of a block and the beginning of another
        "hmac_longkey" => {
            let h = hash_ops(t[1]);
            let (block, tail, m) = (b(2), b(4), b(5));
            let len = n(t[3]) * block.len() + tail.len();
            let key = big::Area::filled(len, &block);
            run(&mut || {
                let mut s = (h.hmac_new)(key.get());
                s.update(&m);
                format!("ok {}", hex(&s.tag()))
            })
        }
        // very many zero bytes encrypted at once: the end of the result
        "st_long" => {
            let len = n(t[2]);
            let input = big::Area::new(len);
            let mut output = vec![0; len];
            let s = env.stream(o());
            run(&mut || {
                s.encrypt(input.get(), &mut output);
                format!("ok {}", hex(&output[len - 48..]))
            })
        }
        // message: n copies of 32 bytes
        "ed_long" => {
            let (k, d) = (b(1), b(2));
            let m = big::Area::filled(32 * n(t[3]), &d);
            run(&mut || format!("ok {}", hex(&ed25519::sign(m.get(), &k))))
        }
        "ed_vlong" => {
            let (k, d, s) = (b(1), b(2), b(4));
            let m = big::Area::filled(32 * n(t[3]), &d);
            run(&mut || truth(ed25519::verify(m.get(), &s, &k)))
        }
        "x_pk" => {
            let k = b(1);
            run(&mut || format!("ok {}", hex(&curve25519::gen_pk(&k))))
        }
        "x_dh" => {
            let (k, u) = (b(1), b(2));
            run(&mut || format!("ok {}", hex(&curve25519::dh(&u, &k))))
        }
        "ed_pk" => {
            let k = b(1);
            run(&mut || format!("ok {}", hex(&ed25519::gen_pk(&k))))
        }
        "ed_sign" => {
            let (k, d) = (b(1), b(2));
            run(&mut || format!("ok {}", hex(&ed25519::sign(&d, &k))))
        }
        // the public key, and the signatures of d and a number, for the numbers from 1 to n
        "ed_bulk" => {
            let (k, d, count) = (b(1), b(2), n(t[3]) as u32);
            run(&mut || {
                let mut v = ed25519::gen_pk(&k).to_vec();
                for i in 1..=count {
                    v.extend_from_slice(&ed25519::sign(&[&d[..], &i.to_le_bytes()].concat(), &k));
                }
                format!("ok {}", hex(&v))
            })
        }
        "ed_verify" => {
            let (k, d, s) = (b(1), b(2), b(3));
            run(&mut || truth(ed25519::verify(&d, &s, &k)))
        }
        "v16" => {
            let (x, y) = (b(1), b(2));
            let mut a = [0; 16];
            a.copy_from_slice(&x);
            run(&mut || truth(util::verify_16(&a, &y)))
        }
        "law" => {
            let (seed, count) = (n(t[2]) as u64, n(t[3]));
            run(&mut || laws::law(t[1], seed, count))
        }
        // iterated calls, each on the results of the one before
        "chain" => {
            let (name, seed, count) = (t[1], b(2), n(t[3]));
            run(&mut || format!("ok {}", hex(&laws::chain(name, &seed, count))))
        }
        "gcm_probe" => big::gcm_probe(n(t[1]), t[2] == "1"),
        "aead_long" => big::long(t[1], t[2], n(t[3])),
        // sealing nothing under long associated data
        "aead_mac" => {
            let (nonce, ax, an) = (b(2), b(3), n(t[4]));
            let c = env.aead(o());
            let aad = big::Area::filled(16 * an, &ax);
            run(&mut || format!("ok {}", hex(&c.seal(&[], &nonce, aad.get(), &mut []))))
        }
        // opening a long forgery or message: tag given; the end of the output is reported
        "aead_rep" => {
            let (nonce, ax, an, cx, cn, tag) = (b(2), b(3), n(t[4]), b(5), n(t[6]), b(7));
            let c = env.aead(o());
            let aad = big::Area::filled(16 * an, &ax);
            let ct = big::Area::filled(16 * cn, &cx);
            // memory of its own for all of the output: it may be written more than once
            let mut out = vec![0; 16 * cn];
            run(&mut || {
                let v = c.open(ct.get(), &nonce, aad.get(), &tag, &mut out);
                format!("{} {}", truth(v), hex(&out[16 * cn - 48.min(16 * cn)..]))
            })
        }
        x => panic!("harness: unknown call {}", x),
    }
}

#[cfg(feature = "threads")]
fn parallel(shared: &Shared, parts: &[Vec<Vec<&str>>]) -> Vec<Vec<String>> {
    let barrier = std::sync::Barrier::new(parts.len());
    std::thread::scope(|sc| {
        let hs: Vec<_> = parts
            .iter()
            .map(|ops| {
                let barrier = &barrier;
                sc.spawn(move || {
                    let mut env = Env { own: HashMap::new(), turn: 0, shared: Some(shared) };
                    barrier.wait();
                    ops.iter().flat_map(|t| calls(&mut env, t)).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    })
}

#[cfg(not(feature = "threads"))]
fn parallel(shared: &Shared, parts: &[Vec<Vec<&str>>]) -> Vec<Vec<String>> {
    parts
        .iter()
        .map(|ops| {
            let mut env = Env { own: HashMap::new(), turn: 0, shared: Some(shared) };
            ops.iter().flat_map(|t| calls(&mut env, t)).collect()
        })
        .collect()
}

fn session(lines: &[&str]) -> Vec<String> {
    let mut env = Env { own: HashMap::new(), turn: 0, shared: None };
    let mut out = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let t: Vec<&str> = lines[i].split(' ').collect();
        if t[0] != "par" {
            out.extend(calls(&mut env, &t));
            i += 1;
            continue;
        }
        let mut parts: Vec<Vec<Vec<&str>>> = Vec::new();
        i += 1;
        while lines[i] != "endpar" {
            if lines[i] == "thread" {
                parts.push(Vec::new());
            } else {
                parts.last_mut().unwrap().push(lines[i].split(' ').collect());
            }
            i += 1;
        }
        i += 1;
        let mut shared = Shared { ciphers: HashMap::new() };
        for (k, v) in env.own.drain() {
            match v {
                Obj::Block(b) => drop(shared.ciphers.insert(k, Cipher::Block(b))),
                Obj::Aead(b) => drop(shared.ciphers.insert(k, Cipher::Aead(b))),
                _ => panic!("harness: only ciphers can be shared"),
            }
        }
        for r in parallel(&shared, &parts) {
            out.extend(r);
        }
        for (k, v) in shared.ciphers {
            env.own.insert(
                k,
                match v {
                    Cipher::Block(b) => Obj::Block(b),
                    Cipher::Aead(b) => Obj::Aead(b),
                },
            );
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--long" {
        std::process::exit(big::long_child(&args[2], &args[3], n(&args[4])));
    }
    let plan = std::fs::read_to_string(&args[1]).expect("harness: plan");
    let limit = Duration::from_secs(args.get(3).map_or(60, |s| s.parse().unwrap()));
    std::panic::set_hook(Box::new(|info| {
        // a panic outside of a call is the harness's own
        if let Some(m) = info.payload().downcast_ref::<String>() {
            if m.starts_with("harness:") {
                eprintln!("{}", m);
            }
        }
    }));
    let mut sessions: Vec<(&str, Vec<&str>)> = Vec::new();
    let mut limits = Vec::new();
    for line in plan.lines() {
        if let Some(id) = line.strip_prefix("S ") {
            // "S number" or "S number seconds"
            let (id, own) = id.split_once(' ').map_or((id, limit), |(a, b)| (a, Duration::from_secs(n(b) as u64)));
            sessions.push((id, Vec::new()));
            limits.push(own);
        } else if !line.is_empty() {
            sessions.last_mut().expect("harness: plan").1.push(line);
        }
    }
    let results: Vec<Mutex<Vec<String>>> = sessions.iter().map(|_| Mutex::new(Vec::new())).collect();
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let workers = 8;
    let current: Vec<Mutex<Option<(usize, Instant)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let progress = Mutex::new(std::fs::File::create(format!("{}.progress", args[2])).unwrap());
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let (next, sessions, results, current, progress) = (&next, &sessions, &results, &current, &progress);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= sessions.len() {
                            break;
                        }
                        *current[w].lock().unwrap() = Some((i, Instant::now()));
                        if sessions.len() < 64 || i % 64 == 0 {
                            let _ = writeln!(progress.lock().unwrap(), "{}", sessions[i].0);
                        }
                        let r = session(&sessions[i].1);
                        *results[i].lock().unwrap() = r;
                        *current[w].lock().unwrap() = None;
                    })
                    .unwrap()
            })
            .collect();
        let (done, current, sessions, limits) = (&done, &current, &sessions, &limits);
        sc.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for c in current {
                    if let Some((i, since)) = *c.lock().unwrap() {
                        if since.elapsed() > limits[i] {
                            println!("HANG {}", sessions[i].0);
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
        let mut failed = false;
        for h in hs {
            failed |= h.join().is_err();
        }
        done.store(true, Ordering::SeqCst);
        if failed {
            eprintln!("harness: worker failed");
            std::process::exit(4);
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("harness: output"));
    for (s, r) in sessions.iter().zip(&results) {
        writeln!(f, "S {}", s.0).unwrap();
        for line in r.lock().unwrap().iter() {
            writeln!(f, "{}", line).unwrap();
        }
    }
    f.flush().unwrap();
}
