//! Messages as long as the interface allows, without the memory for them: the input and the output
//! are many mappings of the same few pages.
use crypto_pure::aes::BlockCipher;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::poly1305::ChaCha20Poly1305;
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn close(fd: i32) -> i32;
}
const READ: i32 = 1;
const WRITE: i32 = 2;
const SHARED: i32 = 1;
const PRIVATE: i32 = 2;
const FIXED: i32 = 0x10;
const ANON: i32 = 0x20;
const NORESERVE: i32 = 0x4000;

const PIECE: usize = 32 << 20;

/// Address space of len bytes; all of it shows the same 32 MB.
pub struct Area {
    p: *mut u8,
    len: usize,
    mapped: usize,
}

impl Area {
    pub fn new(len: usize) -> Area {
        // short areas are not shared at all
        let mapped = (len.max(1) + PIECE - 1) / PIECE * PIECE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), mapped, READ | WRITE, PRIVATE | ANON | NORESERVE, -1, 0);
            assert!(p as isize != -1, "harness: no address space");
            {
                let fd = memfd_create(b"area\0".as_ptr(), 0);
                assert!(fd >= 0 && ftruncate(fd, PIECE as i64) == 0, "harness: no memfd");
                let mut at = 0;
                while at < mapped {
                    let q = mmap(p.add(at), PIECE, READ | WRITE, SHARED | FIXED, fd, 0);
                    assert!(q == p.add(at), "harness: no mapping");
                    at += PIECE;
                }
                close(fd);
            }
            Area { p, len, mapped }
        }
    }
    /// repetitions of a pattern, of a length that is a power of two
    pub fn filled(len: usize, pat: &[u8]) -> Area {
        assert!(PIECE % pat.len() == 0, "harness: pattern");
        let mut a = Area::new(len);
        let m = len.min(PIECE);
        for c in a.get_mut()[..m].chunks_mut(pat.len()) {
            c.copy_from_slice(&pat[..c.len()]);
        }
        a
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.len) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.len) }
    }
}
impl Drop for Area {
    fn drop(&mut self) {
        unsafe {
            munmap(self.p, self.mapped);
        }
    }
}

/// A user-supplied cipher that stops the operation by a panic of its own: at the first message block
/// (LAST = false), or at the block with the last counter value there is.
struct Probe<const LAST: bool>;
const REACHED: &str = "probe: reached";

impl<const LAST: bool> BlockCipher for Probe<LAST> {
    fn new(_key: &[u8]) -> Self {
        Probe
    }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        let ctr = &b[12..];
        if if LAST { ctr == [255; 4] } else { ctr != [0; 4] } {
            std::panic::panic_any(REACHED);
        }
        *b
    }
}

pub fn gcm_probe(len: usize, last: bool) -> String {
    let input = Area::new(len);
    let mut output = Area::new(len);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if last {
            Gcm::<Probe<true>>::new(&[]).encrypt(input.get(), &[1; 12], &[], output.get_mut());
        } else {
            Gcm::<Probe<false>>::new(&[]).encrypt(input.get(), &[1; 12], &[], output.get_mut());
        }
    }));
    match r {
        Ok(()) => "ok returned".into(),
        Err(e) if e.downcast_ref::<&str>() == Some(&REACHED) => "ok reached".into(),
        Err(_) => "panic".into(),
    }
}

/// Whether sealing or opening a message of this length is refused: in a process of its own, with an
/// output that cannot be accessed, so that a call that is not refused ends there ("reached").
pub fn long(alg: &str, dir: &str, len: usize) -> String {
    use std::os::unix::process::ExitStatusExt;
    let st = std::process::Command::new(std::env::current_exe().expect("harness: own path"))
        .args(["--long", alg, dir, &len.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("harness: process");
    match (st.code(), st.signal()) {
        (Some(11), _) => "panic".into(),
        (Some(12), _) => "ok returned".into(),
        (_, Some(11)) | (_, Some(7)) => "ok reached".into(),
        _ => panic!("harness: probing process: {}", st),
    }
}

/// user-supplied cipher for the process above: the identity
struct Id;
impl BlockCipher for Id {
    fn new(_key: &[u8]) -> Self {
        Id
    }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        *b
    }
}

pub fn long_child(alg: &str, dir: &str, len: usize) -> i32 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len.max(1), 0, PRIVATE | ANON | NORESERVE, -1, 0);
        let q = mmap(std::ptr::null_mut(), len.max(1), 0, PRIVATE | ANON | NORESERVE, -1, 0);
        if p as isize == -1 || q as isize == -1 {
            return 1;
        }
        let input = std::slice::from_raw_parts(p, len);
        let output = std::slice::from_raw_parts_mut(q, len);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let nonce = &[1; 12];
            match (alg, dir) {
                ("chachapoly", "seal") => drop(ChaCha20Poly1305::new(&[1; 32]).encrypt(input, nonce, &[], output)),
                ("chachapoly", _) => drop(ChaCha20Poly1305::new(&[1; 32]).decrypt(input, nonce, &[], &[0; 16], output)),
                (_, "seal") => drop(Gcm::<Id>::new(&[1; 16]).encrypt(input, nonce, &[], output)),
                (_, _) => drop(Gcm::<Id>::new(&[1; 16]).decrypt(input, nonce, &[], &[0; 16], output)),
            }
        }));
        if r.is_ok() { 12 } else { 11 }
    }
}
