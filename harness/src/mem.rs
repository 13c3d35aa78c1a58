//! Arguments and results at every alignment, with guard bytes around them.
use std::cell::Cell;
use std::ops::{Deref, DerefMut};

thread_local! {
    static DAMAGED: Cell<bool> = const { Cell::new(false) };
}
/// Whether an argument, or memory around an argument or a result, was changed since the last time.
pub fn damaged() -> bool {
    DAMAGED.with(|d| d.replace(false))
}

const GUARD: usize = 64;
const MARK: u8 = 0xc3;

fn sum(b: &[u8]) -> u64 {
    b.iter().fold(7, |a, &x| (a.rotate_left(5) ^ u64::from(x)).wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

struct Guarded {
    buf: Vec<u8>,
    off: usize,
    len: usize,
}
impl Guarded {
    fn new(len: usize, align: usize) -> Self {
        let mut buf = vec![MARK; len + 2 * GUARD + 32];
        let off = GUARD + 16 - buf.as_ptr() as usize % 16 + align % 16;
        buf[off..off + len].fill(0);
        Guarded { buf, off, len }
    }
    fn get(&self) -> &[u8] {
        &self.buf[self.off..self.off + self.len]
    }
    fn get_mut(&mut self) -> &mut [u8] {
        &mut self.buf[self.off..self.off + self.len]
    }
    fn check(&self) {
        if self.buf[..self.off].iter().chain(&self.buf[self.off + self.len..]).any(|&b| b != MARK) {
            DAMAGED.with(|d| d.set(true));
        }
    }
}

/// An argument.
pub struct Data(Guarded, u64);
impl Data {
    pub fn new(v: &[u8]) -> Self {
        let mut g = Guarded::new(v.len(), v.len() * 5 + v.first().map_or(3, |&b| usize::from(b)));
        g.get_mut().copy_from_slice(v);
        Data(g, sum(v))
    }
}
impl Deref for Data {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.0.get()
    }
}
impl Drop for Data {
    fn drop(&mut self) {
        self.0.check();
        if sum(self.0.get()) != self.1 {
            DAMAGED.with(|d| d.set(true));
        }
    }
}

/// A buffer for a result.
pub struct Out(Guarded);
impl Out {
    pub fn new(len: usize, fill: u8) -> Self {
        let mut g = Guarded::new(len, len * 3 + usize::from(fill) + 1);
        g.get_mut().fill(fill);
        Out(g)
    }
}
impl Deref for Out {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.0.get()
    }
}
impl DerefMut for Out {
    fn deref_mut(&mut self) -> &mut [u8] {
        self.0.get_mut()
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        self.0.check()
    }
}
