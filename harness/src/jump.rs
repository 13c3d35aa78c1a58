//! Moving a ChaCha20 stream forward without drawing the bytes in between.
//!
//! The stream's memory is compared at several block positions; words that count blocks or bytes
//! (upwards or downwards) are recognised by how they change, and are then moved on.  This knows
//! nothing about the fields.  What it finds is only used to choose positions that are then reached
//! by drawing every byte (mbv/checks.py), so a wrong guess here cannot raise an alarm.
use crypto_pure::chacha20::Stream;
use std::mem::size_of;

const W: usize = 4;
const N: usize = size_of::<Stream>() / W;

fn words(s: &Stream) -> Vec<u32> {
    let p = s as *const Stream as *const u32;
    (0..N).map(|i| unsafe { p.add(i).read_unaligned() }).collect()
}

fn draw(s: &mut Stream, n: usize) {
    let z = vec![0; n];
    let mut x = vec![0; n];
    s.encrypt(&z, &mut x);
}

/// by: bytes to skip.  False if there is no counter to be found.
pub fn jump(s: &mut Stream, by: usize) -> bool {
    // positions at whole numbers of blocks after this one, so that offsets within a block agree
    let steps = [1usize, 1, 3, 7, 40];
    let total: usize = steps.iter().sum();
    if by / 64 < total + 2 {
        draw(s, by);
        return true;
    }
    let mut at = vec![(0usize, words(s))];
    let mut done = 0;
    for k in steps {
        draw(s, 64 * k);
        done += k;
        at.push((done, words(s)));
    }
    let rest = by - 64 * total;
    let blocks = rest / 64 - 1;
    let mut found = false;
    let p = s as *mut Stream as *mut u32;
    for i in 0..N {
        for slope in [1u32, 64, 1u32.wrapping_neg(), 64u32.wrapping_neg()] {
            if at.iter().all(|(k, w)| w[i] == at[0].1[i].wrapping_add(slope.wrapping_mul(*k as u32))) {
                found = true;
                let d = slope.wrapping_mul(blocks as u32);
                unsafe { p.add(i).write_unaligned(p.add(i).read_unaligned().wrapping_add(d)) }
            }
        }
    }
    if found {
        // the bytes left of the present block are those of the old position
        draw(s, 64 + rest % 64);
    }
    found
}
