//! C03: the checksum.
use crate::*;
const M: u32 = 3;

fn reference(data: &[u8]) -> u32 {
    let mut r: u32 = 0x1034_0DFE;
    for b in data {
        r ^= (*b as u32) << 24;
        for _ in 0..8 {
            r = (r << 1) ^ (0x04C1_1DB7 & (0u32.wrapping_sub(r >> 31)));
        }
    }
    !r
}

// every length up to the bound, every content
entry!(c03_value, {
    let max = if vp::thorough() { 288 } else { 112 };
    let n = vp::first(max + 1) as usize;
    let mut b = vec![0u8; n];
    vp::sym(&mut b);
    let got = boxcars::crc::calc_crc(&b);
    ve!(got, reference(&b));
    cov!();
});

// one corrupted byte anywhere changes the checksum
entry!(c03_corruption, {
    let max = if vp::thorough() { 96 } else { 48 };
    let n = vp::first(max) as usize + 1;
    let mut b = vec![0u8; n];
    vp::sym(&mut b);
    let i = vp::choose(n as u64) as usize;
    let mut c = b.clone();
    let d = vp::u8_();
    vp::assume(d != 0);
    c[i] ^= d;
    va!(boxcars::crc::calc_crc(&b) != boxcars::crc::calc_crc(&c));
    cov!();
});

// long data: arbitrary bytes at the end, in the middle or in front of a fixed pattern
entry!(c03_long, {
    const N: [usize; 20] = [113, 127, 128, 129, 255, 256, 257, 511, 513, 1_023, 1_024, 1_025, 4_095, 4_097, 8_193, 32_769, 65_535, 65_536, 65_537, 262_145];
    let n = N[vp::first(20) as usize];
    let at = match vp::choose(3) {
        0 => n - 17,
        1 => n - 1 - core::cmp::min(n / 2, 300),
        _ => n - core::cmp::min(n, 1_025),
    };
    let zero = vp::choose(2) == 1;
    let mut b = vec![0u8; n];
    let mut x = 0x9e37_79b9u32;
    for c in b.iter_mut() {
        x = x.wrapping_mul(0x0019_660d).wrapping_add(0x3c6e_f35f);
        *c = if zero { 0 } else { (x >> 24) as u8 };
    }
    vp::sym(&mut b[at..core::cmp::min(at + 17, n)]);
    ve!(boxcars::crc::calc_crc(&b), reference(&b));
    cov!();
});
