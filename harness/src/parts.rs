//! Building blocks: symbolic vectors, rotations, quaternions, actors, with reference encoding and
//! comparison.
use crate::enc::*;
use crate::*;
use boxcars::*;
const M: u32 = 91;

#[derive(Clone, Copy)]
pub struct Vec3 {
    pub size: u32,
    pub raw: [u32; 3],
}

impl Vec3 {
    pub fn max_size(net: i32) -> u32 {
        if net >= 7 {
            22
        } else {
            20
        }
    }
    pub fn sym(size: u32) -> Vec3 {
        let w = size + 2;
        Vec3 { size, raw: [vp::bits(w) as u32, vp::bits(w) as u32, vp::bits(w) as u32] }
    }
    /// one of several sizes, among them those where the two layouts of the size differ (all of them
    /// in the thorough tier)
    pub fn some(net: i32) -> Vec3 {
        let m = Vec3::max_size(net);
        let last = vp::conc(m as u64 - 1) as u32;
        let s = if vp::thorough() {
            vp::choose(last as u64 + 1) as u32
        } else {
            match vp::choose(6) {
                0 => 0,
                1 => 3,
                2 => 4,
                3 => 5,
                4 => 9,
                _ => last,
            }
        };
        Vec3::sym(s)
    }
    /// a second vector: a size that goes through all of them as the first one's does
    pub fn next(&self, net: i32) -> Vec3 {
        let s = (self.size * 3 + 4) % vp::conc(Vec3::max_size(net) as u64) as u32;
        Vec3::sym(s)
    }
    pub fn enc(&self, b: &mut Bits, net: i32) {
        b.bounded(self.size as u64, Vec3::max_size(net) as u64);
        for r in self.raw {
            b.put(r as u64, self.size + 2);
        }
    }
    pub fn ints(&self) -> [i32; 3] {
        let bias = 1i32 << (self.size + 1);
        [self.raw[0] as i32 - bias, self.raw[1] as i32 - bias, self.raw[2] as i32 - bias]
    }
    pub fn check_i(&self, v: &Vector3i) {
        let e = self.ints();
        ve!(v.x, e[0]);
        ve!(v.y, e[1]);
        ve!(v.z, e[2]);
    }
    pub fn check(&self, v: &Vector3f) {
        let e = self.ints();
        ve!(v.x, e[0] as f32 / 100.0);
        ve!(v.y, e[1] as f32 / 100.0);
        ve!(v.z, e[2] as f32 / 100.0);
    }
}

#[derive(Clone, Copy)]
pub struct Rot3 {
    pub has: [bool; 3],
    pub v: [u8; 3],
}

impl Rot3 {
    pub fn sym(mask: u64) -> Rot3 {
        Rot3 { has: [mask & 1 != 0, mask & 2 != 0, mask & 4 != 0], v: [vp::u8_(), vp::u8_(), vp::u8_()] }
    }
    pub fn enc(&self, b: &mut Bits) {
        for i in 0..3 {
            b.bit(self.has[i]);
            if self.has[i] {
                b.u8(self.v[i]);
            }
        }
    }
    pub fn check(&self, r: &Rotation) {
        let got = [r.yaw, r.pitch, r.roll];
        for i in 0..3 {
            match got[i] {
                Some(x) => {
                    va!(self.has[i]);
                    ve!(x, self.v[i] as i8);
                }
                None => va!(!self.has[i]),
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Quat {
    pub largest: u32,
    pub raw: [u32; 3],
}

impl Quat {
    pub fn sym(largest: u32) -> Quat {
        Quat { largest, raw: [vp::bits(18) as u32, vp::bits(18) as u32, vp::bits(18) as u32] }
    }
    pub fn enc(&self, b: &mut Bits) {
        b.put(self.largest as u64, 2);
        for r in self.raw {
            b.put(r as u64, 18);
        }
    }
    pub fn check(&self, q: &Quaternion) {
        let u = |v: u32| (v as f32 / 262143.0 - 0.5) * 2.0 * core::f32::consts::FRAC_1_SQRT_2;
        let (a, b, c) = (u(self.raw[0]), u(self.raw[1]), u(self.raw[2]));
        let l = (-c).mul_add(c, (-b).mul_add(b, (-a).mul_add(a, 1.0))).sqrt();
        let e = match self.largest {
            0 => [l, a, b, c],
            1 => [a, l, b, c],
            2 => [a, b, l, c],
            _ => [a, b, c, l],
        };
        // bit-exact except that the payload of a not-a-number is not significant
        for (g, w) in [(q.x, e[0]), (q.y, e[1]), (q.z, e[2]), (q.w, e[3])] {
            vp::trace_u64(g.to_bits() as u64);
            va!((g.to_bits() == w.to_bits()) | ((g != g) & (w != w)));
        }
    }
}

#[derive(Clone, Copy)]
pub struct Quat16 {
    pub raw: [u16; 3],
}

impl Quat16 {
    pub fn sym() -> Quat16 {
        Quat16 { raw: [vp::u16_(), vp::u16_(), vp::u16_()] }
    }
    pub fn enc(&self, b: &mut Bits) {
        for r in self.raw {
            b.put(r as u64, 16);
        }
    }
    pub fn check(&self, q: &Quaternion) {
        let u = |v: u16| (v as i32 - 32768) as f32 * (32767.0f32).recip();
        ve!(q.x, u(self.raw[0]));
        ve!(q.y, u(self.raw[1]));
        ve!(q.z, u(self.raw[2]));
        ve!(q.w, 0.0f32);
    }
}

/// a flag and an actor id
#[derive(Clone, Copy)]
pub struct Act {
    pub active: bool,
    pub id: i32,
}

impl Act {
    pub fn sym() -> Act {
        Act { active: vp::u8_() & 1 == 1, id: vp::i32_() }
    }
    pub fn enc(&self, b: &mut Bits) {
        b.bit(self.active).i32(self.id);
    }
    pub fn check(&self, a: &ActiveActor) {
        ve!(a.active, self.active);
        ve!(a.actor, self.id);
    }
}

pub fn flag() -> bool {
    vp::u8_() & 1 == 1
}
