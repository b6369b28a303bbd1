//! C11: vectors, rotations, quaternions at any bit offset.
use crate::enc::*;
use crate::parts::*;
use crate::*;
use bitter::{BitReader, LittleEndianReader};
use boxcars::*;
const M: u32 = 11;

/// skip `off` bits the way a decoder would reach that position
fn at(data: &[u8], off: u32) -> LittleEndianReader<'_> {
    let mut r = LittleEndianReader::new(data);
    let mut left = off;
    while left > 0 {
        let k = core::cmp::min(left, 56);
        let _ = r.read_bits(k);
        left -= k;
    }
    r
}

fn buffer(off: u32, tail: usize, enc: impl FnOnce(&mut Bits)) -> (Vec<u8>, u32) {
    let mut b = Bits::new();
    let mut o = off;
    while o > 0 {
        let k = core::cmp::min(o, 8);
        b.put(vp::bits(k), k);
        o -= k;
    }
    let start = b.total;
    enc(&mut b);
    let used = b.total - start;
    let mut v = b.done();
    let mut t = vec![0u8; tail];
    vp::sym(&mut t);
    v.extend_from_slice(&t);
    (v, used)
}

/// `dec` yields the value exactly and consumes exactly its bits, or yields nothing when data is cut
fn exact<T>(data: &[u8], off: u32, used: u32, dec: impl Fn(&mut LittleEndianReader<'_>) -> Option<T>, check: impl Fn(&T)) {
    let mut r = at(data, off);
    let v = dec(&mut r);
    va!(v.is_some());
    if let Some(v) = &v {
        check(v);
    }
    va!(r.bits_remaining() == Some(data.len() * 8 - (off + used) as usize));
    // every cut in front of the last bit gives no value
    let need = ((off + used + 7) / 8) as usize;
    if need > 0 {
        let first = (off / 8) as usize;
        for n in first..need {
            if (n as u32) * 8 >= off + used || (n as u32) * 8 < off {
                continue;
            }
            let mut r = at(&data[..n], off);
            va!(dec(&mut r).is_none());
            cov!();
        }
    }
}

const OFFS: u64 = 64;
const TAILS: [usize; 4] = [0, 1, 7, 24];

fn tail() -> usize {
    TAILS[vp::choose(TAILS.len() as u64) as usize]
}
fn off() -> u32 {
    if vp::thorough() {
        vp::choose(OFFS) as u32
    } else {
        // every alignment within a byte, and positions around the refill boundaries
        [0, 1, 2, 3, 4, 5, 6, 7, 23, 31, 40, 50, 56, 57, 61, 63][vp::choose(16) as usize]
    }
}

entry!(c11_vector_old, {
    let size = vp::first(20) as u32;
    vector(size, 20)
});
entry!(c11_vector_new, {
    let size = vp::first(22) as u32;
    vector(size, 22)
});
fn vector(size: u32, max: u32) {
    let net = vp::i32_();
    vp::assume((net >= 7) == (max == 22));
    let (o, t) = (off(), tail());
    let v = Vec3::sym(size);
    let (data, used) = buffer(o, t, |b| {
        b.bounded(size as u64, max as u64);
        for r in v.raw {
            b.put(r as u64, size + 2);
        }
    });
    exact(&data, o, used, |r| Vector3i::decode(r, net), |d| v.check_i(d));
    let mut r = at(&data, o);
    let d = Vector3f::decode(&mut r, net);
    va!(d.is_some());
    if let Some(d) = d {
        v.check(&d);
        cov!();
    }
}

entry!(c11_rotation, {
    let m = vp::first(8);
    let (o, t) = (off(), tail());
    let v = Rot3::sym(m);
    let (data, used) = buffer(o, t, |b| v.enc(b));
    exact(&data, o, used, |r| Rotation::decode(r), |d| v.check(d));
    cov!();
});

entry!(c11_quaternion, {
    let l = vp::first(4) as u32;
    let (o, t) = (off(), tail());
    let v = Quat::sym(l);
    let (data, used) = buffer(o, t, |b| v.enc(b));
    exact(&data, o, used, |r| Quaternion::decode(r), |d| v.check(d));
    cov!();
});

entry!(c11_quaternion_old, {
    let _ = vp::first(1);
    let (o, t) = (off(), tail());
    let v = Quat16::sym();
    let (data, used) = buffer(o, t, |b| v.enc(b));
    exact(&data, o, used, |r| Quaternion::decode_compressed(r), |d| v.check(d));
    cov!();
});

entry!(c11_trajectory, {
    let k = vp::first(3);
    let net = if vp::choose(2) == 0 { 0 } else { 10 };
    let (o, t) = (off(), tail());
    let v = Vec3::some(net);
    let q = Rot3::sym(vp::choose(8));
    let sp = [SpawnTrajectory::None, SpawnTrajectory::Location, SpawnTrajectory::LocationAndRotation][k as usize];
    let (data, used) = buffer(o, t, |b| {
        if k >= 1 {
            v.enc(b, net);
        }
        if k == 2 {
            q.enc(b);
        }
    });
    let mut r = at(&data, o);
    let d = Trajectory::from_spawn(&mut r, sp, net);
    va!(d.is_some());
    if let Some(d) = d {
        va!(d.location.is_some() == (k >= 1));
        va!(d.rotation.is_some() == (k == 2));
        if let Some(l) = &d.location {
            v.check_i(l);
        }
        if let Some(l) = &d.rotation {
            q.check(l);
        }
        cov!();
    }
    va!(r.bits_remaining() == Some(data.len() * 8 - (o + used) as usize));
});
