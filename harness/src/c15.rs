//! C15: rigid bodies, applied damage, demolitions, explosions.
use crate::enc::*;
use crate::parts::*;
use crate::*;
use boxcars::*;
const M: u32 = 15;

const RB: &str = "TAGame.RBActor_TA:ReplicatedRBState";

#[derive(Clone, Copy)]
struct Rb {
    sleeping: bool,
    loc: Vec3,
    q: Quat,
    q16: Quat16,
    lin: Vec3,
    ang: Vec3,
}
impl Rb {
    fn enc(&self, b: &mut Bits, net: i32) {
        b.bit(self.sleeping);
        self.loc.enc(b, net);
        if net >= 7 {
            self.q.enc(b);
        } else {
            self.q16.enc(b);
        }
        if !self.sleeping {
            self.lin.enc(b, net);
            self.ang.enc(b, net);
        }
    }
    fn check(&self, x: &RigidBody, net: i32) {
        ve!(x.sleeping, self.sleeping);
        self.loc.check(&x.location);
        if net >= 7 {
            self.q.check(&x.rotation);
        } else {
            self.q16.check(&x.rotation);
        }
        va!(x.linear_velocity.is_some() != self.sleeping);
        va!(x.angular_velocity.is_some() != self.sleeping);
        if let Some(v) = &x.linear_velocity {
            self.lin.check(v);
        }
        if let Some(v) = &x.angular_velocity {
            self.ang.check(v);
        }
    }
}

/// all sizes of one vector while the others take a few
fn rb(size: u32, which: u64, net: i32, sleeping: bool) -> Rb {
    let m = Vec3::max_size(net);
    let pick = |i: u64| {
        if i == which {
            core::cmp::min(size, m - 1)
        } else {
            (size * 7 + i as u32 * 5 + 1) % m
        }
    };
    Rb { sleeping, loc: Vec3::sym(pick(0)), q: Quat::sym(vp::choose(4) as u32), q16: Quat16::sym(), lin: Vec3::sym(pick(1)), ang: Vec3::sym(pick(2)) }
}

entry!(c15_rigid_body, {
    let size = vp::first(22) as u32;
    let ver = if vp::choose(2) == 0 {
        // the network version is stored: the representation follows it
        let n = vp::i32_();
        Ver { major: 868, minor: 32, stored: Some(n) }
    } else {
        Ver::new(800, 10, 0)
    };
    let new = ver.net() >= 7;
    let sleeping = vp::choose(2) == 1;
    // concrete from here on: the layout, not the number
    let net = vp::conc(if new { 7 } else { 0 }) as i32;
    let r = rb(size, vp::choose(3), net, sleeping);
    attr::Env::new(ver, RB).anywhere().run(
        |b| r.enc(b, net),
        |x| match x {
            Attribute::RigidBody(x) => {
                r.check(x, net);
                cov!();
            }
            _ => va!(false),
        },
    );
});

// all combinations of sizes in which two or three of the vectors agree or are next to each other
entry!(c15_rigid_body_sizes, {
    let size = vp::first(22) as u32;
    let net = if vp::choose(2) == 1 { 10 } else { 2 };
    let ver = Ver::new(868, 32, net);
    let m = Vec3::max_size(net);
    vp::assume(size < m);
    let near = |d: u64| core::cmp::min(size + d as u32, m - 1);
    let (a, b) = (near(vp::choose(3)), near(vp::choose(3)));
    let s = [size, a, b];
    let r = vp::choose(3) as usize;
    let sleeping = vp::choose(2) == 1;
    let r = Rb { sleeping, loc: Vec3::sym(s[r]), q: Quat::sym((size + a + b) & 3), q16: Quat16::sym(), lin: Vec3::sym(s[(r + 1) % 3]), ang: Vec3::sym(s[(r + 2) % 3]) };
    attr::Env::new(ver, RB).run(
        |b| r.enc(b, net),
        |x| match x {
            Attribute::RigidBody(x) => {
                r.check(x, net);
                cov!();
            }
            _ => va!(false),
        },
    );
});

// network data cut anywhere inside the rigid body is an error, never a body without velocities
entry!(c15_rigid_body_cut, {
    let shift = vp::first(8) as u32;
    let sleeping = vp::choose(2) == 1;
    let net = if vp::choose(2) == 1 { 10 } else { 2 };
    let ver = Ver::new(868, 32, net);
    let r = rb(5, 0, net, sleeping);
    let mut e = attr::Env::new(ver, RB);
    e.shift = shift;
    let mut b = e.begin();
    let start = (b.total / 8) as usize;
    r.enc(&mut b, net);
    let stop = ((b.total + 7) / 8) as usize;
    let v = b.done();
    let k = start + vp::choose((stop - start) as u64) as usize;
    let p = parse(&e.file(&v[..k]));
    va!(p.is_err());
    cov!();
    core::mem::forget(p);
});

macro_rules! both {
    ($n12:ident, $n15:ident, $($t:tt)*) => {
        attr!($n12, $($t)*);
        attr!($n15, $($t)*);
    };
}

both!(c12_applied_damage, c15_applied_damage, "TAGame.Ball_Breakout_TA:AppliedDamage", |v| [i = vp::u8_(), p = Vec3::some(v.net()), d = vp::i32_(), t = vp::i32_()],
    |b| { b.u8(i); p.enc(b, v.net()); b.i32(d).i32(t) },
    Attribute::AppliedDamage(x) => { ve!(x.id, i); p.check(&x.position); ve!(x.damage_index, d); ve!(x.total_damage, t) });
both!(c12_demolish, c15_demolish, "TAGame.Car_TA:ReplicatedDemolish", |v| [a = Act::sym(), c = Act::sym(), p = Vec3::some(v.net()), q = p.next(v.net())],
    |b| { a.enc(b); c.enc(b); p.enc(b, v.net()); q.enc(b, v.net()) },
    Attribute::Demolish(x) => {
        ve!(x.attacker_flag, a.active); ve!(x.attacker, a.id); ve!(x.victim_flag, c.active); ve!(x.victim, c.id);
        p.check(&x.attack_velocity); q.check(&x.victim_velocity)
    });
both!(c12_demolish_fx, c15_demolish_fx, "TAGame.Car_TA:ReplicatedDemolishGoalExplosion", |v| [f = Act::sym(), a = Act::sym(), c = Act::sym(), p = Vec3::some(v.net()), q = p.next(v.net())],
    |b| { f.enc(b); a.enc(b); c.enc(b); p.enc(b, v.net()); q.enc(b, v.net()) },
    Attribute::DemolishFx(x) => {
        ve!(x.custom_demo_flag, f.active); ve!(x.custom_demo_id, f.id);
        ve!(x.attacker_flag, a.active); ve!(x.attacker, a.id); ve!(x.victim_flag, c.active); ve!(x.victim, c.id);
        p.check(&x.attack_velocity); q.check(&x.victim_velocity)
    });
both!(c12_demolish_extended, c15_demolish_extended, "TAGame.Car_TA:ReplicatedDemolishExtended",
    |v| [a = Act::sym(), c = Act::sym(), f = flag(), g = Act::sym(), h = Act::sym(), i = Act::sym(), p = Vec3::some(v.net()), q = p.next(v.net())],
    |b| { a.enc(b); c.enc(b); b.bit(f); g.enc(b); h.enc(b); i.enc(b); p.enc(b, v.net()); q.enc(b, v.net()) },
    Attribute::DemolishExtended(x) => {
        a.check(&x.attacker_pri); c.check(&x.self_demo); ve!(x.self_demolish, f); g.check(&x.goal_explosion_owner); h.check(&x.attacker); i.check(&x.victim);
        p.check(&x.attacker_velocity); q.check(&x.victim_velocity)
    });
both!(c12_explosion, c15_explosion, "TAGame.Ball_TA:ReplicatedExplosionData", |v| [a = Act::sym(), p = Vec3::some(v.net())],
    |b| { a.enc(b); p.enc(b, v.net()) },
    Attribute::Explosion(x) => { ve!(x.flag, a.active); ve!(x.actor, a.id); p.check(&x.location) });
both!(c12_extended_explosion, c15_extended_explosion, "TAGame.Ball_TA:ReplicatedExplosionDataExtended", |v| [a = Act::sym(), p = Vec3::some(v.net()), s = Act::sym()],
    |b| { a.enc(b); p.enc(b, v.net()); s.enc(b) },
    Attribute::ExtendedExplosion(x) => { ve!(x.explosion.flag, a.active); ve!(x.explosion.actor, a.id); p.check(&x.explosion.location); ve!(x.unknown1, s.active); ve!(x.secondary_actor, s.id) });
