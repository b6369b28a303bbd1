//! C14: loadouts and products.
use crate::attr::*;
use crate::c13::Txt;
use crate::enc::*;
use crate::parts::*;
use crate::*;
use boxcars::*;
const M: u32 = 14;

#[derive(Clone, Copy)]
struct Load {
    v: u8,
    f: [u32; 16],
}
impl Load {
    fn sym() -> Load {
        let mut f = [0u32; 16];
        for x in f.iter_mut() {
            *x = vp::u32_();
        }
        Load { v: vp::u8_(), f }
    }
    fn enc(&self, b: &mut Bits) {
        b.u8(self.v);
        for i in 0..7 {
            b.u32(self.f[i]);
        }
        if self.v > 10 {
            b.u32(self.f[7]);
        }
        if self.v >= 16 {
            b.u32(self.f[8]).u32(self.f[9]).u32(self.f[10]);
        }
        if self.v >= 17 {
            b.u32(self.f[11]);
        }
        if self.v >= 19 {
            b.u32(self.f[12]);
        }
        if self.v >= 22 {
            b.u32(self.f[13]).u32(self.f[14]).u32(self.f[15]);
        }
    }
    fn check(&self, x: &Loadout) {
        ve!(x.version, self.v);
        let g = [x.body, x.decal, x.wheels, x.rocket_trail, x.antenna, x.topper, x.unknown1];
        for i in 0..7 {
            ve!(g[i], self.f[i]);
        }
        let o = |x: Option<u32>, i: usize, has: bool| match x {
            Some(y) => {
                va!(has);
                ve!(y, self.f[i]);
            }
            None => va!(!has),
        };
        o(x.unknown2, 7, self.v > 10);
        o(x.engine_audio, 8, self.v >= 16);
        o(x.trail, 9, self.v >= 16);
        o(x.goal_explosion, 10, self.v >= 16);
        o(x.banner, 11, self.v >= 17);
        o(x.product_id, 12, self.v >= 19);
    }
}

attr!(c14_loadout, "TAGame.PRI_TA:ClientLoadout", |v| [l = Load::sym()], |b| l.enc(b), Attribute::Loadout(x) => { l.check(x) });
attr!(c14_team_loadout, "TAGame.PRI_TA:ClientLoadouts", |v| [l = Load::sym(), m = Load::sym()], |b| { l.enc(b); m.enc(b) }, Attribute::TeamLoadout(x) => { l.check(&x.blue); m.check(&x.orange) });

const PRODUCTS: [&str; 6] = [
    "TAGame.ProductAttribute_UserColor_TA",
    "TAGame.ProductAttribute_Painted_TA",
    "TAGame.ProductAttribute_TitleID_TA",
    "TAGame.ProductAttribute_SpecialEdition_TA",
    "TAGame.ProductAttribute_TeamEdition_TA",
    "TAGame.ProductAttribute_Other_TA",
];

/// one product: kind 0..6 as above, 6 = an object id that is none of the list
#[derive(Clone)]
struct Prod {
    unknown: bool,
    kind: u64,
    has: bool,
    val: u64,
    txt: Txt,
    other: i32,
    /// object id other than that of the full list
    place: Option<i32>,
}
impl Prod {
    fn sym(kind: u64) -> Prod {
        let txt = if kind == 2 { Txt::sym([0, 2, 3, 4][vp::choose(4) as usize]) } else { Txt::Nothing };
        let other = vp::i32_();
        if kind == 6 {
            // any id that is not one of the product attributes
            vp::assume((other < 3) | (other >= 8));
        }
        Prod { unknown: flag(), kind, has: flag(), val: vp::u64_(), txt, other, place: None }
    }
    fn obj(&self) -> i32 {
        if let Some(p) = self.place {
            p
        } else if self.kind == 6 {
            self.other
        } else {
            3 + self.kind as i32
        }
    }
    fn enc(&self, b: &mut Bits, v: Ver) {
        b.bit(self.unknown).i32(self.obj());
        match self.kind {
            0 => {
                if v.ge(868, 23, 8) {
                    b.put(self.val, 32);
                } else {
                    b.bit(self.has);
                    if self.has {
                        b.put(self.val, 31);
                    }
                }
            }
            1 | 4 => {
                if v.ge(868, 18, 0) {
                    b.put(self.val, 31);
                } else {
                    b.bounded(self.old(), 14);
                }
            }
            2 => self.txt.enc(b),
            3 => {
                b.put(self.val, 31);
            }
            _ => {}
        }
    }
    /// below 14
    fn old(&self) -> u64 {
        let x = self.val & 15;
        if x >= 14 {
            x - 8
        } else {
            x
        }
    }
    fn check(&self, p: &Product, v: Ver) {
        ve!(p.unknown, self.unknown);
        ve!(p.object_ind, self.obj());
        let w31 = (self.val & 0x7fff_ffff) as u32;
        match (&p.value, self.kind) {
            (ProductValue::NewColor(x), 0) => {
                va!(v.ge(868, 23, 8));
                ve!(*x, self.val as u32);
                cov!();
            }
            (ProductValue::OldColor(x), 0) => {
                va!(!v.ge(868, 23, 8));
                va!(self.has);
                ve!(*x, w31);
                cov!();
            }
            (ProductValue::NoColor, 0) => {
                va!(!v.ge(868, 23, 8));
                va!(!self.has);
                cov!();
            }
            (ProductValue::NewPaint(x), 1) => {
                va!(v.ge(868, 18, 0));
                ve!(*x, w31);
                cov!();
            }
            (ProductValue::OldPaint(x), 1) => {
                va!(!v.ge(868, 18, 0));
                ve!(*x, self.old() as u32);
                cov!();
            }
            (ProductValue::NewTeamEdition(x), 4) => {
                va!(v.ge(868, 18, 0));
                ve!(*x, w31);
                cov!();
            }
            (ProductValue::OldTeamEdition(x), 4) => {
                va!(!v.ge(868, 18, 0));
                ve!(*x, self.old() as u32);
                cov!();
            }
            (ProductValue::Title(s), 2) => {
                self.txt.check(s);
                cov!();
            }
            (ProductValue::SpecialEdition(x), 3) => {
                ve!(*x, w31);
                cov!();
            }
            (ProductValue::Absent, 5) | (ProductValue::Absent, 6) => cov!(),
            _ => va!(false),
        }
    }
}

fn enc_lists(l: &[Vec<Prod>], b: &mut Bits, v: Ver) {
    b.u8(l.len() as u8);
    for x in l {
        b.u8(x.len() as u8);
        for p in x {
            p.enc(b, v);
        }
    }
}
fn check_lists(l: &[Vec<Prod>], g: &[Vec<Product>], v: Ver) {
    va!(l.len() == g.len());
    if l.len() != g.len() {
        return;
    }
    for (x, y) in l.iter().zip(g) {
        va!(x.len() == y.len());
        if x.len() != y.len() {
            return;
        }
        for (p, q) in x.iter().zip(y) {
            p.check(q, v);
        }
    }
}

fn env(v: Ver, attr: &str) -> Env<'_> {
    let mut e = Env::new(v, attr);
    e.extra = PRODUCTS.to_vec();
    e
}

const ONLINE: &str = "TAGame.PRI_TA:ClientLoadoutOnline";

// each kind of product by itself, every version
entry!(c14_product, {
    let kind = vp::first(7);
    let v = Ver::any();
    let l = vec![vec![Prod::sym(kind)]];
    env(v, ONLINE).anywhere().run(
        |b| enc_lists(&l, b, v),
        |x| match x {
            Attribute::LoadoutOnline(x) => check_lists(&l, x, v),
            _ => va!(false),
        },
    );
});

// shapes of the two-level list, empty ones included; versions on the sides of the thresholds
const VERS: [Ver; 4] = [Ver::new(868, 32, 10), Ver::new(868, 23, 7), Ver::new(868, 18, 0), Ver::new(868, 17, 0)];
const SHAPES: [&[usize]; 8] = [&[], &[0], &[1, 0, 2], &[0, 0, 0], &[3], &[0, 1], &[2, 2], &[1, 1, 1, 1]];

fn shape(s: usize, k0: u64) -> Vec<Vec<Prod>> {
    let mut k = k0;
    SHAPES[s]
        .iter()
        .map(|n| {
            (0..*n)
                .map(|_| {
                    k = (k + 1) % 7;
                    let mut p = Prod::sym(k);
                    if k == 2 {
                        p.txt = Txt::sym(2);
                    }
                    p
                })
                .collect()
        })
        .collect()
}

entry!(c14_loadout_online, {
    let s = vp::first(8) as usize;
    let v = VERS[vp::choose(4) as usize];
    let l = shape(s, vp::choose(7));
    env(v, ONLINE).anywhere().run(
        |b| enc_lists(&l, b, v),
        |x| match x {
            Attribute::LoadoutOnline(x) => {
                check_lists(&l, x, v);
                cov!();
            }
            _ => va!(false),
        },
    );
});
entry!(c14_loadouts_online, {
    let s = vp::first(8) as usize;
    let v = VERS[vp::choose(4) as usize];
    let (l, m) = (shape(s, 0), shape((s * 3 + 1) % 8, 3));
    let (f, g) = (flag(), flag());
    env(v, "TAGame.PRI_TA:ClientLoadoutsOnline").anywhere().run(
        |b| {
            enc_lists(&l, b, v);
            enc_lists(&m, b, v);
            b.bit(f).bit(g);
        },
        |x| match x {
            Attribute::LoadoutsOnline(x) => {
                check_lists(&l, &x.blue, v);
                check_lists(&m, &x.orange, v);
                ve!(x.unknown1, f);
                ve!(x.unknown2, g);
                cov!();
            }
            _ => va!(false),
        },
    );
});

// many slots, and many products in one slot
const MANY: [usize; 16] = [5, 6, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255];
entry!(c14_many, {
    let n = MANY[vp::first(16) as usize];
    let v = VERS[vp::choose(2) as usize];
    // fillers that differ from their neighbours, symbolic ones at the start, inside and at the end
    let item = |i: usize| {
        if i == 0 || i == n / 2 || i + 1 == n {
            Prod::sym([1, 3, 0][i % 3])
        } else {
            Prod { unknown: i & 1 == 1, kind: 5 - (i % 3 == 0) as u64 * 2, has: false, val: i as u64 * 0x1357, txt: Txt::Nothing, other: 0, place: None }
        }
    };
    let l: Vec<Vec<Prod>> = match vp::choose(3) {
        // one full slot between two others
        0 => vec![vec![Prod::sym(3)], (0..n).map(item).collect(), vec![Prod::sym(1)]],
        // n slots of at most one product
        1 => (0..n).map(|i| if i % 5 == 3 { vec![] } else { vec![item(i)] }).collect(),
        // n slots, all but the last empty
        _ => (0..n).map(|i| if i + 1 < n { vec![] } else { vec![Prod::sym(3), Prod::sym(1)] }).collect(),
    };
    let other = vp::choose(2) == 1;
    let (f, g) = (flag(), flag());
    env(v, if other { "TAGame.PRI_TA:ClientLoadoutsOnline" } else { ONLINE }).run(
        |b| {
            enc_lists(&l, b, v);
            if other {
                enc_lists(&l, b, v);
                b.bit(f).bit(g);
            }
        },
        |x| match x {
            Attribute::LoadoutOnline(x) => {
                va!(!other);
                check_lists(&l, x, v);
                cov!();
            }
            Attribute::LoadoutsOnline(x) => {
                va!(other);
                check_lists(&l, &x.blue, v);
                check_lists(&l, &x.orange, v);
                ve!(x.unknown1, f);
                ve!(x.unknown2, g);
                cov!();
            }
            _ => va!(false),
        },
    );
});

// object lists that lack some of the product attributes: the name of the object decides, nothing else
entry!(c14_absent, {
    let present = vp::first(32);
    let v = VERS[vp::choose(4) as usize];
    let mut e = Env::new(v, ONLINE);
    let mut kinds = Vec::new();
    for i in 0..5 {
        if present >> i & 1 == 1 {
            e.extra.push(PRODUCTS[i]);
            kinds.push(i as u64);
        }
    }
    // an object of the list, or an id beyond it
    let n = 3 + kinds.len();
    let k = vp::choose(n as u64 + 1) as usize;
    let mut p = Prod::sym(if k >= 3 && k < n { kinds[k - 3] } else { 5 });
    if p.kind == 2 {
        p.txt = Txt::sym(2);
    }
    if p.kind == 5 {
        p.kind = 6;
    }
    let id = if k < n { k as i32 } else { vp::i32_() };
    if k == n {
        vp::assume((id < 0) | (id >= n as i32));
    }
    p.place = Some(id);
    let l = vec![vec![p]];
    e.run(
        |b| enc_lists(&l, b, v),
        |x| match x {
            Attribute::LoadoutOnline(x) => check_lists(&l, x, v),
            _ => va!(false),
        },
    );
});
