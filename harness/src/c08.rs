//! C08: body and footer sections.
use crate::enc::*;
use crate::tree::ascii;
use crate::*;
use boxcars::*;
const M: u32 = 8;

/// reference contents of a body
struct B {
    levels: Vec<Vec<u8>>,
    keyframes: Vec<(u32, i32, i32)>,
    net: Vec<u8>,
    debug: Vec<(i32, Vec<u8>, Vec<u8>)>,
    ticks: Vec<(Vec<u8>, i32)>,
    packages: Vec<Vec<u8>>,
    objects: Vec<Vec<u8>>,
    names: Vec<Vec<u8>>,
    classes: Vec<(Vec<u8>, i32)>,
    cache: Vec<(i32, i32, i32, Vec<(i32, i32)>)>,
}

fn texts(w: &mut W, l: &[Vec<u8>]) {
    w.i32(l.len() as i32);
    for t in l {
        w.text(t);
    }
}
fn texts_eq(l: &[Vec<u8>], g: &[String]) {
    va!(l.len() == g.len());
    for i in 0..l.len() {
        vbytes!(g[i].as_bytes(), &l[i]);
    }
}

impl B {
    fn sym(n: [usize; 10], props: &[usize]) -> B {
        let mut i = 0;
        let mut t = |n: usize| {
            let mut v = Vec::new();
            for _ in 0..n {
                i += 1;
                v.push(ascii(i % 3));
            }
            v
        };
        B {
            levels: t(n[0]),
            packages: t(n[5]),
            objects: t(n[6]),
            names: t(n[7]),
            keyframes: (0..n[1]).map(|_| (vp::u32_(), vp::i32_(), vp::i32_())).collect(),
            net: {
                let mut v = vec![0; n[2]];
                vp::sym(&mut v);
                v
            },
            debug: (0..n[3]).map(|i| (vp::i32_(), ascii(i), ascii(2 - i % 3))).collect(),
            ticks: (0..n[4]).map(|i| (ascii(i + 1), vp::i32_())).collect(),
            classes: (0..n[8]).map(|i| (ascii(2 - i % 3), vp::i32_())).collect(),
            cache: (0..n[9])
                .map(|i| {
                    let p = if i < props.len() { props[i] } else { 0 };
                    (vp::i32_(), vp::i32_(), vp::i32_(), (0..p).map(|_| (vp::i32_(), vp::i32_())).collect())
                })
                .collect(),
        }
    }
    fn enc(&self) -> Vec<u8> {
        let mut w = W::new();
        texts(&mut w, &self.levels);
        w.i32(self.keyframes.len() as i32);
        for k in &self.keyframes {
            w.u32(k.0).i32(k.1).i32(k.2);
        }
        w.i32(self.net.len() as i32).raw(&self.net);
        w.i32(self.debug.len() as i32);
        for d in &self.debug {
            w.i32(d.0).text(&d.1).text(&d.2);
        }
        w.i32(self.ticks.len() as i32);
        for t in &self.ticks {
            w.text(&t.0).i32(t.1);
        }
        texts(&mut w, &self.packages);
        texts(&mut w, &self.objects);
        texts(&mut w, &self.names);
        w.i32(self.classes.len() as i32);
        for t in &self.classes {
            w.text(&t.0).i32(t.1);
        }
        w.i32(self.cache.len() as i32);
        for c in &self.cache {
            w.i32(c.0).i32(c.1).i32(c.2).i32(c.3.len() as i32);
            for p in &c.3 {
                w.i32(p.0).i32(p.1);
            }
        }
        w.b
    }
    fn check(&self, r: &Replay) {
        texts_eq(&self.levels, &r.levels);
        texts_eq(&self.packages, &r.packages);
        texts_eq(&self.objects, &r.objects);
        texts_eq(&self.names, &r.names);
        va!(self.keyframes.len() == r.keyframes.len());
        for (k, g) in self.keyframes.iter().zip(&r.keyframes) {
            ve!(g.time.to_bits(), k.0);
            ve!(g.frame, k.1);
            ve!(g.position, k.2);
        }
        va!(self.debug.len() == r.debug_info.len());
        for (k, g) in self.debug.iter().zip(&r.debug_info) {
            ve!(g.frame, k.0);
            vbytes!(g.user.as_bytes(), &k.1);
            vbytes!(g.text.as_bytes(), &k.2);
        }
        va!(self.ticks.len() == r.tick_marks.len());
        for (k, g) in self.ticks.iter().zip(&r.tick_marks) {
            vbytes!(g.description.as_bytes(), &k.0);
            ve!(g.frame, k.1);
        }
        va!(self.classes.len() == r.class_indices.len());
        for (k, g) in self.classes.iter().zip(&r.class_indices) {
            vbytes!(g.class.as_bytes(), &k.0);
            ve!(g.index, k.1);
        }
        va!(self.cache.len() == r.net_cache.len());
        for (k, g) in self.cache.iter().zip(&r.net_cache) {
            ve!(g.object_ind, k.0);
            ve!(g.parent_id, k.1);
            ve!(g.cache_id, k.2);
            va!(k.3.len() == g.properties.len());
            for (p, q) in k.3.iter().zip(&g.properties) {
                ve!(q.object_ind, p.0);
                ve!(q.stream_id, p.1);
            }
        }
        cov!();
    }
    fn run(&self, net: NetworkParse) {
        let mut h = W::new();
        header_start(&mut h, MODERN);
        h.str("None");
        let r = parse_with(&file(&h.b, &self.enc()), CrcCheck::Never, net);
        match &r {
            Ok(r) => self.check(r),
            Err(_) => va!(false),
        }
        core::mem::forget(r);
    }
}

// every combination of empty and non-empty lists
entry!(c08_mix, {
    let i = vp::first(64);
    let mut n = [0usize; 10];
    for k in 0..6 {
        n[k] = (i >> k & 1) as usize;
    }
    for k in 6..10 {
        n[k] = vp::choose(2) as usize;
    }
    n[2] *= 5;
    B::sym(n, &[1]).run(NetworkParse::Never);
});
// longer lists, one kind at a time
entry!(c08_list, {
    let k = vp::first(10) as usize;
    let mut n = [1usize; 10];
    n[k] = 2 + vp::choose(if vp::thorough() { 30 } else { 6 }) as usize;
    B::sym(n, &[2]).run(NetworkParse::Never);
});
// properties of cached classes
entry!(c08_cache, {
    let a = vp::first(4) as usize;
    let b = vp::choose(4) as usize;
    let c = vp::choose(3) as usize;
    B::sym([0, 0, 0, 0, 0, 0, 0, 0, 1, 3], &[a, b, c]).run(NetworkParse::Never);
});
// network data of any size and content is skipped exactly
entry!(c08_net, {
    let n = vp::first(41) as usize;
    B::sym([1, 1, n, 1, 1, 1, 1, 1, 1, 1], &[1]).run(NetworkParse::Never);
});
// network data is not looked at when no frames are declared
entry!(c08_net_unframed, {
    let n = vp::first(12) as usize;
    B::sym([1, 0, n, 0, 1, 0, 0, 1, 0, 0], &[]).run([NetworkParse::Always, NetworkParse::IgnoreOnError][vp::choose(2) as usize]);
});
// lists of hundreds of elements
entry!(c08_long, {
    let k = vp::first(4) as usize;
    let mut n = [1usize; 10];
    let big = if vp::thorough() { 2000 } else { 300 };
    match k {
        0 => n[1] = big,
        1 => n[2] = 10 * big,
        2 => n[9] = big,
        _ => n[6] = big,
    }
    let b = if k == 3 {
        let mut b = B::sym([1, 1, 1, 1, 1, 1, 0, 1, 1, 1], &[3]);
        for i in 0..big {
            b.objects.push(vec![b'a' + (i % 26) as u8; i % 30]);
        }
        b.objects[big / 2] = ascii(5);
        b
    } else {
        B::sym(n, &[40])
    };
    b.run(NetworkParse::Never);
});

// every list at many lengths: all elements are there, in order
entry!(c08_counts, {
    let i = vp::first(20) as usize;
    let big = 25_000;
    let n = [9, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, big][i];
    let k = vp::choose(10) as usize;
    vp::assume(k != 2);
    let at = |i: usize| i == 0 || i == n / 2 || i + 1 == n;
    let txt = |i: usize| if at(i) { ascii(2) } else { vec![b'a' + (i / 2 % 26) as u8; i / 2 % 4] };
    let num = |i: usize| if at(i) { vp::i32_() } else { (i / 2) as i32 * 0x1_0001 };
    let mut b = B::sym([1; 10], &[1]);
    match k {
        0 => b.levels = (0..n).map(txt).collect(),
        1 => b.keyframes = (0..n).map(|i| (num(i) as u32, num(i), num(i))).collect(),
        3 => b.debug = (0..n).map(|i| (num(i), txt(i), txt(i))).collect(),
        4 => b.ticks = (0..n).map(|i| (txt(i), num(i))).collect(),
        5 => b.packages = (0..n).map(txt).collect(),
        6 => b.objects = (0..n).map(txt).collect(),
        7 => b.names = (0..n).map(txt).collect(),
        8 => b.classes = (0..n).map(|i| (txt(i), num(i))).collect(),
        9 => b.cache = (0..n).map(|i| (num(i), num(i), num(i), if i % 3 == 1 { vec![(num(i), num(i)); 2] } else { vec![] })).collect(),
        _ => {}
    }
    b.run(NetworkParse::Never);
});
// properties of one cached class, many of them
entry!(c08_cache_many, {
    let n = [8, 16, 17, 33, 65, 129, 257, 513][vp::first(8) as usize];
    let mut b = B::sym([1; 10], &[1]);
    let s = vp::choose(2) as usize;
    b.cache = (0..3).map(|i| (i, i + 1, i + 2, if i == s as i32 { (0..n).map(|j| if j == 0 || j + 1 == n { (vp::i32_(), vp::i32_()) } else { (j, j ^ 5) }).collect() } else { vec![(7, 7)] })).collect();
    b.run(NetworkParse::Never);
});
