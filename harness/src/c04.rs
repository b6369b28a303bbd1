//! C04: checksum policy.
use crate::docs::*;
use crate::enc::*;
use crate::tree::ascii;
use crate::*;
use boxcars::crc::calc_crc;
use boxcars::*;
const M: u32 = 4;

const POLICIES: [CrcCheck; 3] = [CrcCheck::Always, CrcCheck::OnError, CrcCheck::Never];

/// small sections with symbolic contents
fn small() -> Doc {
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.int("X", vp::i32_()).str("None");
    let mut b = W::new();
    b.i32(1).text(&ascii(2));
    for _ in 0..9 {
        b.i32(0);
    }
    Doc { h: h.b, b: b.b, net: (0, 0) }
}

/// what the parse must give: the error of the section checks, if any
fn is_mismatch(r: &Res, stored: u32, actual: u32) {
    match r {
        Err(ParseError::CrcMismatch(a, b)) => {
            ve!(*a, stored);
            ve!(*b, actual);
            cov!();
        }
        _ => va!(false),
    }
}

// well-formed sections: always-check accepts exactly the right checksums, the others any
entry!(c04_good, {
    let p = vp::first(3) as usize;
    let d = if vp::choose(2) == 0 { small() } else { modern() };
    let (c1, c2) = (vp::u32_(), vp::u32_());
    let (h, b) = (calc_crc(&d.h), calc_crc(&d.b));
    let data = d.with_crc(c1, c2);
    let r = parse_with(&data, POLICIES[p], NetworkParse::Never);
    if p == 0 && c1 != h {
        is_mismatch(&r, c1, h);
    } else if p == 0 && c2 != b {
        is_mismatch(&r, c2, b);
    } else {
        match &r {
            Ok(x) => {
                ve!(x.header_crc, c1);
                ve!(x.content_crc, c2);
                cov!();
            }
            Err(_) => va!(false),
        }
    }
    core::mem::forget(r);
});

// corrupted contents under unchanged checksums: every bit of every section byte
entry!(c04_corrupt, {
    let d = modern();
    let u = vp::first(16);
    let (k, slice) = (u % 2, u as usize / 2);
    let (c1, c2) = (calc_crc(&d.h), calc_crc(&d.b));
    let mut e = d.clone();
    // bytes of text, counts or network data change; any of them to any other value
    let s = if k == 0 { &mut e.h } else { &mut e.b };
    let i = vp::choose(s.len() as u64 / 8 + 1) as usize * 8 + slice;
    vp::assume(i < s.len());
    // what lies behind is not needed, only that the policy reports the mismatch
    let x = vp::u8_();
    vp::assume(x != s[i]);
    s[i] = x;
    let data = e.with_crc(c1, c2);
    let r = parse_with(&data, CrcCheck::Always, NetworkParse::Never);
    match &r {
        Err(ParseError::CrcMismatch(a, b)) => {
            ve!(*a, if k == 0 { c1 } else { c2 });
            va!(*a != *b);
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget(r);
});

// the checksum covers exactly the declared number of bytes, wherever parsing ends
entry!(c04_extent, {
    let k = vp::first(2);
    let d = small();
    let tail: [u8; 6] = vp::bytes();
    let sec = if k == 0 { d.h.len() } else { d.b.len() };
    let n = match vp::choose(7) {
        0 => 0,
        1 => 1,
        2 => sec - 1,
        3 => sec,
        4 => sec + 1,
        5 => sec / 2,
        _ => sec + 6,
    };
    let c = vp::u32_();
    let mut w = W::new();
    let want;
    if k == 0 {
        w.i32(n as i32).u32(c);
        let at = w.b.len();
        w.raw(&d.h);
        let ok = calc_crc(&d.b);
        section(&mut w, &d.b, ok);
        w.raw(&tail);
        want = calc_crc(&w.b[at..at + n]);
    } else {
        let ok = calc_crc(&d.h);
        section(&mut w, &d.h, ok);
        w.i32(n as i32).u32(c);
        let at = w.b.len();
        w.raw(&d.b).raw(&tail);
        want = calc_crc(&w.b[at..at + n]);
    }
    let r = parse_with(&w.b, CrcCheck::Always, NetworkParse::Never);
    if c != want {
        is_mismatch(&r, c, want);
    } else {
        va!(r.is_ok());
        cov!();
    }
    core::mem::forget(r);
});

/// a document whose header or body does not parse, in several ways
fn broken(k: u64) -> (Doc, bool) {
    let mut d = small();
    match k {
        // unknown property kind
        0 => {
            let mut h = W::new();
            header_start(&mut h, MODERN);
            h.prop("X", "OddProperty", 0, 0).str("None");
            d.h = h.b;
            (d, true)
        }
        // text too long
        1 => {
            let mut h = W::new();
            h.i32(868).i32(32).i32(10).i32(20_000).u64(vp::u64_());
            d.h = h.b;
            (d, true)
        }
        // invalid property name
        2 => {
            let mut h = W::new();
            header_start(&mut h, MODERN);
            h.text(&[0xff]).u64(0);
            d.h = h.b;
            (d, true)
        }
        // nesting
        3 => {
            let mut h = W::new();
            header_start(&mut h, MODERN);
            h.prop("X", "ArrayProperty", 0, 0).i32(-1);
            d.h = h.b;
            (d, true)
        }
        // body: list too large
        4 => {
            let mut b = W::new();
            b.i32(30_000).u32(vp::u32_());
            d.b = b.b;
            (d, false)
        }
        // body ends early
        5 => {
            let n = d.b.len();
            d.b.truncate(n - 3);
            (d, false)
        }
        // network size beyond the body
        6 => {
            let mut b = W::new();
            b.i32(0).i32(0).i32(1000).u64(vp::u64_());
            d.b = b.b;
            (d, false)
        }
        // text too long in the footer
        7 => {
            let mut b = W::new();
            b.i32(0).i32(0).i32(0).i32(0).i32(0).i32(1).i32(-10_001).u64(0);
            d.b = b.b;
            (d, false)
        }
        // empty body
        _ => {
            d.b = vec![];
            (d, false)
        }
    }
}

// a section that does not parse: mismatch first (always), corruption or cause (on error), cause (never)
entry!(c04_broken, {
    let k = vp::first(9);
    let (d, in_header) = broken(k);
    let (h, b) = (calc_crc(&d.h), calc_crc(&d.b));
    let (c1, c2) = (vp::u32_(), vp::u32_());
    let net = [NetworkParse::Never, NetworkParse::Always][vp::choose(2) as usize];
    let data = d.with_crc(c1, c2);
    let cause = match parse_with(&data, CrcCheck::Never, net) {
        Ok(_) => {
            va!(false);
            return;
        }
        Err(e) => e,
    };
    let bad = if in_header { c1 != h } else { c2 != b };
    let p = vp::choose(2) as usize;
    let r = parse_with(&data, POLICIES[p], net);
    if p == 0 {
        if c1 != h {
            is_mismatch(&r, c1, h);
        } else if !in_header && bad {
            is_mismatch(&r, c2, b);
        } else {
            va!(r.as_ref().err() == Some(&cause));
            cov!();
        }
    } else if bad {
        match &r {
            Err(ParseError::CorruptReplay(s, e)) => {
                vbytes!(s.as_bytes(), if in_header { b"header" } else { b"body" });
                va!(**e == cause);
                cov!();
            }
            _ => va!(false),
        }
    } else {
        va!(r.as_ref().err() == Some(&cause));
        cov!();
    }
    core::mem::forget((r, cause));
});

// declared sizes that do not fit are errors of their own under every policy
entry!(c04_size, {
    let k = vp::first(2);
    let p = vp::choose(3) as usize;
    let d = small();
    let n = vp::i32_();
    let mut w = W::new();
    if k == 0 {
        w.i32(n).u32(vp::u32_()).raw(&d.h);
    } else {
        let c = calc_crc(&d.h);
        section(&mut w, &d.h, c);
        w.i32(n).u32(vp::u32_()).raw(&d.b);
    }
    let have = if k == 0 { d.h.len() } else { d.b.len() };
    vp::assume((n < 0) | (n > have as i32));
    let r = parse_with(&w.b, POLICIES[p], NetworkParse::Never);
    match &r {
        Err(ParseError::ParseError(s, _, e)) => {
            vbytes!(s.as_bytes(), if k == 0 { b"header data" } else { b"content data" });
            va!(matches!(**e, ParseError::InsufficientData(a, b) if (a == n) & (b == have as i32)));
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget(r);
});

// checksum words have no influence on the result of parsing under the lenient policies
entry!(c04_lenient, {
    let p = 1 + vp::first(2) as usize;
    let i = vp::choose(3);
    let d = pick(i);
    let (c1, c2) = (vp::u32_(), vp::u32_());
    let a = parse_with(&d.with_crc(c1, c2), POLICIES[p], NetworkParse::Always);
    let b = parse_with(&d.file(), CrcCheck::Never, NetworkParse::Always);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            let mut b = b.clone();
            b.header_crc = c1;
            b.content_crc = c2;
            same_replay(a, &b);
            core::mem::forget(b);
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget((a, b));
});

// a fault in the network data is not a fault of the body: its checksum is not consulted
entry!(c04_network_fault, {
    let p = 1 + vp::first(2) as usize;
    let mut d = modern();
    d.b[d.net.0 + 3] = 0xff; // first time becomes negative
    let (c1, c2) = (vp::u32_(), vp::u32_());
    let data = d.with_crc(c1, c2);
    match vp::choose(2) {
        0 => {
            let r = parse_with(&data, POLICIES[p], NetworkParse::Always);
            va!(matches!(&r, Err(ParseError::NetworkError(_))));
            core::mem::forget(r);
        }
        _ => {
            let r = parse_with(&data, POLICIES[p], NetworkParse::IgnoreOnError);
            va!(matches!(&r, Ok(x) if x.network_frames.is_none()));
            core::mem::forget(r);
        }
    }
    cov!();
});
