//! C05: option setters, defaults, network policies.
use crate::docs::*;
use crate::enc::*;
use crate::*;
use boxcars::crc::calc_crc;
use boxcars::*;
const M: u32 = 5;

/// documents on which every configuration can be told apart
fn probe(k: u64) -> Vec<u8> {
    let mut d = modern();
    match k {
        // everything fine
        0 => {
            let (a, b) = (calc_crc(&d.h), calc_crc(&d.b));
            d.with_crc(a, b)
        }
        // wrong checksums, everything parses
        1 => d.with_crc(1, 2),
        // header does not parse and its checksum is wrong
        2 => {
            let n = d.h.len();
            d.h[n - 5] = b'X';
            d.with_crc(1, 2)
        }
        // network data does not parse, checksums right
        3 => {
            d.b[d.net.0 + 3] = 0xff;
            let (a, b) = (calc_crc(&d.h), calc_crc(&d.b));
            d.with_crc(a, b)
        }
        // body does not parse, its checksum is wrong
        _ => {
            let n = d.b.len();
            d.b.truncate(n - 2);
            let a = calc_crc(&d.h);
            d.with_crc(a, 2)
        }
    }
}

/// outcome class a configuration must show on a probe
fn expect(k: u64, crc: u64, net: u64) -> u32 {
    const OK_FRAMES: u32 = 1;
    const OK_NONE: u32 = 2;
    match (k, crc) {
        (0, _) => {
            if net == 2 {
                OK_NONE
            } else {
                OK_FRAMES
            }
        }
        (1 | 2 | 4, 0) => 3,
        (1, _) => {
            if net == 2 {
                OK_NONE
            } else {
                OK_FRAMES
            }
        }
        (2 | 4, 1) => 4,
        (2 | 4, _) => 5,
        _ => {
            if net == 0 {
                6
            } else {
                OK_NONE
            }
        }
    }
}
fn class(r: &Res) -> u32 {
    match r {
        Ok(x) if x.network_frames.is_some() => 1,
        Ok(_) => 2,
        Err(ParseError::CrcMismatch(..)) => 3,
        Err(ParseError::CorruptReplay(..)) => 4,
        Err(ParseError::NetworkError(_)) => 6,
        Err(_) => 5,
    }
}

/// apply a setter; crc 0 always, 1 on error, 2 never; network 0 must, 1 ignore, 2 never
fn set<'a>(b: ParserBuilder<'a>, s: u64, crc: &mut u64, net: &mut u64) -> ParserBuilder<'a> {
    match s {
        0 => {
            *crc = 0;
            b.always_check_crc()
        }
        1 => {
            *crc = 1;
            b.on_error_check_crc()
        }
        2 => {
            *crc = 2;
            b.never_check_crc()
        }
        3 => {
            *crc = 0;
            b.with_crc_check(CrcCheck::Always)
        }
        4 => {
            *crc = 1;
            b.with_crc_check(CrcCheck::OnError)
        }
        5 => {
            *crc = 2;
            b.with_crc_check(CrcCheck::Never)
        }
        6 => {
            *net = 0;
            b.must_parse_network_data()
        }
        7 => {
            *net = 1;
            b.ignore_network_data_on_error()
        }
        8 => {
            *net = 2;
            b.never_parse_network_data()
        }
        9 => {
            *net = 0;
            b.with_network_parse(NetworkParse::Always)
        }
        10 => {
            *net = 1;
            b.with_network_parse(NetworkParse::IgnoreOnError)
        }
        11 => {
            *net = 2;
            b.with_network_parse(NetworkParse::Never)
        }
        _ => b,
    }
}

// sequences of setters: the last call of each kind wins, defaults otherwise
entry!(c05_setters, {
    let s1 = vp::first(13);
    let (mut crc, mut net) = (1, 1);
    let s2 = vp::choose(13);
    let s3 = if vp::thorough() { vp::choose(13) } else { [12, 0, 5, 6, 11][vp::choose(5) as usize] };
    let k = vp::choose(5);
    let data = probe(k);
    let mut b = ParserBuilder::new(&data);
    b = set(b, s1, &mut crc, &mut net);
    b = set(b, s2, &mut crc, &mut net);
    b = set(b, s3, &mut crc, &mut net);
    // a clone behaves the same
    let r = if vp::thorough() && vp::choose(2) == 1 { b.clone().parse() } else { b.parse() };
    va!(class(&r) == expect(k, crc, net));
    cov!();
    core::mem::forget(r);
});

/// symbolic checksums: the default equals the explicit on-error and ignore-errors policies
fn twice(data: &[u8]) {
    let a = ParserBuilder::new(data).parse();
    let b = ParserBuilder::new(data).with_crc_check(CrcCheck::OnError).with_network_parse(NetworkParse::IgnoreOnError).parse();
    same_result(&a, &b);
    cov!();
    core::mem::forget((a, b));
}
entry!(c05_default, {
    let k = vp::first(4);
    let mut d = pick(vp::choose(3));
    match k {
        0 => {}
        1 => {
            let n = d.h.len();
            d.h[n - 7] = vp::u8_();
        }
        2 => {
            let n = d.b.len();
            d.b.truncate(n - 1);
        }
        _ => {
            let i = d.net.0 + 3;
            d.b[i] = vp::u8_();
        }
    }
    twice(&d.with_crc(vp::u32_(), vp::u32_()));
});

/// relation between the three network policies on the same bytes
fn policies(data: &[u8], crc: CrcCheck) {
    let must = parse_with(data, crc, NetworkParse::Always);
    let ignore = parse_with(data, crc, NetworkParse::IgnoreOnError);
    let never = parse_with(data, crc, NetworkParse::Never);
    match (&must, &ignore, &never) {
        (Ok(m), Ok(i), Ok(n)) => {
            va!(m.network_frames.is_some());
            va!(n.network_frames.is_none());
            same_frames(&m.network_frames, &i.network_frames);
            same_but_frames(m, i);
            same_but_frames(m, n);
            cov!();
        }
        (Err(ParseError::NetworkError(_)), Ok(i), Ok(n)) => {
            va!(i.network_frames.is_none());
            va!(n.network_frames.is_none());
            same_but_frames(i, n);
            cov!();
        }
        (Err(a), Err(b), Err(c)) => {
            va!((a == b) & (b == c));
            va!(!matches!(a, ParseError::NetworkError(_)));
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget((must, ignore, never));
}

// network data of arbitrary bytes
entry!(c05_any_network, {
    let n = vp::first(12) as usize;
    let n = if n > 10 && !vp::thorough() { 10 } else { n };
    let mut net = vec![0u8; n];
    vp::sym(&mut net);
    let frames = [0, 1, 2][vp::choose(3) as usize];
    let h = crate::c16::header(MODERN, Some(frames), Some(4));
    let data = file(&h, &net_body(&net, &["TAGame.PRI_TA", "Engine.Pawn:RemoteViewPitch"], &[(0, &[(1, 0)])]));
    policies(&data, CrcCheck::Never);
});
// one byte of the network data of a rich replay is arbitrary
entry!(c05_one_byte, {
    let u = vp::first(12);
    let mut d = pick(u % 3);
    let j = d.net.0 + vp::choose((d.net.1 - d.net.0) as u64) as usize;
    vp::assume(j % 4 == u as usize / 3);
    d.b[j] = vp::u8_();
    policies(&d.file(), CrcCheck::OnError);
});
// declared frame counts, objects and caches that the network decoder rejects
entry!(c05_footer, {
    let k = vp::first(6);
    let net = network(MODERN);
    let mut frames = 5;
    let mut objs: Vec<&str> = NET_OBJS.to_vec();
    let mut cache: Vec<(i32, &[(i32, i32)])> = NET_CACHE.to_vec();
    let ids = [-1, 0, 3, 1000, i32::MAX, i32::MIN];
    let extra = [(if k == 3 { vp::i32_() } else { 0 }, ids[if k == 3 { vp::choose(6) as usize } else { 0 }])];
    match k {
        0 => frames = vp::i32_(),
        1 => objs.truncate(4),
        2 => cache.truncate(1),
        3 => cache.push((0, &extra)),
        4 => cache[1].0 = [-1, 0, 1, 9, 1000, i32::MAX, i32::MIN][vp::choose(7) as usize],
        _ => objs.clear(),
    }
    let h = crate::c16::header(MODERN, Some(frames), Some(1023));
    policies(&file(&h, &net_body(&net, &objs, &cache)), CrcCheck::Never);
});
// a fault outside of the network data is reported alike under every network policy
entry!(c05_outside, {
    let k = vp::first(2);
    let d = modern();
    let mut e = d.clone();
    let s = if k == 0 { &mut e.h } else { &mut e.b };
    let n = s.len();
    let cut = vp::choose(n as u64) as usize;
    if !vp::thorough() {
        vp::assume(cut % 16 == 3);
    }
    s.truncate(cut);
    policies(&e.file(), [CrcCheck::Never, CrcCheck::OnError, CrcCheck::Always][vp::choose(3) as usize]);
});
// declared section sizes and checksums of every relation to the contents, under every checksum policy
entry!(c05_sized, {
    let u = vp::first(9);
    let d = pick(vp::choose(3));
    let k = vp::choose(2);
    let s = if k == 0 { &d.h } else { &d.b };
    let n = [0, 1, s.len() / 2, s.len() - 1, s.len(), s.len() + 1, s.len() + 5, s.len() + 6, 0x7fff_ffff][u as usize] as i32;
    let right = vp::choose(2) == 1;
    let mut w = W::new();
    let crc = |data: &[u8], n: usize| if n <= data.len() { calc_crc(&data[..n]) } else { 0 };
    let mut rest = W::new();
    if k == 0 {
        let c = calc_crc(&d.b);
        section(&mut rest, &d.b, c);
        let mut all = d.h.clone();
        all.extend_from_slice(&rest.b);
        w.i32(n).u32(if right { crc(&all, n as usize) } else { vp::u32_() }).raw(&all);
    } else {
        let c = calc_crc(&d.h);
        section(&mut w, &d.h, c);
        let mut all = d.b.clone();
        all.extend_from_slice(&[7; 5]);
        w.i32(n).u32(if right { crc(&all, n as usize) } else { vp::u32_() }).raw(&all);
    }
    policies(&w.b, [CrcCheck::Never, CrcCheck::OnError, CrcCheck::Always][vp::choose(3) as usize]);
});
