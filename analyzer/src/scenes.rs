//! Long inputs: a concrete shape (lengths, markers, continuation bits) around
//! symbolic contents.
use crate::bdd::*;
use crate::int::*;
use crate::props::*;
use crate::pieces::dif_nibble;
use crate::sym::*;

pub struct Scene {
    pub root: &'static str,
    pub what: String,
    pub make: Box<dyn Fn() -> Sym>,
    pub hooks: Box<dyn Fn(&Sym) -> Hooks>,
}
fn scene(root: &'static str, what: String, make: impl Fn() -> Sym + 'static) -> Scene {
    Scene { root, what, make: Box::new(make), hooks: Box::new(|_| vec![]) }
}
impl Scene {
    fn with(self, hooks: impl Fn(&Sym) -> Hooks + 'static) -> Scene {
        Scene { hooks: Box::new(hooks), ..self }
    }
}
pub fn put(s: &mut Sym, i: usize, v: u128) {
    s.bytes[i] = Int::c(v, 8, false);
}
/// fixes bit `k` of byte `i`
pub fn put_bit(s: &mut Sym, i: usize, k: usize, v: bool) {
    let mut b = s.bytes[i].to_bits().unwrap();
    b[k] = if v { T } else { F };
    s.bytes[i] = Int::bits(b, false);
}
/// only bit `k` of byte `i` stays unknown
pub fn keep_bit(s: &mut Sym, i: usize, k: usize, rest: u128) {
    let mut b = Int::c(rest, 8, false).to_bits().unwrap();
    b[k] = s.bit(i, k);
    s.bytes[i] = Int::bits(b, false);
}
/// a length of `lo..=hi` on at most `n` bytes
pub fn between(n: usize, lo: usize) -> Sym {
    let mut s = Sym::new(n);
    s.pre = and(s.pre, s.at_least(lo));
    s
}

/// a long frame whose first (or second) length byte is `l`, with unknown checksum;
/// the data bytes are unknown entirely, or in one bit each
pub fn packet(l: usize, second: bool, full: bool) -> Scene {
    let what = format!("on {}..={} bytes with {} length byte {l}{}", l + 5, l + 7, if second { "second" } else { "first" }, if full { "" } else { ", one unknown bit per byte" });
    scene("root_packet", what, move || {
        let mut s = between(l + 7, l + 5);
        put(&mut s, 0, 0x68);
        put(&mut s, 1 + second as usize, l as u128);
        put(&mut s, 4, 0x08);
        if !full {
            for i in 5..l + 4 {
                keep_bit(&mut s, i, if l <= 40 { i % 8 } else { 5 + i % 3 }, (37 * i as u128) & 0xFF);
            }
        }
        s
    })
    .with(|_| vec![(H_MESSAGE, message_hook(Default::default()))])
}
/// any beginning of a long frame (and a byte more) as possibly incomplete input
pub fn partial_packets(th: bool) -> Vec<Scene> {
    let ls = if th { (3..=255).collect() } else { vec![3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 64, 100, 128, 255] };
    let mut v = vec![];
    for l in ls {
        for second in [false, true] {
            if second && l > 40 && !th {
                continue;
            }
            let what = format!("on up to {} bytes with {} length byte {l}", l + 7, if second { "second" } else { "first" });
            let sc = scene("root_partial", what, move || {
                let mut s = Sym::new(l + 7);
                put(&mut s, 0, 0x68);
                put(&mut s, 1 + second as usize, l as u128);
                for i in 5..l + 4 {
                    if l > 8 {
                        keep_bit(&mut s, i, if l <= 40 { i % 8 } else { 5 + i % 3 }, (37 * i as u128) & 0xFF);
                    }
                }
                s
            });
            v.push(sc.with(|_| vec![(H_MESSAGE, message_hook(Default::default()))]));
        }
    }
    v
}
/// (length, second, full)
pub fn packets(th: bool) -> Vec<(usize, bool, bool)> {
    let mut v = vec![];
    for l in 2..=255 {
        v.push((l, false, false));
        v.push((l, true, false));
    }
    let full = if th { (6..=64).chain((72..=248).step_by(8)).chain([127, 129, 250, 251, 252, 253, 254, 255]).collect() } else { vec![12, 16, 24, 32, 48, 64] };
    v.extend(full.into_iter().map(|l| (l, false, true)));
    v
}
pub fn app_message(n: usize) -> Scene {
    scene("root_app_message", format!("on {n} bytes of which the last is unknown and the others in one bit"), move || {
        let mut s = Sym::exact(n);
        for i in 0..n - 1 {
            keep_bit(&mut s, i, if i % 3 == 2 { i % 4 } else { 6 }, 0xA0 | (5 * i as u128 & 0xF));
        }
        s
    })
}
/// a data information block whose first `k` bytes are all continued
pub fn dib_chain(n: usize, k: usize) -> Scene {
    scene("root_dib", format!("on {n} bytes of which {k} are continued"), move || {
        let mut s = Sym::exact(n);
        for i in 0..n {
            put_bit(&mut s, i, 7, i < k);
        }
        s
    })
}
/// `k` continued extension bytes and a last one
pub fn vifes(n: usize, k: usize) -> Scene {
    scene("root_vifes", format!("on {n} bytes of which {k} are continued"), move || {
        let mut s = Sym::exact(n);
        for i in 0..n {
            put_bit(&mut s, i, 7, i < k);
        }
        s
    })
}
/// value information with `k` extension bytes
pub fn vib_chain(vif: u128, n: usize, k: usize) -> Scene {
    scene("root_vib", format!("on {n} bytes: value information {vif:#x} with {k} extension bytes"), move || {
        let mut s = Sym::exact(n);
        put(&mut s, 0, vif);
        for i in 1..n {
            put_bit(&mut s, i, 7, i < k);
        }
        s
    })
}
/// plain text unit of `n` characters
pub fn vib_text(n: usize, ext: bool) -> Scene {
    scene("root_vib", format!("on a plain text unit of {n} characters"), move || {
        let mut s = between(n + 4, n + 1);
        put(&mut s, 0, if ext { 0xFC } else { 0x7C });
        put(&mut s, 1, n as u128);
        for i in 2..n + 2 {
            put_bit(&mut s, i, 7, false);
        }
        s
    })
}
/// length prefixed text of `n` ASCII characters
pub fn ascii(n: usize) -> Scene {
    scene("root_ascii", format!("on {n} ASCII characters"), move || {
        let mut s = between(n + 2, n);
        put(&mut s, 0, n as u128);
        for i in 1..n + 1 {
            put_bit(&mut s, i, 7, false);
        }
        s
    })
}
/// a text record of `n` characters
pub fn text_record(n: usize) -> Scene {
    scene("root_record", format!("on a text of {n} characters"), move || {
        let mut s = between(n + 4, n + 2);
        put(&mut s, 0, 0x0D);
        put(&mut s, 1, 0x13);
        put(&mut s, 2, n as u128);
        s
    })
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Body {
    Records,
    Fillers,
    Mixed,
}
/// `k` one-byte records or fillers, then any byte, then `tail` more
pub fn frame(body: Body, k: usize, tail: usize) -> Scene {
    scene("root_frame", format!("on {k} {body:?}, one more byte and {tail} bytes after it"), move || {
        let mut s = Sym::exact(k + 1 + tail);
        for i in 0..k {
            let filler = match body {
                Body::Records => false,
                Body::Fillers => true,
                Body::Mixed => i % 3 == 1,
            };
            if filler {
                put(&mut s, i, 0x2F);
            } else {
                put(&mut s, i, 0x01);
                s.pre = and(s.pre, named(&format!("record_ok@{i}")));
            }
        }
        // what follows the body: end of data (or one last record or filler)
        let end = or_all([s.is(k, 0x1F), s.is(k, 0x0F)]);
        let last = if tail > 0 {
            end
        } else if body == Body::Fillers {
            or(end, s.is(k, 0x2F))
        } else {
            T
        };
        s.pre = and(s.pre, last);
        s
    })
    .with(move |s| if body == Body::Fillers || k == 0 { vec![] } else { vec![(H_RECORD, sub_parser(s, "record", vec![1], opq("record")))] })
}
pub fn app_error(n: usize) -> Scene {
    scene("root_app_error", format!("on manufacturer specific errors of {n} bytes"), move || {
        let mut s = Sym::exact(n);
        s.pre = s.within(0, 0xF1, 0xFF);
        s
    })
}
pub fn scenes(th: bool) -> Vec<Scene> {
    let mut v = vec![];
    for l in if th { (2..=255).collect() } else { vec![3, 4, 16, 64, 128, 200, 255] } {
        v.push(packet(l, false, false));
        v.push(packet(l, true, false));
    }
    for n in [13, 17, 20, 24, 32, 40] {
        v.push(app_message(n));
    }
    for k in [10, 11, 12, 16, 17, 18, 32, 33, 39] {
        v.push(dib_chain(40, k));
    }
    for (n, k) in [(40, 33), (130, 128), (250, 249), (250, 250)] {
        v.push(vifes(n, k));
    }
    for (vif, n, k) in [(0x93, 40, 35), (0xFB, 130, 129), (0xFD, 250, 249), (0xFF, 250, 249), (0xFE, 40, 40)] {
        v.push(vib_chain(vif, n, k));
    }
    for n in [20, 100, 255] {
        v.push(vib_text(n, false));
        v.push(ascii(n));
    }
    v.push(vib_text(60, true));
    for n in [31, 100, 191] {
        v.push(text_record(n));
    }
    for (b, k, t) in LONG_FRAMES {
        v.push(frame(*b, *k, *t));
    }
    v.push(app_error(250));
    v
}
pub const LONG_FRAMES: &[(Body, usize, usize)] =
    &[(Body::Records, 245, 0), (Body::Fillers, 245, 0), (Body::Mixed, 120, 120), (Body::Records, 0, 246), (Body::Fillers, 30, 30), (Body::Records, 40, 201), (Body::Records, 10, 0), (Body::Mixed, 64, 64)];

/// a long frame with the right checksum around a message of `n` bytes; control and
/// address are unknown
fn telegram(what: String, n: usize, fill: impl Fn(&mut Sym) + 'static) -> Scene {
    scene("root_packet", format!("on a telegram with {what}"), move || {
        let mut s = Sym::exact(n + 8);
        put(&mut s, 0, 0x68);
        put(&mut s, 1, n as u128 + 2);
        put(&mut s, 2, n as u128 + 2);
        put(&mut s, 3, 0x68);
        fill(&mut s);
        s.bytes[n + 6] = sum8(&s, 4, n + 2);
        put(&mut s, n + 7, 0x16);
        s
    })
}
fn put_all(s: &mut Sym, o: usize, v: &[u8]) {
    for (i, b) in v.iter().enumerate() {
        put(s, o + i, *b as u128);
    }
}
/// one of `v` at byte `i`
fn put_any(s: &mut Sym, i: usize, v: &[u8]) {
    let is = or_all(v.iter().map(|c| s.is(i, *c as u128)));
    s.pre = and(s.pre, is);
}
/// a record as fixed bytes (its data and value information) and a number of unknown
/// data bytes
const RECORDS: &[(&[u8], usize)] = &[
    (&[0x04, 0x13], 4),
    (&[0x0C, 0x78], 4),
    (&[0x42, 0x6C], 2),
    (&[0x2F], 0),
    (&[0x05, 0x2E], 4),
    (&[0x04, 0x6D], 4),
    (&[0x0D, 0xFD, 0x11, 0x05], 5),
    (&[0xC4, 0x91, 0x20, 0x83, 0x3C], 4),
    (&[0x01, 0xFD, 0x17], 1),
    (&[0x06, 0x93, 0x7F], 6),
    (&[0x0B, 0x7C, 0x03, 0x48, 0x52, 0x25], 3),
    (&[0x00, 0x03], 0),
    (&[0x07, 0x07], 8),
    (&[0x0D, 0x13, 0xC2], 2),
    (&[0x0D, 0x13, 0xEB], 11),
];
/// the records `pick`, in that order, then `end` and `tail` unknown bytes
fn several(ci: u8, hdr: usize, pick: Vec<usize>, end: Option<u8>, tail: usize) -> Scene {
    let n = 1 + hdr + pick.iter().map(|i| RECORDS[*i].0.len() + RECORDS[*i].1).sum::<usize>() + end.is_some() as usize + tail;
    let what = format!("control information {ci:02X}h, the records {pick:?} and {tail} more bytes");
    telegram(what, n, move |s| {
        put(s, 6, ci as u128);
        let mut o = 7 + hdr;
        for i in &pick {
            put_all(s, o, RECORDS[*i].0);
            o += RECORDS[*i].0.len() + RECORDS[*i].1;
        }
        if let Some(e) = end {
            put(s, o, e as u128);
        }
    })
}
/// records as application data alone
pub fn bodies(th: bool) -> Vec<Scene> {
    let of = |pick: Vec<usize>, end: Option<u8>, tail: i64| {
        let n = (pick.iter().map(|i| RECORDS[*i].0.len() + RECORDS[*i].1).sum::<usize>() as i64 + end.is_some() as i64 + tail) as usize;
        scene("root_frame", format!("on the records {pick:?} and {tail} more bytes"), move || {
            let mut s = Sym::exact(n);
            let mut o = 0;
            for i in &pick {
                put_all(&mut s, o, RECORDS[*i].0);
                o += RECORDS[*i].0.len() + RECORDS[*i].1;
            }
            if let Some(e) = end {
                put(&mut s, o, e as u128);
            }
            s
        })
    };
    let k = RECORDS.len();
    let mut v = vec![];
    for i in 0..k {
        v.push(of(vec![i, i], None, 0));
        v.push(of(vec![i, (i + 3) % k, (i + 7) % k, i], [None, Some(0x0F), Some(0x1F)][i % 3], 3 * (i as i64 % 3)));
        if RECORDS[i].1 > 0 {
            v.push(of(vec![(i + 5) % k, (i + 2) % k, i], None, -1));
        }
    }
    v.push(of((0..k).chain(0..k).collect(), Some(0x1F), 20));
    v.push(of(vec![11; 120], None, 0));
    v.push(of(vec![3; 240], Some(0x1F), 3));
    v.push(of((0..if th { 60 } else { 36 }).map(|i| [0, 3, 2][i % 3]).collect(), Some(0x0F), 8));
    v.push(of((0..16).map(|i| [8, 13, 6][i % 3]).collect(), None, 0));
    v
}
/// records without data whose storage, tariff and device numbers are long
pub fn chains(th: bool) -> Vec<Scene> {
    let mut v = vec![];
    for records in [1, 2] {
        for k in if th { vec![1, 2, 3, 5, 7, 8, 9, 10] } else { vec![2, 5, 10] } {
            v.push(scene("root_frame", format!("on {records} records without data and {k} extension bytes"), move || {
                let mut s = Sym::exact(records * (k + 2));
                let mut ok = vec![];
                for r in 0..records {
                    let o = r * (k + 2);
                    for i in 0..=k {
                        put_bit(&mut s, o + i, 7, i < k);
                    }
                    for i in 0..6 {
                        put_bit(&mut s, o, i, false);
                    }
                    put(&mut s, o + k + 1, 0x13);
                    // the last extension byte is not the register number marker
                    ok.push(not(s.is(o + k, 0)));
                }
                s.pre = and_all(ok);
                s
            }));
        }
    }
    v
}
pub fn telegrams(th: bool) -> Vec<Scene> {
    let mut v = vec![];
    let t = th as usize;
    for n in 1..=5 + t {
        v.push(telegram(format!("any message of {n} bytes"), n, |_| ()));
    }
    for n in 0..=4 + t {
        v.push(telegram(format!("a short header and {n} bytes"), 5 + n, |s| put_any(s, 6, &[0x5A, 0x61, 0x67, 0x6E, 0x74, 0x7A, 0x7D, 0x8A, 0xC4])));
    }
    for n in 0..=1 + t {
        v.push(telegram(format!("a long header and {n} bytes"), 13 + n, |s| put_any(s, 6, &[0x53, 0x55, 0x5B, 0x60, 0x68, 0x6C, 0x6F, 0x72, 0x75])));
    }
    // records after others
    for n in 1..=5 + t {
        v.push(telegram(format!("a record and {n} bytes"), 5 + n, |s| put_all(s, 6, &[0x78, 0x02, 0x13])));
    }
    let k = RECORDS.len();
    for i in 0..k {
        let j = (i + 4) % k;
        v.push(several(0x78, 0, vec![i, j, i], None, 0));
    }
    v.push(several(0x72, 12, vec![0, 2, 5, 8], None, 0));
    v.push(several(0x7A, 4, (0..k).collect(), None, 0));
    v.push(several(0x78, 0, (0..k).rev().collect(), Some(0x0F), 40));
    v.push(several(0x78, 0, (0..k).collect(), Some(0x1F), 40));
    v.push(several(0x7A, 4, (0..60).map(|i| [0, 2][i % 2]).take(38).collect(), Some(0x0F), 8));
    v
}
/// all inputs of one length
pub fn exact(th: bool) -> Vec<Scene> {
    let of = |root: &'static str, n: usize| scene(root, format!("on exactly {n} bytes"), move || Sym::exact(n));
    let mut v = vec![];
    for n in 6..=6 + 2 * th as usize {
        v.push(of("root_record", n));
    }
    for n in 4..=5 + 2 * th as usize {
        v.push(of("root_frame", n));
    }
    for n in 5..=6 + th as usize {
        v.push(of("root_app_error", n));
    }
    v
}
/// a record with `k` data and `m` value information extension bytes and `n` bytes of
/// data, everything else unknown; the value information is one of `vif` (0: any)
pub fn shaped(k: usize, m: usize, n: usize, lvar: bool) -> Scene {
    let what = format!("on a {} record with {k} and {m} extension bytes and {n} data bytes", if lvar { "variable length" } else { "fixed length" });
    scene("root_record", what, move || {
        let mut s = Sym::exact(2 + k + m + n);
        for i in 0..2 + k + m {
            put_bit(&mut s, i, 7, i < k || (i > k && i < 1 + k + m));
        }
        // without a plain text unit, of a fixed size
        let v = 1 + k;
        s.pre = and_all([not(s.is(v, 0x7C)), not(s.is(v, 0xFC)), if lvar { dif_nibble(&s, 0, 13) } else { not(dif_nibble(&s, 0, 13)) }]);
        s
    })
}
pub fn shapes(th: bool) -> Vec<Scene> {
    let t = th as usize;
    let mut v = vec![];
    for k in 0..=2 + t {
        for m in 0..=2 + t {
            v.push(shaped(k, m, 8, false));
        }
    }
    for (k, m) in [(10, 0), (9, 1), (0, 5), (4, 3)] {
        v.push(shaped(k, m, 8, false));
    }
    v
}
/// a record with LVAR byte `v`, its data and up to one byte less or more; as a signed
/// quantity, an unsigned one, any one of the extension table, and a date
pub fn lvar(v: u128) -> Vec<Scene> {
    let n = match v {
        0x00..=0xBF => v as usize,
        0xC0..=0xEF => v as usize & 15,
        0xF0..=0xF4 => 4 * (v as usize - 0xEC),
        0xF5 => 48,
        0xF6 => 64,
        _ => 2,
    };
    let of = |vif: u128, ext: bool| {
        scene("root_record", format!("on LVAR {v:02X}h with about {n} bytes of data after value information {vif:02X}h"), move || {
            let h = 3 + ext as usize;
            let mut s = between(n + h + 1, (n + h).saturating_sub(1).max(h));
            put(&mut s, 0, 0x0D);
            put(&mut s, 1, vif);
            if ext {
                put_bit(&mut s, 2, 7, false);
            }
            put(&mut s, h - 1, v);
            s
        })
    };
    let mut out = vec![of(0x13, false)];
    if v >= 0xC0 {
        out.push(of(0xFD, true));
        out.push(of(0x6D, false));
    }
    out
}
