//! C12: the typed wire codec. Oracle: LEB128 and zig-zag from their definitions, values compared structurally.
use logicaffeine_data::wire::*;
use logicaffeine_data::LogosSeq;
use vh::{Rng, H};

fn leb(mut x: u64) -> Vec<u8> { let mut o = vec![]; loop { let b = (x % 128) as u8; x /= 128; if x == 0 { o.push(b); return o; } o.push(b + 128); } }

#[derive(Clone, Debug)]
enum V { I(i64), B(bool), F(f64), S(String), L(Vec<V>), N(i64, String, f64, bool, Vec<i64>, Option<Box<V>>) }
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::I(a), V::I(b)) => a == b, (V::B(a), V::B(b)) => a == b, (V::F(a), V::F(b)) => a.to_bits() == b.to_bits(), (V::S(a), V::S(b)) => a == b, (V::L(a), V::L(b)) => a == b,
            (V::N(a, b, c, d, e, f), V::N(a2, b2, c2, d2, e2, f2)) => a == a2 && b == b2 && c.to_bits() == c2.to_bits() && d == d2 && e == e2 && f == f2, _ => false,
        }
    }
}
// the shape of the impls the code generator emits for an algebraic type
impl WireEncode for V {
    fn wire_encode(&self, out: &mut Vec<u8>) {
        match self {
            V::I(x) => { write_inductive_header(out, "V", "I", 1); x.wire_encode(out) }
            V::B(x) => { write_inductive_header(out, "V", "B", 1); x.wire_encode(out) }
            V::F(x) => { write_inductive_header(out, "V", "F", 1); x.wire_encode(out) }
            V::S(x) => { write_inductive_header(out, "V", "S", 1); x.wire_encode(out) }
            V::L(x) => { write_inductive_header(out, "V", "L", 1); x.wire_encode(out) }
            V::N(a, b, c, d, e, f) => { write_inductive_header(out, "V", "N", 5 + f.is_some() as u64); a.wire_encode(out); b.wire_encode(out); c.wire_encode(out); d.wire_encode(out); LogosSeq::from_vec(e.clone()).wire_encode(out); if let Some(f) = f { f.wire_encode(out) } }
        }
    }
}
impl WireDecode for V {
    fn wire_decode(buf: &[u8], pos: &mut usize) -> Option<V> {
        let (t, c, n) = read_inductive_header(buf, pos)?;
        if t != "V" { return None; }
        Some(match (c.as_str(), n) {
            ("I", 1) => V::I(i64::wire_decode(buf, pos)?), ("B", 1) => V::B(bool::wire_decode(buf, pos)?), ("F", 1) => V::F(f64::wire_decode(buf, pos)?),
            ("S", 1) => V::S(String::wire_decode(buf, pos)?), ("L", 1) => V::L(Vec::wire_decode(buf, pos)?),
            ("N", n) if n == 5 || n == 6 => V::N(i64::wire_decode(buf, pos)?, String::wire_decode(buf, pos)?, f64::wire_decode(buf, pos)?, bool::wire_decode(buf, pos)?, LogosSeq::<i64>::wire_decode(buf, pos)?.to_vec(), if n == 6 { Some(Box::wire_decode(buf, pos)?) } else { None }),
            _ => return None,
        })
    }
}
fn text(r: &mut Rng) -> String { let m = if r.chance(1, 10) { 300 } else { 9 }; let n = r.us(m); (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', '\0', 'é', 'ß', '日', '😀', '\u{10FFFF}', '\u{7f}', '\u{80}'])).collect() }
fn float(r: &mut Rng) -> f64 { f64::from_bits(match r.below(4) { 0 => r.edge(), 1 => (r.range(-1000, 1000) as f64).to_bits(), 2 => 0x7ff0_0000_0000_0000 | (r.u64() >> r.below(64)), _ => r.u64() }) }
fn val(r: &mut Rng, d: u32) -> V {
    match r.below(if d == 0 { 4 } else { 6 }) {
        0 => V::I(r.edge() as i64), 1 => V::B(r.bool()), 2 => V::F(float(r)), 3 => V::S(text(r)),
        4 => { let n = r.us(5); V::L((0..n).map(|_| val(r, d - 1)).collect()) }
        _ => { let m = if r.chance(1, 20) { 400 } else { 6 }; let n = r.us(m); V::N(r.edge() as i64, text(r), float(r), r.bool(), (0..n).map(|_| r.edge() as i64).collect(), if r.bool() { Some(Box::new(val(r, d - 1))) } else { None }) }
    }
}
fn trip<T: WireEncode + WireDecode>(h: &mut H, key: &str, t: &T, same: impl Fn(&T, &T) -> bool, show: impl Fn() -> String) -> Option<Vec<u8>> {
    let pre = h.rng.us(4); let mut out = vec![0xAA; pre];
    h.guard(key, &show, || t.wire_encode(&mut out))?;
    let enc = out.clone(); let post = h.rng.us(4); out.extend(vec![0xFF; post]);
    let mut p = pre;
    let back = h.guard(key, &show, || T::wire_decode(&out, &mut p))?;
    h.check(back.as_ref().map(|b| same(b, t)).unwrap_or(false), &format!("{key}-roundtrip"), || "decoding the encoding does not give the value back".into(), || format!("{} bytes {:02x?}", show(), &enc[pre..]));
    h.check(p == enc.len(), &format!("{key}-consumed"), || format!("decoder stopped at {p}, the encoding ends at {}", enc.len()), &show);
    for cut in [enc.len() - 1, pre + h.rng.us(enc.len() - pre)] {
        let mut p = pre; let b = &enc[..cut];
        if let Some(o) = h.guard(key, || format!("{} cut at {cut}", show()), || T::wire_decode(b, &mut p)) {
            h.check(o.is_none(), &format!("{key}-truncated"), || "a truncated encoding was accepted".into(), || format!("{} cut to {:02x?}", show(), &b[pre..]));
        }
    }
    Some(enc[pre..].to_vec())
}

pub fn c12(h: &mut H) {
    h.rounds("varint", 2.0, 60_000, |h| {
        let x = h.rng.edge(); let cs = format!("{x:#x}"); h.case(&cs, x >= 128);
        let mut b = vec![]; write_uvarint(x, &mut b);
        h.check(b == leb(x), "varint-bytes", || format!("{b:02x?}, LEB128 is {:02x?}", leb(x)), || cs.clone());
        let mut p = 0; let g = read_uvarint(&b, &mut p);
        h.check(g == Some(x) && p == b.len(), "varint-roundtrip", || format!("{g:?} at {p}"), || cs.clone());
        for c in 0..b.len() { let mut p = 0; h.check(read_uvarint(&b[..c], &mut p).is_none(), "varint-truncated", || format!("accepted {c} bytes"), || cs.clone()); }
        let i = x as i64; let z = if i >= 0 { i as u128 * 2 } else { (-(i as i128)) as u128 * 2 - 1 } as u64;
        h.check(zigzag(i) == z && unzigzag(z) == i, "zigzag", || format!("zigzag {} unzigzag {}", zigzag(i), unzigzag(z)), || i.to_string());
    });
    h.rounds("varint-hostile", 1.5, 40_000, |h| {
        let n = h.rng.us(14); let mut b = h.rng.bytes(n); if h.rng.bool() { for x in b.iter_mut() { if h.rng.chance(4, 5) { *x |= 0x80; } } }
        let cs = format!("{b:02x?}"); h.case(&cs, n > 1);
        let mut p = 0; let Some(g) = h.guard("varint", || cs.clone(), || read_uvarint(&b, &mut p)) else { return };
        h.check(p <= b.len(), "varint-past-end", || format!("pos {p}"), || cs.clone());
        let end = b.iter().position(|x| x & 0x80 == 0);
        let exact = end.and_then(|e| { let mut v = 0u128; for i in (0..=e.min(17)).rev() { v = v << 7 | (b[i] & 0x7f) as u128; } if e <= 17 && v <= u64::MAX as u128 && e < 10 { Some(v as u64) } else { None } });
        // a value that needs more than 64 bits may be refused; a value that fits must be read as itself
        if let Some(v) = exact { h.check(g == Some(v), "varint-value", || format!("read {g:?}, the bytes denote {v}"), || cs.clone()); }
        if end.is_none() { h.check(g.is_none(), "varint-truncated", || format!("{g:?}"), || cs.clone()); }
    });
    h.rounds("scalars", 2.0, 30_000, |h| {
        let i = h.rng.edge() as i64; h.case(&format!("int {i}"), true);
        if let Some(e) = trip(h, "int", &i, |a, b| a == b, || i.to_string()) { let z = if i >= 0 { i as u128 * 2 } else { (-(i as i128)) as u128 * 2 - 1 } as u64; let mut w = vec![T_INT]; w.extend(leb(z)); h.check(e == w, "int-bytes", || format!("{e:02x?}"), || i.to_string()); }
        let f = float(&mut h.rng); trip(h, "float", &f, |a, b| a.to_bits() == b.to_bits(), || format!("{:#x}", f.to_bits()));
        let b = h.rng.bool(); trip(h, "bool", &b, |a, b| a == b, || b.to_string());
        let s = text(&mut h.rng); trip(h, "text", &s, |a, b| a == b, || format!("{s:?}"));
    });
    h.rounds("values", 4.0, 30_000, |h| {
        let v = val(&mut h.rng, 3); let cs = format!("{v:?}"); h.case(&cs, cs.len() > 8);
        let Some(e) = trip(h, "value", &v, |a, b| a == b, || cs.clone()) else { return };
        // damage the bytes: a rejection or a value, no panic, position inside the input
        for _ in 0..4 {
            let mut b = e.clone();
            for _ in 0..1 + h.rng.us(3) { let k = h.rng.us(b.len()); match h.rng.below(4) { 0 => b[k] = h.rng.u64() as u8, 1 => b[k] ^= 1 << h.rng.below(8), 2 => { b.insert(k, h.rng.u64() as u8); } _ => { if b.len() > 1 { b.remove(k); } } } }
            let c2 = format!("{b:02x?}"); let mut p = 0;
            if let Some(g) = h.guard("hostile", || c2.clone(), || V::wire_decode(&b, &mut p)) { h.tick(); h.check(p <= b.len(), "hostile-past-end", || format!("pos {p} of {}", b.len()), || c2.clone()); if g.is_some() { h.count("hostile-accepted"); } else { h.count("hostile-rejected"); } }
        }
    });
    h.rounds("hostile-lists", 1.5, 20_000, |h| {
        let mut b = vec![T_LIST]; b.extend(leb(h.rng.edge())); for _ in 0..h.rng.us(6) { b.push(*h.rng.pick(&[T_INT, 0, 1, 0x80, 0xff])); }
        let cs = format!("{b:02x?}"); h.case(&cs, true); let mut p = 0;
        h.guard("list", || cs.clone(), || Vec::<i64>::wire_decode(&b, &mut p)); h.check(p <= b.len(), "list-past-end", || format!("{p}"), || cs.clone());
        let mut b = vec![T_TEXT]; b.extend(leb(h.rng.edge())); let k = h.rng.us(6); b.extend(h.rng.bytes(k));
        let cs = format!("{b:02x?}"); let mut p = 0; h.guard("text", || cs.clone(), || String::wire_decode(&b, &mut p)); h.check(p <= b.len(), "text-past-end", || format!("{p}"), || cs.clone());
    });
}
