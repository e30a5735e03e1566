//! C13: words and lanes against 128-bit arithmetic, lane by lane.
use logicaffeine_base::word::*;
use vh::{Rng, H};

fn m(bits: u32) -> u128 { (1u128 << bits) - 1 }
fn o_rotl(x: u128, n: u32, b: u32) -> u128 { let k = n % b; ((x << k) | (x >> (b - k))) & m(b) }
fn o_shl(x: u128, n: u32, b: u32) -> u128 { (x << (n % b)) & m(b) }
fn o_shr(x: u128, n: u32, b: u32) -> u128 { x >> (n % b) }
fn word(r: &mut Rng, bits: u32) -> u64 {
    let x = match r.below(8) {
        0 => 0, 1 => u64::MAX, 2 => 1u64 << r.below(bits as u64), 3 => (1u64 << r.below(bits as u64)).wrapping_sub(1), 4 => 1u64 << (bits - 1),
        5 => r.below(256), _ => r.u64(),
    };
    if bits == 64 { x } else { x & ((1u64 << bits) - 1) }
}
fn count(r: &mut Rng, bits: u32) -> u32 {
    match r.below(6) { 0 => 0, 1 => bits, 2 => bits - 1 + r.below(3) as u32, 3 => r.u64() as u32, 4 => u32::MAX - r.below(3) as u32, _ => r.below(bits as u64 * 2) as u32 }
}
macro_rules! word_round {
    ($h:expr, $w:ident, $p:ty, $bits:expr, $a:expr, $b:expr, $n:expr) => {{
        let (a, b, n): ($p, $p, u32) = ($a as $p, $b as $p, $n);
        let (x, y) = ($w(a), $w(b)); let (ua, ub) = (a as u128, b as u128); let mm = m($bits);
        let id = format!("{} {a:#x} {b:#x} count {n}", stringify!($w));
        macro_rules! eq { ($name:expr, $got:expr, $want:expr) => {{ let (g, w) = (($got) as u128, ($want) & mm); $h.check(g == w, concat!(stringify!($w), ".", $name), || format!("{} gives {g:#x}, expected {w:#x}", $name), || id.clone()); }} }
        eq!("get", x.get(), ua);
        eq!("add", x.add(y).get(), ua + ub);
        eq!("sub", x.sub(y).get(), (mm + 1) + ua - ub);
        eq!("mul", x.mul(y).get(), ua.wrapping_mul(ub));
        eq!("and", x.bitand(y).get(), ua & ub);
        eq!("or", x.bitor(y).get(), ua | ub);
        eq!("xor", x.bitxor(y).get(), ua ^ ub);
        eq!("not", x.not().get(), mm - ua);
        eq!("shl", x.shl(n).get(), o_shl(ua, n, $bits));
        eq!("shr", x.shr(n).get(), o_shr(ua, n, $bits));
        eq!("rotl", x.rotl(n).get(), o_rotl(ua, n, $bits));
        eq!("rotr", x.rotr(n).get(), o_rotl(ua, $bits - n % $bits, $bits));
        eq!("op+", (x + y).0, ua + ub);
        eq!("op-", (x - y).0, (mm + 1) + ua - ub);
        eq!("op*", (x * y).0, ua.wrapping_mul(ub));
        eq!("op&", (x & y).0, ua & ub);
        eq!("op|", (x | y).0, ua | ub);
        eq!("op^", (x ^ y).0, ua ^ ub);
        eq!("op!", (!x).0, mm - ua);
        eq!("op<<", (x << n).0, o_shl(ua, n, $bits));
        eq!("op>>", (x >> n).0, o_shr(ua, n, $bits));
        if ub != 0 { eq!("op/", (x / y).0, ua / ub); eq!("op%", (x % y).0, ua % ub); }
        $h.check(x.to_string() == ua.to_string(), concat!(stringify!($w), ".show"), || format!("shown as {x}"), || id.clone());
        $h.case(&id, a != 0 || b != 0);
    }};
}
fn wordvals(h: &mut H) {
    let (wa, wb) = (if h.rng.bool() { 32 } else { 64 }, if h.rng.bool() { 32 } else { 64 });
    let (a, b) = (word(&mut h.rng, 64), word(&mut h.rng, 64)); let n = count(&mut h.rng, wa);
    let (Some(x), Some(y)) = (WordVal::from_u64(wa, a), WordVal::from_u64(wb, b)) else { h.violation("wordval-from", format!("from_u64({wa}) or ({wb}) refused"), String::new()); return; };
    let (ua, ub) = (a as u128 & m(wa), b as u128 & m(wb)); let mm = m(wa);
    let id = format!("WordVal {wa}:{ua:#x} {wb}:{ub:#x} count {n}");
    h.check(x.width() == wa && x.to_u64() as u128 == ua, "wordval-value", || format!("width {} value {:#x}", x.width(), x.to_u64()), || id.clone());
    let same = wa == wb;
    let mut two = |name: &str, g: Option<WordVal>, w: u128| {
        let want = if same { Some((wa, w & mm)) } else { None };
        let got = g.map(|v| (v.width(), v.to_u64() as u128));
        h.check(got == want, &format!("wordval-{name}"), || format!("{name} gives {got:x?}, expected {want:x?}"), || id.clone());
    };
    two("add", x.add(y), ua + ub); two("sub", x.sub(y), (mm + 1 + ua).wrapping_sub(ub)); two("mul", x.mul(y), ua.wrapping_mul(ub));
    two("and", x.bitand(y), ua & ub); two("or", x.bitor(y), ua | ub); two("xor", x.bitxor(y), ua ^ ub);
    let mut one = |name: &str, v: WordVal, w: u128| { let g = (v.width(), v.to_u64() as u128); h.check(g == (wa, w & mm), &format!("wordval-{name}"), || format!("{name} gives {g:x?}, expected {w:#x}"), || id.clone()); };
    one("not", x.not(), mm - ua); one("shl", x.shl(n), o_shl(ua, n, wa)); one("shr", x.shr(n), o_shr(ua, n, wa));
    one("rotl", x.rotl(n), o_rotl(ua, n, wa)); one("rotr", x.rotr(n), o_rotl(ua, wa - n % wa, wa));
    h.check(x.to_string() == ua.to_string(), "wordval-show", || format!("shown as {x}"), || id.clone());
    let odd = h.rng.below(200) as u32;
    let ok = WordVal::from_u64(odd, a).is_some();
    h.check(ok == (odd == 32 || odd == 64), "wordval-width", || format!("from_u64 with width {odd} accepted: {ok}"), || id.clone());
    h.case(&id, true);
}
fn lanes8(h: &mut H) {
    let a: [u32; 8] = std::array::from_fn(|_| word(&mut h.rng, 32) as u32); let b: [u32; 8] = std::array::from_fn(|_| word(&mut h.rng, 32) as u32);
    let n = count(&mut h.rng, 32); let (x, y) = (Lanes8Word32(a), Lanes8Word32(b));
    let id = format!("Lanes8Word32 {a:x?} {b:x?} count {n}");
    let mut l = |name: &str, g: Lanes8Word32, f: &dyn Fn(usize) -> u128| { for i in 0..8 { let w = f(i) & m(32); let gi = g.lane(i).0 as u128; let g2 = g.to_words()[i].0 as u128; h.check(gi == w && g2 == w, &format!("l8w32-{name}"), || format!("lane {i} of {name} is {gi:#x}, expected {w:#x}"), || id.clone()); } };
    let (ua, ub) = (|i: usize| a[i] as u128, |i: usize| b[i] as u128);
    l("add", x.add(y), &|i| ua(i) + ub(i)); l("sub", x.sub(y), &|i| (1 << 32) + ua(i) - ub(i)); l("xor", x.bitxor(y), &|i| ua(i) ^ ub(i)); l("and", x.bitand(y), &|i| ua(i) & ub(i));
    l("or", x.bitor(y), &|i| ua(i) | ub(i)); l("not", x.not(), &|i| m(32) - ua(i)); l("rotl", x.rotl(n), &|i| o_rotl(ua(i), n, 32));
    l("op+", x + y, &|i| ua(i) + ub(i)); l("op-", x - y, &|i| (1 << 32) + ua(i) - ub(i)); l("op^", x ^ y, &|i| ua(i) ^ ub(i)); l("op&", x & y, &|i| ua(i) & ub(i)); l("op|", x | y, &|i| ua(i) | ub(i)); l("op!", !x, &|i| m(32) - ua(i));
    l("splat", Lanes8Word32::splat(a[0]), &|_| ua(0));
    for hh in [4usize, 2, 1] {
        l("bcast-lo", x.ntt_bcast_lo(hh), &|i| { let blk = i - i % (2 * hh); ua(blk + i % hh) });
        l("bcast-hi", x.ntt_bcast_hi(hh), &|i| { let blk = i - i % (2 * hh); ua(blk + hh + i % hh) });
        l("blend", x.ntt_blend(y, hh), &|i| if (i / hh) % 2 == 0 { ua(i) } else { ub(i) });
    }
    // Montgomery: q and qinv broadcast, as documented
    let (q, qi) = if n & 1 == 0 { (8380417i64, 58728449i64) } else { (b[0] as i32 as i64, b[1] as i32 as i64) };
    let want = |i: usize| { let p = a[i] as i32 as i128 * b[i] as i32 as i128; let t = ((p as i32 as i64).wrapping_mul(qi)) as i32 as i128; (((p - t * q as i128) >> 32) as i32 as u32) as u128 };
    l("montmul", x.montmul32(y, Lanes8Word32::splat(q as u32), Lanes8Word32::splat(qi as u32)), &want);
    let k = n as usize % 11; let ws: Vec<Word32> = (0..k).map(|i| Word32(a[i % 8] ^ i as u32)).collect();
    l("from_words", Lanes8Word32::from_words(&ws), &|i| if i < k { (a[i % 8] ^ i as u32) as u128 } else { 0 });
    h.case(&id, true);
}
fn lanes4(h: &mut H) {
    let a: [u32; 4] = std::array::from_fn(|_| word(&mut h.rng, 32) as u32); let b: [u32; 4] = std::array::from_fn(|_| word(&mut h.rng, 32) as u32);
    let f = h.rng.below(6) as u32; let (x, y) = (Lanes4Word32(a), Lanes4Word32(b));
    let id = format!("Lanes4Word32 {a:x?} {b:x?} func {f}");
    // SHA-1 by its definition (FIPS 180-4), words in time order
    let fun = |b: u32, c: u32, d: u32| match f % 4 { 0 => (b & c) ^ (!b & d), 2 => (b & c) ^ (b & d) ^ (c & d), _ => b ^ c ^ d };
    let k = [0x5a827999u32, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6][(f % 4) as usize];
    let mut s = [a[3], a[2], a[1], a[0], 0u32];
    for t in 0..4 { let tmp = s[0].rotate_left(5).wrapping_add(fun(s[1], s[2], s[3])).wrapping_add(s[4]).wrapping_add(k).wrapping_add(b[3 - t]); s = [tmp, s[0], s[1].rotate_left(30), s[2], s[3]]; }
    let rnds = [s[3], s[2], s[1], s[0]];
    let msg1 = { let w = [a[3], a[2], a[1], a[0], b[3], b[2]]; let r: Vec<u32> = (0..4).map(|t| w[t] ^ w[t + 2]).collect(); [r[3], r[2], r[1], r[0]] };
    let msg2 = { let w16 = (a[3] ^ b[2]).rotate_left(1); [(a[0] ^ w16).rotate_left(1), (a[1] ^ b[0]).rotate_left(1), (a[2] ^ b[1]).rotate_left(1), w16] };
    let nexte = [b[0], b[1], b[2], b[3].wrapping_add(a[3].rotate_left(30))];
    let mut l = |name: &str, g: [u32; 4], w: [u32; 4]| h.check(g == w, &format!("l4w32-{name}"), || format!("{name} gives {g:x?}, expected {w:x?}"), || id.clone());
    l("sha1rnds4", x.sha1rnds4(y, f).0, rnds); l("sha1msg1", x.sha1msg1(y).0, msg1); l("sha1msg2", x.sha1msg2(y).0, msg2); l("sha1nexte", x.sha1nexte(y).0, nexte);
    use logicaffeine_base::sha_ops as so;
    l("sha1rnds4-soft", so::sha1rnds4(a, b, f), rnds); l("sha1msg1-soft", so::sha1msg1(a, b), msg1); l("sha1msg2-soft", so::sha1msg2(a, b), msg2); l("sha1nexte-soft", so::sha1nexte(a, b), nexte);
    let sum = std::array::from_fn(|i| ((a[i] as u64 + b[i] as u64) & 0xffff_ffff) as u32); let xo = std::array::from_fn(|i| a[i] ^ b[i]);
    l("add", x.add(y).0, sum); l("xor", x.bitxor(y).0, xo); l("op+", (x + y).0, sum); l("op^", (x ^ y).0, xo); l("splat", Lanes4Word32::splat(a[1]).0, [a[1]; 4]);
    l("lane", std::array::from_fn(|i| x.lane(i).0), a); l("to_words", x.to_words().map(|w| w.0), a);
    let k = f as usize; let ws: Vec<Word32> = (0..k).map(|i| Word32(a[i % 4] ^ i as u32)).collect();
    l("from_words", Lanes4Word32::from_words(&ws).0, std::array::from_fn(|i| if i < k { a[i % 4] ^ i as u32 } else { 0 }));
    h.case(&id, true);
}
fn bytes16(h: &mut H) {
    let a: [u8; 16] = std::array::from_fn(|_| word(&mut h.rng, 8) as u8); let b: [u8; 16] = std::array::from_fn(|_| word(&mut h.rng, 8) as u8);
    let n = count(&mut h.rng, 8); let (x, y) = (Lanes16Word8(a), Lanes16Word8(b));
    let id = format!("Lanes16Word8 {a:x?} {b:x?} count {n}");
    let sh = h.guard("l16w8-shr-panic", || id.clone(), || x.shr_bytes(n).0);
    let mut l = |name: &str, g: [u8; 16], f: &dyn Fn(usize) -> u8| { let w: [u8; 16] = std::array::from_fn(|i| f(i)); h.check(g == w, &format!("l16w8-{name}"), || format!("{name} gives {g:x?}, expected {w:x?}"), || id.clone()) };
    if let Some(g) = sh { l("shr", g, &|i| o_shr(a[i] as u128, n, 8) as u8); }
    l("and", x.bitand(y).0, &|i| a[i] & b[i]); l("op&", (x & y).0, &|i| a[i] & b[i]); l("add", x.byte_add(y).0, &|i| ((a[i] as u32 + b[i] as u32) & 255) as u8);
    l("shuffle", x.shuffle(y).0, &|i| if b[i] >= 128 { 0 } else { a[(b[i] % 16) as usize] });
    l("interleave-lo", x.interleave_lo(y).0, &|i| if i % 2 == 0 { a[i / 2] } else { b[i / 2] }); l("interleave-hi", x.interleave_hi(y).0, &|i| if i % 2 == 0 { a[8 + i / 2] } else { b[8 + i / 2] });
    l("maddubs", x.maddubs(y).0, &|i| { let j = i & !1; let s = a[j] as i64 * b[j] as i8 as i64 + a[j + 1] as i64 * b[j + 1] as i8 as i64; (s.max(-32768).min(32767) as i16).to_le_bytes()[i & 1] });
    l("packus", x.packus(y).0, &|i| { let s = if i < 8 { &a } else { &b }; let j = 2 * (i % 8); let v = i16::from_le_bytes([s[j], s[j + 1]]); if v < 0 { 0 } else if v > 255 { 255 } else { v as u8 } });
    l("splat", Lanes16Word8::splat(a[2]).0, &|_| a[2]); l("to_bytes", x.to_bytes(), &|i| a[i]); l("lane", std::array::from_fn(|i| x.lane(i)), &|i| a[i]);
    let k = n as usize % 20; let v: Vec<u8> = (0..k).map(|i| a[i % 16] ^ i as u8).collect(); l("from_bytes", Lanes16Word8::from_bytes(&v).0, &|i| if i < k { a[i % 16] ^ i as u8 } else { 0 });
    h.case(&id, true);
}
fn lanes64(h: &mut H) {
    let a: [u64; 4] = std::array::from_fn(|_| word(&mut h.rng, 64)); let b: [u64; 4] = std::array::from_fn(|_| word(&mut h.rng, 64));
    let n = count(&mut h.rng, 64); let (x, y) = (Lanes4Word64(a), Lanes4Word64(b));
    let id = format!("Lanes4Word64 {a:x?} {b:x?} count {n}");
    let mut l = |name: &str, g: [u64; 4], f: &dyn Fn(usize) -> u128| { let w: [u64; 4] = std::array::from_fn(|i| f(i) as u64); h.check(g == w, &format!("l4w64-{name}"), || format!("{name} gives {g:x?}, expected {w:x?}"), || id.clone()) };
    let (ua, ub) = (|i: usize| a[i] as u128, |i: usize| b[i] as u128);
    l("add", x.add(y).0, &|i| ua(i) + ub(i)); l("op+", (x + y).0, &|i| ua(i) + ub(i)); l("xor", x.bitxor(y).0, &|i| ua(i) ^ ub(i)); l("op^", (x ^ y).0, &|i| ua(i) ^ ub(i)); l("and", x.and(y).0, &|i| ua(i) & ub(i)); l("op&", (x & y).0, &|i| ua(i) & ub(i));
    l("andnot", x.andnot(y).0, &|i| (m(64) - ua(i)) & ub(i)); l("rotl", x.rotl(n).0, &|i| o_rotl(ua(i), n, 64)); l("mul_lo32_wide", x.mul_lo32_wide(y).0, &|i| (ua(i) % (1 << 32)) * (ub(i) % (1 << 32)));
    l("splat", Lanes4Word64::splat(a[3]).0, &|_| ua(3)); l("to_words", x.to_words().map(|w| w.0), &ua); l("lane", std::array::from_fn(|i| x.lane(i).0), &ua);
    let k = n as usize % 7; let ws: Vec<Word64> = (0..k).map(|i| Word64(a[i % 4] ^ i as u64)).collect(); l("from_words", Lanes4Word64::from_words(&ws).0, &|i| if i < k { ua(i % 4) ^ i as u128 } else { 0 });
    let s = ((0..4).map(ua).sum::<u128>() & m(64)) as u64; let g = x.hsum();
    h.check(g == s, "l4w64-hsum", || format!("hsum gives {g:#x}, expected {s:#x}"), || id.clone());
    h.case(&id, true);
}
fn lanes16(h: &mut H) {
    let a: [u16; 16] = std::array::from_fn(|_| word(&mut h.rng, 16) as u16); let b: [u16; 16] = std::array::from_fn(|_| word(&mut h.rng, 16) as u16);
    let (x, y) = (Lanes16Word16(a), Lanes16Word16(b)); let id = format!("Lanes16Word16 {a:x?} {b:x?}");
    let mut l = |name: &str, g: [u16; 16], f: &dyn Fn(usize) -> u64| { let w: [u16; 16] = std::array::from_fn(|i| f(i) as u16); h.check(g == w, &format!("l16w16-{name}"), || format!("{name} gives {g:x?}, expected {w:x?}"), || id.clone()) };
    let (ua, ub) = (|i: usize| a[i] as u64, |i: usize| b[i] as u64);
    l("add", x.add(y).0, &|i| ua(i) + ub(i)); l("sub", x.sub(y).0, &|i| 65536 + ua(i) - ub(i)); l("mullo", x.mullo(y).0, &|i| ua(i) * ub(i)); l("mulhi", x.mulhi(y).0, &|i| ((a[i] as i16 as i64 * b[i] as i16 as i64).div_euclid(65536)) as u64);
    l("op+", (x + y).0, &|i| ua(i) + ub(i)); l("op-", (x - y).0, &|i| 65536 + ua(i) - ub(i)); l("op*", (x * y).0, &|i| ua(i) * ub(i));
    for hh in [8usize, 4, 2] {
        l("bcast-lo", x.ntt_bcast_lo(hh).0, &|i| ua(i - i % (2 * hh) + i % hh)); l("bcast-hi", x.ntt_bcast_hi(hh).0, &|i| ua(i - i % (2 * hh) + hh + i % hh));
        l("blend", x.ntt_blend(y, hh).0, &|i| if (i / hh) % 2 == 0 { ua(i) } else { ub(i) });
    }
    l("splat", Lanes16Word16::splat(a[3]).0, &|_| ua(3)); l("to_words", x.to_words().map(|w| w.0), &ua); l("lane", std::array::from_fn(|i| x.lane(i).0), &ua);
    let k = a[0] as usize % 20; let ws: Vec<Word16> = (0..k).map(|i| Word16(b[i % 16] ^ i as u16)).collect(); l("from_words", Lanes16Word16::from_words(&ws).0, &|i| if i < k { ub(i % 16) ^ i as u64 } else { 0 });
    h.case(&id, true);
}
fn mk(r: &mut Rng, k: u64) -> LanesVal {
    match k { 0 => LanesVal::L8W32(Lanes8Word32(std::array::from_fn(|_| word(r, 32) as u32))), 1 => LanesVal::L4W64(Lanes4Word64(std::array::from_fn(|_| word(r, 64)))), 2 => LanesVal::L16W16(Lanes16Word16(std::array::from_fn(|_| word(r, 16) as u16))),
        3 => LanesVal::L4W32(Lanes4Word32(std::array::from_fn(|_| word(r, 32) as u32))), _ => LanesVal::L16W8(Lanes16Word8(std::array::from_fn(|_| word(r, 8) as u8))) }
}
fn ls(v: &LanesVal) -> Vec<u64> { (0..v.lanes()).map(|i| v.lane(i)).collect() }
/// the dynamic wrapper: matching configurations agree with the word operation in each lane, others are refused
fn lanesval(h: &mut H) {
    let (ka, kb) = (h.rng.below(5), h.rng.below(5)); let kb = if h.rng.chance(3, 4) { ka } else { kb };
    let (x, y) = (mk(&mut h.rng, ka), mk(&mut h.rng, kb)); let n = count(&mut h.rng, 32);
    let id = format!("{} {:x?} / {} {:x?} count {n}", x.type_name(), ls(&x), y.type_name(), ls(&y));
    let (xl, yl) = (ls(&x), ls(&y)); let bits = x.elem_bits(); let mm = m(bits);
    let shape = [(8, 32, "Lanes8Word32"), (4, 64, "Lanes4Word64"), (16, 16, "Lanes16Word16"), (4, 32, "Lanes4Word32"), (16, 8, "Lanes16Word8")][ka as usize];
    h.check((x.lanes(), x.elem_bits(), x.type_name()) == shape, "lanesval-shape", || format!("{} lanes of {} bits named {}", x.lanes(), x.elem_bits(), x.type_name()), || id.clone());
    let mut l = |name: &str, g: Option<LanesVal>, kinds: &[u64], f: &dyn Fn(usize) -> u128| {
        match g {
            None => { h.check(!(ka == kb && kinds.contains(&ka)), &format!("lanesval-{name}-refused"), || format!("{name} refused for two {}", x.type_name()), || id.clone()); }
            Some(v) => {
                h.check(ka == kb, &format!("lanesval-{name}-mixed"), || format!("{name} of {} and {} accepted", x.type_name(), y.type_name()), || id.clone());
                if ka == kb { let w: Vec<u64> = (0..xl.len()).map(|i| (f(i) & mm) as u64).collect(); let gl = ls(&v); h.check(gl == w && v.type_name() == x.type_name(), &format!("lanesval-{name}"), || format!("{name} gives {gl:x?}, expected {w:x?}"), || id.clone()); }
            }
        }
    };
    let (ua, ub) = (|i: usize| xl[i] as u128, |i: usize| if i < yl.len() { yl[i] as u128 } else { 0 });
    l("add", x.add(y), &[0, 1, 2, 3], &|i| ua(i) + ub(i)); l("sub", x.sub(y), &[0, 2], &|i| mm + 1 + ua(i) - ub(i)); l("xor", x.bitxor(y), &[0, 3], &|i| ua(i) ^ ub(i));
    l("and", x.bitand(y), &[0, 4], &|i| ua(i) & ub(i)); l("or", x.bitor(y), &[0], &|i| ua(i) | ub(i)); l("mullo", x.mullo(y), &[2], &|i| ua(i).wrapping_mul(ub(i)));
    l("byte_and", x.byte_and(y), &[4], &|i| ua(i) & ub(i)); l("byte_add", x.byte_add(y), &[4], &|i| ua(i) + ub(i)); l("mul_lo32_wide", x.mul_lo32_wide(y), &[1], &|i| (ua(i) & m(32)) * (ub(i) & m(32)));
    l("mulhi", x.mulhi(y), &[2], &|i| ((xl[i] as i16 as i64 * yl[i] as i16 as i64) >> 16) as u128);
    l("shuffle", x.shuffle(y), &[4], &|i| if yl[i] & 128 != 0 { 0 } else { ua((yl[i] & 15) as usize) });
    l("interleave_lo", x.interleave_lo(y), &[4], &|i| if i % 2 == 0 { ua(i / 2) } else { ub(i / 2) }); l("interleave_hi", x.interleave_hi(y), &[4], &|i| if i % 2 == 0 { ua(8 + i / 2) } else { ub(8 + i / 2) });
    if ka == kb {
        l("not", x.lane_not(), &[0], &|i| mm - ua(i)); l("rotl", x.rotl(n), &[0], &|i| o_rotl(ua(i), n, bits));
        let hh = [4usize, 2][(n % 2) as usize];
        l("bcast_lo", x.ntt_bcast_lo(hh), &[0, 2], &|i| ua(i - i % (2 * hh) + i % hh)); l("bcast_hi", x.ntt_bcast_hi(hh), &[0, 2], &|i| ua(i - i % (2 * hh) + hh + i % hh));
        l("shr_bytes", x.shr_bytes(n % 8), &[4], &|i| ua(i) >> (n % 8));
    }
    let hh = [4usize, 2][(n % 2) as usize];
    l("blend", x.ntt_blend(y, hh), &[0, 2], &|i| if (i / hh) % 2 == 0 { ua(i) } else { ub(i) });
    if let LanesVal::L4W32(a) = x { if let LanesVal::L4W32(b) = y {
        l("sha1rnds4", x.sha1rnds4(y, n), &[3], &|i| a.sha1rnds4(b, n).0[i] as u128); l("sha1msg1", x.sha1msg1(y), &[3], &|i| a.sha1msg1(b).0[i] as u128); l("sha1msg2", x.sha1msg2(y), &[3], &|i| a.sha1msg2(b).0[i] as u128); l("sha1nexte", x.sha1nexte(y), &[3], &|i| a.sha1nexte(b).0[i] as u128);
    } }
    if let LanesVal::L16W8(a) = x { if let LanesVal::L16W8(b) = y { l("maddubs", x.maddubs_bytes(y), &[4], &|i| a.maddubs(b).0[i] as u128); l("packus", x.packus_bytes(y), &[4], &|i| a.packus(b).0[i] as u128); } }
    if let LanesVal::L8W32(a) = x { let (q, qi) = (Lanes8Word32::splat(8380417), Lanes8Word32::splat(58728449)); if let LanesVal::L8W32(b) = y { l("montmul32", x.montmul32(y, LanesVal::L8W32(q), LanesVal::L8W32(qi)), &[0], &|i| a.montmul32(b, q, qi).0[i] as u128); } }
    let s = xl.iter().fold(0u64, |s, v| s.wrapping_add(*v)) as i64; let g = x.hsum();
    h.check(g == s, "lanesval-hsum", || format!("hsum gives {g}, expected {s}"), || id.clone());
    h.case(&id, true);
}
pub fn c13(h: &mut H) {
    // 8-bit words: every operand pair, every count 0..=24
    if h.group("word8-all") { for a in 0..256u32 { for b in 0..256u32 { word_round!(h, Word8, u8, 8, a, b, (a * 7 + b) % 25); } } for a in 0..256u32 { for n in 0..40u32 { word_round!(h, Word8, u8, 8, a, 1, n); } } }
    h.rounds("words", 3.0, 60000, |h| {
        let (a, b) = (word(&mut h.rng, 16), word(&mut h.rng, 16)); let n = count(&mut h.rng, 16); word_round!(h, Word16, u16, 16, a, b, n);
        let (a, b) = (word(&mut h.rng, 32), word(&mut h.rng, 32)); let n = count(&mut h.rng, 32); word_round!(h, Word32, u32, 32, a, b, n);
        let (a, b) = (word(&mut h.rng, 64), word(&mut h.rng, 64)); let n = count(&mut h.rng, 64); word_round!(h, Word64, u64, 64, a, b, n);
        let n = h.rng.u64() as u32; word_round!(h, Word8, u8, 8, a, b, n);
    });
    h.rounds("wordval", 1.0, 40000, wordvals);
    h.rounds("lanes8x32", 2.0, 40000, lanes8);
    h.rounds("lanes4x32", 1.5, 40000, lanes4);
    h.rounds("lanes16x8", 1.5, 40000, bytes16);
    h.rounds("lanes4x64", 1.5, 40000, lanes64);
    h.rounds("lanes16x16", 1.5, 40000, lanes16);
    h.rounds("lanesval", 2.0, 40000, lanesval);
}
