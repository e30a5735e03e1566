//#SUBST copyin: b[..n].copy_from_slice(&msg[i..i + n]); =>> copy_in(&mut b, n, msg, i);
//#SUBST put0: tag[0..4].copy_from_slice(&(f as u32).to_le_bytes()); =>> put4(&mut tag, 0, f as u32);
//#SUBST put1: tag[4..8].copy_from_slice(&(f as u32).to_le_bytes()); =>> put4(&mut tag, 4, f as u32);
//#SUBST put2: tag[8..12].copy_from_slice(&(f as u32).to_le_bytes()); =>> put4(&mut tag, 8, f as u32);
//#SUBST put3: tag[12..16].copy_from_slice(&(f as u32).to_le_bytes()); =>> put4(&mut tag, 12, f as u32);
//#SUBST min16: (msg.len() - i).min(16) =>> min_usize(msg.len() - i, 16)
//#SUBST frle: u32::from_le_bytes =>> le32
//#RAW
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// std: little-endian reading of four bytes (trusted specification)
#[verifier::external_body]
fn le32(b: [u8; 4]) -> (r: u32) ensures r as int == b@[0] + 256 * b@[1] + 65536 * b@[2] + 16777216 * b@[3] { u32::from_le_bytes(b) }
// std: copy_from_slice of a sub-slice into the front of an array (trusted specification)
#[verifier::external_body]
fn copy_in(b: &mut [u8; 16], n: usize, msg: &[u8], i: usize)
    requires n <= 16, i + n <= msg@.len()
    ensures final(b)@.len() == 16, forall|k: int| 0 <= k < 16 ==> #[trigger] final(b)@[k] == (if k < n { msg@[i + k] } else { old(b)@[k] })
{ b[..n].copy_from_slice(&msg[i..i + n]); }
// std: to_le_bytes and copy_from_slice (trusted specification)
#[verifier::external_body]
fn put4(t: &mut [u8; 16], k: usize, v: u32)
    requires k + 4 <= 16
    ensures final(t)@.len() == 16, v as int == final(t)@[k as int] + 256 * final(t)@[k + 1] + 65536 * final(t)@[k + 2] + 16777216 * final(t)@[k + 3],
        forall|j: int| 0 <= j < 16 && !(k <= j < k + 4) ==> #[trigger] final(t)@[j] == old(t)@[j]
{ t[k..k + 4].copy_from_slice(&v.to_le_bytes()); }
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }

spec const P: int = 0x4_0000_0000_0000_0000_0000_0000_0000_0000int - 5;
spec const T128: int = 0x1_0000_0000_0000_0000_0000_0000_0000_0000int;
// little-endian value of the first n bytes
spec fn le(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { le(s, n - 1) + s[n - 1] * pow256(n - 1) } }
spec fn pow256(n: int) -> int decreases n { if n <= 0 { 1 } else { 256 * pow256(n - 1) } }
spec fn w4(s: Seq<u8>, k: int) -> int { s[k] + 256 * s[k + 1] + 65536 * s[k + 2] + 16777216 * s[k + 3] }
spec fn le16(s: Seq<u8>, k: int) -> int { w4(s, k) + 0x1_0000_0000 * w4(s, k + 4) + 0x1_0000_0000_0000_0000 * w4(s, k + 8) + 0x1_0000_0000_0000_0000_0000_0000 * w4(s, k + 12) }
spec fn val(h: Seq<u32>) -> int { h[0] + 0x400_0000 * h[1] + 0x10_0000_0000_0000 * h[2] + 0x4000_0000_0000_0000_0000 * h[3] + 0x100_0000_0000_0000_0000_0000_0000 * h[4] }
spec fn wide(d: Seq<u64>) -> int { d[0] + 0x400_0000 * d[1] + 0x10_0000_0000_0000 * d[2] + 0x4000_0000_0000_0000_0000 * d[3] + 0x100_0000_0000_0000_0000_0000_0000 * d[4] }
// limbs as the reduction leaves them
spec fn small(h: Seq<u32>) -> bool { h.len() == 5 && h[0] < 0x400_0000 && h[1] < 0x400_0000 && h[2] <= 0x400_0000 && h[3] < 0x400_0000 && h[4] < 0x400_0000 }
// RFC 8439 2.5: the clamped r
spec fn clamped(k: Seq<u8>) -> int { ((le16(k, 0) as u128) & 0x0ffffffc_0ffffffc_0ffffffc_0fffffffu128) as int }
// RFC 8439 2.5.1: a block is its little-endian value with a one byte above it
spec fn blk(msg: Seq<u8>, k: int) -> int {
    let n = if msg.len() - 16 * k < 16 { msg.len() - 16 * k } else { 16 };
    le(msg.skip(16 * k), n) + pow256(n)
}
spec fn acc(r: int, msg: Seq<u8>, k: int) -> int decreases k { if k <= 0 { 0 } else { ((acc(r, msg, k - 1) + blk(msg, k - 1)) * r) % P } }
spec fn nblk(msg: Seq<u8>) -> int { (msg.len() as int + 15) / 16 }

proof fn lem_split32(x: u32) ensures x & 0x3ff_ffff == x % 0x400_0000, x >> 26 == x / 0x400_0000 { assert(x & 0x3ff_ffff == x % 0x400_0000 && x >> 26 == x / 0x400_0000) by (bit_vector); }
proof fn lem_split64(x: u64) ensures x & 0x3ff_ffff == x % 0x400_0000, x >> 26 == x / 0x400_0000 { assert(x & 0x3ff_ffff == x % 0x400_0000 && x >> 26 == x / 0x400_0000) by (bit_vector); }
proof fn lem_limbs(m0: u32, m1: u32, m2: u32, m3: u32)
    ensures
        m0 & 0x3ff_ffff == m0 % 0x400_0000,
        ((m0 >> 26) | (m1 << 6)) & 0x3ff_ffff == m0 / 0x400_0000 + 64 * (m1 % 0x10_0000),
        ((m1 >> 20) | (m2 << 12)) & 0x3ff_ffff == m1 / 0x10_0000 + 4096 * (m2 % 0x4000),
        ((m2 >> 14) | (m3 << 18)) & 0x3ff_ffff == m2 / 0x4000 + 0x4_0000 * (m3 % 256),
        m3 >> 8 == m3 / 256,
{
    assert(m0 & 0x3ff_ffff == m0 % 0x400_0000) by (bit_vector);
    assert(((m0 >> 26) | (m1 << 6)) & 0x3ff_ffff == add(m0 / 0x400_0000, mul(64, m1 % 0x10_0000))) by (bit_vector);
    assert(((m1 >> 20) | (m2 << 12)) & 0x3ff_ffff == add(m1 / 0x10_0000, mul(4096, m2 % 0x4000))) by (bit_vector);
    assert(((m2 >> 14) | (m3 << 18)) & 0x3ff_ffff == add(m2 / 0x4000, mul(0x4_0000, m3 % 256))) by (bit_vector);
    assert(m3 >> 8 == m3 / 256) by (bit_vector);
}
proof fn lem_le16(s: Seq<u8>)
    requires s.len() >= 16
    ensures le(s, 16) == le16(s, 0), pow256(16) == T128
{
    assert(pow256(0) == 1) by (compute);
    assert(pow256(1) == 256) by (compute);
    assert(pow256(2) == 65536) by (compute);
    assert(pow256(3) == 16777216) by (compute);
    assert(pow256(4) == 4294967296) by (compute);
    assert(pow256(5) == 1099511627776) by (compute);
    assert(pow256(6) == 281474976710656) by (compute);
    assert(pow256(7) == 72057594037927936) by (compute);
    assert(pow256(8) == 18446744073709551616) by (compute);
    assert(pow256(9) == 4722366482869645213696) by (compute);
    assert(pow256(10) == 1208925819614629174706176) by (compute);
    assert(pow256(11) == 309485009821345068724781056) by (compute);
    assert(pow256(12) == 79228162514264337593543950336) by (compute);
    assert(pow256(13) == 20282409603651670423947251286016) by (compute);
    assert(pow256(14) == 5192296858534827628530496329220096) by (compute);
    assert(pow256(15) == 1329227995784915872903807060280344576) by (compute);
    assert(pow256(16) == 340282366920938463463374607431768211456) by (compute);
    assert(le(s, 0) == 0);
    assert(le(s, 1) == le(s, 0) + s[0] * 1);
    assert(le(s, 2) == le(s, 1) + s[1] * 256);
    assert(le(s, 3) == le(s, 2) + s[2] * 65536);
    assert(le(s, 4) == le(s, 3) + s[3] * 16777216);
    assert(le(s, 5) == le(s, 4) + s[4] * 4294967296);
    assert(le(s, 6) == le(s, 5) + s[5] * 1099511627776);
    assert(le(s, 7) == le(s, 6) + s[6] * 281474976710656);
    assert(le(s, 8) == le(s, 7) + s[7] * 72057594037927936);
    assert(le(s, 9) == le(s, 8) + s[8] * 18446744073709551616);
    assert(le(s, 10) == le(s, 9) + s[9] * 4722366482869645213696);
    assert(le(s, 11) == le(s, 10) + s[10] * 1208925819614629174706176);
    assert(le(s, 12) == le(s, 11) + s[11] * 309485009821345068724781056);
    assert(le(s, 13) == le(s, 12) + s[12] * 79228162514264337593543950336);
    assert(le(s, 14) == le(s, 13) + s[13] * 20282409603651670423947251286016);
    assert(le(s, 15) == le(s, 14) + s[14] * 5192296858534827628530496329220096);
    assert(le(s, 16) == le(s, 15) + s[15] * 1329227995784915872903807060280344576);
}
proof fn lem_pow_pos(n: int) ensures pow256(n) >= 1 decreases n { if n > 0 { lem_pow_pos(n - 1); } }
// value of a zero-padded block
proof fn lem_le_eq(a: Seq<u8>, b: Seq<u8>, n: int)
    requires forall|k: int| 0 <= k < n ==> a[k] == b[k]
    ensures le(a, n) == le(b, n)
    decreases n
{ if n > 0 { lem_le_eq(a, b, n - 1); } }
proof fn lem_le_pad(a: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m, forall|k: int| n <= k < m ==> a[k] == 0
    ensures le(a, m) == le(a, n)
    decreases m
{ if m > n { lem_le_pad(a, n, m - 1); assert(a[m - 1] * pow256(m - 1) == 0) by (nonlinear_arith) requires a[m - 1] == 0; } }
proof fn lem_cong(x: int, y: int, k: int)
    requires x == y + P * k
    ensures x % P == y % P
{ vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, y, P); assert(P * k + y == x); }
//#FN crates/logicaffeine_system/src/aead.rs :: fn poly1305_clamp | frle
fn poly1305_clamp(key: &[u8; 32]) -> /*@ (r: @*/ [u32; 5] /*@ )
    ensures val(r@) == clamped(key@), small(r@) @*/ {
    let t0 = le32([key[0], key[1], key[2], key[3]]);
    let t1 = le32([key[4], key[5], key[6], key[7]]);
    let t2 = le32([key[8], key[9], key[10], key[11]]);
    let t3 = le32([key[12], key[13], key[14], key[15]]);
    /*@ proof {
        let (l0, l1, l2, l3, l4) = (t0 & 0x3ff_ffff, ((t0 >> 26) | (t1 << 6)) & 0x3ff_ff03, ((t1 >> 20) | (t2 << 12)) & 0x3ff_c0ff, ((t2 >> 14) | (t3 << 18)) & 0x3f0_3fff, (t3 >> 8) & 0x00f_ffff);
        assert(l0 < 0x400_0000 && l1 < 0x400_0000 && l2 < 0x400_0000 && l3 < 0x400_0000 && l4 < 0x100_0000) by (bit_vector)
            requires l0 == t0 & 0x3ff_ffff, l1 == ((t0 >> 26) | (t1 << 6)) & 0x3ff_ff03, l2 == ((t1 >> 20) | (t2 << 12)) & 0x3ff_c0ff, l3 == ((t2 >> 14) | (t3 << 18)) & 0x3f0_3fff, l4 == (t3 >> 8) & 0x00f_ffff;
        let v = le16(key@, 0) as u128;
        assert(v as int == le16(key@, 0));
        assert(v == add(t0 as u128, add(mul(0x1_0000_0000, t1 as u128), add(mul(0x1_0000_0000_0000_0000, t2 as u128), mul(0x1_0000_0000_0000_0000_0000_0000, t3 as u128)))));
        assert(v & 0x0ffffffc_0ffffffc_0ffffffc_0fffffffu128 == add(l0 as u128, add(mul(0x400_0000, l1 as u128), add(mul(0x10_0000_0000_0000, l2 as u128), add(mul(0x4000_0000_0000_0000_0000, l3 as u128), mul(0x100_0000_0000_0000_0000_0000_0000, l4 as u128)))))) by (bit_vector)
            requires v == add(t0 as u128, add(mul(0x1_0000_0000, t1 as u128), add(mul(0x1_0000_0000_0000_0000, t2 as u128), mul(0x1_0000_0000_0000_0000_0000_0000, t3 as u128)))),
                l0 == t0 & 0x3ff_ffff, l1 == ((t0 >> 26) | (t1 << 6)) & 0x3ff_ff03, l2 == ((t1 >> 20) | (t2 << 12)) & 0x3ff_c0ff, l3 == ((t2 >> 14) | (t3 << 18)) & 0x3f0_3fff, l4 == (t3 >> 8) & 0x00f_ffff;
    } @*/
    [
        t0 & 0x3ff_ffff,
        ((t0 >> 26) | (t1 << 6)) & 0x3ff_ff03,
        ((t1 >> 20) | (t2 << 12)) & 0x3ff_c0ff,
        ((t2 >> 14) | (t3 << 18)) & 0x3f0_3fff,
        (t3 >> 8) & 0x00f_ffff,
    ]
}
//#ITEM crates/logicaffeine_system/src/aead.rs :: const MASK26
//#FN crates/logicaffeine_system/src/aead.rs :: fn poly1305_block | frle
fn poly1305_block(b: &[u8; 16], hibit: u32) -> /*@ (r: @*/ [u32; 5] /*@ )
    requires hibit <= 1
    ensures val(r@) == le16(b@, 0) + hibit * T128, r@[0] < 0x400_0000, r@[1] < 0x400_0000, r@[2] < 0x400_0000, r@[3] < 0x400_0000, r@[4] < 0x200_0000 @*/ {
    let m0 = le32([b[0], b[1], b[2], b[3]]);
    let m1 = le32([b[4], b[5], b[6], b[7]]);
    let m2 = le32([b[8], b[9], b[10], b[11]]);
    let m3 = le32([b[12], b[13], b[14], b[15]]);
    /*@ proof {
        lem_limbs(m0, m1, m2, m3);
        assert((m3 >> 8) | (hibit << 24) == add(m3 / 256, mul(0x100_0000, hibit))) by (bit_vector) requires hibit <= 1;
    } @*/
    [
        m0 & MASK26,
        ((m0 >> 26) | (m1 << 6)) & MASK26,
        ((m1 >> 20) | (m2 << 12)) & MASK26,
        ((m2 >> 14) | (m3 << 18)) & MASK26,
        (m3 >> 8) | (hibit << 24),
    ]
}
//#FN crates/logicaffeine_system/src/aead.rs :: fn poly1305_reduce
fn poly1305_reduce(d: [u64; 5]) -> /*@ (r: @*/ [u32; 5] /*@ )
    requires forall|i: int| 0 <= i < 5 ==> #[trigger] d@[i] < 0x1000_0000_0000_0000
    ensures small(r@), val(r@) % P == wide(d@) % P @*/ {
    /*@ proof { assert(d@[0] < 0x1000_0000_0000_0000 && d@[1] < 0x1000_0000_0000_0000 && d@[2] < 0x1000_0000_0000_0000 && d@[3] < 0x1000_0000_0000_0000 && d@[4] < 0x1000_0000_0000_0000); } @*/
    let m = MASK26 as u64;
    /*@ proof { lem_split64(d@[0]); } @*/
    let mut c = d[0] >> 26;
    let h0 = (d[0] & m) as u32;
    let d1 = d[1] + c;
    /*@ proof { lem_split64(d1); } @*/
    c = d1 >> 26;
    let h1 = (d1 & m) as u32;
    let d2 = d[2] + c;
    /*@ proof { lem_split64(d2); } @*/
    c = d2 >> 26;
    let h2 = (d2 & m) as u32;
    let d3 = d[3] + c;
    /*@ proof { lem_split64(d3); } @*/
    c = d3 >> 26;
    let h3 = (d3 & m) as u32;
    let d4 = d[4] + c;
    /*@ proof { lem_split64(d4); } @*/
    c = d4 >> 26;
    let h4 = (d4 & m) as u32;
    /*@ let ghost top = c as int; @*/
    let h0w = h0 as u64 + c * 5;
    /*@ proof { lem_split64(h0w); } @*/
    let mut h = [(h0w & m) as u32, h1 + (h0w >> 26) as u32, h2, h3, h4];
    /*@ proof { lem_split32(h@[1]); } @*/
    let c1 = h[1] >> 26;
    h[1] &= MASK26;
    h[2] += c1;
    /*@ proof { assert(wide(d@) == val(h@) + P * top); lem_cong(wide(d@), val(h@), top); } @*/
    h
}
//#FN crates/logicaffeine_system/src/aead.rs :: fn poly1305_mul
fn poly1305_mul(a: &[u32; 5], b: &[u32; 5]) -> /*@ (r: @*/ [u32; 5] /*@ )
    requires
        forall|i: int| 0 <= i < 5 ==> #[trigger] a@[i] <= 0x800_0000, small(b@)
    ensures small(r@), val(r@) % P == (val(a@) * val(b@)) % P @*/ {
    /*@ proof { assert(a@[0] <= 0x800_0000 && a@[1] <= 0x800_0000 && a@[2] <= 0x800_0000 && a@[3] <= 0x800_0000 && a@[4] <= 0x800_0000); } @*/
    let (a0, a1, a2, a3, a4) = (a[0] as u64, a[1] as u64, a[2] as u64, a[3] as u64, a[4] as u64);
    let (b0, b1, b2, b3, b4) = (b[0] as u64, b[1] as u64, b[2] as u64, b[3] as u64, b[4] as u64);
    let (s1, s2, s3, s4) = (b1 * 5, b2 * 5, b3 * 5, b4 * 5);
    /*@ proof {
        lem_prod(a0 as int, a1 as int, a2 as int, a3 as int, a4 as int, b0 as int, b1 as int, b2 as int, b3 as int, b4 as int);
        lem_cong(val(a@) * val(b@), wmul(a0 as int, a1 as int, a2 as int, a3 as int, a4 as int, b0 as int, b1 as int, b2 as int, b3 as int, b4 as int), emul(a0 as int, a1 as int, a2 as int, a3 as int, a4 as int, b0 as int, b1 as int, b2 as int, b3 as int, b4 as int));
        lem_bound(a0 as int, b0 as int, b1 as int, b2 as int, b3 as int, b4 as int);
        lem_bound(a1 as int, b0 as int, b1 as int, b2 as int, b3 as int, b4 as int);
        lem_bound(a2 as int, b0 as int, b1 as int, b2 as int, b3 as int, b4 as int);
        lem_bound(a3 as int, b0 as int, b1 as int, b2 as int, b3 as int, b4 as int);
        lem_bound(a4 as int, b0 as int, b1 as int, b2 as int, b3 as int, b4 as int);
    } @*/
    poly1305_reduce([
        a0 * b0 + a1 * s4 + a2 * s3 + a3 * s2 + a4 * s1,
        a0 * b1 + a1 * b0 + a2 * s4 + a3 * s3 + a4 * s2,
        a0 * b2 + a1 * b1 + a2 * b0 + a3 * s4 + a4 * s3,
        a0 * b3 + a1 * b2 + a2 * b1 + a3 * b0 + a4 * s4,
        a0 * b4 + a1 * b3 + a2 * b2 + a3 * b1 + a4 * b0,
    ])
}
//#RAW
spec fn wmul(a0: int, a1: int, a2: int, a3: int, a4: int, b0: int, b1: int, b2: int, b3: int, b4: int) -> int {
    (a0 * b0 + a1 * (b4 * 5) + a2 * (b3 * 5) + a3 * (b2 * 5) + a4 * (b1 * 5))
    + 0x400_0000 * (a0 * b1 + a1 * b0 + a2 * (b4 * 5) + a3 * (b3 * 5) + a4 * (b2 * 5))
    + 0x10_0000_0000_0000 * (a0 * b2 + a1 * b1 + a2 * b0 + a3 * (b4 * 5) + a4 * (b3 * 5))
    + 0x4000_0000_0000_0000_0000 * (a0 * b3 + a1 * b2 + a2 * b1 + a3 * b0 + a4 * (b4 * 5))
    + 0x100_0000_0000_0000_0000_0000_0000 * (a0 * b4 + a1 * b3 + a2 * b2 + a3 * b1 + a4 * b0)
}
// what wraps past 2^130
spec fn emul(a0: int, a1: int, a2: int, a3: int, a4: int, b0: int, b1: int, b2: int, b3: int, b4: int) -> int {
    (a1 * b4 + a2 * b3 + a3 * b2 + a4 * b1) + 0x400_0000 * (a2 * b4 + a3 * b3 + a4 * b2) + 0x10_0000_0000_0000 * (a3 * b4 + a4 * b3) + 0x4000_0000_0000_0000_0000 * (a4 * b4)
}
proof fn lem_prod(a0: int, a1: int, a2: int, a3: int, a4: int, b0: int, b1: int, b2: int, b3: int, b4: int)
    ensures (a0 + 0x400_0000 * a1 + 0x10_0000_0000_0000 * a2 + 0x4000_0000_0000_0000_0000 * a3 + 0x100_0000_0000_0000_0000_0000_0000 * a4) * (b0 + 0x400_0000 * b1 + 0x10_0000_0000_0000 * b2 + 0x4000_0000_0000_0000_0000 * b3 + 0x100_0000_0000_0000_0000_0000_0000 * b4)
        == wmul(a0, a1, a2, a3, a4, b0, b1, b2, b3, b4) + P * emul(a0, a1, a2, a3, a4, b0, b1, b2, b3, b4)
{
    let bv = b0 + 0x400_0000 * b1 + 0x10_0000_0000_0000 * b2 + 0x4000_0000_0000_0000_0000 * b3 + 0x100_0000_0000_0000_0000_0000_0000 * b4;
    lem_row(a0, b0, b1, b2, b3, b4); lem_five(a0, b1, b2, b3, b4);
    lem_row(a1, b0, b1, b2, b3, b4); lem_five(a1, b1, b2, b3, b4);
    lem_row(a2, b0, b1, b2, b3, b4); lem_five(a2, b1, b2, b3, b4);
    lem_row(a3, b0, b1, b2, b3, b4); lem_five(a3, b1, b2, b3, b4);
    lem_row(a4, b0, b1, b2, b3, b4); lem_five(a4, b1, b2, b3, b4);
    lem_outer(a0, a1, a2, a3, a4, bv);
    let e = emul(a0, a1, a2, a3, a4, b0, b1, b2, b3, b4);
    assert(P * e == 0x4_0000_0000_0000_0000_0000_0000_0000_0000int * e - 5 * e) by (nonlinear_arith);
}
proof fn lem_row(a: int, b0: int, b1: int, b2: int, b3: int, b4: int)
    ensures a * (b0 + 0x400_0000 * b1 + 0x10_0000_0000_0000 * b2 + 0x4000_0000_0000_0000_0000 * b3 + 0x100_0000_0000_0000_0000_0000_0000 * b4) == (a * b0) + 0x400_0000 * (a * b1) + 0x10_0000_0000_0000 * (a * b2) + 0x4000_0000_0000_0000_0000 * (a * b3) + 0x100_0000_0000_0000_0000_0000_0000 * (a * b4)
{ assert(a * (b0 + 0x400_0000 * b1 + 0x10_0000_0000_0000 * b2 + 0x4000_0000_0000_0000_0000 * b3 + 0x100_0000_0000_0000_0000_0000_0000 * b4) == (a * b0) + 0x400_0000 * (a * b1) + 0x10_0000_0000_0000 * (a * b2) + 0x4000_0000_0000_0000_0000 * (a * b3) + 0x100_0000_0000_0000_0000_0000_0000 * (a * b4)) by (nonlinear_arith); }
proof fn lem_outer(a0: int, a1: int, a2: int, a3: int, a4: int, b: int)
    ensures (a0 + 0x400_0000 * a1 + 0x10_0000_0000_0000 * a2 + 0x4000_0000_0000_0000_0000 * a3 + 0x100_0000_0000_0000_0000_0000_0000 * a4) * b == (a0 * b) + 0x400_0000 * (a1 * b) + 0x10_0000_0000_0000 * (a2 * b) + 0x4000_0000_0000_0000_0000 * (a3 * b) + 0x100_0000_0000_0000_0000_0000_0000 * (a4 * b)
{ assert((a0 + 0x400_0000 * a1 + 0x10_0000_0000_0000 * a2 + 0x4000_0000_0000_0000_0000 * a3 + 0x100_0000_0000_0000_0000_0000_0000 * a4) * b == (a0 * b) + 0x400_0000 * (a1 * b) + 0x10_0000_0000_0000 * (a2 * b) + 0x4000_0000_0000_0000_0000 * (a3 * b) + 0x100_0000_0000_0000_0000_0000_0000 * (a4 * b)) by (nonlinear_arith); }
proof fn lem_five(a: int, b1: int, b2: int, b3: int, b4: int)
    ensures a * (b1 * 5) == 5 * (a * b1), a * (b2 * 5) == 5 * (a * b2), a * (b3 * 5) == 5 * (a * b3), a * (b4 * 5) == 5 * (a * b4)
{
    assert(a * (b1 * 5) == 5 * (a * b1)) by (nonlinear_arith); assert(a * (b2 * 5) == 5 * (a * b2)) by (nonlinear_arith);
    assert(a * (b3 * 5) == 5 * (a * b3)) by (nonlinear_arith); assert(a * (b4 * 5) == 5 * (a * b4)) by (nonlinear_arith);
}
proof fn lem_bound(a: int, b0: int, b1: int, b2: int, b3: int, b4: int)
    requires 0 <= a <= 0x800_0000, 0 <= b0 <= 0x400_0000, 0 <= b1 <= 0x400_0000, 0 <= b2 <= 0x400_0000, 0 <= b3 <= 0x400_0000, 0 <= b4 <= 0x400_0000
    ensures 0 <= a * b0 <= 0x20_0000_0000_0000, 0 <= a * b1 <= 0x20_0000_0000_0000, 0 <= a * b2 <= 0x20_0000_0000_0000, 0 <= a * b3 <= 0x20_0000_0000_0000, 0 <= a * b4 <= 0x20_0000_0000_0000,
        a * (b1 * 5) == 5 * (a * b1), a * (b2 * 5) == 5 * (a * b2), a * (b3 * 5) == 5 * (a * b3), a * (b4 * 5) == 5 * (a * b4)
{
    assert(0 <= a * b0 <= 0x20_0000_0000_0000) by (nonlinear_arith) requires 0 <= a <= 0x800_0000, 0 <= b0 <= 0x400_0000;
    assert(0 <= a * b1 <= 0x20_0000_0000_0000) by (nonlinear_arith) requires 0 <= a <= 0x800_0000, 0 <= b1 <= 0x400_0000;
    assert(0 <= a * b2 <= 0x20_0000_0000_0000) by (nonlinear_arith) requires 0 <= a <= 0x800_0000, 0 <= b2 <= 0x400_0000;
    assert(0 <= a * b3 <= 0x20_0000_0000_0000) by (nonlinear_arith) requires 0 <= a <= 0x800_0000, 0 <= b3 <= 0x400_0000;
    assert(0 <= a * b4 <= 0x20_0000_0000_0000) by (nonlinear_arith) requires 0 <= a <= 0x800_0000, 0 <= b4 <= 0x400_0000;
    assert(a * (b1 * 5) == 5 * (a * b1)) by (nonlinear_arith); assert(a * (b2 * 5) == 5 * (a * b2)) by (nonlinear_arith);
    assert(a * (b3 * 5) == 5 * (a * b3)) by (nonlinear_arith); assert(a * (b4 * 5) == 5 * (a * b4)) by (nonlinear_arith);
}
//#FN crates/logicaffeine_system/src/aead.rs :: fn poly1305_absorb | copyin, min16
fn poly1305_absorb(h: &mut [u32; 5], msg: &[u8], i: usize, r: &[u32; 5])
    /*@ requires small(old(h)@), small(r@), i < msg@.len(), i % 16 == 0
    ensures small(final(h)@), val(final(h)@) % P == ((val(old(h)@) + blk(msg@, i as int / 16)) * val(r@)) % P @*/ {
    let n = min_usize(msg.len() - i, 16);
    let mut b = [0u8; 16];
    copy_in(&mut b, n, msg, i);
    /*@ let ghost b0 = b@; @*/
    let hibit = if n == 16 {
        1
    } else {
        b[n] = 1;
        0
    };
    /*@ proof {
        lem_le16(b@);
        let t = msg@.skip(16 * (i as int / 16));
        assert(16 * (i as int / 16) == i);
        assert forall|k: int| 0 <= k < n implies b0[k] == t[k] by { assert(t[k] == msg@[i + k]); }
        lem_le_eq(b0, t, n as int);
        if n < 16 {
            lem_le_eq(b@, b0, n as int);
            lem_le_pad(b@, n + 1, 16);
            assert(b@[n as int] == 1);
            assert(1 * pow256(n as int) == pow256(n as int));
            assert(le(b@, n + 1) == le(b@, n as int) + pow256(n as int));
        }
        assert(le16(b@, 0) + hibit * T128 == blk(msg@, i as int / 16));
    } @*/
    let m = poly1305_block(&b, hibit);
    let sum = [h[0] + m[0], h[1] + m[1], h[2] + m[2], h[3] + m[3], h[4] + m[4]];
    /*@ proof { assert(val(sum@) == val(h@) + val(m@)); } @*/
    *h = poly1305_mul(&sum, r);
}
//#FN crates/logicaffeine_system/src/aead.rs :: fn poly1305_scalar
fn poly1305_scalar(key: &[u8; 32], msg: &[u8]) -> /*@ (t: @*/ [u8; 16] /*@ )
    requires msg@.len() < 0x7fff_ffff_ffff_fff0
    ensures le16(t@, 0) == (acc(clamped(key@), msg@, nblk(msg@)) + le16(key@, 16)) % T128 @*/ {
    let r = poly1305_clamp(key);
    let mut h = [0u32; 5];
    let mut i = 0;
    while i < msg.len()
        /*@ invariant small(h@), small(r@), val(r@) == clamped(key@), i % 16 == 0, msg@.len() < 0x7fff_ffff_ffff_fff0, i <= 16 * nblk(msg@),
            val(h@) % P == acc(clamped(key@), msg@, i as int / 16)
        decreases msg@.len() + 16 - i @*/
    {
        /*@ proof {
            let (x, y, rr, k) = (val(h@), acc(clamped(key@), msg@, i as int / 16), val(r@), blk(msg@, i as int / 16));
            lem_step(x, y, k, rr);
        } @*/
        poly1305_absorb(&mut h, msg, i, &r);
        i += 16;
    }
    /*@ proof { assert(i as int / 16 == nblk(msg@)); lem_acc_range(clamped(key@), msg@, nblk(msg@)); } @*/
    poly1305_finalize(h, key)
}
//#RAW
proof fn lem_step(x: int, y: int, k: int, r: int)
    requires x % P == y
    ensures ((x + k) * r) % P == ((y + k) * r) % P
{
    let q = x / P;
    assert(x == P * q + y) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, P); }
    assert((x + k) * r == (y + k) * r + P * (q * r)) by (nonlinear_arith) requires x == P * q + y;
    lem_cong((x + k) * r, (y + k) * r, q * r);
}
proof fn lem_acc_range(r: int, msg: Seq<u8>, k: int) ensures 0 <= acc(r, msg, k) < P {
    if k > 0 { vstd::arithmetic::div_mod::lemma_mod_bound((acc(r, msg, k - 1) + blk(msg, k - 1)) * r, P); }
}
proof fn lem_sel(h: u32, g: u32, mask: u32)
    requires mask == 0 || mask == 0xffff_ffff
    ensures (h & !mask) | (g & mask) == (if mask == 0 { h } else { g })
{ assert((h & !mask) | (g & mask) == (if mask == 0 { h } else { g })) by (bit_vector) requires mask == 0 || mask == 0xffff_ffff; }
proof fn lem_join(h0: u32, h1: u32, h2: u32, h3: u32, h4: u32)
    requires h0 < 0x400_0000, h1 < 0x400_0000 || (h1 == 0x400_0000 && h2 == 0), h2 < 0x400_0000, h3 < 0x400_0000, h4 < 0x400_0000
    ensures
        h0 | (h1 << 26) == h0 + 0x400_0000 * (h1 % 64),
        (h1 >> 6) | (h2 << 20) == h1 / 64 + 0x10_0000 * (h2 % 4096),
        (h2 >> 12) | (h3 << 14) == h2 / 4096 + 0x4000 * (h3 % 0x4_0000),
        (h3 >> 18) | (h4 << 8) == h3 / 0x4_0000 + 256 * (h4 % 0x100_0000),
{
    assert(h0 | (h1 << 26) == add(h0, mul(0x400_0000, h1 % 64))) by (bit_vector) requires h0 < 0x400_0000;
    assert((h1 >> 6) | (h2 << 20) == add(h1 / 64, mul(0x10_0000, h2 % 4096))) by (bit_vector) requires h1 < 0x400_0000 || (h1 == 0x400_0000 && h2 == 0);
    assert((h2 >> 12) | (h3 << 14) == add(h2 / 4096, mul(0x4000, h3 % 0x4_0000))) by (bit_vector) requires h2 < 0x400_0000;
    assert((h3 >> 18) | (h4 << 8) == add(h3 / 0x4_0000, mul(256, h4 % 0x100_0000))) by (bit_vector) requires h3 < 0x400_0000;
}
//#FN crates/logicaffeine_system/src/aead.rs :: fn poly1305_finalize | put0, put1, put2, put3, frle
fn poly1305_finalize(h: [u32; 5], key: &[u8; 32]) -> /*@ (t: @*/ [u8; 16] /*@ )
    requires small(h@)
    ensures le16(t@, 0) == (val(h@) % P + le16(key@, 16)) % T128 @*/ {
    let (mut h0, mut h1, mut h2, mut h3, mut h4) = (h[0], h[1], h[2], h[3], h[4]);
    let mut c;
    /*@ proof { lem_split32(h1); } @*/
    c = h1 >> 26;
    h1 &= 0x3ff_ffff;
    h2 += c;
    /*@ proof { lem_split32(h2); } @*/
    c = h2 >> 26;
    h2 &= 0x3ff_ffff;
    h3 += c;
    /*@ proof { lem_split32(h3); } @*/
    c = h3 >> 26;
    h3 &= 0x3ff_ffff;
    h4 += c;
    /*@ proof { lem_split32(h4); } @*/
    c = h4 >> 26;
    h4 &= 0x3ff_ffff;
    /*@ let ghost w = c as int; @*/
    h0 += c * 5;
    /*@ proof { lem_split32(h0); } @*/
    c = h0 >> 26;
    h0 &= 0x3ff_ffff;
    h1 += c;
    /*@ let ghost v = h0 + 0x400_0000 * h1 + 0x10_0000_0000_0000 * h2 + 0x4000_0000_0000_0000_0000 * h3 + 0x100_0000_0000_0000_0000_0000_0000 * h4;
    proof { assert(val(h@) == v + P * w); lem_cong(val(h@), v, w); assert(h1 < 0x400_0000 || (h2 == 0 && h3 == 0 && h4 == 0)); assert(0 <= v < P + 5); } @*/
    let mut g0 = h0.wrapping_add(5);
    /*@ proof { lem_split32(g0); } @*/
    c = g0 >> 26;
    g0 &= 0x3ff_ffff;
    let mut g1 = h1.wrapping_add(c);
    /*@ proof { lem_split32(g1); } @*/
    c = g1 >> 26;
    g1 &= 0x3ff_ffff;
    let mut g2 = h2.wrapping_add(c);
    /*@ proof { lem_split32(g2); } @*/
    c = g2 >> 26;
    g2 &= 0x3ff_ffff;
    let mut g3 = h3.wrapping_add(c);
    /*@ proof { lem_split32(g3); } @*/
    c = g3 >> 26;
    g3 &= 0x3ff_ffff;
    /*@ let ghost e4 = h4 + c; proof { assert((1u32 << 26) == 0x400_0000) by (bit_vector); } @*/
    let g4 = h4.wrapping_add(c).wrapping_sub(1 << 26);
    /*@ proof {
        assert(g4 >> 31 == (if g4 >= 0x8000_0000 { 1u32 } else { 0u32 })) by (bit_vector);
        assert(v + 5 == g0 + 0x400_0000 * g1 + 0x10_0000_0000_0000 * g2 + 0x4000_0000_0000_0000_0000 * g3 + 0x100_0000_0000_0000_0000_0000_0000 * e4);
    } @*/
    let mask = (g4 >> 31).wrapping_sub(1);
    let nmask = !mask;
    /*@ proof { lem_sel(h0, g0, mask); lem_sel(h1, g1, mask); lem_sel(h2, g2, mask); lem_sel(h3, g3, mask); lem_sel(h4, g4, mask); } @*/
    h0 = (h0 & nmask) | (g0 & mask);
    h1 = (h1 & nmask) | (g1 & mask);
    h2 = (h2 & nmask) | (g2 & mask);
    h3 = (h3 & nmask) | (g3 & mask);
    h4 = (h4 & nmask) | (g4 & mask);
    /*@ let ghost z = h0 + 0x400_0000 * h1 + 0x10_0000_0000_0000 * h2 + 0x4000_0000_0000_0000_0000 * h3 + 0x100_0000_0000_0000_0000_0000_0000 * h4;
    proof {
        if mask == 0 { assert(z == v); assert(v < P); } else { assert(z == v - P); lem_cong(v, z, 1); }
        assert(0 <= z < P);
        vstd::arithmetic::div_mod::lemma_small_mod(z as nat, P as nat);
        assert(z == val(h@) % P);
        lem_join(h0, h1, h2, h3, h4);
    } @*/
    let f0 = (h0 | (h1 << 26)) as u64;
    let f1 = ((h1 >> 6) | (h2 << 20)) as u64;
    let f2 = ((h2 >> 12) | (h3 << 14)) as u64;
    let f3 = ((h3 >> 18) | (h4 << 8)) as u64;
    let s0 = le32([key[16], key[17], key[18], key[19]]) as u64;
    let s1 = le32([key[20], key[21], key[22], key[23]]) as u64;
    let s2 = le32([key[24], key[25], key[26], key[27]]) as u64;
    let s3 = le32([key[28], key[29], key[30], key[31]]) as u64;
    /*@ let ghost hi = h4 as int / 0x100_0000;
    proof { assert(z == f0 + 0x1_0000_0000 * f1 + 0x1_0000_0000_0000_0000 * f2 + 0x1_0000_0000_0000_0000_0000_0000 * f3 + T128 * hi); } @*/
    let mut tag = [0u8; 16];
    let mut f = f0 + s0;
    /*@ let ghost y0 = f; proof { lem_lo(f); } @*/
    put4(&mut tag, 0, f as u32);
    f = f1 + s1 + (f >> 32);
    /*@ let ghost y1 = f; proof { lem_lo(f); } @*/
    put4(&mut tag, 4, f as u32);
    f = f2 + s2 + (f >> 32);
    /*@ let ghost y2 = f; proof { lem_lo(f); } @*/
    put4(&mut tag, 8, f as u32);
    f = f3 + s3 + (f >> 32);
    /*@ proof { lem_lo(f); } @*/
    put4(&mut tag, 12, f as u32);
    /*@ proof {
        let t = le16(tag@, 0); let q = hi + (f >> 32);
        assert(w4(tag@, 0) == (y0 as u32) as int && w4(tag@, 4) == (y1 as u32) as int && w4(tag@, 8) == (y2 as u32) as int && w4(tag@, 12) == (f as u32) as int);
        assert(z + le16(key@, 16) == t + T128 * q);
        assert(0 <= t < T128);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(z + le16(key@, 16), T128, q, t);
    } @*/
    tag
}
//#RAW
proof fn lem_lo(f: u64) ensures f == (f as u32) as int + 0x1_0000_0000 * (f >> 32) {
    assert(f == add((f as u32) as u64, mul(0x1_0000_0000u64, f >> 32)) && (f >> 32) <= 0xffff_ffff) by (bit_vector);
    let a = (f as u32) as u64; let b = f >> 32;
    assert(0x1_0000_0000 * b + a <= 0xffff_ffff_ffff_ffff);
}
fn main() {}
} // verus!
