//#SUBST wmul: (a as i32).wrapping_mul(QINV) =>> wmul32(a as i32, QINV)
//#RAW
use vstd::prelude::*;
verus! {
// std: i32::wrapping_mul is the product modulo 2^32 (trusted specification)
#[verifier::external_body]
fn wmul32(a: i32, b: i32) -> (r: i32) ensures (r - a * b) % 0x1_0000_0000 == 0 { a.wrapping_mul(b) }
//#ITEM crates/logicaffeine_system/src/mldsa.rs :: const Q
//#ITEM crates/logicaffeine_system/src/mldsa.rs :: const QINV
//#RAW
proof fn lem_low(a: i64) ensures (a - (a as i32)) % 0x1_0000_0000 == 0 {
    let b = a as i32; let d = sub(a, b as i64);
    assert(sub(a, b as i64) & 0xffff_ffffi64 == 0 && (b >= 0 ==> b as i64 <= 0x7fff_ffff) ) by (bit_vector) requires b == a as i32;
    let k = (a - b) as int;
    assert(a & 0xffff_ffffi64 == (b as i64) & 0xffff_ffffi64) by (bit_vector) requires b == a as i32;
    assert(a == add(mul(a >> 32, 0x1_0000_0000), a & 0xffff_ffffi64) && 0 <= a & 0xffff_ffffi64 <= 0xffff_ffff && -0x8000_0000 <= a >> 32 <= 0x7fff_ffff) by (bit_vector);
    let c = b as i64;
    assert(c == add(mul(c >> 32, 0x1_0000_0000), c & 0xffff_ffffi64) && 0 <= c & 0xffff_ffffi64 <= 0xffff_ffff && -1 <= c >> 32 <= 0) by (bit_vector) requires b == a as i32, c == b as i64;
    assert(a - b == 0x1_0000_0000 * ((a >> 32) - (c >> 32)));
    assert((0x1_0000_0000 * ((a >> 32) - (c >> 32))) % 0x1_0000_0000 == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic((a >> 32) - (c >> 32), 0x1_0000_0000); }
}
proof fn lem_shr(x: i64) ensures (x >> 32) as int == x as int / 0x1_0000_0000 {
    assert(x == add(mul(x >> 32, 0x1_0000_0000), x & 0xffff_ffffi64) && 0 <= x & 0xffff_ffffi64 <= 0xffff_ffff && -0x8000_0000 <= x >> 32 <= 0x7fff_ffff) by (bit_vector);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, 0x1_0000_0000, (x >> 32) as int, (x & 0xffff_ffffi64) as int);
}
proof fn lem_exact(a: int, lo: int, t: int)
    requires (a - lo) % 0x1_0000_0000 == 0, (t - lo * 58_728_449) % 0x1_0000_0000 == 0
    ensures (a - t * 8_380_417) % 0x1_0000_0000 == 0
{
    let m = 0x1_0000_0000;
    let k1 = (a - lo) / m; let k2 = (t - lo * 58_728_449) / m;
    assert(a - lo == m * k1 && t - lo * 58_728_449 == m * k2) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a - lo, m); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t - lo * 58_728_449, m); }
    // q * QINV = 1 + 114592 * 2^32
    assert(a - t * 8_380_417 == m * (k1 - k2 * 8_380_417 - lo * 114_592)) by (nonlinear_arith) requires a - lo == m * k1, t - lo * 58_728_449 == m * k2, m == 0x1_0000_0000;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k1 - k2 * 8_380_417 - lo * 114_592, m);
    assert((m * (k1 - k2 * 8_380_417 - lo * 114_592)) % m == 0) by { assert(m * (k1 - k2 * 8_380_417 - lo * 114_592) == (k1 - k2 * 8_380_417 - lo * 114_592) * m) by (nonlinear_arith); }
}
//#FN crates/logicaffeine_system/src/mldsa.rs :: fn montgomery_reduce | wmul
fn montgomery_reduce(a: i64) -> /*@ (r: @*/ i32 /*@ )
    requires -8_380_417 * 0x8000_0000 <= a < 8_380_417 * 0x8000_0000
    ensures -8_380_417 < r < 8_380_417, (a - r * 0x1_0000_0000) % 8_380_417 == 0 @*/ {
    /*@ proof { lem_low(a); } @*/
    let t = wmul32(a as i32, QINV) as i64;
    /*@ proof {
        lem_exact(a as int, (a as i32) as int, t as int);
        let x = (a - t * Q as i64) as i64;
        lem_shr(x);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, 0x1_0000_0000);
        let r = x as int / 0x1_0000_0000;
        assert(a - r * 0x1_0000_0000 == 8_380_417 * t);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(t as int, 8_380_417);
    } @*/
    ((a - t * Q as i64) >> 32) as i32
}
//#RAW
fn main() {}
} // verus!
