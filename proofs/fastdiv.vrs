//#SUBST tz: d.trailing_zeros() =>> trailing_zeros(d)
//#SUBST lz: d.leading_zeros() =>> leading_zeros(d)
//#SUBST data: logicaffeine_data::LogosDivU64:: =>> LogosDivU64::
//#RAW
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;
//#ITEM crates/logicaffeine_data/src/types.rs :: struct LogosDivU64
//#RAW
// std: position of the lowest / highest set bit (trusted specification)
#[verifier::external_body]
fn trailing_zeros(d: u64) -> (r: u32) requires d != 0, d & ((d - 1) as u64) == 0 ensures r < 64, d == pow2(r as nat) { d.trailing_zeros() }
#[verifier::external_body]
fn leading_zeros(d: u64) -> (r: u32) requires d != 0 ensures r < 64, pow2((63 - r) as nat) <= d < pow2((64 - r) as nat) { d.leading_zeros() }
spec const W: int = 0x1_0000_0000_0000_0000;
spec fn p2(s: int) -> int { pow2(s as nat) as int }
proof fn lem_p2(s: int) requires 0 <= s < 64 ensures p2(s) >= 1, p2(s + 1) == 2 * p2(s), p2(64 + s) == W * p2(s), p2(65 + s) == 2 * W * p2(s), p2(s) <= W / 2
{
    lemma_pow2_pos(s as nat); lemma_pow2_unfold((s + 1) as nat); lemma2_to64(); lemma_pow2_unfold(64); lemma_pow2_adds(64, s as nat); lemma_pow2_adds(1, (64 + s) as nat); lemma_pow2(1);
    if s < 63 { lemma_pow2_strictly_increases(s as nat, 63); }
    assert(pow2(64) == 0x1_0000_0000_0000_0000); assert(pow2(63) == 0x8000_0000_0000_0000);
    assert(pow2(1) == 2);
    assert(2 * (W * p2(s)) == 2 * W * p2(s)) by (nonlinear_arith);
}
proof fn lem_shl64(s: u32) requires s < 64 ensures 1u64 << s == p2(s as int) { lem_p2(s as int); vstd::bits::lemma_u64_shl_is_mul(1, s as u64); assert(1u64 << s == 1u64 << (s as u64)) by (bit_vector); }
proof fn lem_shl128(s: u32) requires s < 64 ensures 1u128 << ((64 + s) as u32) == W * p2(s as int)
{
    lem_p2(s as int); lem_shl64(s);
    let y = 1u64 << s; 
    assert(1u128 << ((64 + s) as u32) == (y as u128) * 0x1_0000_0000_0000_0000u128) by (bit_vector) requires s < 64, y == 1u64 << s;
    assert((y as int) * W == W * (y as int)) by (nonlinear_arith);
}
proof fn lem_shr64(x: u64, s: u8) requires s < 64 ensures x >> s == x as int / p2(s as int) { vstd::bits::lemma_u64_shr_is_div(x, s as u64); assert(x >> s == x >> (s as u64)) by (bit_vector); }
// the reciprocal m is close enough to 2^k/d that every n below 2^64 divides exactly
proof fn lem_magic(n: int, d: int, m: int, k: int, e: int, t: int)
    requires 0 <= n < W, d > 0, k > 0, m * d == k + e, 0 < e, e * W <= t, t == k
    ensures (n * m) / k == n / d
{
    let q = n / d; let r = n % d;
    lemma_fundamental_div_mod(n, d); lemma_mod_bound(n, d); lemma_div_pos_is_pos(n, d);
    // n*m*d = n*k + n*e, 0 <= n*e < k, and so (n*m)*d = d*q*k + r*k + n*e, with r*k + n*e < d*k
    assert(n * e < k) by (nonlinear_arith) requires 0 <= n < W, 0 < e, e * W <= k;
    assert(0 <= n * e) by (nonlinear_arith) requires 0 <= n, 0 < e;
    assert((n * m) * d == n * (m * d)) by (nonlinear_arith);
    assert(n * (k + e) == n * k + n * e) by (nonlinear_arith);
    assert(n * k == d * (q * k) + r * k) by (nonlinear_arith) requires n == d * q + r;
    let x = n * m; let g = q * k;
    assert(x * d == d * g + r * k + n * e);
    assert(r * k + n * e < d * k) by (nonlinear_arith) requires 0 <= r <= d - 1, n * e < k, k > 0;
    assert(r * k + n * e >= 0) by (nonlinear_arith) requires 0 <= r, n * e >= 0, k > 0;
    let y = x - g;
    assert(y * d == r * k + n * e) by (nonlinear_arith) requires x * d == d * g + r * k + n * e, y == x - g;
    assert(0 <= y < k) by (nonlinear_arith) requires y * d >= 0, y * d < d * k, d > 0, k > 0;
    assert(x == k * q + y) by (nonlinear_arith) requires x == g + y, g == q * k;
    lemma_fundamental_div_mod_converse(x, k, q, y);
}
proof fn lemma_div_plus(x: int, b: int, w: int) requires w > 0 ensures (x + b * w) / w == x / w + b
{ lemma_fundamental_div_mod(x, w); lemma_mod_bound(x, w); let q = x / w; let r = x % w; assert(x + b * w == w * (q + b) + r) by (nonlinear_arith) requires x == w * q + r; lemma_fundamental_div_mod_converse(x + b * w, w, q + b, r); }
proof fn lem_not_pow2(d: u64, f: u32) requires d & ((d - 1) as u64) != 0, f < 64, d > 0 ensures d != p2(f as int)
{ lem_shl64(f); assert((1u64 << f) & sub(1u64 << f, 1) == 0) by (bit_vector) requires f < 64; lem_p2(f as int); if d == p2(f as int) { assert(d == 1u64 << f); assert(sub(d, 1) == d - 1); } }
proof fn lem_range(d: int, p: int, n: int, pm: int, rm: int)
    requires p >= 1, p < d < 2 * p, d < W, n == W * p, n == d * pm + rm, 0 <= rm < d
    ensures W / 2 <= pm, pm + 1 < W, 0 <= rm < d
{
    assert(pm + 1 < W) by (nonlinear_arith) requires n == W * p, n == d * pm + rm, rm >= 0, d >= p + 1, d < W, p >= 1;
    assert(W / 2 <= pm) by (nonlinear_arith) requires n == W * p, n == d * pm + rm, rm < d, d < 2 * p, d > 0, W == 0x1_0000_0000_0000_0000;
}
spec fn wfp(d: u64, magic: u64, more: u8) -> bool {
    let s = (more & 0x3f) as int;
    &&& d > 0 && s < 64
    &&& more & 0x80 != 0 ==> d == p2(s)
    &&& more & 0x80 == 0 && more & 0x40 == 0 ==> more == s && W * p2(s) < magic * d <= W * p2(s) + p2(s)
    &&& more & 0x80 == 0 && more & 0x40 != 0 ==> 2 * W * p2(s) < (magic + W) * d <= 2 * W * p2(s) + 2 * p2(s)
}
impl LogosDivU64 {
    // 64-bit reciprocal, 65-bit reciprocal or power of two: what `div` relies on
    spec fn wf(&self) -> bool { wfp(self.d, self.magic, self.more) }
//#ITEM crates/logicaffeine_data/src/types.rs :: impl LogosDivU64 :: const SHIFT_MASK
//#ITEM crates/logicaffeine_data/src/types.rs :: impl LogosDivU64 :: const ADD_MARKER
//#ITEM crates/logicaffeine_data/src/types.rs :: impl LogosDivU64 :: const SHIFT_PATH
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosDivU64 :: fn new | tz, lz
fn new(d: u64) -> /*@ (r: @*/ Self /*@ ) requires d > 0 ensures r.wf(), r.d == d @*/ {
    if d & (d - 1) == 0 {
        /*@ proof { assert forall|z: u32| z < 64 implies (#[trigger] ((z as u8) | 0x80u8)) & 0x3f == z && ((z as u8) | 0x80u8) & 0x80 != 0 by { assert(((z as u8) | 0x80u8) & 0x3f == (z as u8) && ((z as u8) | 0x80u8) & 0x80 != 0) by (bit_vector) requires z < 64; } } @*/
        return Self { magic: 0, more: (trailing_zeros(d) as u8) | Self::SHIFT_PATH, d };
    }
    let floor_log_2_d = 63 - leading_zeros(d);
    /*@ let ghost f = floor_log_2_d as int; let ghost p = p2(f);
    proof { lem_p2(f); lem_shl64(floor_log_2_d); lem_shl128(floor_log_2_d); lem_not_pow2(d, floor_log_2_d); assert(p < d < 2 * p); } @*/
    let numer = 1u128 << (64 + floor_log_2_d);
    /*@ proof {
        let n = numer as int; lemma_fundamental_div_mod(n, d as int); lemma_mod_bound(n, d as int);
        let pm = n / d as int; let rm = n % d as int;
        assert(n == W * p);
        lem_range(d as int, p, n, pm, rm);
    } @*/
    let proposed_m = (numer / d as u128) as u64;
    let rem = (numer % d as u128) as u64;
    let e = d - rem;
    /*@ proof {
        let z = floor_log_2_d as u8;
        assert(z & 0x3f == z && z & 0x80 == 0 && z & 0x40 == 0 && (z | 0x40) & 0x3f == z && (z | 0x40) & 0x80 == 0 && (z | 0x40) & 0x40 != 0) by (bit_vector) requires z < 64;
        assert((proposed_m + 1) * d == proposed_m * d + d) by (nonlinear_arith);
        assert(proposed_m * d == d * proposed_m) by (nonlinear_arith);
    } @*/
    let (magic, more) = if e < (1u64 << floor_log_2_d) {
        (proposed_m + 1, floor_log_2_d as u8)
    } else {
        let twice_rem = rem.wrapping_mul(2);
        let bump = (twice_rem >= d || twice_rem < rem) as u64;
        /*@ proof {
            let b = bump as int; let pm = proposed_m as int; let m = 2 * pm + b + 1;
            assert(b == (if 2 * rem >= d { 1int } else { 0 }));
            assert(m * d == 2 * (d * pm) + b * d + d) by (nonlinear_arith) requires m == 2 * pm + b + 1;
            assert(b * d == (if b == 1 { d as int } else { 0 })) by (nonlinear_arith) requires b == 0 || b == 1;
            assert(2 * (W * p) == 2 * W * p) by (nonlinear_arith);
            assert(m * d <= 2 * W * p + d);
            assert(m < 2 * W) by (nonlinear_arith) requires m * d <= 2 * W * p + d, d >= p + 1, d < 2 * W, p >= 1;
        } @*/
        (proposed_m.wrapping_mul(2).wrapping_add(bump) + 1,
         (floor_log_2_d as u8) | Self::ADD_MARKER)
    };
    Self { magic, more, d }
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosDivU64 :: fn div
fn div(&self, numer: u64) -> /*@ (r: @*/ u64 /*@ ) requires self.wf() ensures r == numer as int / self.d as int @*/ {
    /*@ let ghost s = (self.more & 0x3f) as int; let ghost p = p2(s);
    proof { let mo = self.more; assert(mo & 0x3f < 64) by (bit_vector); lem_p2(s); lem_shr64(numer, self.more & 0x3f);
        let (a, b) = (self.magic as int, numer as int); assert(0 <= a * b <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by (nonlinear_arith) requires 0 <= a <= 0xffff_ffff_ffff_ffff, 0 <= b <= 0xffff_ffff_ffff_ffff;
        let y = (self.magic as u128 * numer as u128) as u128; assert(y >> 64 == y / 0x1_0000_0000_0000_0000u128) by (bit_vector);
        assert(y / 0x1_0000_0000_0000_0000u128 <= numer) by (nonlinear_arith) requires y == a * b, 0 <= a <= 0xffff_ffff_ffff_ffff, b == numer;
        lemma_div_denominator(a * b, W, p); 
    } @*/
    if self.more & Self::SHIFT_PATH != 0 {
        return numer >> (self.more & Self::SHIFT_MASK);
    }
    let q = (((self.magic as u128) * (numer as u128)) >> 64) as u64;
    if self.more & Self::ADD_MARKER != 0 {
        /*@ proof { let df = (numer - q) as u64; assert(df >> 1 == df / 2) by (bit_vector); } @*/
        let t = ((numer - q) >> 1).wrapping_add(q);
        /*@ proof {
            lem_shr64(t, self.more & 0x3f);
            let (a, b) = (self.magic as int, numer as int);
            assert(t == (b + q) / 2);
            assert(b * (a + W) == a * b + b * W) by (nonlinear_arith);
            assert(b + q == (b * (a + W)) / W) by { lemma_div_plus(a * b, b, W); }
            lemma_div_denominator(b * (a + W), W, 2); lemma_div_denominator(b * (a + W), 2 * W, p);
            assert(W * 2 == 2 * W);
            let k = 2 * W * p; let m = a + W; let d = self.d as int; let e = m * d - k;
            assert(e * W <= k) by (nonlinear_arith) requires e <= 2 * p, k == 2 * W * p, W == 0x1_0000_0000_0000_0000;
            assert(0 <= b * m && k > 0) by (nonlinear_arith) requires 0 <= b, 0 <= m, k == 2 * W * p, p >= 1;
            lem_magic(b, d, m, k, e, k);
        } @*/
        t >> (self.more & Self::SHIFT_MASK)
    } else {
        /*@ proof {
            lem_shr64(q, self.more);
            let (a, b) = (self.magic as int, numer as int); let k = W * p; let d = self.d as int; let e = a * d - k;
            assert(e * W <= k) by (nonlinear_arith) requires e <= p, k == W * p, W == 0x1_0000_0000_0000_0000;
            assert(k > 0) by (nonlinear_arith) requires k == W * p, p >= 1;
            assert(b * a == a * b) by (nonlinear_arith);
            lem_magic(b, d, a, k, e, k);
        } @*/
        q >> self.more
    }
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosDivU64 :: fn rem
fn rem(&self, numer: u64) -> /*@ (r: @*/ u64 /*@ ) requires self.wf() ensures r == numer as int % self.d as int @*/ {
    /*@ proof { lemma_fundamental_div_mod(numer as int, self.d as int); lemma_mod_bound(numer as int, self.d as int); let (x, y) = (numer as int / self.d as int, self.d as int); assert(x * y == y * x) by (nonlinear_arith); assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0; lemma_div_pos_is_pos(numer as int, y); } @*/
    numer - self.div(numer).wrapping_mul(self.d)
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosDivU64 :: fn parts
fn parts(&self) -> /*@ (r: @*/ (u64, u8) /*@ ) ensures r.0 == self.magic, r.1 == self.more @*/ {
    (self.magic, self.more)
}
//#RAW
}
spec fn quo(x: int, d: int) -> int { x / d }
spec fn rm(x: int, d: int) -> int { x % d }
//#FN crates/logicaffeine_compile/src/vm/compiler.rs :: fn magic_u64_gen | data
fn magic_u64_gen(c: u64) -> /*@ (r: @*/ (u64, u8) /*@ ) requires c > 0 ensures wfp(c, r.0, r.1) @*/ {
    LogosDivU64::new(c).parts()
}
//#FN crates/logicaffeine_compile/src/vm/compiler.rs :: fn magic_eval
fn magic_eval(x: i64, magic: u64, more: u8, mul_back: i64) -> /*@ (r: @*/ i64 /*@ )
    requires x >= 0
    ensures forall|d: u64| #![trigger wfp(d, magic, more)] wfp(d, magic, more) && d <= i64::MAX && mul_back == 0 ==> r == x as int / d as int,
        forall|d: u64| #![trigger wfp(d, magic, more)] wfp(d, magic, more) && d <= i64::MAX && mul_back == d ==> r == x as int % d as int @*/ {
    const SHIFT_MASK: u8 = 0x3F;
    const ADD_MARKER: u8 = 0x40;
    const SHIFT_PATH: u8 = 0x80;
    let n = x as u64;
    /*@ let ghost s = (more & 0x3f) as int; let ghost p = p2(s);
    proof { assert(more & 0x3f < 64) by (bit_vector); lem_p2(s); lem_shr64(n, more & 0x3f);
        let (a, b) = (magic as int, n as int); assert(0 <= a * b <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by (nonlinear_arith) requires 0 <= a <= 0xffff_ffff_ffff_ffff, 0 <= b <= 0xffff_ffff_ffff_ffff;
        let y = (magic as u128 * n as u128) as u128; assert(y >> 64 == y / 0x1_0000_0000_0000_0000u128) by (bit_vector);
        assert(y / 0x1_0000_0000_0000_0000u128 <= n) by (nonlinear_arith) requires y == a * b, 0 <= a <= 0xffff_ffff_ffff_ffff, b == n;
        lemma_div_denominator(a * b, W, p);
    } @*/
    let q = if more & SHIFT_PATH != 0 {
        n >> (more & SHIFT_MASK)
    } else {
        let hi = (((magic as u128) * (n as u128)) >> 64) as u64;
        if more & ADD_MARKER != 0 {
            /*@ proof { let df = (n - hi) as u64; assert(df >> 1 == df / 2) by (bit_vector); } @*/
            let t = (n.wrapping_sub(hi) >> 1).wrapping_add(hi);
            /*@ proof {
                lem_shr64(t, more & 0x3f);
                let (a, b) = (magic as int, n as int);
                assert(t == (b + hi) / 2);
                assert(b * (a + W) == a * b + b * W) by (nonlinear_arith);
                assert(b + hi == (b * (a + W)) / W) by { lemma_div_plus(a * b, b, W); }
                lemma_div_denominator(b * (a + W), W, 2); lemma_div_denominator(b * (a + W), 2 * W, p);
                assert(W * 2 == 2 * W);
                assert forall|dd: u64| #[trigger] wfp(dd, magic, more) implies t as int / p == b / dd as int by {
                    let k = 2 * W * p; let m = a + W; let d = dd as int; let e = m * d - k;
                    assert(e * W <= k) by (nonlinear_arith) requires e <= 2 * p, k == 2 * W * p, W == 0x1_0000_0000_0000_0000;
                    assert(0 <= b * m && k > 0) by (nonlinear_arith) requires 0 <= b, 0 <= m, k == 2 * W * p, p >= 1;
                    lem_magic(b, d, m, k, e, k);
                }
            } @*/
            t >> (more & SHIFT_MASK)
        } else {
            /*@ proof {
                lem_shr64(hi, more & 0x3f);
                let (a, b) = (magic as int, n as int);
                assert forall|dd: u64| #[trigger] wfp(dd, magic, more) implies hi as int / p == b / dd as int by {
                    let k = W * p; let d = dd as int; let e = a * d - k;
                    assert(e * W <= k) by (nonlinear_arith) requires e <= p, k == W * p, W == 0x1_0000_0000_0000_0000;
                    assert(k > 0) by (nonlinear_arith) requires k == W * p, p >= 1;
                    assert(b * a == a * b) by (nonlinear_arith);
                    lem_magic(b, d, a, k, e, k);
                }
            } @*/
            hi >> (more & SHIFT_MASK)
        }
    };
    /*@ proof {
        assert forall|d: u64| #[trigger] wfp(d, magic, more) implies q == x as int / d as int by {}
        assert forall|d: u64| #![trigger wfp(d, magic, more)] wfp(d, magic, more) && d <= i64::MAX && mul_back == d implies q <= x && q * mul_back <= x && q * mul_back >= 0 && x - q * mul_back == x as int % d as int by {
            let (xx, dd, qq) = (x as int, d as int, q as int);
            lemma_fundamental_div_mod(xx, dd); lemma_mod_bound(xx, dd); assert(dd * qq == qq * dd) by (nonlinear_arith); lemma_div_pos_is_pos(xx, dd);
            assert(qq * dd >= 0) by (nonlinear_arith) requires qq >= 0, dd >= 0;
            assert(qq <= qq * dd) by (nonlinear_arith) requires qq >= 0, dd >= 1;
        }
        assert forall|d: u64| #![trigger wfp(d, magic, more)] wfp(d, magic, more) implies q <= x by { let (xx, dd, qq) = (x as int, d as int, q as int); lemma_fundamental_div_mod(xx, dd); lemma_mod_bound(xx, dd); lemma_div_pos_is_pos(xx, dd); assert(qq <= dd * qq) by (nonlinear_arith) requires qq >= 0, dd >= 1; }
    } @*/
    if mul_back == 0 {
        q as i64
    } else {
        x.wrapping_sub((q as i64).wrapping_mul(mul_back))
    }
}
//#FN crates/logicaffeine_compile/src/vm/compiler.rs :: fn magic_divisor
fn magic_divisor(magic: u64, more: u8) -> /*@ (r: @*/ i64 /*@ )
    requires exists|d: u64| #[trigger] wfp(d, magic, more) && d <= i64::MAX
    ensures forall|d: u64| #[trigger] wfp(d, magic, more) && d <= i64::MAX ==> r == d @*/ {
    let (mut lo, mut hi) = (0, i64::MAX);
    while hi - lo > 1
    /*@ invariant 0 <= lo < hi, exists|d: u64| #[trigger] wfp(d, magic, more) && d <= i64::MAX,
        forall|d: u64| #[trigger] wfp(d, magic, more) && d <= i64::MAX ==> lo < d <= hi
        decreases hi - lo @*/
    {
        let mid = lo + (hi - lo) / 2;
        /*@ proof { assert forall|d: u64| #[trigger] wfp(d, magic, more) && d <= i64::MAX implies ((mid as int / d as int == 0) <==> mid < d) by { lemma_fundamental_div_mod(mid as int, d as int); lemma_mod_bound(mid as int, d as int); let (m, dd, g) = (mid as int, d as int, mid as int / d as int); if m < dd { lemma_basic_div(m, dd); } else { lemma_div_non_zero(m, dd); } } } @*/
        if magic_eval(mid, magic, more, 0) == 0 {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    hi
}
//#RAW
fn main() {}
} // verus!
