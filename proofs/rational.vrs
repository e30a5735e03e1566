//#SUBST is1: self.den == BigInt::from_i64(1) =>> beq(&self.den, &BigInt::from_i64(1))
//#SUBST mne: self.modulus != other.modulus =>> ! beq(&self.modulus, &other.modulus)
//#SUBST gne: g != BigInt::from_i64(1) =>> ! beq(&g, &BigInt::from_i64(1))
//#SUBST neq: self.normalized() == other.normalized() =>> peq(&self.normalized(), &other.normalized())
//#SUBST max32: self.scale.max(other.scale) =>> max32(self.scale, other.scale)
//#SUBST olt: half != Ordering::Less =>> ! is_lt(half)
//#SUBST ogt: half == Ordering::Greater =>> is_gt(half)
//#SUBST oeq: half == Ordering::Equal =>> is_eq(half)
//#SUBST memr: std::mem::replace =>> core::mem::replace
//#RAW
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
// BigInt by contract: every clause below is proved of the real code in bigint.vrs
#[verifier::external_body] pub struct BigInt { x: u8 }
pub uninterp spec fn iv(b: BigInt) -> int;
spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
spec fn divides(d: int, x: int) -> bool { exists|k: int| #[trigger] (k * d) == x }
#[verifier::external_body] fn beq(a: &BigInt, b: &BigInt) -> (r: bool) ensures r == (iv(*a) == iv(*b)) { unimplemented!() }
impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: BigInt) ensures r == *self { unimplemented!() } }
impl BigInt {
    #[verifier::external_body] fn zero() -> (r: Self) ensures iv(r) == 0 { unimplemented!() }
    #[verifier::external_body] fn from_i64(x: i64) -> (r: Self) ensures iv(r) == x { unimplemented!() }
    #[verifier::external_body] fn from_u64(x: u64) -> (r: Self) ensures iv(r) == x { unimplemented!() }
    #[verifier::external_body] fn to_i64(&self) -> (r: Option<i64>) ensures match r { Some(x) => x == iv(*self), None => iv(*self) < i64::MIN || iv(*self) > i64::MAX } { unimplemented!() }
    #[verifier::external_body] fn is_zero(&self) -> (r: bool) ensures r == (iv(*self) == 0) { unimplemented!() }
    #[verifier::external_body] fn is_negative(&self) -> (r: bool) ensures r == (iv(*self) < 0) { unimplemented!() }
    #[verifier::external_body] fn is_positive(&self) -> (r: bool) ensures r == (iv(*self) > 0) { unimplemented!() }
    #[verifier::external_body] fn is_odd(&self) -> (r: bool) ensures r == (iv(*self) % 2 != 0) { unimplemented!() }
    #[verifier::external_body] fn abs(&self) -> (r: Self) ensures iv(r) == iabs(iv(*self)) { unimplemented!() }
    #[verifier::external_body] fn negated(&self) -> (r: Self) ensures iv(r) == -iv(*self) { unimplemented!() }
    #[verifier::external_body] fn add(&self, other: &Self) -> (r: Self) ensures iv(r) == iv(*self) + iv(*other) { unimplemented!() }
    #[verifier::external_body] fn sub(&self, other: &Self) -> (r: Self) ensures iv(r) == iv(*self) - iv(*other) { unimplemented!() }
    #[verifier::external_body] fn mul(&self, other: &Self) -> (r: Self) ensures iv(r) == iv(*self) * iv(*other) { unimplemented!() }
    #[verifier::external_body] fn div_rem(&self, other: &Self) -> (r: Option<(Self, Self)>)
        ensures match r {
            None => iv(*other) == 0,
            Some((q, m)) => iv(*other) != 0 && iv(*self) == iv(q) * iv(*other) + iv(m) && iabs(iv(m)) < iabs(iv(*other)) && (iv(m) == 0 || (iv(m) < 0) == (iv(*self) < 0)),
        } { unimplemented!() }
    #[verifier::external_body] fn pow(&self, exp: u32) -> (r: Self) ensures iv(r) == ipow(iv(*self), exp as nat) { unimplemented!() }
    #[verifier::external_body] fn cmp(&self, other: &Self) -> (r: Ordering) ensures (r == Ordering::Less) == (iv(*self) < iv(*other)), (r == Ordering::Equal) == (iv(*self) == iv(*other)), (r == Ordering::Greater) == (iv(*self) > iv(*other)) { unimplemented!() }
}
#[verifier::external_body]
fn bigint_gcd(a: &BigInt, b: &BigInt) -> (g: BigInt)
    ensures iv(g) >= 0, divides(iv(g), iv(*a)), divides(iv(g), iv(*b)), forall|d: int| divides(d, iv(*a)) && divides(d, iv(*b)) ==> #[trigger] divides(d, iv(g)), (iv(g) == 0) == (iv(*a) == 0 && iv(*b) == 0)
{ unimplemented!() }
pub assume_specification[ i32::unsigned_abs ](x: i32) -> (r: u32) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification<T>[ core::mem::replace::<T> ](d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
fn is_lt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less) { match o { Ordering::Less => true, _ => false } }
fn is_gt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater) { match o { Ordering::Greater => true, _ => false } }
fn is_eq(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal) { match o { Ordering::Equal => true, _ => false } }
fn max32(a: u32, b: u32) -> (r: u32) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }

// ---- real-number lemmas ----
proof fn rm(a: int, b: int) ensures (a * b) as real == (a as real) * (b as real) { assert((a * b) as real == (a as real) * (b as real)) by (nonlinear_arith); }
proof fn r_le(a: int, b: int) ensures (a <= b) == (a as real <= b as real), (a < b) == ((a as real) < (b as real)) { }
proof fn l_quot(a: real, b: real) requires b != 0real ensures (a / b) * b == a { assert((a / b) * b == a) by (nonlinear_arith) requires b != 0real; }
proof fn l_uniq(x: real, a: real, b: real) requires b != 0real, x * b == a ensures x == a / b { assert(x == a / b) by (nonlinear_arith) requires b != 0real, x * b == a; }
proof fn l_nz(a: real, b: real) requires a != 0real, b != 0real ensures a * b != 0real { assert(a * b != 0real) by (nonlinear_arith) requires a != 0real, b != 0real; }
proof fn l_pos(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
proof fn l_add(a: real, b: real, c: real, d: real) requires b != 0real, d != 0real ensures (a * d + c * b) / (b * d) == a / b + c / d, (a * d - c * b) / (b * d) == a / b - c / d
{
    l_quot(a, b); l_quot(c, d); l_nz(b, d); let x = a / b; let y = c / d;
    assert((x + y) * (b * d) == a * d + c * b) by (nonlinear_arith) requires x * b == a, y * d == c;
    assert((x - y) * (b * d) == a * d - c * b) by (nonlinear_arith) requires x * b == a, y * d == c;
    l_uniq(x + y, a * d + c * b, b * d); l_uniq(x - y, a * d - c * b, b * d);
}
proof fn l_mul(a: real, b: real, c: real, d: real) requires b != 0real, d != 0real ensures (a * c) / (b * d) == (a / b) * (c / d)
{
    l_quot(a, b); l_quot(c, d); l_nz(b, d); let x = a / b; let y = c / d;
    assert((x * y) * (b * d) == a * c) by (nonlinear_arith) requires x * b == a, y * d == c;
    l_uniq(x * y, a * c, b * d);
}
proof fn l_div(a: real, b: real, c: real, d: real) requires b != 0real, d != 0real, c != 0real ensures (a * d) / (b * c) == (a / b) / (c / d), c / d != 0real
{
    l_quot(a, b); l_quot(c, d); l_nz(b, c); let x = a / b; let y = c / d;
    assert(y != 0real) by (nonlinear_arith) requires y * d == c, c != 0real;
    l_quot(x, y); let z = x / y;
    assert(z * (b * c) == a * d) by (nonlinear_arith) requires z * y == x, x * b == a, y * d == c;
    l_uniq(z, a * d, b * c);
}
// a/b against c/d for positive denominators
proof fn l_cmp(a: real, b: real, c: real, d: real) requires b > 0real, d > 0real ensures (a / b < c / d) == (a * d < c * b), (a / b == c / d) == (a * d == c * b)
{
    l_quot(a, b); l_quot(c, d); let x = a / b; let y = c / d; l_pos(b, d); let z = b * d;
    assert(a * d == x * z) by (nonlinear_arith) requires x * b == a, z == b * d;
    assert(c * b == y * z) by (nonlinear_arith) requires y * d == c, z == b * d;
    assert((x < y) == (x * z < y * z)) by (nonlinear_arith) requires z > 0real;
    assert((x == y) == (x * z == y * z)) by (nonlinear_arith) requires z > 0real;
}
proof fn l_frac(n: int, d: int, m: int, e: int) requires d != 0, e != 0, n * e == m * d ensures (n as real) / (d as real) == (m as real) / (e as real)
{
    rm(n, e); rm(m, d); let a = n as real; let b = d as real; let c = m as real; let f = e as real; l_quot(c, f); let y = c / f;
    assert(y * b == a) by (nonlinear_arith) requires y * f == c, a * f == c * b, f != 0real;
    l_uniq(y, a, b);
}
// ---- Rational ----
//#ITEM crates/logicaffeine_base/src/numeric.rs :: struct Rational
//#RAW
spec fn coprime(n: int, d: int) -> bool { forall|k: int| divides(k, n) && #[trigger] divides(k, d) ==> k == 1 || k == -1 }
// canonical form: lowest terms over a positive denominator
spec fn rwf(r: Rational) -> bool { iv(r.den) > 0 && coprime(iv(r.num), iv(r.den)) }
spec fn is_int(x: real, k: int) -> bool { k as real == x }
spec fn rv(r: Rational) -> real { (iv(r.num) as real) / (iv(r.den) as real) }
impl Clone for Rational { #[verifier::external_body] fn clone(&self) -> (r: Rational) ensures r == *self { unimplemented!() } }
proof fn lem_exact(n: int, k: int, g: int, q: int, m: int) requires g > 0, n == k * g, n == q * g + m, iabs(m) < g ensures m == 0, q == k
{ assert(m == (k - q) * g) by (nonlinear_arith) requires n == k * g, n == q * g + m; assert(k - q == 0) by (nonlinear_arith) requires m == (k - q) * g, -g < m, m < g, g > 0; assert((k - q) * g == 0) by (nonlinear_arith) requires k - q == 0; }
proof fn lem_div_trans(k: int, n: int, g: int) requires divides(k, n) ensures divides(k * g, n * g)
{ let c = choose|c: int| #[trigger] (c * k) == n; assert(c * (k * g) == n * g) by (nonlinear_arith) requires c * k == n; }
proof fn lem_unit(k: int, g: int) requires g > 0, divides(k * g, g) ensures k == 1 || k == -1
{ let c = choose|c: int| #[trigger] (c * (k * g)) == g; assert((c * k) * g == g) by (nonlinear_arith) requires c * (k * g) == g; assert(c * k == 1) by (nonlinear_arith) requires (c * k) * g == g, g > 0; assert(k == 1 || k == -1) by (nonlinear_arith) requires c * k == 1; }
proof fn lem_coprime(n: int, d: int, g: int)
    requires g > 0, forall|x: int| divides(x, n * g) && divides(x, d * g) ==> #[trigger] divides(x, g)
    ensures coprime(n, d)
{ assert forall|k: int| divides(k, n) && #[trigger] divides(k, d) implies k == 1 || k == -1 by { lem_div_trans(k, n, g); lem_div_trans(k, d, g); assert(divides(k * g, g)); lem_unit(k, g); } }
proof fn lem_coprime_one(n: int) ensures coprime(n, 1)
{ assert forall|k: int| divides(k, n) && #[trigger] divides(k, 1) implies k == 1 || k == -1 by { let c = choose|c: int| #[trigger] (c * k) == 1; assert(k == 1 || k == -1) by (nonlinear_arith) requires c * k == 1; } }
proof fn lem_coprime_neg(n: int, d: int) requires coprime(n, d) ensures coprime(-n, d)
{ assert forall|k: int| divides(k, -n) && #[trigger] divides(k, d) implies k == 1 || k == -1 by { let c = choose|c: int| #[trigger] (c * k) == -n; assert((-c) * k == n) by (nonlinear_arith) requires c * k == -n; assert(divides(k, n)); } }
proof fn lem_zero_one(r: Rational) requires rwf(r), iv(r.num) == 0 ensures iv(r.den) == 1
{ let d = iv(r.den); assert(1 * d == d && 0 * d == 0) by (nonlinear_arith); assert(divides(d, d) && divides(d, 0)); }
proof fn lem_sign(r: Rational) requires rwf(r) ensures (iv(r.num) < 0) == (rv(r) < 0real), (iv(r.num) == 0) == (rv(r) == 0real), (iv(r.num) > 0) == (rv(r) > 0real)
{ let n = iv(r.num) as real; let d = iv(r.den) as real; l_quot(n, d); let x = rv(r); assert((x < 0real) == (n < 0real) && (x > 0real) == (n > 0real) && (x == 0real) == (n == 0real)) by (nonlinear_arith) requires x * d == n, d > 0real; }
// one value, one representation
proof fn lem_canonical(a: Rational, b: Rational) requires rwf(a), rwf(b), rv(a) == rv(b) ensures iv(a.num) == iv(b.num), iv(a.den) == iv(b.den)
{
    let (n, d, m, e) = (iv(a.num), iv(a.den), iv(b.num), iv(b.den));
    l_cmp(n as real, d as real, m as real, e as real); rm(n, e); rm(m, d); assert(n * e == m * d);
    lem_bezout_free(n, d, m, e); lem_bezout_free(m, e, n, d);
    let k = choose|k: int| #[trigger] (k * d) == e; let j = choose|j: int| #[trigger] (j * e) == d;
    assert(k * j == 1) by (nonlinear_arith) requires k * d == e, j * e == d, d > 0, e > 0;
    assert(k == 1) by (nonlinear_arith) requires k * j == 1, k * d == e, d > 0, e > 0;
    assert(n == m) by (nonlinear_arith) requires n * e == m * d, e == d, d > 0;
}
// n/d in lowest terms equal to m/e: d divides e
proof fn lem_bezout_free(n: int, d: int, m: int, e: int) requires d > 0, e > 0, coprime(n, d), n * e == m * d ensures divides(d, e) decreases d
{
    // Euclid on (n, d) by strong induction through remainders
    lem_gauss(n, d, e, m);
}
proof fn lem_gauss(n: int, d: int, e: int, m: int) requires d > 0, coprime(n, d), n * e == m * d ensures divides(d, e) decreases d
{
    if d == 1 { assert(e * 1 == e); }
    else {
        // n = q d + r; coprime(d, r), and r * e = (m - q e) d, so r | ... swap roles
        let q = n / d; let r = n % d; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d); assert(n == q * d + r) by (nonlinear_arith) requires n == d * q + r;
        if r == 0 { assert(divides(d, n)) by { assert(q * d == n); } assert(divides(d, d)) by { assert(1 * d == d); } assert(d == 1 || d == -1); }
        else {
            assert(r * e == (m - q * e) * d) by (nonlinear_arith) requires n * e == m * d, n == q * d + r;
            let w = m - q * e;
            // d * w = e * r : d/r in lowest terms, so r divides w
            assert(coprime(d, r)) by { assert forall|k: int| divides(k, d) && #[trigger] divides(k, r) implies k == 1 || k == -1 by {
                let a = choose|a: int| #[trigger] (a * k) == d; let b = choose|b: int| #[trigger] (b * k) == r; assert((q * a + b) * k == n) by (nonlinear_arith) requires a * k == d, b * k == r, n == q * d + r; assert(divides(k, n)); } }
            assert(d * w == e * r) by (nonlinear_arith) requires r * e == w * d;
            lem_gauss(d, r, w, e);
            let t = choose|t: int| #[trigger] (t * r) == w;
            assert(t * d == e) by (nonlinear_arith) requires d * w == e * r, t * r == w, r > 0;
        }
    }
}
impl Rational {
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn new
fn new(num: BigInt, den: BigInt) -> /*@ (r: @*/ Option<Rational> /*@ )
    ensures match r { None => iv(den) == 0, Some(x) => iv(den) != 0 && rwf(x) && rv(x) == (iv(num) as real) / (iv(den) as real) } @*/ {
    /*@ let ghost n0 = iv(num); let ghost d0 = iv(den); @*/
    if den.is_zero() {
        return None;
    }
    let (mut num, mut den) = (num, den);
    if den.is_negative() {
        num = num.negated();
        den = den.negated();
    }
    /*@ let ghost n1 = iv(num); let ghost d1 = iv(den); proof { assert(n1 * d0 == n0 * d1) by (nonlinear_arith) requires (n1 == n0 && d1 == d0) || (n1 == -n0 && d1 == -d0); l_frac(n1, d1, n0, d0); } @*/
    if num.is_zero() {
        /*@ proof { lem_coprime_one(0); assert(0 * d1 == 0 * 1) by (nonlinear_arith); l_frac(0, 1, n1, d1); } @*/
        return Some(Rational { num: BigInt::zero(), den: BigInt::from_i64(1) });
    }
    let g = bigint_gcd(&num, &den);
    /*@ let ghost gg = iv(g); let ghost k = choose|k: int| #[trigger] (k * gg) == n1; let ghost l = choose|l: int| #[trigger] (l * gg) == d1; @*/
    let (num, _) = num.div_rem(&g).expect("gcd divides the numerator exactly");
    let (den, _) = den.div_rem(&g).expect("gcd divides the denominator exactly");
    /*@ proof {
        assert(iv(num) == k && iv(den) == l) by { let m1 = n1 - iv(num) * gg; let m2 = d1 - iv(den) * gg; lem_exact(n1, k, gg, iv(num), m1); lem_exact(d1, l, gg, iv(den), m2); }
        assert(l > 0) by (nonlinear_arith) requires l * gg == d1, d1 > 0, gg > 0;
        lem_coprime(k, l, gg);
        assert(k * d1 == n1 * l) by (nonlinear_arith) requires k * gg == n1, l * gg == d1; l_frac(k, l, n1, d1);
    } @*/
    Some(Rational { num, den })
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn from_bigint
fn from_bigint(n: BigInt) -> /*@ (r: @*/ Rational /*@ ) ensures rwf(r), rv(r) == iv(n) as real @*/ {
    /*@ proof { lem_coprime_one(iv(n)); l_uniq(iv(n) as real, iv(n) as real, 1real); } @*/
    Rational { num: n, den: BigInt::from_i64(1) }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn from_i64
fn from_i64(x: i64) -> /*@ (r: @*/ Rational /*@ ) ensures rwf(r), rv(r) == x as real @*/ {
    Rational::from_bigint(BigInt::from_i64(x))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn from_ratio_i64
fn from_ratio_i64(n: i64, d: i64) -> /*@ (r: @*/ Option<Rational> /*@ ) ensures match r { None => d == 0, Some(x) => d != 0 && rwf(x) && rv(x) == (n as int as real) / (d as int as real) } @*/ {
    Rational::new(BigInt::from_i64(n), BigInt::from_i64(d))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn zero
fn zero() -> /*@ (r: @*/ Rational /*@ ) ensures rwf(r), rv(r) == 0real @*/ {
    /*@ proof { lem_coprime_one(0); l_uniq(0real, 0real, 1real); } @*/
    Rational { num: BigInt::zero(), den: BigInt::from_i64(1) }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn one
fn one() -> /*@ (r: @*/ Rational /*@ ) ensures rwf(r), rv(r) == 1real @*/ {
    Rational::from_i64(1)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn numerator
fn numerator(&self) -> /*@ (r: @*/ &BigInt /*@ ) ensures *r == self.num @*/ {
    &self.num
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn denominator
fn denominator(&self) -> /*@ (r: @*/ &BigInt /*@ ) ensures *r == self.den @*/ {
    &self.den
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn is_integer | is1
fn is_integer(&self) -> /*@ (r: @*/ bool /*@ ) requires rwf(*self) ensures r == (exists|k: int| is_int(rv(*self), k)), r ==> rv(*self) == iv(self.num) as real @*/ {
    /*@ proof {
        let n = iv(self.num); let d = iv(self.den); l_quot(n as real, d as real);
        if d == 1 { l_uniq(n as real, n as real, 1real); assert(is_int(rv(*self), n)); }
        assert forall|k: int| is_int(rv(*self), k) implies d == 1 by { rm(k, d); assert((k * d) as real == n as real); assert(k * d == n); assert(divides(d, n)); assert(1 * d == d); assert(divides(d, d)); }
    } @*/
    beq(&self.den, &BigInt::from_i64(1))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn is_zero
fn is_zero(&self) -> /*@ (r: @*/ bool /*@ ) requires rwf(*self) ensures r == (rv(*self) == 0real) @*/ {
    /*@ proof { lem_sign(*self); } @*/
    self.num.is_zero()
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn is_negative
fn is_negative(&self) -> /*@ (r: @*/ bool /*@ ) requires rwf(*self) ensures r == (rv(*self) < 0real) @*/ {
    /*@ proof { lem_sign(*self); } @*/
    self.num.is_negative()
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn is_positive
fn is_positive(&self) -> /*@ (r: @*/ bool /*@ ) requires rwf(*self) ensures r == (rv(*self) > 0real) @*/ {
    /*@ proof { lem_sign(*self); } @*/
    self.num.is_positive()
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn to_bigint
fn to_bigint(&self) -> /*@ (r: @*/ Option<BigInt> /*@ ) requires rwf(*self) ensures match r { Some(x) => iv(x) as real == rv(*self), None => !exists|k: int| is_int(rv(*self), k) } @*/ {
    if self.is_integer() {
        Some(self.num.clone())
    } else {
        None
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn to_i64
fn to_i64(&self) -> /*@ (r: @*/ Option<i64> /*@ ) requires rwf(*self) ensures match r { Some(x) => x as int as real == rv(*self), None => !exists|k: int| i64::MIN <= k <= i64::MAX && is_int(rv(*self), k) } @*/ {
    if self.is_integer() {
        self.num.to_i64()
    } else {
        None
    }
}
//#RAW
}
// x = q + f with |f| < 1
proof fn lem_parts(n: int, d: int, q: int, m: int) requires d > 0, n == q * d + m, iabs(m) < d, m == 0 || (m < 0) == (n < 0)
    ensures (n as real) / (d as real) == q as real + (m as real) / (d as real), (m == 0) == ((m as real) / (d as real) == 0real), (m > 0) == ((m as real) / (d as real) > 0real), (m < 0) == ((m as real) / (d as real) < 0real),
        -1real < (m as real) / (d as real), (m as real) / (d as real) < 1real, (n as real / (d as real) < 0real) == (n < 0), (n as real / (d as real) > 0real) == (n > 0),
        (2 * m < d) == (2real * ((m as real) / (d as real)) < 1real), (2 * m == d) == (2real * ((m as real) / (d as real)) == 1real), (-2 * m < d) == (-2real * ((m as real) / (d as real)) < 1real), (-2 * m == d) == (-2real * ((m as real) / (d as real)) == 1real)
{
    let a = n as real; let b = d as real; let c = m as real; rm(q, d); l_quot(a, b); l_quot(c, b); let f = c / b; let x = a / b; let p = q as real;
    assert(x * b == p * b + f * b); assert(x == p + f) by (nonlinear_arith) requires x * b == p * b + f * b, b > 0real;
    assert((f < 0real) == (c < 0real) && (f > 0real) == (c > 0real) && (f == 0real) == (c == 0real)) by (nonlinear_arith) requires f * b == c, b > 0real;
    assert((x < 0real) == (a < 0real) && (x > 0real) == (a > 0real)) by (nonlinear_arith) requires x * b == a, b > 0real;
    assert(c < b && -b < c);
    assert(f < 1real && -1real < f) by (nonlinear_arith) requires f * b == c, b > 0real, c < b, -b < c;
    assert((2real * f < 1real) == (2real * c < b)) by (nonlinear_arith) requires f * b == c, b > 0real;
    assert((2real * f == 1real) == (2real * c == b)) by (nonlinear_arith) requires f * b == c, b > 0real;
    assert((-2real * f < 1real) == (-2real * c < b)) by (nonlinear_arith) requires f * b == c, b > 0real;
    assert((-2real * f == 1real) == (-2real * c == b)) by (nonlinear_arith) requires f * b == c, b > 0real;
    assert((2 * m) as real == 2real * c); assert((-2 * m) as real == -2real * c);
}
impl Rational {
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn floor
fn floor(&self) -> /*@ (r: @*/ BigInt /*@ ) requires rwf(*self) ensures rounds(rv(*self), RoundingMode::Floor, iv(r)) @*/ {
    let (q, r) = self.num.div_rem(&self.den).expect("denominator is nonzero");
    /*@ proof { lem_parts(iv(self.num), iv(self.den), iv(q), iv(r)); } @*/
    if self.num.is_negative() && !r.is_zero() {
        q.sub(&BigInt::from_i64(1))
    } else {
        q
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn ceil
fn ceil(&self) -> /*@ (r: @*/ BigInt /*@ ) requires rwf(*self) ensures rounds(rv(*self), RoundingMode::Ceiling, iv(r)) @*/ {
    let (q, r) = self.num.div_rem(&self.den).expect("denominator is nonzero");
    /*@ proof { lem_parts(iv(self.num), iv(self.den), iv(q), iv(r)); } @*/
    if !self.num.is_negative() && !r.is_zero() {
        q.add(&BigInt::from_i64(1))
    } else {
        q
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn round
fn round(&self) -> /*@ (r: @*/ BigInt /*@ ) requires rwf(*self) ensures rounds(rv(*self), RoundingMode::HalfUp, iv(r)) @*/ {
    let two = BigInt::from_i64(2);
    let numerator = self.num.abs().mul(&two).add(&self.den);
    let denominator = self.den.mul(&two);
    let (mag, _) = numerator.div_rem(&denominator).expect("denominator is nonzero");
    /*@ proof { lem_half(iv(self.num), iv(self.den), iv(mag)); } @*/
    if self.num.is_negative() {
        mag.negated()
    } else {
        mag
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn negated
fn negated(&self) -> /*@ (r: @*/ Rational /*@ ) requires rwf(*self) ensures rwf(r), rv(r) == -rv(*self) @*/ {
    /*@ proof { let n = iv(self.num) as real; let d = iv(self.den) as real; lem_coprime_neg(iv(self.num), iv(self.den)); l_quot(n, d); let x = rv(*self); assert((-x) * d == -n) by (nonlinear_arith) requires x * d == n; l_uniq(-x, -n, d); } @*/
    Rational { num: self.num.negated(), den: self.den.clone() }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn abs
fn abs(&self) -> /*@ (r: @*/ Rational /*@ ) requires rwf(*self) ensures rwf(r), rv(r) == (if rv(*self) < 0real { -rv(*self) } else { rv(*self) }) @*/ {
    /*@ proof { lem_sign(*self); let n = iv(self.num) as real; let d = iv(self.den) as real; lem_coprime_neg(iv(self.num), iv(self.den)); l_quot(n, d); let x = rv(*self); assert((-x) * d == -n) by (nonlinear_arith) requires x * d == n; l_uniq(-x, -n, d); } @*/
    Rational { num: self.num.abs(), den: self.den.clone() }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn recip
fn recip(&self) -> /*@ (r: @*/ Option<Rational> /*@ ) requires rwf(*self) ensures match r { None => rv(*self) == 0real, Some(x) => rv(*self) != 0real && rwf(x) && rv(x) * rv(*self) == 1real } @*/ {
    /*@ proof { lem_sign(*self); let n = iv(self.num) as real; let d = iv(self.den) as real; if n != 0real { l_quot(n, d); l_quot(d, n); let x = n / d; let y = d / n; assert(y * x == 1real) by (nonlinear_arith) requires x * d == n, y * n == d, d > 0real, n != 0real; } } @*/
    Rational::new(self.den.clone(), self.num.clone())
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn add
fn add(&self, other: &Rational) -> /*@ (r: @*/ Rational /*@ ) requires rwf(*self), rwf(*other) ensures rwf(r), rv(r) == rv(*self) + rv(*other) @*/ {
    /*@ proof { let (a, b, c, d) = (iv(self.num), iv(self.den), iv(other.num), iv(other.den)); rm(a, d); rm(c, b); rm(b, d); l_add(a as real, b as real, c as real, d as real); l_pos(b as real, d as real); } @*/
    let num = self.num.mul(&other.den).add(&other.num.mul(&self.den));
    let den = self.den.mul(&other.den);
    Rational::new(num, den).expect("product of positive denominators is nonzero")
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn sub
fn sub(&self, other: &Rational) -> /*@ (r: @*/ Rational /*@ ) requires rwf(*self), rwf(*other) ensures rwf(r), rv(r) == rv(*self) - rv(*other) @*/ {
    /*@ proof { let (a, b, c, d) = (iv(self.num), iv(self.den), iv(other.num), iv(other.den)); rm(a, d); rm(c, b); rm(b, d); l_add(a as real, b as real, c as real, d as real); l_pos(b as real, d as real); } @*/
    let num = self.num.mul(&other.den).sub(&other.num.mul(&self.den));
    let den = self.den.mul(&other.den);
    Rational::new(num, den).expect("product of positive denominators is nonzero")
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn mul
fn mul(&self, other: &Rational) -> /*@ (r: @*/ Rational /*@ ) requires rwf(*self), rwf(*other) ensures rwf(r), rv(r) == rv(*self) * rv(*other) @*/ {
    /*@ proof { let (a, b, c, d) = (iv(self.num), iv(self.den), iv(other.num), iv(other.den)); rm(a, c); rm(b, d); l_mul(a as real, b as real, c as real, d as real); l_pos(b as real, d as real); } @*/
    let num = self.num.mul(&other.num);
    let den = self.den.mul(&other.den);
    Rational::new(num, den).expect("product of positive denominators is nonzero")
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn div
fn div(&self, other: &Rational) -> /*@ (r: @*/ Option<Rational> /*@ ) requires rwf(*self), rwf(*other)
    ensures match r { None => rv(*other) == 0real, Some(x) => rv(*other) != 0real && rwf(x) && rv(x) == rv(*self) / rv(*other) } @*/ {
    /*@ proof { let (a, b, c, d) = (iv(self.num), iv(self.den), iv(other.num), iv(other.den)); lem_sign(*other); rm(a, d); rm(b, c); if c != 0 { l_div(a as real, b as real, c as real, d as real); l_nz(b as real, c as real); } } @*/
    let num = self.num.mul(&other.den);
    let den = self.den.mul(&other.num);
    Rational::new(num, den)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Rational :: fn pow
fn pow(&self, exp: i32) -> /*@ (r: @*/ Option<Rational> /*@ ) requires rwf(*self)
    ensures match r { None => exp < 0 && rv(*self) == 0real, Some(x) => rwf(x) && (exp >= 0 ==> rv(x) == rpow(rv(*self), exp as nat)) && (exp < 0 ==> rv(*self) != 0real && rv(x) * rpow(rv(*self), (-exp) as nat) == 1real) } @*/ {
    /*@ proof { lem_sign(*self); let k = (if exp < 0 { -exp } else { exp as int }) as nat; lem_pow_frac(iv(self.num), iv(self.den), k); } @*/
    if exp >= 0 {
        let k = exp as u32;
        Some(
            Rational::new(self.num.pow(k), self.den.pow(k))
                .expect("denominator^k stays positive"),
        )
    } else {
        if self.num.is_zero() {
            return None;
        }
        let k = exp.unsigned_abs();
        Rational::new(self.den.pow(k), self.num.pow(k))
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Ord for Rational :: fn cmp
fn cmp(&self, other: &Self) -> /*@ (r: @*/ Ordering /*@ ) requires rwf(*self), rwf(*other) ensures (r == Ordering::Less) == (rv(*self) < rv(*other)), (r == Ordering::Equal) == (rv(*self) == rv(*other)), (r == Ordering::Greater) == (rv(*self) > rv(*other)) @*/ {
    /*@ proof { let (a, b, c, d) = (iv(self.num), iv(self.den), iv(other.num), iv(other.den)); rm(a, d); rm(c, b); l_cmp(a as real, b as real, c as real, d as real); } @*/
    self.num.mul(&other.den).cmp(&other.num.mul(&self.den))
}
//#RAW
}
spec fn rpow(x: real, k: nat) -> real decreases k { if k == 0 { 1real } else { x * rpow(x, (k - 1) as nat) } }
proof fn lem_pow_frac(n: int, d: int, k: nat)
    requires d > 0
    ensures ipow(d, k) > 0, (ipow(n, k) as real) / (ipow(d, k) as real) == rpow((n as real) / (d as real), k), n != 0 ==> ipow(n, k) != 0 && ((ipow(d, k) as real) / (ipow(n, k) as real)) * rpow((n as real) / (d as real), k) == 1real
    decreases k
{
    if k == 0 { l_uniq(1real, 1real, 1real); } else {
        let j = (k - 1) as nat; lem_pow_frac(n, d, j); let (p, q) = (ipow(n, j), ipow(d, j)); rm(n, p); rm(d, q); l_pos(d as real, q as real); l_mul(n as real, d as real, p as real, q as real);
        if n != 0 { assert(n * p != 0) by (nonlinear_arith) requires n != 0, p != 0; }
    }
    if n != 0 { let (p, q) = (ipow(n, k) as real, ipow(d, k) as real); l_quot(p, q); l_quot(q, p); let x = p / q; let y = q / p; assert(y * x == 1real) by (nonlinear_arith) requires x * q == p, y * p == q, q > 0real, p != 0real; }
}
// ---- rounding ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//#ITEM crates/logicaffeine_base/src/numeric.rs :: enum RoundingMode
//#RAW
// what each mode defines, for every real x
spec fn rounds(x: real, mode: RoundingMode, q: int) -> bool {
    let y = q as real;
    match mode {
        RoundingMode::Down => if x >= 0real { y <= x && x < y + 1real } else { y - 1real < x && x <= y },
        RoundingMode::Up => if x >= 0real { y - 1real < x && x <= y } else { y <= x && x < y + 1real },
        RoundingMode::Floor => y <= x && x < y + 1real,
        RoundingMode::Ceiling => y - 1real < x && x <= y,
        RoundingMode::HalfUp => near(x, y) && (tie(x, y) ==> (if x >= 0real { y > x } else { y < x })),
        RoundingMode::HalfDown => near(x, y) && (tie(x, y) ==> (if x >= 0real { y < x } else { y > x })),
        RoundingMode::HalfEven => near(x, y) && (tie(x, y) ==> q % 2 == 0),
    }
}
spec fn near(x: real, y: real) -> bool { -1real <= 2real * (x - y) && 2real * (x - y) <= 1real }
spec fn tie(x: real, y: real) -> bool { 2real * (x - y) == 1real || 2real * (x - y) == -1real }
proof fn lem_half(n: int, d: int, mag: int)
    requires d > 0, ({ let a = iabs(n) * 2 + d; let b = d * 2; mag * b <= a && a - mag * b < b })
    ensures rounds((n as real) / (d as real), RoundingMode::HalfUp, if n < 0 { -mag } else { mag })
{
    let a = iabs(n); let ar = a as real; let b = d as real; let x = (n as real) / b; l_quot(n as real, b); l_quot(ar, b); let z = ar / b; let m = mag as real;
    assert((x < 0real) == (n < 0)) by { let nn = n as real; assert((x < 0real) == (nn < 0real)) by (nonlinear_arith) requires x * b == nn, b > 0real; }
    assert(n < 0 ==> x == -z) by { if n < 0 { let nn = n as real; assert(ar == -nn); assert((-z) * b == nn) by (nonlinear_arith) requires z * b == ar, ar == -nn; l_uniq(-z, nn, b); } }
    rm(mag, d * 2); assert((d * 2) as real == 2real * b); assert((a * 2 + d) as real == 2real * ar + b);
    r_le(mag * (d * 2), a * 2 + d); r_le(a * 2 + d, mag * (d * 2) + d * 2);
    assert(m * (2real * b) <= 2real * ar + b && 2real * ar + b < m * (2real * b) + 2real * b);
    assert(2real * m <= 2real * z + 1real) by (nonlinear_arith) requires m * (2real * b) <= 2real * ar + b, z * b == ar, b > 0real;
    assert(2real * z + 1real < 2real * m + 2real) by (nonlinear_arith) requires 2real * ar + b < m * (2real * b) + 2real * b, z * b == ar, b > 0real;
    assert((-mag) as real == -m);
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn ten_pow
fn ten_pow(k: u32) -> /*@ (r: @*/ BigInt /*@ ) ensures iv(r) == ipow(10, k as nat), iv(r) > 0 @*/ {
    /*@ proof { lem_ten(k as nat); } @*/
    BigInt::from_u64(10).pow(k)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn round_rational_to_bigint | olt, ogt, oeq
fn round_rational_to_bigint(x: &Rational, mode: RoundingMode) -> /*@ (res: @*/ BigInt /*@ ) requires rwf(*x) ensures rounds(rv(*x), mode, iv(res)) @*/ {
    let num = x.numerator();
    let den = x.denominator();
    let (q, r) = num.div_rem(den).expect("rational denominator is nonzero");
    /*@ proof { lem_parts(iv(*num), iv(*den), iv(q), iv(r)); } @*/
    if r.is_zero() {
        return q;
    }
    let neg = num.is_negative();
    let twice = r.abs().mul(&BigInt::from_i64(2));
    let half = twice.cmp(den);
    let away = match mode {
        RoundingMode::Down => false,
        RoundingMode::Up => true,
        RoundingMode::Floor => neg,
        RoundingMode::Ceiling => !neg,
        RoundingMode::HalfUp => ! is_lt(half),
        RoundingMode::HalfDown => is_gt(half),
        RoundingMode::HalfEven => is_gt(half) || (is_eq(half) && q.is_odd()),
    };
    /*@ proof {
        let f = (iv(r) as real) / (iv(*den) as real);
        assert((half == Ordering::Less) == (if neg { -2 * iv(r) < iv(*den) } else { 2 * iv(r) < iv(*den) }));
        assert((half == Ordering::Equal) == (if neg { -2 * iv(r) == iv(*den) } else { 2 * iv(r) == iv(*den) }));
        assert(mode is HalfUp ==> away == (half != Ordering::Less));
        assert(mode is HalfDown ==> away == (half == Ordering::Greater));
        assert(mode is HalfEven ==> away == (half == Ordering::Greater || (half == Ordering::Equal && iv(q) % 2 != 0)));
        assert(rv(*x) == iv(q) as real + f);
        if neg { assert(rounds(rv(*x), mode, if away { iv(q) - 1 } else { iv(q) })); } else { assert(rounds(rv(*x), mode, if away { iv(q) + 1 } else { iv(q) })); }
    } @*/
    if away {
        if neg { q.sub(&BigInt::from_i64(1)) } else { q.add(&BigInt::from_i64(1)) }
    } else {
        q
    }
}
//#RAW
proof fn lem_ten(k: nat) ensures ipow(10, k) > 0 decreases k { if k > 0 { lem_ten((k - 1) as nat); } }
proof fn lem_ten_add(a: nat, b: nat) ensures ipow(10, a + b) == ipow(10, a) * ipow(10, b) decreases a
{ if a > 0 { lem_ten_add((a - 1) as nat, b); assert(10 * (ipow(10, (a - 1) as nat) * ipow(10, b)) == (10 * ipow(10, (a - 1) as nat)) * ipow(10, b)) by (nonlinear_arith); } else { assert(1 * ipow(10, b) == ipow(10, b)); } }
// ---- Decimal ----
//#ITEM crates/logicaffeine_base/src/numeric.rs :: struct Decimal
//#RAW
spec fn p10(k: u32) -> real { ipow(10, k as nat) as real }
spec fn dv(d: Decimal) -> real { (iv(d.coeff) as real) / p10(d.scale) }
proof fn l_p10(k: u32) ensures p10(k) > 0real { lem_ten(k as nat); }
// a coefficient moved to a larger scale denotes the same number
proof fn l_widen(c: int, s: u32, t: u32) requires s <= t ensures ((c * ipow(10, (t - s) as nat)) as real) / p10(t) == (c as real) / p10(s)
{ lem_ten_add((t - s) as nat, s as nat); let d = ipow(10, (t - s) as nat); let e = ipow(10, s as nat); lem_ten(s as nat); lem_ten(t as nat); assert((c * d) * e == c * (d * e)) by (nonlinear_arith); l_frac(c * d, ipow(10, t as nat), c, e); }
impl Decimal {
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn from_bigint
fn from_bigint(coeff: BigInt) -> /*@ (r: @*/ Decimal /*@ ) ensures dv(r) == iv(coeff) as real @*/ {
    /*@ proof { l_uniq(iv(coeff) as real, iv(coeff) as real, 1real); } @*/
    Decimal { coeff, scale: 0 }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn from_i64
fn from_i64(x: i64) -> /*@ (r: @*/ Decimal /*@ ) ensures dv(r) == x as real @*/ {
    Decimal::from_bigint(BigInt::from_i64(x))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn from_coeff_scale
fn from_coeff_scale(coeff: BigInt, scale: u32) -> /*@ (r: @*/ Decimal /*@ ) ensures dv(r) == (iv(coeff) as real) / p10(scale), r.scale == scale @*/ {
    Decimal { coeff, scale }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn negated
fn negated(&self) -> /*@ (r: @*/ Decimal /*@ ) ensures dv(r) == -dv(*self), r.scale == self.scale @*/ {
    /*@ proof { let n = iv(self.coeff) as real; let d = p10(self.scale); l_p10(self.scale); l_quot(n, d); let x = dv(*self); assert((-x) * d == -n) by (nonlinear_arith) requires x * d == n; l_uniq(-x, -n, d); } @*/
    Decimal { coeff: self.coeff.negated(), scale: self.scale }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn abs
fn abs(&self) -> /*@ (r: @*/ Decimal /*@ ) ensures dv(r) == (if dv(*self) < 0real { -dv(*self) } else { dv(*self) }), r.scale == self.scale @*/ {
    /*@ proof { let n = iv(self.coeff) as real; let d = p10(self.scale); l_p10(self.scale); l_quot(n, d); let x = dv(*self); assert((x < 0real) == (n < 0real)) by (nonlinear_arith) requires x * d == n, d > 0real; assert((-x) * d == -n) by (nonlinear_arith) requires x * d == n; l_uniq(-x, -n, d); } @*/
    Decimal { coeff: self.coeff.abs(), scale: self.scale }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn to_rational
fn to_rational(&self) -> /*@ (r: @*/ Rational /*@ ) ensures rwf(r), rv(r) == dv(*self) @*/ {
    Rational::new(self.coeff.clone(), ten_pow(self.scale)).expect("10^scale is nonzero")
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn from_rational
fn from_rational(value: &Rational, scale: u32, mode: RoundingMode) -> /*@ (r: @*/ Decimal /*@ ) requires rwf(*value) ensures r.scale == scale, rounds(rv(*value) * p10(scale), mode, iv(r.coeff)) @*/ {
    let scaled = value.mul(&Rational::from_bigint(ten_pow(scale)));
    Decimal { coeff: round_rational_to_bigint(&scaled, mode), scale }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn rescale
fn rescale(&self, scale: u32, mode: RoundingMode) -> /*@ (r: @*/ Decimal /*@ ) ensures r.scale == scale, scale >= self.scale ==> dv(r) == dv(*self), scale < self.scale ==> rounds(dv(*self) * p10(scale), mode, iv(r.coeff)) @*/ {
    if scale >= self.scale {
        /*@ proof { l_widen(iv(self.coeff), self.scale, scale); } @*/
        Decimal { coeff: self.coeff.mul(&ten_pow(scale - self.scale)), scale }
    } else {
        Decimal::from_rational(&self.to_rational(), scale, mode)
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn aligned | max32
fn aligned(&self, other: &Decimal) -> /*@ (r: @*/ (BigInt, BigInt, u32) /*@ ) ensures (iv(r.0) as real) / p10(r.2) == dv(*self), (iv(r.1) as real) / p10(r.2) == dv(*other), r.2 == (if self.scale < other.scale { other.scale } else { self.scale }) @*/ {
    let s = max32(self.scale, other.scale);
    /*@ proof { l_widen(iv(self.coeff), self.scale, s); l_widen(iv(other.coeff), other.scale, s); } @*/
    let a = self.coeff.mul(&ten_pow(s - self.scale));
    let b = other.coeff.mul(&ten_pow(s - other.scale));
    (a, b, s)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn add
fn add(&self, other: &Decimal) -> /*@ (r: @*/ Decimal /*@ ) ensures dv(r) == dv(*self) + dv(*other), r.scale == (if self.scale < other.scale { other.scale } else { self.scale }) @*/ {
    let (a, b, s) = self.aligned(other);
    /*@ proof { l_p10(s); let d = p10(s); let x = iv(a) as real; let y = iv(b) as real; l_quot(x, d); l_quot(y, d); let p = x / d; let q = y / d; assert((p + q) * d == x + y) by (nonlinear_arith) requires p * d == x, q * d == y; l_uniq(p + q, x + y, d); } @*/
    Decimal { coeff: a.add(&b), scale: s }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn sub
fn sub(&self, other: &Decimal) -> /*@ (r: @*/ Decimal /*@ ) ensures dv(r) == dv(*self) - dv(*other), r.scale == (if self.scale < other.scale { other.scale } else { self.scale }) @*/ {
    let (a, b, s) = self.aligned(other);
    /*@ proof { l_p10(s); let d = p10(s); let x = iv(a) as real; let y = iv(b) as real; l_quot(x, d); l_quot(y, d); let p = x / d; let q = y / d; assert((p - q) * d == x - y) by (nonlinear_arith) requires p * d == x, q * d == y; l_uniq(p - q, x - y, d); } @*/
    Decimal { coeff: a.sub(&b), scale: s }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn mul
fn mul(&self, other: &Decimal) -> /*@ (r: @*/ Decimal /*@ ) requires self.scale + other.scale <= u32::MAX ensures dv(r) == dv(*self) * dv(*other), r.scale == self.scale + other.scale @*/ {
    /*@ proof { lem_ten_add(self.scale as nat, other.scale as nat); rm(ipow(10, self.scale as nat), ipow(10, other.scale as nat)); rm(iv(self.coeff), iv(other.coeff)); l_p10(self.scale); l_p10(other.scale); l_mul(iv(self.coeff) as real, p10(self.scale), iv(other.coeff) as real, p10(other.scale)); } @*/
    Decimal { coeff: self.coeff.mul(&other.coeff), scale: self.scale + other.scale }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn div
fn div(&self, other: &Decimal, scale: u32, mode: RoundingMode) -> /*@ (r: @*/ Option<Decimal> /*@ ) ensures match r { None => dv(*other) == 0real, Some(d) => dv(*other) != 0real && d.scale == scale && rounds((dv(*self) / dv(*other)) * p10(scale), mode, iv(d.coeff)) } @*/ {
    let q = self.to_rational().div(&other.to_rational())?;
    Some(Decimal::from_rational(&q, scale, mode))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Decimal :: fn normalized
fn normalized(&self) -> /*@ (r: @*/ (BigInt, u32) /*@ ) ensures (iv(r.0) as real) / p10(r.1) == dv(*self), minimal(iv(r.0), r.1) @*/ {
    if self.coeff.is_zero() {
        /*@ proof { l_p10(self.scale); l_uniq(0real, 0real, p10(self.scale)); l_uniq(0real, 0real, 1real); } @*/
        return (BigInt::zero(), 0);
    }
    let ten = BigInt::from_u64(10);
    let mut c = self.coeff.clone();
    let mut s = self.scale;
    while s > 0
        /*@ invariant_except_break iv(ten) == 10, iv(c) != 0, (iv(c) as real) / p10(s) == dv(*self)
        ensures iv(c) != 0, (iv(c) as real) / p10(s) == dv(*self), minimal(iv(c), s)
        decreases s @*/
    {
        let (q, r) = c.div_rem(&ten).expect("ten is nonzero");
        if !r.is_zero() {
            /*@ proof { let (a, b, m) = (iv(c), iv(q), iv(r)); assert(a % 10 != 0) by { if a % 10 == 0 { let k = a / 10; assert(a == k * 10); lem_exact(a, k, 10, b, m); } } } @*/
            break;
        }
        /*@ proof { l_widen(iv(q), (s - 1) as u32, s); assert(ipow(10, 1) == 10) by { reveal_with_fuel(ipow, 3); } } @*/
        c = q;
        s -= 1;
    }
    (c, s)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl PartialEq for Decimal :: fn eq | neq
fn eq(&self, other: &Self) -> /*@ (r: @*/ bool /*@ ) ensures r == (dv(*self) == dv(*other)) @*/ {
    /*@ proof { lem_minimal(); } @*/
    peq(&self.normalized(), &other.normalized())
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Ord for Decimal :: fn cmp
fn cmp(&self, other: &Self) -> /*@ (r: @*/ Ordering /*@ ) ensures (r == Ordering::Less) == (dv(*self) < dv(*other)), (r == Ordering::Equal) == (dv(*self) == dv(*other)), (r == Ordering::Greater) == (dv(*self) > dv(*other)) @*/ {
    self.to_rational().cmp(&other.to_rational())
}
//#RAW
}
spec fn minimal(c: int, s: u32) -> bool { if c == 0 { s == 0 } else { s > 0 ==> c % 10 != 0 } }
fn peq(a: &(BigInt, u32), b: &(BigInt, u32)) -> (r: bool) ensures r == (iv(a.0) == iv(b.0) && a.1 == b.1) { beq(&a.0, &b.0) && a.1 == b.1 }
proof fn lem_minimal() ensures forall|c: int, s: u32, e: int, t: u32| #[trigger] minimal(c, s) && #[trigger] minimal(e, t) && (c as real) / p10(s) == (e as real) / p10(t) ==> c == e && s == t
{
    assert forall|c: int, s: u32, e: int, t: u32| #[trigger] minimal(c, s) && #[trigger] minimal(e, t) && (c as real) / p10(s) == (e as real) / p10(t) implies c == e && s == t by {
        if s <= t { lem_min_le(c, s, e, t); } else { lem_min_le(e, t, c, s); }
    }
}
proof fn lem_min_le(c: int, s: u32, e: int, t: u32) requires s <= t, minimal(c, s), minimal(e, t), (c as real) / p10(s) == (e as real) / p10(t) ensures c == e, s == t
{
    l_widen(c, s, t); l_p10(t); let d = ipow(10, (t - s) as nat); let x = (c * d) as real; l_quot(x, p10(t)); l_quot(e as real, p10(t)); assert(c * d == e);
    if s < t { let h = ipow(10, (t - s - 1) as nat); assert(d == 10 * h); assert(e == (c * h) * 10) by (nonlinear_arith) requires c * d == e, d == 10 * h; let u = c * h; assert((u * 10) % 10 == 0); if e == 0 { assert(t == 0); } }
    else { assert(d == 1); }
}
// ---- Complex ----
//#ITEM crates/logicaffeine_base/src/numeric.rs :: struct Complex
//#RAW
spec fn cwf(c: Complex) -> bool { rwf(c.re) && rwf(c.im) }
spec fn cv(c: Complex) -> (real, real) { (rv(c.re), rv(c.im)) }
spec fn cm(a: (real, real), b: (real, real)) -> (real, real) { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
spec fn cpow(a: (real, real), k: nat) -> (real, real) decreases k { if k == 0 { (1real, 0real) } else { cm(a, cpow(a, (k - 1) as nat)) } }
impl Clone for Complex { #[verifier::external_body] fn clone(&self) -> (r: Complex) ensures r == *self { unimplemented!() } }
proof fn l_d(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c) { assert((a * b) * c == a * (b * c)) by (nonlinear_arith); }
proof fn l_ds(a: real, b: real, c: real) ensures (a - b) * c == a * c - b * c { assert((a - b) * c == a * c - b * c) by (nonlinear_arith); }
proof fn l_da(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c { assert((a + b) * c == a * c + b * c) by (nonlinear_arith); }
proof fn l_es(c: real, a: real, b: real) ensures c * (a - b) == c * a - c * b { assert(c * (a - b) == c * a - c * b) by (nonlinear_arith); }
proof fn l_ea(c: real, a: real, b: real) ensures c * (a + b) == c * a + c * b { assert(c * (a + b) == c * a + c * b) by (nonlinear_arith); }
proof fn l_c(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
proof fn l_cassoc(a: (real, real), b: (real, real), c: (real, real)) ensures cm(cm(a, b), c) == cm(a, cm(b, c)), cm(a, b) == cm(b, a)
{
    let (a0, a1) = a; let (b0, b1) = b; let (c0, c1) = c;
    l_d(a0, b0, c0); l_d(a1, b1, c0); l_d(a0, b1, c1); l_d(a1, b0, c1); l_d(a0, b0, c1); l_d(a1, b1, c1); l_d(a0, b1, c0); l_d(a1, b0, c0);
    l_ds(a0 * b0, a1 * b1, c0); l_ds(a0 * b0, a1 * b1, c1); l_da(a0 * b1, a1 * b0, c1); l_da(a0 * b1, a1 * b0, c0);
    l_es(a0, b0 * c0, b1 * c1); l_ea(a1, b0 * c1, b1 * c0); l_ea(a0, b0 * c1, b1 * c0); l_es(a1, b0 * c0, b1 * c1);
    l_c(a0, b0); l_c(a1, b1); l_c(a0, b1); l_c(a1, b0);
}
proof fn l_cone(a: (real, real)) ensures cm(a, (1real, 0real)) == a, cm((1real, 0real), a) == a { let (x, y) = a; assert(x * 1real - y * 0real == x && x * 0real + y * 1real == y && 1real * x - 0real * y == x && 1real * y + 0real * x == y) by (nonlinear_arith); }
proof fn l_csq(a: (real, real), k: nat) ensures cpow(cm(a, a), k) == cpow(a, 2 * k) decreases k
{ if k > 0 { let j = (k - 1) as nat; l_csq(a, j); let p = cpow(a, 2 * j); assert(2 * k - 1 == 2 * j + 1); assert(cpow(a, (2 * j + 1) as nat) == cm(a, p)); assert(cpow(a, 2 * k) == cm(a, cpow(a, (2 * k - 1) as nat))); l_cassoc(a, a, p); } }
// result * base^e is unchanged by one square-and-multiply step
proof fn l_cstep(r: (real, real), b: (real, real), e: nat)
    ensures e > 0 ==> cm(r, cpow(b, e)) == (if e % 2 == 1 { cm(cm(r, b), cpow(cm(b, b), e / 2)) } else { cm(r, cpow(cm(b, b), e / 2)) })
{ if e > 0 { l_csq(b, e / 2); if e % 2 == 1 { assert(2 * (e / 2) == e - 1); l_cassoc(r, b, cpow(b, (e - 1) as nat)); } else { assert(2 * (e / 2) == e); } } }
impl Complex {
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn from_rational
fn from_rational(re: Rational) -> /*@ (r: @*/ Complex /*@ ) requires rwf(re) ensures cwf(r), cv(r) == (rv(re), 0real) @*/ {
    Complex { re, im: Rational::zero() }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn from_i64
fn from_i64(x: i64) -> /*@ (r: @*/ Complex /*@ ) ensures cwf(r), cv(r) == (x as real, 0real) @*/ {
    Complex::from_rational(Rational::from_i64(x))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn one
fn one() -> /*@ (r: @*/ Complex /*@ ) ensures cwf(r), cv(r) == (1real, 0real) @*/ {
    Complex::from_i64(1)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn is_zero
fn is_zero(&self) -> /*@ (r: @*/ bool /*@ ) requires cwf(*self) ensures r == (cv(*self) == (0real, 0real)) @*/ {
    self.re.is_zero() && self.im.is_zero()
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn conjugate
fn conjugate(&self) -> /*@ (r: @*/ Complex /*@ ) requires cwf(*self) ensures cwf(r), cv(r) == (cv(*self).0, -cv(*self).1) @*/ {
    Complex { re: self.re.clone(), im: self.im.negated() }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn norm_sqr
fn norm_sqr(&self) -> /*@ (r: @*/ Rational /*@ ) requires cwf(*self) ensures rwf(r), rv(r) == cv(*self).0 * cv(*self).0 + cv(*self).1 * cv(*self).1 @*/ {
    self.re.mul(&self.re).add(&self.im.mul(&self.im))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn negated
fn negated(&self) -> /*@ (r: @*/ Complex /*@ ) requires cwf(*self) ensures cwf(r), cv(r) == (-cv(*self).0, -cv(*self).1) @*/ {
    Complex { re: self.re.negated(), im: self.im.negated() }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn add
fn add(&self, other: &Complex) -> /*@ (r: @*/ Complex /*@ ) requires cwf(*self), cwf(*other) ensures cwf(r), cv(r) == (cv(*self).0 + cv(*other).0, cv(*self).1 + cv(*other).1) @*/ {
    Complex { re: self.re.add(&other.re), im: self.im.add(&other.im) }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn sub
fn sub(&self, other: &Complex) -> /*@ (r: @*/ Complex /*@ ) requires cwf(*self), cwf(*other) ensures cwf(r), cv(r) == (cv(*self).0 - cv(*other).0, cv(*self).1 - cv(*other).1) @*/ {
    Complex { re: self.re.sub(&other.re), im: self.im.sub(&other.im) }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn mul
fn mul(&self, other: &Complex) -> /*@ (r: @*/ Complex /*@ ) requires cwf(*self), cwf(*other) ensures cwf(r), cv(r) == cm(cv(*self), cv(*other)) @*/ {
    let (a, b, c, d) = (&self.re, &self.im, &other.re, &other.im);
    Complex { re: a.mul(c).sub(&b.mul(d)), im: a.mul(d).add(&b.mul(c)) }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn recip
fn recip(&self) -> /*@ (r: @*/ Option<Complex> /*@ ) requires cwf(*self) ensures match r { None => cv(*self) == (0real, 0real), Some(x) => cv(*self) != (0real, 0real) && cwf(x) && cm(cv(x), cv(*self)) == (1real, 0real) } @*/ {
    let n = self.norm_sqr();
    /*@ proof { let (x, y) = cv(*self); assert((x * x + y * y == 0real) == (x == 0real && y == 0real)) by (nonlinear_arith); } @*/
    if n.is_zero() {
        return None;
    }
    let inv = n.recip().expect("norm is nonzero here");
    /*@ proof { let (x, y) = cv(*self); let v = rv(inv);
        assert((x * v) * x - ((-y) * v) * y == 1real) by (nonlinear_arith) requires v * (x * x + y * y) == 1real;
        assert((x * v) * y + ((-y) * v) * x == 0real) by (nonlinear_arith); } @*/
    Some(Complex { re: self.re.mul(&inv), im: self.im.negated().mul(&inv) })
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn div
fn div(&self, other: &Complex) -> /*@ (r: @*/ Option<Complex> /*@ ) requires cwf(*self), cwf(*other) ensures match r { None => cv(*other) == (0real, 0real), Some(x) => cv(*other) != (0real, 0real) && cwf(x) && cm(cv(x), cv(*other)) == cv(*self) } @*/ {
    /*@ proof { assert forall|i: (real, real)| cm(i, cv(*other)) == (1real, 0real) implies cm(#[trigger] cm(cv(*self), i), cv(*other)) == cv(*self) by { l_cassoc(cv(*self), i, cv(*other)); l_cone(cv(*self)); } } @*/
    Some(self.mul(&other.recip()?))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Complex :: fn pow
fn pow(&self, exp: i32) -> /*@ (r: @*/ Option<Complex> /*@ ) requires cwf(*self)
    ensures match r { None => exp < 0 && cv(*self) == (0real, 0real), Some(x) => cwf(x) && (exp >= 0 ==> cv(x) == cpow(cv(*self), exp as nat)) && (exp < 0 ==> exists|i: (real, real)| cm(i, cv(*self)) == (1real, 0real) && cv(x) == #[trigger] cpow(i, (-exp) as nat)) } @*/ {
    let mut result = Complex::one();
    let mut base = if exp < 0 { self.recip()? } else { self.clone() };
    let mut e = exp.unsigned_abs();
    /*@ let ghost b0 = cv(base); let ghost e0 = e as nat; proof { l_cone(cpow(b0, e0)); } @*/
    while e > 0
        /*@ invariant cwf(result), cwf(base), cm(cv(result), cpow(cv(base), e as nat)) == cpow(b0, e0)
        decreases e @*/
    {
        /*@ let ghost (r1, b1, e1) = (cv(result), cv(base), e); proof { l_cstep(r1, b1, e as nat); assert((e1 & 1 == 1) == (e1 % 2 == 1) && e1 >> 1 == e1 / 2) by (bit_vector); } @*/
        if e & 1 == 1 {
            result = result.mul(&base);
        }
        e >>= 1;
        /*@ proof { if e == 0 { assert(cpow(cm(b1, b1), 0) == (1real, 0real)); assert(cpow(b1, 0) == (1real, 0real)); } } @*/
        if e > 0 {
            base = base.mul(&base);
        }
    }
    /*@ proof { l_cone(cv(result)); assert(cpow(cv(base), 0) == (1real, 0real)); assert(cv(result) == cpow(b0, e0)); if exp < 0 { assert(cm(b0, cv(*self)) == (1real, 0real)); assert(e0 == (-exp) as nat); } } @*/
    Some(result)
}
//#RAW
}
// ---- Modular ----
//#ITEM crates/logicaffeine_base/src/numeric.rs :: struct Modular
//#RAW
spec fn mwf(m: Modular) -> bool { 0 <= iv(m.value) < iv(m.modulus) }
impl Clone for Modular { #[verifier::external_body] fn clone(&self) -> (r: Modular) ensures r == *self { unimplemented!() } }
proof fn l_mod(v: int, m: int, q: int, r: int) requires m > 0, v == q * m + r, 0 <= r < m ensures v % m == r { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, m, q, r); }
proof fn l_modmul(a: int, b: int, m: int) requires m > 0 ensures ((a % m) * (b % m)) % m == (a * b) % m, ((a % m) * b) % m == (a * b) % m, (a * (b % m)) % m == (a * b) % m { vstd::arithmetic::div_mod::lemma_mul_mod_noop_general(a, b, m); }
proof fn l_isq(b: int, k: nat) ensures ipow(b * b, k) == ipow(b, 2 * k) decreases k
{ if k > 0 { let j = (k - 1) as nat; l_isq(b, j); let p = ipow(b, 2 * j); assert(ipow(b, (2 * j + 1) as nat) == b * p); assert(ipow(b, 2 * k) == b * ipow(b, (2 * k - 1) as nat)); assert((b * b) * p == b * (b * p)) by (nonlinear_arith); } }
proof fn l_pmod(b: int, k: nat, m: int) requires m > 0 ensures ipow(b % m, k) % m == ipow(b, k) % m decreases k
{ if k > 0 { let j = (k - 1) as nat; l_pmod(b, j, m); let p = ipow(b % m, j); let q = ipow(b, j); l_modmul(b, q, m); l_modmul(b % m, p, m); assert(((b % m) * p) % m == ((b % m) * (p % m)) % m); assert(((b % m) * (q % m)) % m == (b * q) % m); } }
proof fn l_mstep(r: int, b: int, e: nat, m: int) requires m > 0
    ensures e > 0 ==> (r * ipow(b, e)) % m == (if e % 2 == 1 { (((r * b) % m) * ipow((b * b) % m, e / 2)) % m } else { (r * ipow((b * b) % m, e / 2)) % m })
{
    if e > 0 {
        let h = e / 2; let s = ipow(b * b, h); l_isq(b, h); l_pmod(b * b, h, m); let t = ipow((b * b) % m, h);
        if e % 2 == 1 {
            assert(2 * h == e - 1); assert(ipow(b, e) == b * s); assert(r * (b * s) == (r * b) * s) by (nonlinear_arith);
            l_modmul(r * b, s, m); l_modmul(r * b, t, m); assert((((r * b) % m) * t) % m == (((r * b) % m) * (t % m)) % m) by { l_modmul((r * b) % m, t, m); } assert((((r * b) % m) * (s % m)) % m == ((r * b) * s) % m);
        } else { assert(2 * h == e); l_modmul(r, s, m); l_modmul(r, t, m); }
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn bigint_egcd | memr
fn bigint_egcd(a: &BigInt, b: &BigInt) -> /*@ (res: @*/ (BigInt, BigInt, BigInt) /*@ )
    requires iv(*a) >= 0, iv(*b) >= 0
    ensures iv(*a) * iv(res.1) + iv(*b) * iv(res.2) == iv(res.0), iv(res.0) >= 0, divides(iv(res.0), iv(*a)), divides(iv(res.0), iv(*b)) @*/ {
    let (mut old_r, mut r) = (a.clone(), b.clone());
    let (mut old_s, mut s) = (BigInt::from_i64(1), BigInt::zero());
    let (mut old_t, mut t) = (BigInt::zero(), BigInt::from_i64(1));
    /*@ proof { let (x, y) = (iv(*a), iv(*b)); assert(x * 1 + y * 0 == x && x * 0 + y * 1 == y) by (nonlinear_arith); } @*/
    while !r.is_zero()
        /*@ invariant
            iv(*a) * iv(old_s) + iv(*b) * iv(old_t) == iv(old_r), iv(*a) * iv(s) + iv(*b) * iv(t) == iv(r), iv(old_r) >= 0, iv(r) >= 0,
            forall|d: int| divides(d, iv(old_r)) && #[trigger] divides(d, iv(r)) ==> divides(d, iv(*a)) && divides(d, iv(*b)),
        decreases iv(r) @*/
    {
        /*@ let ghost (x, y, r0, r1, s0, s1, t0, t1) = (iv(*a), iv(*b), iv(old_r), iv(r), iv(old_s), iv(s), iv(old_t), iv(t)); @*/
        let (q, _) = old_r.div_rem(&r).expect("r is nonzero inside the loop");
        let nr = old_r.sub(&q.mul(&r));
        /*@ let ghost g = iv(nr); let ghost k = iv(q); @*/
        old_r = core::mem::replace(&mut r, nr);
        let ns = old_s.sub(&q.mul(&s));
        old_s = core::mem::replace(&mut s, ns);
        let nt = old_t.sub(&q.mul(&t));
        old_t = core::mem::replace(&mut t, nt);
        /*@ proof {
            assert(x * (s0 - k * s1) + y * (t0 - k * t1) == r0 - k * r1) by (nonlinear_arith) requires x * s0 + y * t0 == r0, x * s1 + y * t1 == r1;
            assert forall|d: int| divides(d, iv(old_r)) && #[trigger] divides(d, iv(r)) implies divides(d, x) && divides(d, y) by {
                let u = choose|u: int| #[trigger] (u * d) == r1; let v = choose|v: int| #[trigger] (v * d) == g; assert((k * u + v) * d == r0) by (nonlinear_arith) requires u * d == r1, v * d == g, g == r0 - k * r1; assert(divides(d, r0)); assert(divides(d, r1)); }
        } @*/
    }
    /*@ proof { let g = iv(old_r); assert(1 * g == g && 0 * g == 0) by (nonlinear_arith); assert(divides(g, g) && divides(g, 0)); } @*/
    (old_r, old_s, old_t)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn mod_reduce
fn mod_reduce(value: BigInt, modulus: &BigInt) -> /*@ (res: @*/ BigInt /*@ ) requires iv(*modulus) > 0 ensures iv(res) == iv(value) % iv(*modulus), 0 <= iv(res) < iv(*modulus) @*/ {
    let (_, r) = value.div_rem(modulus).expect("modulus is nonzero");
    /*@ proof {
        let (v, m, x) = (iv(value), iv(*modulus), iv(r));
        assert forall|q: int| v == #[trigger] (q * m) + x implies v % m == (if x < 0 { x + m } else { x }) by { if x < 0 { assert(v == (q - 1) * m + (x + m)) by (nonlinear_arith) requires v == q * m + x; l_mod(v, m, q - 1, x + m); } else { l_mod(v, m, q, x); } }
    } @*/
    if r.is_negative() {
        r.add(modulus)
    } else {
        r
    }
}
//#RAW
impl Modular {
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn new
fn new(value: BigInt, modulus: BigInt) -> /*@ (r: @*/ Option<Modular> /*@ ) ensures match r { None => iv(modulus) <= 0, Some(x) => iv(modulus) > 0 && mwf(x) && x.modulus == modulus && iv(x.value) == iv(value) % iv(modulus) } @*/ {
    if modulus.is_zero() || modulus.is_negative() {
        return None;
    }
    let value = mod_reduce(value, &modulus);
    Some(Modular { value, modulus })
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn from_i64
fn from_i64(value: i64, modulus: i64) -> /*@ (r: @*/ Option<Modular> /*@ ) ensures match r { None => modulus <= 0, Some(x) => modulus > 0 && mwf(x) && iv(x.modulus) == modulus && iv(x.value) == (value as int) % (modulus as int) } @*/ {
    Modular::new(BigInt::from_i64(value), BigInt::from_i64(modulus))
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn add | mne
fn add(&self, other: &Modular) -> /*@ (r: @*/ Option<Modular> /*@ ) requires mwf(*self), mwf(*other)
    ensures match r { None => iv(self.modulus) != iv(other.modulus), Some(x) => iv(self.modulus) == iv(other.modulus) && mwf(x) && iv(x.modulus) == iv(self.modulus) && iv(x.value) == (iv(self.value) + iv(other.value)) % iv(self.modulus) } @*/ {
    if ! beq(&self.modulus, &other.modulus) {
        return None;
    }
    Modular::new(self.value.add(&other.value), self.modulus.clone())
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn sub | mne
fn sub(&self, other: &Modular) -> /*@ (r: @*/ Option<Modular> /*@ ) requires mwf(*self), mwf(*other)
    ensures match r { None => iv(self.modulus) != iv(other.modulus), Some(x) => iv(self.modulus) == iv(other.modulus) && mwf(x) && iv(x.modulus) == iv(self.modulus) && iv(x.value) == (iv(self.value) - iv(other.value)) % iv(self.modulus) } @*/ {
    if ! beq(&self.modulus, &other.modulus) {
        return None;
    }
    Modular::new(self.value.sub(&other.value), self.modulus.clone())
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn mul | mne
fn mul(&self, other: &Modular) -> /*@ (r: @*/ Option<Modular> /*@ ) requires mwf(*self), mwf(*other)
    ensures match r { None => iv(self.modulus) != iv(other.modulus), Some(x) => iv(self.modulus) == iv(other.modulus) && mwf(x) && iv(x.modulus) == iv(self.modulus) && iv(x.value) == (iv(self.value) * iv(other.value)) % iv(self.modulus) } @*/ {
    if ! beq(&self.modulus, &other.modulus) {
        return None;
    }
    Modular::new(self.value.mul(&other.value), self.modulus.clone())
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn negated
fn negated(&self) -> /*@ (r: @*/ Modular /*@ ) requires mwf(*self) ensures mwf(r), iv(r.modulus) == iv(self.modulus), iv(r.value) == (-iv(self.value)) % iv(self.modulus) @*/ {
    Modular::new(self.value.negated(), self.modulus.clone()).expect("modulus stays valid")
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn pow
fn pow(&self, mut exp: u64) -> /*@ (r: @*/ Modular /*@ ) requires mwf(*self) ensures mwf(r), iv(r.modulus) == iv(self.modulus), iv(r.value) == ipow(iv(self.value), exp as nat) % iv(self.modulus) @*/ {
    let one = Modular::new(BigInt::from_i64(1), self.modulus.clone()).expect("modulus valid");
    let mut result = one;
    let mut base = self.clone();
    /*@ let ghost m = iv(self.modulus); let ghost b0 = iv(self.value); let ghost e0 = exp as nat; proof { l_modmul(1, ipow(b0, e0), m); assert(1 * ipow(b0, e0) == ipow(b0, e0)); } @*/
    while exp > 0
        /*@ invariant m > 0, mwf(result), mwf(base), iv(result.modulus) == m, iv(base.modulus) == m, (iv(result.value) * ipow(iv(base.value), exp as nat)) % m == ipow(b0, e0) % m
        decreases exp @*/
    {
        /*@ let ghost (r1, b1, e1) = (iv(result.value), iv(base.value), exp); proof { l_mstep(r1, b1, exp as nat, m); assert((e1 & 1 == 1) == (e1 % 2 == 1) && e1 >> 1 == e1 / 2) by (bit_vector); } @*/
        if exp & 1 == 1 {
            result = result.mul(&base).expect("same modulus");
        }
        exp >>= 1;
        /*@ proof { if exp == 0 { assert(ipow((b1 * b1) % m, 0) == 1); assert(ipow(b1, 0) == 1); } } @*/
        if exp > 0 {
            base = base.mul(&base).expect("same modulus");
        }
    }
    /*@ proof { assert(iv(result.value) * 1 == iv(result.value)); vstd::arithmetic::div_mod::lemma_small_mod(iv(result.value) as nat, m as nat); } @*/
    result
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn inverse | gne
fn inverse(&self) -> /*@ (r: @*/ Option<Modular> /*@ ) requires mwf(*self)
    ensures match r { Some(x) => mwf(x) && iv(x.modulus) == iv(self.modulus) && (iv(self.value) * iv(x.value)) % iv(self.modulus) == 1int % iv(self.modulus), None => forall|y: int| #[trigger] (iv(self.value) * y) % iv(self.modulus) != 1int % iv(self.modulus) } @*/ {
    let (g, x, _) = bigint_egcd(&self.value, &self.modulus);
    /*@ proof { lem_unit_iff(iv(self.value), iv(self.modulus), iv(g), iv(x)); } @*/
    if ! beq(&g, &BigInt::from_i64(1)) {
        return None;
    }
    Modular::new(x, self.modulus.clone())
}
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Modular :: fn div | mne
fn div(&self, other: &Modular) -> /*@ (r: @*/ Option<Modular> /*@ ) requires mwf(*self), mwf(*other)
    ensures match r { Some(x) => iv(self.modulus) == iv(other.modulus) && mwf(x) && iv(x.modulus) == iv(self.modulus) && (iv(x.value) * iv(other.value)) % iv(self.modulus) == iv(self.value), None => iv(self.modulus) != iv(other.modulus) || forall|y: int| #[trigger] (iv(other.value) * y) % iv(self.modulus) != 1int % iv(self.modulus) } @*/ {
    if ! beq(&self.modulus, &other.modulus) {
        return None;
    }
    /*@ proof { let (a, b, m) = (iv(self.value), iv(other.value), iv(self.modulus)); assert forall|i: int| (b * i) % m == 1int % m implies (#[trigger] ((a * i) % m) * b) % m == a by { lem_mdiv(a, b, i, m); } } @*/
    self.mul(&other.inverse()?)
}
//#RAW
}
proof fn lem_mdiv(a: int, b: int, i: int, m: int) requires m > 0, 0 <= a < m, (b * i) % m == 1int % m ensures (((a * i) % m) * b) % m == a
{ l_modmul(a * i, b, m); assert((a * i) * b == a * (b * i)) by (nonlinear_arith); l_modmul(a, b * i, m); l_modmul(a, 1, m); assert(a * 1 == a); vstd::arithmetic::div_mod::lemma_small_mod(a as nat, m as nat); }
proof fn lem_unit_iff(v: int, m: int, g: int, x: int)
    requires m > 0, 0 <= v, g >= 0, divides(g, v), divides(g, m), exists|y: int| v * x + #[trigger] (m * y) == g
    ensures g == 1 ==> (v * (x % m)) % m == 1int % m, g != 1 ==> forall|y: int| #[trigger] (v * y) % m != 1int % m
{
    let k = choose|y: int| v * x + #[trigger] (m * y) == g;
    if g == 1 { l_modmul(v, x, m); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, v * x, m); assert(m * k + v * x == 1); }
    else {
        assert forall|y: int| #[trigger] (v * y) % m != 1int % m by {
            if (v * y) % m == 1int % m {
                let c = choose|c: int| #[trigger] (c * g) == v; let d = choose|d: int| #[trigger] (d * g) == m;
                if m == 1 { assert(d * g == 1); assert(g == 1) by (nonlinear_arith) requires d * g == 1, g >= 0; }
                else { vstd::arithmetic::div_mod::lemma_small_mod(1, m as nat); let q = (v * y) / m; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v * y, m); assert((c * y - d * q) * g == 1) by (nonlinear_arith) requires c * g == v, d * g == m, v * y == m * q + 1; let e = c * y - d * q; assert(g == 1) by (nonlinear_arith) requires e * g == 1, g >= 0; }
            }
        }
    }
}
fn main() {}
} // verus!
