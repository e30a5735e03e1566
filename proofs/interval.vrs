//#SUBST ord: std::cmp::Ordering =>> Ordering
//#SUBST divb: a.checked_div(k).map_or(Bound::PosInf, Bound::Finite) =>> div_bound(*a, k)
//#SUBST cdiv: a.checked_div(b) =>> checked_tdiv(a, b)
//#SUBST wrem: a.wrapping_rem(b) =>> wrapping_trem(a, b)
//#SUBST uabs: k.unsigned_abs() =>> unsigned_abs(k)
//#SUBST cmpi: a.cmp(b) =>> cmp_i64(*a, *b)
//#SUBST eqr: if a == b { =>> if *a == *b {
//#SUBST rest: for c in &corners[1..] { =>> let mut c__i: usize = 1; while c__i < corners.len() { let c = &corners[c__i]; c__i += 1;
//#RAW
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use std::cmp::Ordering;
verus! {
// std: derived equality and copies of fieldless / scalar enums, truncating division (trusted specifications)
pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool) ensures r == (*a == *b);
spec fn tquo(a: int, b: int) -> int { if (a >= 0) == (b > 0) { vabs(a) / vabs(b) } else { -(vabs(a) / vabs(b)) } }
spec fn trem(a: int, b: int) -> int { if a >= 0 { vabs(a) % vabs(b) } else { -(vabs(a) % vabs(b)) } }
spec fn vabs(a: int) -> int { if a >= 0 { a } else { -a } }
spec fn fits(a: int) -> bool { i64::MIN <= a <= i64::MAX }
#[verifier::external_body]
fn div_bound(a: i64, k: i64) -> (r: Bound) requires k != 0 ensures r == (if fits(tquo(a as int, k as int)) { Bound::Finite(tquo(a as int, k as int) as i64) } else { Bound::PosInf }) { a.checked_div(k).map_or(Bound::PosInf, Bound::Finite) }
#[verifier::external_body]
fn checked_tdiv(a: i64, b: i64) -> (r: Option<i64>) requires b != 0 ensures r == (if fits(tquo(a as int, b as int)) { Some(tquo(a as int, b as int) as i64) } else { None }) { a.checked_div(b) }
#[verifier::external_body]
fn wrapping_trem(a: i64, b: i64) -> (r: i64) requires b != 0 ensures r == trem(a as int, b as int) { a.wrapping_rem(b) }
#[verifier::external_body]
fn unsigned_abs(k: i64) -> (r: u64) ensures r == vabs(k as int) { k.unsigned_abs() }
//#ITEM crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: enum Bound
//#ITEM crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: struct Interval
//#RAW
impl Clone for Bound {
    fn clone(&self) -> (r: Self) ensures r == *self { match self { Bound::NegInf => Bound::NegInf, Bound::Finite(a) => Bound::Finite(*a), Bound::PosInf => Bound::PosInf } }
}
impl PartialEq for Bound {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
impl Clone for Interval {
    fn clone(&self) -> (r: Self) ensures r == *self { Interval { lo: self.lo.clone(), hi: self.hi.clone() } }
}
// the integers (of any size) an endpoint admits below / above, and an interval holds
spec fn above(b: Bound, x: int) -> bool { match b { Bound::NegInf => true, Bound::Finite(a) => a <= x, Bound::PosInf => false } }
spec fn below(b: Bound, x: int) -> bool { match b { Bound::NegInf => false, Bound::Finite(a) => x <= a, Bound::PosInf => true } }
spec fn has(i: Interval, x: int) -> bool { above(i.lo, x) && below(i.hi, x) }
// as computed: an endpoint that ran past the 64-bit range
spec fn above2(b: Bound, x: int) -> bool { match b { Bound::NegInf => true, Bound::Finite(a) => a <= x, Bound::PosInf => i64::MAX <= x } }
spec fn below2(b: Bound, x: int) -> bool { match b { Bound::NegInf => x <= i64::MIN, Bound::Finite(a) => x <= a, Bound::PosInf => true } }
spec fn rank(b: Bound) -> int { match b { Bound::NegInf => i64::MIN - 1, Bound::Finite(a) => a as int, Bound::PosInf => i64::MAX + 1 } }
spec fn bmul(a: Bound, b: Bound) -> Bound {
    if a == Bound::Finite(0) || b == Bound::Finite(0) { Bound::Finite(0) }
    else if a is Finite && b is Finite { let p = a->0 * b->0; if fits(p) { Bound::Finite(p as i64) } else if p > 0 { Bound::PosInf } else { Bound::NegInf } }
    else if (rank(a) > 0) == (rank(b) > 0) { Bound::PosInf } else { Bound::NegInf }
}
proof fn lem_mono(a: int, b: int, c: int) requires a <= b ensures c >= 0 ==> a * c <= b * c && c * a <= c * b, c <= 0 ==> b * c <= a * c && c * b <= c * a
{ assert(c >= 0 ==> a * c <= b * c) by (nonlinear_arith) requires a <= b; assert(c <= 0 ==> b * c <= a * c) by (nonlinear_arith) requires a <= b; assert(a * c == c * a && b * c == c * b) by (nonlinear_arith); }
proof fn lem_sign(a: int, b: int) ensures a > 0 && b > 0 ==> a * b > 0, a < 0 && b < 0 ==> a * b > 0, a > 0 && b < 0 ==> a * b < 0, a < 0 && b > 0 ==> a * b < 0, a == 0 || b == 0 ==> a * b == 0
{ assert(a > 0 && b > 0 ==> a * b > 0) by (nonlinear_arith); assert(a < 0 && b < 0 ==> a * b > 0) by (nonlinear_arith); assert(a > 0 && b < 0 ==> a * b < 0) by (nonlinear_arith); assert(a < 0 && b > 0 ==> a * b < 0) by (nonlinear_arith); }
proof fn lem_corner(i: Interval, j: Interval, v: int, w: int)
    requires has(i, v), has(j, w)
    ensures above2(bmul(i.lo, j.lo), v * w) || above2(bmul(i.lo, j.hi), v * w) || above2(bmul(i.hi, j.lo), v * w) || above2(bmul(i.hi, j.hi), v * w),
        below2(bmul(i.lo, j.lo), v * w) || below2(bmul(i.lo, j.hi), v * w) || below2(bmul(i.hi, j.lo), v * w) || below2(bmul(i.hi, j.hi), v * w)
{
    let l1 = i.lo; let h1 = i.hi; let l2 = j.lo; let h2 = j.hi;
    lem_sign(v, w);
    if l1 is Finite { lem_mono(l1->0 as int, v, w); lem_sign(l1->0 as int, w); if l2 is Finite { lem_mono(l2->0 as int, w, l1->0 as int); lem_sign(l1->0 as int, l2->0 as int); } if h2 is Finite { lem_mono(w, h2->0 as int, l1->0 as int); lem_sign(l1->0 as int, h2->0 as int); } }
    if h1 is Finite { lem_mono(v, h1->0 as int, w); lem_sign(h1->0 as int, w); if l2 is Finite { lem_mono(l2->0 as int, w, h1->0 as int); lem_sign(h1->0 as int, l2->0 as int); } if h2 is Finite { lem_mono(w, h2->0 as int, h1->0 as int); lem_sign(h1->0 as int, h2->0 as int); } }
}
spec fn minb(a: Bound, b: Bound) -> Bound { if rank(a) < rank(b) { a } else { b } }
spec fn maxb(a: Bound, b: Bound) -> Bound { if rank(a) > rank(b) { a } else { b } }
proof fn lem_tdiv(a: int, b: int, k: int) requires k != 0, a <= b ensures k > 0 ==> tquo(a, k) <= tquo(b, k), k < 0 ==> tquo(b, k) <= tquo(a, k)
{
    let m = vabs(k);
    if a >= 0 { lemma_div_is_ordered(a, b, m); lemma_div_pos_is_pos(a, m); } else if b < 0 { lemma_div_is_ordered(-b, -a, m); } else { lemma_div_pos_is_pos(-a, m); lemma_div_pos_is_pos(b, m); }
    if a < 0 { lemma_div_pos_is_pos(-a, m); }
    if b >= 0 { lemma_div_pos_is_pos(b, m); }
}
proof fn lem_qsize(a: int, k: int) requires k != 0, fits(a), fits(k) ensures !fits(tquo(a, k)) ==> tquo(a, k) > i64::MAX, vabs(tquo(a, k)) <= vabs(a)
{ lemma_div_pos_is_pos(vabs(a), vabs(k)); lemma_div_decreases_or(vabs(a), vabs(k)); }
proof fn lemma_div_decreases_or(a: int, k: int) requires a >= 0, k > 0 ensures 0 <= a / k <= a { lemma_div_pos_is_pos(a, k); lemma_fundamental_div_mod(a, k); lemma_mod_bound(a, k); let q = a / k; assert(q <= k * q) by (nonlinear_arith) requires q >= 0, k >= 1; }
fn cmp_i64(a: i64, b: i64) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
proof fn lem_trem(a: int, k: int) requires k != 0 ensures a >= 0 ==> 0 <= trem(a, k) <= vabs(k) - 1, a <= 0 ==> -(vabs(k) - 1) <= trem(a, k) <= 0, trem(a, k) == 0 || vabs(trem(a, k)) <= vabs(a)
{ lemma_mod_bound(vabs(a), vabs(k)); if a == 0 { lemma_small_mod(0, vabs(k) as nat); } lemma_mod_decreases(vabs(a) as nat, vabs(k) as nat); }
impl Bound {
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Bound :: fn add
    fn add(&self, other: &Bound) -> /*@ (r: @*/ Bound /*@ )
        ensures forall|v: int, w: int| above(*self, v) && above(*other, w) ==> #[trigger] above2(r, v + w),
            forall|v: int, w: int| below(*self, v) && below(*other, w) ==> #[trigger] below2(r, v + w) @*/ {
        match (self, other) {
            (Bound::Finite(a), Bound::Finite(b)) => {
                match a.checked_add(*b) {
                    Some(r) => Bound::Finite(r),
                    None => if *a > 0 { Bound::PosInf } else { Bound::NegInf },
                }
            }
            (Bound::PosInf, Bound::NegInf) | (Bound::NegInf, Bound::PosInf) => Bound::NegInf,
            (Bound::PosInf, _) | (_, Bound::PosInf) => Bound::PosInf,
            (Bound::NegInf, _) | (_, Bound::NegInf) => Bound::NegInf,
        }
    }
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Bound :: fn sub
    fn sub(&self, other: &Bound) -> /*@ (r: @*/ Bound /*@ )
        ensures forall|v: int, w: int| above(*self, v) && below(*other, w) ==> #[trigger] above2(r, v - w),
            forall|v: int, w: int| below(*self, v) && above(*other, w) ==> #[trigger] below2(r, v - w) @*/ {
        match (self, other) {
            (Bound::Finite(a), Bound::Finite(b)) => {
                match a.checked_sub(*b) {
                    Some(r) => Bound::Finite(r),
                    None => if *a >= 0 { Bound::PosInf } else { Bound::NegInf },
                }
            }
            (Bound::PosInf, Bound::PosInf) | (Bound::NegInf, Bound::NegInf) => Bound::NegInf,
            (Bound::PosInf, _) | (_, Bound::NegInf) => Bound::PosInf,
            (Bound::NegInf, _) | (_, Bound::PosInf) => Bound::NegInf,
        }
    }
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Bound :: fn div_by | divb
    fn div_by(&self, k: i64) -> /*@ (r: @*/ Bound /*@ )
        requires k != 0
        ensures forall|v: int| k > 0 && above(*self, v) ==> above2(r, #[trigger] tquo(v, k as int)),
            forall|v: int| k > 0 && below(*self, v) ==> below2(r, #[trigger] tquo(v, k as int)),
            forall|v: int| k < 0 && below(*self, v) ==> above2(r, #[trigger] tquo(v, k as int)),
            forall|v: int| k < 0 && above(*self, v) ==> below2(r, #[trigger] tquo(v, k as int)) @*/ {
        /*@ proof { if self is Finite { let a = self->0 as int; let kk = k as int;
            assert forall|v: int| #[trigger] tquo(v, kk) == tquo(v, kk) && (v >= a ==> if k > 0 { tquo(v, kk) >= tquo(a, kk) } else { tquo(v, kk) <= tquo(a, kk) }) && (v <= a ==> if k > 0 { tquo(v, kk) <= tquo(a, kk) } else { tquo(v, kk) >= tquo(a, kk) }) by { if v >= a { lem_tdiv(a, v, kk); } if v <= a { lem_tdiv(v, a, kk); } }
            lem_qsize(a, kk); } } @*/
        match self {
            Bound::Finite(a) => div_bound(*a, k),
            Bound::NegInf => {
                if k > 0 {
                    Bound::NegInf
                } else {
                    Bound::PosInf
                }
            }
            Bound::PosInf => {
                if k > 0 {
                    Bound::PosInf
                } else {
                    Bound::NegInf
                }
            }
        }
    }
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Bound :: fn mul
    fn mul(&self, other: &Bound) -> /*@ (r: @*/ Bound /*@ ) ensures r == bmul(*self, *other) @*/ {

if matches!(self, Bound::Finite(0)) || matches!(other, Bound::Finite(0)) {
return Bound::Finite(0);
}
if let (Bound::Finite(a), Bound::Finite(b)) = (self, other) {
/*@ proof { lem_sign(*a as int, *b as int); } @*/
return match a.checked_mul(*b) {
Some(r) => Bound::Finite(r),
None => {
if (*a > 0) == (*b > 0) {
Bound::PosInf
} else {
Bound::NegInf
}
}
};
}
let positive = |x: &Bound| /*@ -> (r: bool) ensures r == (rank(*x) > 0) { @*/ match x {
Bound::PosInf => true,
Bound::NegInf => false,
Bound::Finite(v) => *v > 0,
} /*@ } @*/;
if positive(self) == positive(other) {
Bound::PosInf
} else {
Bound::NegInf
}
    }
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Bound :: fn cmp_bound | cmpi
    fn cmp_bound(&self, other: &Self) -> /*@ (r: @*/ Ordering /*@ ) ensures (r == Ordering::Less) == (rank(*self) < rank(*other)), (r == Ordering::Equal) == (rank(*self) == rank(*other)), (r == Ordering::Greater) == (rank(*self) > rank(*other)) @*/ {

match (self, other) {
(Bound::NegInf, Bound::NegInf) => Ordering::Equal,
(Bound::NegInf, _) => Ordering::Less,
(_, Bound::NegInf) => Ordering::Greater,
(Bound::PosInf, Bound::PosInf) => Ordering::Equal,
(Bound::PosInf, _) => Ordering::Greater,
(_, Bound::PosInf) => Ordering::Less,
(Bound::Finite(a), Bound::Finite(b)) => cmp_i64(*a, *b),
}
    }
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Bound :: fn min_bound
    fn min_bound(a: &Bound, b: &Bound) -> /*@ (r: @*/ Bound /*@ ) ensures r == minb(*a, *b) @*/ {
if a.cmp_bound(b) == Ordering::Less { a.clone() } else { b.clone() }
    }
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Bound :: fn max_bound
    fn max_bound(a: &Bound, b: &Bound) -> /*@ (r: @*/ Bound /*@ ) ensures r == maxb(*a, *b) @*/ {
if a.cmp_bound(b) == Ordering::Greater { a.clone() } else { b.clone() }
    }
//#RAW
}
impl Interval {
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn between
fn between(lo: Bound, hi: Bound) -> /*@ (r: @*/ Self /*@ ) ensures forall|x: int| above2(lo, x) && below2(hi, x) ==> #[trigger] has(r, x) @*/ {
Interval {
lo: if lo == Bound::PosInf { Bound::Finite(i64::MAX) } else { lo },
hi: if hi == Bound::NegInf { Bound::Finite(i64::MIN) } else { hi },
}
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn exact
fn exact(n: i64) -> /*@ (r: @*/ Self /*@ ) ensures r.lo == Bound::Finite(n), r.hi == Bound::Finite(n) @*/ {
Interval { lo: Bound::Finite(n), hi: Bound::Finite(n) }
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn top
fn top() -> /*@ (r: @*/ Self /*@ ) ensures forall|x: int| #[trigger] has(r, x) @*/ {
Interval { lo: Bound::NegInf, hi: Bound::PosInf }
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn non_negative
fn non_negative() -> /*@ (r: @*/ Self /*@ ) ensures forall|x: int| x >= 0 ==> #[trigger] has(r, x) @*/ {
Interval { lo: Bound::Finite(0), hi: Bound::PosInf }
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn is_exact | eqr
fn is_exact(&self) -> /*@ (r: @*/ Option<i64> /*@ ) ensures r matches Some(n) ==> self.lo == Bound::Finite(n) && self.hi == Bound::Finite(n) @*/ {
if let (Bound::Finite(a), Bound::Finite(b)) = (&self.lo, &self.hi) {
if *a == *b { return Some(*a); }
}
None
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn bottom
fn bottom() -> /*@ (r: @*/ Self /*@ ) ensures r.lo == Bound::PosInf, r.hi == Bound::NegInf @*/ {
Interval { lo: Bound::PosInf, hi: Bound::NegInf }
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn is_bottom
fn is_bottom(&self) -> /*@ (r: @*/ bool /*@ ) ensures r == (rank(self.lo) > rank(self.hi)), r ==> forall|x: int| !#[trigger] has(*self, x) @*/ {
self.lo.cmp_bound(&self.hi) == Ordering::Greater
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn join
fn join(&self, other: &Interval) -> /*@ (r: @*/ Interval /*@ ) ensures forall|x: int| has(*self, x) || has(*other, x) ==> #[trigger] has(r, x) @*/ {
if self.is_bottom() { return other.clone(); }
if other.is_bottom() { return self.clone(); }
Interval {
lo: Bound::min_bound(&self.lo, &other.lo),
hi: Bound::max_bound(&self.hi, &other.hi),
}
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn meet
fn meet(&self, other: &Interval) -> /*@ (r: @*/ Interval /*@ ) ensures forall|x: int| has(*self, x) && has(*other, x) ==> #[trigger] has(r, x) @*/ {
if self.is_bottom() || other.is_bottom() { return Interval::bottom(); }
let r = Interval {
lo: Bound::max_bound(&self.lo, &other.lo),
hi: Bound::min_bound(&self.hi, &other.hi),
};
if r.is_bottom() { Interval::bottom() } else { r }
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn leq
fn leq(&self, other: &Interval) -> /*@ (r: @*/ bool /*@ ) ensures r ==> forall|x: int| #[trigger] has(*self, x) ==> has(*other, x) @*/ {
if self.is_bottom() { return true; }
if other.is_bottom() { return false; }
other.lo.cmp_bound(&self.lo) != Ordering::Greater
&& self.hi.cmp_bound(&other.hi) != Ordering::Greater
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn add
fn add(&self, other: &Interval) -> /*@ (r: @*/ Interval /*@ ) ensures forall|v: int, w: int| has(*self, v) && has(*other, w) ==> #[trigger] has(r, v + w) @*/ {
if self.is_bottom() || other.is_bottom() { return Interval::bottom(); }
Interval::between(self.lo.add(&other.lo), self.hi.add(&other.hi))
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn sub
fn sub(&self, other: &Interval) -> /*@ (r: @*/ Interval /*@ ) ensures forall|v: int, w: int| has(*self, v) && has(*other, w) ==> #[trigger] has(r, v - w) @*/ {
if self.is_bottom() || other.is_bottom() { return Interval::bottom(); }
Interval::between(self.lo.sub(&other.hi), self.hi.sub(&other.lo))
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn mul | rest
fn mul(&self, other: &Interval) -> /*@ (r: @*/ Interval /*@ ) ensures forall|v: int, w: int| has(*self, v) && has(*other, w) ==> #[trigger] has(r, v * w) @*/ {
let corners = [
self.lo.mul(&other.lo),
self.lo.mul(&other.hi),
self.hi.mul(&other.lo),
self.hi.mul(&other.hi),
];
let mut lo = corners[0].clone();
let mut hi = corners[0].clone();
let mut c__i: usize = 1; while c__i < corners.len()
/*@ invariant 1 <= c__i <= 4, corners.len() == 4, corners@ == seq![bmul(self.lo, other.lo), bmul(self.lo, other.hi), bmul(self.hi, other.lo), bmul(self.hi, other.hi)],
   forall|k: int| 0 <= k < c__i ==> rank(lo) <= rank(#[trigger] corners@[k]) <= rank(hi) decreases 4 - c__i @*/
{ let c = &corners[c__i]; c__i += 1;
lo = Bound::min_bound(&lo, c);
hi = Bound::max_bound(&hi, c);
}
/*@ proof { assert forall|v: int, w: int| has(*self, v) && has(*other, w) implies above2(lo, #[trigger] (v * w)) && below2(hi, v * w) by { lem_corner(*self, *other, v, w);
   assert(corners@[0] == bmul(self.lo, other.lo) && corners@[1] == bmul(self.lo, other.hi) && corners@[2] == bmul(self.hi, other.lo) && corners@[3] == bmul(self.hi, other.hi)); } } @*/
Interval::between(lo, hi)
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn div | cdiv
fn div(&self, other: &Interval) -> /*@ (r: @*/ Interval /*@ ) ensures forall|v: int, w: int| has(*self, v) && has(*other, w) && w != 0 ==> has(r, #[trigger] tquo(v, w)) @*/ {
if let (Some(a), Some(b)) = (self.is_exact(), other.is_exact()) {
if b != 0 {
if let Some(q) = checked_tdiv(a, b) {
return Interval::exact(q);
}
}
}
if let Some(k) = other.is_exact() {
if k > 0 {
return Interval::between(self.lo.div_by(k), self.hi.div_by(k));
} else if k < 0 {
return Interval::between(self.hi.div_by(k), self.lo.div_by(k));
}
}
Interval::top()
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn modulo | wrem,uabs
fn modulo(&self, other: &Interval) -> /*@ (r: @*/ Interval /*@ ) ensures forall|v: int, w: int| has(*self, v) && has(*other, w) && w != 0 ==> has(r, #[trigger] trem(v, w)) @*/ {
/*@ proof { assert forall|v: int, w: int| w != 0 implies (v >= 0 ==> 0 <= #[trigger] trem(v, w) <= vabs(w) - 1) && (v <= 0 ==> -(vabs(w) - 1) <= trem(v, w) <= 0) by { lem_trem(v, w); } } @*/
if let (Some(a), Some(b)) = (self.is_exact(), other.is_exact()) {
if b != 0 {
return Interval::exact(wrapping_trem(a, b));
}
}
if let Some(k) = other.is_exact() {
if k != 0 {
let m = (unsigned_abs(k) - 1) as i64;
let nonneg = matches!(self.lo, Bound::Finite(v) if v >= 0);
let nonpos = matches!(self.hi, Bound::Finite(v) if v <= 0);
let lo = if nonneg { Bound::Finite(0) } else { Bound::Finite(-m) };
let hi = if nonpos { Bound::Finite(0) } else { Bound::Finite(m) };
return Interval { lo, hi };
}
}
let nonneg = matches!(self.lo, Bound::Finite(v) if v >= 0);
let nonpos = matches!(self.hi, Bound::Finite(v) if v <= 0);
if nonneg {
return Interval::non_negative();
}
if nonpos {
return Interval { lo: Bound::NegInf, hi: Bound::Finite(0) };
}
Interval::top()
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn definitely_gt
fn definitely_gt(&self, other: &Interval) -> /*@ (r: @*/ Option<bool> /*@ ) ensures r matches Some(b) ==> forall|v: int, w: int| #[trigger] has(*self, v) && #[trigger] has(*other, w) ==> b == (v > w) @*/ {
if self.lo.cmp_bound(&other.hi) == Ordering::Greater {
return Some(true);
}
if self.hi.cmp_bound(&other.lo) != Ordering::Greater {
return Some(false);
}
None
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn definitely_lt
fn definitely_lt(&self, other: &Interval) -> /*@ (r: @*/ Option<bool> /*@ ) ensures r matches Some(b) ==> forall|v: int, w: int| #[trigger] has(*self, v) && #[trigger] has(*other, w) ==> b == (v < w) @*/ {
if self.hi.cmp_bound(&other.lo) == Ordering::Less {
return Some(true);
}
if self.lo.cmp_bound(&other.hi) != Ordering::Less {
return Some(false);
}
None
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn definitely_gteq
fn definitely_gteq(&self, other: &Interval) -> /*@ (r: @*/ Option<bool> /*@ ) ensures r matches Some(b) ==> forall|v: int, w: int| #[trigger] has(*self, v) && #[trigger] has(*other, w) ==> b == (v >= w) @*/ {
if self.lo.cmp_bound(&other.hi) != Ordering::Less {
return Some(true);
}
if self.hi.cmp_bound(&other.lo) == Ordering::Less {
return Some(false);
}
None
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn definitely_lteq
fn definitely_lteq(&self, other: &Interval) -> /*@ (r: @*/ Option<bool> /*@ ) ensures r matches Some(b) ==> forall|v: int, w: int| #[trigger] has(*self, v) && #[trigger] has(*other, w) ==> b == (v <= w) @*/ {
if self.hi.cmp_bound(&other.lo) != Ordering::Greater {
return Some(true);
}
if self.lo.cmp_bound(&other.hi) == Ordering::Greater {
return Some(false);
}
None
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn definitely_eq
fn definitely_eq(&self, other: &Interval) -> /*@ (r: @*/ Option<bool> /*@ ) ensures r matches Some(b) ==> forall|v: int, w: int| #[trigger] has(*self, v) && #[trigger] has(*other, w) ==> b == (v == w) @*/ {
if let (Some(a), Some(b)) = (self.is_exact(), other.is_exact()) {
return Some(a == b);
}
None
}
//#FN crates/logicaffeine_compile/src/optimize/abstract_interp.rs :: impl Interval :: fn definitely_neq
fn definitely_neq(&self, other: &Interval) -> /*@ (r: @*/ Option<bool> /*@ ) ensures r matches Some(b) ==> forall|v: int, w: int| #[trigger] has(*self, v) && #[trigger] has(*other, w) ==> b == (v != w) @*/ {
if self.hi.cmp_bound(&other.lo) == Ordering::Less
|| self.lo.cmp_bound(&other.hi) == Ordering::Greater
{
return Some(true);
}
if let (Some(a), Some(b)) = (self.is_exact(), other.is_exact()) {
return Some(a != b);
}
None
}
//#RAW
}
fn main() {}
} // verus!
