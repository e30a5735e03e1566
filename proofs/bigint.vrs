//#SUBST lastzero_mag: mag.last() == Some(&0) =>> (mag.len() > 0 && mag[mag.len() - 1] == 0)
//#SUBST lastzero_v: v.last() == Some(&0) =>> (v.len() > 0 && v[v.len() - 1] == 0)
//#SUBST getor_a: *a.get(i).unwrap_or(&0) =>> limb_or_zero(a, i)
//#SUBST getor_b: *b.get(i).unwrap_or(&0) =>> limb_or_zero(b, i)
//#SUBST to_vec_a: a.to_vec() =>> slice_to_vec(a)
//#SUBST expect_gcd: . expect ( "b is nonzero inside the loop" ) =>> . unwrap ( )
//#SUBST ren_cmp: fn cmp ( & self =>> fn bigint_cmp ( & self
//#SUBST rank_closure: NOTHING =>> NOTHING
//#SUBST expect_ten19: . expect ( "10^19 is nonzero" ) =>> . unwrap ( )
//#SUBST contains_i64: ( i64 :: MIN as i128 ..= i64 :: MAX as i128 ) . contains ( & v ) =>> ( i64 :: MIN as i128 <= v && v <= i64 :: MAX as i128 )
//#SUBST xor_bool: ( self.sign == Sign::Neg ) ^ ( other.sign == Sign::Neg ) =>> ( ( self.sign == Sign::Neg ) != ( other.sign == Sign::Neg ) )
//#RAW
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;

// std: equality of the fieldless enum Ordering (trusted specification of the derived PartialEq)
pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool) ensures r == (*a == *b);

pub open spec fn B() -> nat { 0x1_0000_0000_0000_0000 }

pub open spec fn bp(n: int) -> nat
    decreases n
{ if n <= 0 { 1 } else { B() * bp(n - 1) } }

// the value of the n low limbs (missing limbs read as zero)
pub open spec fn limb(s: Seq<u64>, i: int) -> nat { if 0 <= i < s.len() { s[i] as nat } else { 0 } }
pub open spec fn vp(s: Seq<u64>, n: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { vp(s, n - 1) + limb(s, n - 1) * bp(n - 1) } }
pub open spec fn val(s: Seq<u64>) -> nat { vp(s, s.len() as int) }
pub open spec fn norm(s: Seq<u64>) -> bool { s.len() == 0 || s[s.len() - 1] != 0 }

// stand-ins for the two std expressions Verus has no specification for; the bodies are the same expressions
fn limb_or_zero(a: &[u64], i: usize) -> (r: u64)
    ensures r as nat == limb(a@, i as int)
{ if i < a.len() { a[i] } else { 0 } }

fn slice_to_vec(a: &[u64]) -> (r: Vec<u64>)
    ensures r@ == a@
{
    let mut r: Vec<u64> = Vec::new();
    for i in 0..a.len()
        invariant r@ == a@.subrange(0, i as int)
    { r.push(a[i]); assert(r@ == a@.subrange(0, i as int + 1)); }
    assert(a@.subrange(0, a@.len() as int) == a@);
    r
}

proof fn lem_bp_pos(n: int)
    ensures bp(n) >= 1
    decreases n
{ if n > 0 { lem_bp_pos(n - 1); assert(B() * bp(n-1) >= 1) by (nonlinear_arith) requires bp(n-1) >= 1, B() == 0x1_0000_0000_0000_0000nat; } }

proof fn lem_vp_bound(s: Seq<u64>, n: int)
    requires n >= 0
    ensures vp(s, n) < bp(n)
    decreases n
{
    if n > 0 {
        lem_vp_bound(s, n - 1);
        let l = limb(s, n - 1);
        let p = bp(n - 1);
        assert(l * p <= (B() - 1) * p) by (nonlinear_arith) requires l <= B() - 1, p >= 0;
        assert((B() - 1) * p + p == B() * p) by (nonlinear_arith);
    }
}

proof fn lem_vp_ext(s: Seq<u64>, t: Seq<u64>, n: int)
    requires forall|i: int| 0 <= i < n ==> limb(s, i) == limb(t, i)
    ensures vp(s, n) == vp(t, n)
    decreases n
{ if n > 0 { lem_vp_ext(s, t, n - 1); } }

proof fn lem_vp_pad(s: Seq<u64>, n: int)
    requires n >= s.len()
    ensures vp(s, n) == val(s)
    decreases n
{
    if n > s.len() {
        lem_vp_pad(s, n - 1);
        assert(limb(s, n - 1) * bp(n - 1) == 0) by (nonlinear_arith) requires limb(s, n - 1) == 0;
    }
}

proof fn lem_push(s: Seq<u64>, x: u64)
    ensures val(s.push(x)) == val(s) + x as nat * bp(s.len() as int)
{
    lem_vp_ext(s, s.push(x), s.len() as int);
}

proof fn lem_drop_zero(s: Seq<u64>)
    requires s.len() > 0, s[s.len() - 1] == 0
    ensures val(s.drop_last()) == val(s)
{
    let t = s.drop_last();
    lem_vp_ext(s, t, t.len() as int);
    assert(limb(s, s.len() - 1) * bp(s.len() - 1) == 0) by (nonlinear_arith) requires limb(s, s.len() - 1) == 0;
}

proof fn lem_norm_lower(s: Seq<u64>)
    requires norm(s), s.len() > 0
    ensures val(s) >= bp(s.len() - 1)
{
    let l = limb(s, s.len() - 1); let p = bp(s.len() - 1);
    assert(l * p >= p) by (nonlinear_arith) requires l >= 1, p >= 0;
}

proof fn lem_bp_mono(m: int, n: int)
    requires 0 <= m <= n
    ensures bp(m) <= bp(n)
    decreases n - m
{
    if m < n { lem_bp_mono(m, n - 1); lem_bp_pos(n - 1);
        let p = bp(n - 1);
        assert(B() * p >= p) by (nonlinear_arith) requires p >= 0, B() >= 1; }
}

proof fn lem_shorter(a: Seq<u64>, b: Seq<u64>)
    requires norm(b), a.len() < b.len()
    ensures val(a) < val(b)
{
    lem_vp_bound(a, a.len() as int); lem_norm_lower(b); lem_bp_mono(a.len() as int, b.len() - 1);
}

// a magnitude is determined by its value
proof fn lem_unique_vp(a: Seq<u64>, b: Seq<u64>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), vp(a, n) == vp(b, n)
    ensures forall|i: int| 0 <= i < n ==> a[i] == b[i]
    decreases n
{
    if n > 0 {
        let p = bp(n - 1); let x = limb(a, n - 1); let y = limb(b, n - 1);
        lem_vp_bound(a, n - 1); lem_vp_bound(b, n - 1);
        let u = vp(a, n - 1); let w = vp(b, n - 1);
        assert(x == y) by (nonlinear_arith) requires u + x * p == w + y * p, u < p, w < p, x >= 0, y >= 0;
        lem_unique_vp(a, b, n - 1);
    }
}
pub proof fn lem_unique(a: Seq<u64>, b: Seq<u64>)
    requires norm(a), norm(b), val(a) == val(b)
    ensures a == b
{
    if a.len() < b.len() { lem_shorter(a, b); }
    if b.len() < a.len() { lem_shorter(b, a); }
    lem_unique_vp(a, b, a.len() as int);
    assert(a =~= b);
}

proof fn lem_set_add(s: Seq<u64>, i: int, x: u64, n: int)
    requires 0 <= i < s.len(), 0 <= n
    ensures vp(s.update(i, x), n) + (if i < n { s[i] as nat * bp(i) } else { 0 }) == vp(s, n) + (if i < n { x as nat * bp(i) } else { 0 })
    decreases n
{
    if n > 0 {
        lem_set_add(s, i, x, n - 1);
    }
}

//#FN crates/logicaffeine_base/src/numeric.rs :: fn normalize | lastzero_mag
fn normalize(mut mag: Vec<u64>) -> /*@ (r: @*/ Vec<u64> /*@ )
    ensures val(r@) == val(mag@), norm(r@), r@.len() <= mag@.len(), norm(mag@) ==> r@ == mag@, @*/
{
    /*@ let ghost m0 = mag@; @*/
    while (mag.len() > 0 && mag[mag.len() - 1] == 0)
    /*@ invariant val(mag@) == val(m0), mag@.len() <= m0.len(), norm(m0) ==> mag@ == m0,
        decreases mag@.len(), @*/
    {
        /*@ proof { lem_drop_zero(mag@); } @*/
        mag.pop();
    }
    mag
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn mag_cmp
fn mag_cmp(a: &[u64], b: &[u64]) -> /*@ (r: @*/ Ordering /*@ )
    requires norm(a@), norm(b@),
    ensures (r == Ordering::Less) == (val(a@) < val(b@)), (r == Ordering::Equal) == (val(a@) == val(b@)), (r == Ordering::Greater) == (val(a@) > val(b@)), @*/
{
    /*@ proof { if a@.len() < b@.len() { lem_shorter(a@, b@); } if b@.len() < a@.len() { lem_shorter(b@, a@); } } @*/
    match a.len().cmp(&b.len()) {
        Ordering::Equal => {
            /*@ let ghost n = a@.len() as int; @*/
            for i in /*@ it: @*/ (0..a.len()).rev()
            /*@ invariant n == a@.len(), n == b@.len(), 0 <= it.index@ <= n,
                  forall|k: int| n - it.index@ <= k < n ==> a@[k] == b@[k],
                  (vp(a@, n - it.index@) < vp(b@, n - it.index@)) ==> val(a@) < val(b@),
                  (vp(a@, n - it.index@) > vp(b@, n - it.index@)) ==> val(a@) > val(b@),
                  (vp(a@, n - it.index@) == vp(b@, n - it.index@)) ==> val(a@) == val(b@), @*/
            {
                /*@ proof {
                   let m = n - it.index@;
                   assert(i == m - 1);
                   let p = bp(i as int); let x = limb(a@, i as int); let y = limb(b@, i as int); let u = vp(a@, i as int); let w = vp(b@, i as int);
                   lem_vp_bound(a@, i as int); lem_vp_bound(b@, i as int);
                   assert(vp(a@, m) == u + x * p); assert(vp(b@, m) == w + y * p);
                   assert(x < y ==> u + x * p < w + y * p) by (nonlinear_arith) requires u < p, w < p, x >= 0, y >= 0, w >= 0;
                   assert(x > y ==> u + x * p > w + y * p) by (nonlinear_arith) requires u < p, w < p, x >= 0, y >= 0, u >= 0;
                } @*/
                match a[i].cmp(&b[i]) {
                    Ordering::Equal => {}
                    other => return other,
                }
            }
            Ordering::Equal
        }
        other => other,
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn mag_add | getor_a, getor_b
fn mag_add(a: &[u64], b: &[u64]) -> /*@ (r: @*/ Vec<u64> /*@ )
    requires a@.len() < usize::MAX, b@.len() < usize::MAX,
    ensures val(r@) == val(a@) + val(b@), norm(r@), @*/
{
    let mut out = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut carry = 0u128;
    for i in 0..a.len().max(b.len())
    /*@ invariant out@.len() == i, carry <= 1, val(out@) + carry as nat * bp(i as int) == vp(a@, i as int) + vp(b@, i as int), @*/
    {
        let av = limb_or_zero(a, i) as u128;
        let bv = limb_or_zero(b, i) as u128;
        /*@ let ghost c0 = carry; let ghost o0 = out@; @*/
        let sum = av + bv + carry;
        out.push(sum as u64);
        carry = sum >> 64;
        /*@ proof {
            assert(sum == (sum >> 64) * 0x1_0000_0000_0000_0000u128 + (sum as u64) as u128) by (bit_vector);
            assert(sum < 0x2_0000_0000_0000_0000u128 ==> (sum >> 64) <= 1) by (bit_vector);
            lem_push(o0, sum as u64);
            let p = bp(i as int);
            let lo = (sum as u64) as nat; let hi = carry as nat;
            assert(bp(i as int + 1) == B() * p);
            assert(lo * p + hi * (B() * p) == (av as nat) * p + (bv as nat) * p + (c0 as nat) * p) by (nonlinear_arith)
               requires lo + hi * B() == av as nat + bv as nat + c0 as nat;
        } @*/
    }
    /*@ let ghost n = out@.len() as int; @*/
    /*@ proof { lem_vp_pad(a@, n); lem_vp_pad(b@, n); lem_push(out@, carry as u64); 
        if carry == 0 { assert(carry as nat * bp(n) == 0) by (nonlinear_arith) requires carry == 0; } } @*/
    if carry != 0 {
        out.push(carry as u64);
    }
    normalize(out)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn mag_sub | getor_b
fn mag_sub(a: &[u64], b: &[u64]) -> /*@ (r: @*/ Vec<u64> /*@ )
    requires val(a@) >= val(b@), norm(b@), norm(a@),
    ensures val(r@) == val(a@) - val(b@), norm(r@), @*/
{
    let mut out = Vec::with_capacity(a.len());
    let mut borrow = 0i128;
    for i in 0..a.len()
    /*@ invariant out@.len() == i, 0 <= borrow <= 1, val(out@) + vp(b@, i as int) == vp(a@, i as int) + borrow as nat * bp(i as int), @*/
    {
        let av = a[i] as i128;
        let bv = limb_or_zero(b, i) as i128;
        /*@ let ghost c0 = borrow; let ghost o0 = out@; @*/
        let mut diff = av - bv - borrow;
        /*@ assert(1i128 << 64 == 0x1_0000_0000_0000_0000i128) by (bit_vector); @*/
        if diff < 0 {
            diff += 1i128 << 64;
            borrow = 1;
        } else {
            borrow = 0;
        }
        out.push(diff as u64);
        /*@ proof {
            assert(0 <= diff < 0x1_0000_0000_0000_0000i128);
            lem_push(o0, diff as u64);
            let p = bp(i as int);
            let lo = diff as nat; let hi = borrow as nat;
            assert((diff as u64) as nat == lo);
            assert(bp(i as int + 1) == B() * p);
            assert(lo * p + (bv as nat) * p + (c0 as nat) * p == (av as nat) * p + hi * (B() * p)) by (nonlinear_arith)
               requires lo + bv as nat + c0 as nat == av as nat + hi * B();
        } @*/
    }
    /*@ proof {
        let n = a@.len() as int;
        if b@.len() > a@.len() { lem_shorter(a@, b@); }
        lem_vp_pad(b@, n); 
        lem_vp_bound(out@, n); 
        assert(borrow == 0) by (nonlinear_arith) requires val(out@) < bp(n), val(out@) + val(b@) == val(a@) + borrow as nat * bp(n), val(a@) >= val(b@), 0 <= borrow <= 1;
        assert(borrow as nat * bp(n) == 0) by (nonlinear_arith) requires borrow == 0;
    } @*/
    normalize(out)
}
//#RAW
// Every slice/Vec<u64> of the running process fits the 48-bit address space (trusted machine fact).
#[verifier::external_body]
pub proof fn ax_len(s: &[u64])
    ensures s@.len() < 0x2000_0000_0000
{}

proof fn lem_bit_split(cur: u128)
    ensures cur == (cur >> 64) * 0x1_0000_0000_0000_0000u128 + (cur as u64) as u128
{
    assert(cur == (cur >> 64) * 0x1_0000_0000_0000_0000u128 + (cur as u64) as u128) by (bit_vector);
}

proof fn lem_vp_split_high(s: Seq<u64>, k: int, n: int)
    requires 0 <= k <= n, forall|i: int| k <= i < n ==> limb(s, i) == 0
    ensures vp(s, n) == vp(s, k)
    decreases n
{
    if n > k {
        lem_vp_split_high(s, k, n - 1);
        assert(limb(s, n - 1) * bp(n - 1) == 0) by (nonlinear_arith) requires limb(s, n - 1) == 0;
    }
}
proof fn lem_bp_add(m: int, n: int)
    requires 0 <= m, 0 <= n
    ensures bp(m + n) == bp(m) * bp(n)
    decreases n
{
    if n > 0 {
        lem_bp_add(m, n - 1);
        let x = bp(m); let y = bp(n - 1);
        assert(bp(m + n) == B() * bp(m + n - 1));
        assert(B() * (x * y) == x * (B() * y)) by (nonlinear_arith);
    } else { assert(bp(m) * 1 == bp(m)) by (nonlinear_arith); }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn mag_mul
fn mag_mul(a: &[u64], b: &[u64]) -> /*@ (r: @*/ Vec<u64> /*@ )
    ensures val(r@) == val(a@) * val(b@), norm(r@), @*/
{
    /*@ proof { ax_len(a); ax_len(b); } @*/
    if a.is_empty() || b.is_empty() {
        /*@ proof { assert(val(a@) * val(b@) == 0) by (nonlinear_arith) requires val(a@) == 0 || val(b@) == 0; } @*/
        return Vec::new();
    }
    let mut out = vec![0u64; a.len() + b.len()];
    /*@ let ghost la = a@.len() as int; let ghost lb = b@.len() as int; let ghost vb = val(b@);
        proof { lem_vp_split_high(out@, 0, la + lb);
                assert(vp(a@, 0) * vb == 0) by (nonlinear_arith) requires vp(a@, 0) == 0; } @*/
    for i in 0..a.len()
    /*@ invariant la == a@.len(), lb == b@.len(), lb > 0, out@.len() == la + lb, vb == val(b@), la + lb < usize::MAX,
          val(out@) == vp(a@, i as int) * vb,
          forall|k: int| i + lb <= k < la + lb ==> out@[k] == 0, @*/
    {
        let av = a[i];
        let mut carry = 0u128;
        /*@ let ghost o0 = out@; @*/
        /*@ proof { assert(av as nat * vp(b@, 0) == 0) by (nonlinear_arith) requires vp(b@, 0) == 0;
              assert((av as nat * vp(b@, 0)) * bp(i as int) == 0) by (nonlinear_arith) requires av as nat * vp(b@, 0) == 0;
              assert(0nat * bp(i as int + 0) == 0) by (nonlinear_arith); } @*/
        for j in 0..b.len()
        /*@ invariant la == a@.len(), lb == b@.len(), out@.len() == la + lb, 0 <= i < la, la + lb < usize::MAX, av == a@[i as int],
              carry < 0x1_0000_0000_0000_0000u128,
              val(out@) + carry as nat * bp(i + j) == val(o0) + (av as nat * vp(b@, j as int)) * bp(i as int),
              forall|k: int| i + lb <= k < la + lb ==> out@[k] == 0, @*/
        {
            let bv = b[j];
            /*@ let ghost c0 = carry; let ghost o1 = out@; 
               proof { assert((av as u128) * (bv as u128) <= 0xFFFF_FFFF_FFFF_FFFFu128 * 0xFFFF_FFFF_FFFF_FFFFu128) by (nonlinear_arith)
                  requires av as u128 <= 0xFFFF_FFFF_FFFF_FFFFu128, bv as u128 <= 0xFFFF_FFFF_FFFF_FFFFu128; } @*/
            let cur = out[i + j] as u128 + (av as u128) * (bv as u128) + carry;
            out[i + j] = cur as u64;
            carry = cur >> 64;
            /*@ proof {
                assert(cur >> 64 < 0x1_0000_0000_0000_0000u128) by (bit_vector);
                lem_bit_split(cur);
                lem_set_add(o1, i + j, cur as u64, la + lb);
                let p = bp(i + j); let x = o1[i + j] as nat; let lo = (cur as u64) as nat; let hi = carry as nat;
                assert(bp(i + j + 1) == B() * p);
                let pr = av as nat * bv as nat;
                assert(lo * p + hi * (B() * p) == x * p + pr * p + (c0 as nat) * p) by (nonlinear_arith)
                    requires lo + hi * B() == x + pr + c0 as nat;
                lem_bp_add(i as int, j as int);
                let vbj = vp(b@, j as int); let q = bp(i as int); let bj = bp(j as int);
                assert((av as nat * (vbj + bv as nat * bj)) * q == (av as nat * vbj) * q + pr * (q * bj)) by (nonlinear_arith)
                    requires pr == av as nat * bv as nat;
            } @*/
        }
        /*@ let ghost o2 = out@;
          proof {
            // the accumulated value fits i + lb + 1 limbs, so the slot takes the carry without overflow
            assert(out@[i + lb] == 0);
            assert(0 + carry < 0x1_0000_0000_0000_0000u128);
            lem_set_add(o2, i + lb, carry as u64, la + lb);
            let p = bp(i + lb); let c = carry as nat;
            assert(0 * p == 0) by (nonlinear_arith);
            let u = vp(a@, i as int); let q = bp(i as int); let x = av as nat;
            assert((u + x * q) * vb == u * vb + (x * vb) * q) by (nonlinear_arith);
        } @*/
        out[i + b.len()] += carry as u64;
    }
    normalize(out)
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn mag_shl1
fn mag_shl1(a: &[u64], bit: u64) -> /*@ (r: @*/ Vec<u64> /*@ )
    ensures val(r@) == 2 * val(a@) + (bit & 1) as nat, norm(r@), @*/
{
    /*@ proof { ax_len(a); } @*/
    let mut out = Vec::with_capacity(a.len() + 1);
    let mut carry = bit & 1;
    /*@ proof { assert(bit & 1 <= 1) by (bit_vector); let c = (bit & 1) as nat; assert(c * bp(0) == c) by (nonlinear_arith) requires bp(0) == 1; } @*/
    for limb__r in /*@ it: @*/ a
    /*@ invariant out@.len() == it.index@, carry <= 1,
          it.seq().len() == a@.len(), forall|k: int| 0 <= k < a@.len() ==> *it.seq()[k] == a@[k],
          val(out@) + carry as nat * bp(it.index@ as int) == 2 * vp(a@, it.index@ as int) + (bit & 1) as nat, @*/
    {
        let limb = *limb__r;
        /*@ let ghost c0 = carry; let ghost o0 = out@; let ghost i = it.index@ as int; @*/
        out.push((limb << 1) | carry);
        carry = limb >> 63;
        /*@ proof {
            let w = (limb << 1) | c0;
            assert(c0 <= 1 ==> ((limb << 1) | c0) as u128 + ((limb >> 63) as u128) * 0x1_0000_0000_0000_0000u128 == 2u128 * (limb as u128) + (c0 as u128)) by (bit_vector);
            assert(limb >> 63 <= 1) by (bit_vector);
            lem_push(o0, w);
            let p = bp(i); let lo = w as nat; let hi = carry as nat;
            assert(bp(i + 1) == B() * p);
            assert(lo * p + hi * (B() * p) == 2 * (limb as nat * p) + (c0 as nat) * p) by (nonlinear_arith)
               requires lo + hi * B() == 2 * limb as nat + c0 as nat;
        } @*/
    }
    /*@ proof { let n = a@.len() as int; lem_push(out@, carry);
        if carry == 0 { assert(carry as nat * bp(n) == 0) by (nonlinear_arith) requires carry == 0; } } @*/
    if carry != 0 {
        out.push(carry);
    }
    normalize(out)
}
//#RAW
// ---- bit view used by long division
pub open spec fn lowl(l: u64, j: int) -> nat { if j >= 64 { l as nat } else { (l & sub(1u64 << (j as u64), 1)) as nat } }
pub open spec fn bitof(s: Seq<u64>, k: int) -> u64 { (s[k / 64] >> ((k % 64) as u64)) & 1 }
// value of the k low bits
pub open spec fn low(s: Seq<u64>, k: int) -> nat {
    vp(s, k / 64) + (if k / 64 < s.len() { lowl(s[k / 64], k % 64) * bp(k / 64) } else { 0 })
}
pub open spec fn P(k: int) -> nat { (1u64 << ((k % 64) as u64)) as nat * bp(k / 64) }

proof fn lem_sh(j: u64)
    requires j < 64
    ensures 1u64 << j >= 1, j < 63 ==> (1u64 << ((j + 1) as u64)) == 2 * (1u64 << j), j == 63 ==> (1u64 << j) == 0x8000_0000_0000_0000u64
{
    assert(j < 64 ==> 1u64 << j >= 1) by (bit_vector);
    assert(j < 63 ==> (1u64 << add(j, 1)) == mul(2, 1u64 << j) && (1u64 << j) <= 0x4000_0000_0000_0000u64) by (bit_vector);
    assert(1u64 << 63u64 == 0x8000_0000_0000_0000u64) by (bit_vector);
}
proof fn lem_P(k: int)
    requires k >= 0
    ensures P(k + 1) == 2 * P(k), P(k) >= 1
{
    let j = (k % 64) as u64; let w = k / 64; let p = bp(w);
    lem_sh(j); lem_bp_pos(w);
    let s = (1u64 << j) as nat;
    assert(s * p >= 1) by (nonlinear_arith) requires s >= 1, p >= 1;
    if j < 63 {
        assert((k + 1) / 64 == w && (k + 1) % 64 == j + 1);
        assert((2 * s) * p == 2 * (s * p)) by (nonlinear_arith);
    } else {
        assert((k + 1) / 64 == w + 1 && (k + 1) % 64 == 0);
        assert(1u64 << 0u64 == 1) by (bit_vector);
        assert(bp(w + 1) == B() * p);
        assert(1 * (B() * p) == 2 * (s * p)) by (nonlinear_arith) requires s * 2 == B();
    }
}
proof fn lem_low(s: Seq<u64>, k: int)
    requires 0 <= k < s.len() * 64
    ensures low(s, k + 1) == low(s, k) + bitof(s, k) as nat * P(k), bitof(s, k) <= 1
{
    let j = (k % 64) as u64; let w = k / 64; let p = bp(w); let l = s[w];
    let bt = (l >> j) & 1;
    assert((l >> j) & 1 <= 1) by (bit_vector);
    lem_sh(j);
    let x = (1u64 << j) as nat;
    if j < 63 {
        assert((k + 1) / 64 == w && (k + 1) % 64 == j + 1);
        let j1 = (j + 1) as u64;
        assert(j < 63 && j1 == add(j, 1) ==> ((l & sub(1u64 << j1, 1)) == add(l & sub(1u64 << j, 1), mul((l >> j) & 1, 1u64 << j)))) by (bit_vector);
        assert(j < 63 ==> (l & sub(1u64 << j, 1)) <= 0x3fff_ffff_ffff_ffffu64) by (bit_vector);
        assert(((l >> j) & 1) * (1u64 << j) <= (1u64 << j)) by (nonlinear_arith) requires (l >> j) & 1 <= 1;
        let lo = lowl(l, j as int); let b2 = bt as nat;
        assert(lowl(l, j + 1) == lo + b2 * x);
        assert((lo + b2 * x) * p == lo * p + b2 * (x * p)) by (nonlinear_arith);
    } else {
        assert((k + 1) / 64 == w + 1 && (k + 1) % 64 == 0);
        assert(l as nat == (l & sub(1u64 << 63u64, 1)) as nat + ((l >> 63u64) & 1) as nat * 0x8000_0000_0000_0000) by {
            assert(1u64 << 63u64 == 0x8000_0000_0000_0000u64) by (bit_vector);
            assert(l & 0x7fff_ffff_ffff_ffffu64 <= 0x7fff_ffff_ffff_ffffu64) by (bit_vector);
            assert(l == add(l & 0x7fff_ffff_ffff_ffffu64, mul((l >> 63u64) & 1, 0x8000_0000_0000_0000u64))) by (bit_vector);
        }
        let lo = lowl(l, 63); let b2 = bt as nat;
        assert((lo + b2 * x) * p == lo * p + b2 * (x * p)) by (nonlinear_arith);
        // next limb contributes no bits yet
        if w + 1 < s.len() {
            let n = s[w + 1];
            assert(n & sub(1u64 << 0u64, 1) == 0) by (bit_vector);
            assert(0 * bp(w + 1) == 0) by (nonlinear_arith);
        }
    }
}
proof fn lem_set_bit(q: Seq<u64>, k: int)
    requires 0 <= k < q.len() * 64, bitof(q, k) == 0
    ensures ({ let w = k / 64; let j = (k % 64) as u64; let q2 = q.update(w, q[w] | (1u64 << j));
        val(q2) == val(q) + P(k) && forall|m: int| 0 <= m < q.len() * 64 && m != k ==> bitof(q2, m) == bitof(q, m) })
{
    let w = k / 64; let j = (k % 64) as u64; let x = q[w]; let q2 = q.update(w, x | (1u64 << j));
    assert(j < 64 && (x >> j) & 1 == 0 ==> (x | (1u64 << j)) as u128 == x as u128 + (1u64 << j) as u128) by (bit_vector);
    lem_set_add(q, w, x | (1u64 << j), q.len() as int);
    let p = bp(w); let s = (1u64 << j) as nat;
    assert((x as nat + s) * p == x as nat * p + s * p) by (nonlinear_arith);
    assert forall|m: int| 0 <= m < q.len() * 64 && m != k implies bitof(q2, m) == bitof(q, m) by {
        let mw = m / 64; let mj = (m % 64) as u64;
        if mw == w {
            assert(mj != j);
            assert(mj < 64 && j < 64 && mj != j ==> ((x | (1u64 << j)) >> mj) & 1 == (x >> mj) & 1) by (bit_vector);
        }
    }
}
//#FN crates/logicaffeine_base/src/numeric.rs :: fn mag_divrem | to_vec_a
fn mag_divrem(a: &[u64], b: &[u64]) -> /*@ (res: @*/ (Vec<u64>, Vec<u64>) /*@ )
    requires norm(a@), norm(b@), b@.len() > 0,
    ensures val(a@) == val(res.0@) * val(b@) + val(res.1@), val(res.1@) < val(b@), norm(res.0@), norm(res.1@), @*/
{
    /*@ proof { ax_len(a); } @*/
    if mag_cmp(a, b) == Ordering::Less {
        /*@ proof { assert(0 * val(b@) == 0) by (nonlinear_arith); } @*/
        return (Vec::new(), slice_to_vec(a));
    }
    let nbits = a.len() * 64;
    let mut q = vec![0u64; a.len()];
    let mut r: Vec<u64> = Vec::new();
    /*@ let ghost n = a@.len() as int; let ghost vb = val(b@);
       proof {
        lem_vp_split_high(q@, 0, n);
        lem_norm_lower(b@); lem_bp_pos(b@.len() - 1);
        assert(0 * vb == 0 && 0 * P(nbits as int) == 0) by (nonlinear_arith);
        assert((n * 64) / 64 == n) by (nonlinear_arith);
        assert(0u64 >> 0u64 & 1 == 0) by (bit_vector);
        assert forall|m: int| 0 <= m < n * 64 implies bitof(q@, m) == 0 by { let mj = (m % 64) as u64; assert((0u64 >> mj) & 1 == 0) by (bit_vector); }
       } @*/
    for i in /*@ it: @*/ (0..nbits).rev()
    /*@ invariant n == a@.len(), nbits == n * 64, q@.len() == n, 0 <= it.index@ <= nbits, vb == val(b@), norm(b@), norm(r@),
          val(r@) < vb,
          forall|m: int| 0 <= m < nbits - it.index@ ==> bitof(q@, m) == 0,
          val(q@) * vb + val(r@) * P(nbits - it.index@) + low(a@, nbits - it.index@) == val(a@), @*/
    {
        /*@ let ghost r0 = r@; let ghost q0 = q@; assert(i == nbits - it.index@ - 1); 
            proof { assert((i as int) / 64 < n) by (nonlinear_arith) requires i < n * 64; assert((i % 64) as u64 == ((i as int) % 64) as u64);} @*/
        let bit = (a[i / 64] >> (i % 64)) & 1;
        r = mag_shl1(&r, bit);
        /*@ let ghost r1 = r@;
          proof {
            let k = i as int;
            assert(a@[k / 64] >> ((k % 64) as u64) == a@[k / 64] >> ((i % 64) as usize));
            lem_low(a@, k); lem_P(k);
            assert(bit == bitof(a@, k));
            assert(bit & 1 == bit) by (bit_vector) requires bit <= 1;
            let x = val(r0); let bt = bit as nat; let pk = P(k);
            assert(x * (2 * pk) + bt * pk == (2 * x + bt) * pk) by (nonlinear_arith);
            if val(r1) >= vb {
                lem_set_bit(q0, k);
                assert((val(q0) + pk) * vb + (val(r1) - vb) * pk == val(q0) * vb + val(r1) * pk) by (nonlinear_arith);
            }
        } @*/
        if mag_cmp(&r, b) != Ordering::Less {
            r = mag_sub(&r, b);
            q[i / 64] |= 1u64 << (i % 64);
            /*@ proof { assert(1u64 << ((i % 64) as u64) == 1u64 << ((i % 64) as usize)); } @*/
        }
    }
    /*@ proof {
        assert(low(a@, 0) == 0) by {
          if n > 0 { let l = a@[0]; assert(l & sub(1u64 << 0u64, 1) == 0) by (bit_vector); assert(0 * bp(0) == 0); } };
        assert(P(0) == 1) by { assert(1u64 << 0u64 == 1) by (bit_vector); assert(1 * bp(0) == 1); };
        assert(val(r@) * 1 == val(r@)) by (nonlinear_arith);
    } @*/
    (normalize(q), normalize(r))
}
//#RAW
// ---- BigInt: representation, abstract value and canonical form
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//#ITEM crates/logicaffeine_base/src/numeric.rs :: enum Sign
enum Sign {
    Neg,
    Zero,
    Pos,
}
//#ITEM crates/logicaffeine_base/src/numeric.rs :: struct BigInt
struct BigInt {
    sign: Sign,
    mag: Mag,
}
//#ITEM crates/logicaffeine_base/src/numeric.rs :: enum Mag
enum Mag {
    Inline(u64),
    Heap(Vec<u64>),
}
//#RAW
// derived Clone (trusted: the derived implementation returns an equal value)
impl Clone for Mag {
    #[verifier::external_body]
    fn clone(&self) -> (r: Mag) ensures r == *self { unimplemented!() }
}
impl Clone for BigInt {
    #[verifier::external_body]
    fn clone(&self) -> (r: BigInt) ensures r == *self { unimplemented!() }
}
pub assume_specification<T> [std::slice::from_ref::<T>] (x: &T) -> (r: &[T]) ensures r@ == seq![*x];
pub assume_specification [i128::unsigned_abs] (x: i128) -> (r: u128) ensures r as int == (if x < 0 { -(x as int) } else { x as int });

spec fn lims(m: Mag) -> Seq<u64> {
    match m { Mag::Inline(x) => if x == 0 { Seq::empty() } else { seq![x] }, Mag::Heap(v) => v@ }
}
spec fn mwf(m: Mag) -> bool { match m { Mag::Inline(_) => true, Mag::Heap(v) => v@.len() >= 2 && norm(v@) } }
spec fn mval(m: Mag) -> nat { val(lims(m)) }
spec fn wf(b: BigInt) -> bool { mwf(b.mag) && (b.sign == Sign::Zero) == (mval(b.mag) == 0) }
spec fn iv(b: BigInt) -> int { if b.sign == Sign::Neg { -(mval(b.mag) as int) } else { mval(b.mag) as int } }

proof fn lem_single(x: u64)
    ensures val(seq![x]) == x as nat, val(Seq::<u64>::empty()) == 0
{
    reveal_with_fuel(vp, 3); reveal_with_fuel(bp, 2);
    assert(x as nat * bp(0) == x as nat) by (nonlinear_arith) requires bp(0) == 1;
}
proof fn lem_two(x: u64, y: u64)
    ensures val(seq![x, y]) == x as nat + B() * y as nat
{
    lem_single(x);
    assert(seq![x, y] == seq![x].push(y));
    lem_push(seq![x], y);
    assert(bp(1) == B() * bp(0));
    assert(y as nat * (B() * 1) == B() * y as nat) by (nonlinear_arith);
}
proof fn lem_mag_norm(m: Mag)
    requires mwf(m)
    ensures norm(lims(m)), (mval(m) == 0) == (lims(m).len() == 0),
      m matches Mag::Inline(x) ==> mval(m) == x, m is Heap ==> mval(m) >= B()
{
    match m {
        Mag::Inline(x) => { lem_single(x); }
        Mag::Heap(v) => { lem_norm_lower(v@); lem_bp_mono(1, v@.len() - 1); lem_bp_pos(v@.len() - 1); assert(bp(1) == B() * bp(0)); }
    }
}
// Canonical form: equal values have equal representations (so derived Eq and Hash are numeric equality).
proof fn lem_canonical(a: BigInt, b: BigInt)
    requires wf(a), wf(b)
    ensures iv(a) == iv(b) ==> a.sign == b.sign && lims(a.mag) == lims(b.mag) && (a.mag is Inline) == (b.mag is Inline)
              && (a.mag matches Mag::Inline(x) ==> b.mag matches Mag::Inline(y) && x == y)
{
    if iv(a) == iv(b) {
        lem_mag_norm(a.mag); lem_mag_norm(b.mag);
        lem_unique(lims(a.mag), lims(b.mag));
    }
}
impl Mag {
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Mag :: fn from_vec | lastzero_v
    fn from_vec(mut v: Vec<u64>) -> /*@ (r: @*/ Mag /*@ )
      ensures mwf(r), mval(r) == val(v@), @*/
    {
        /*@ let ghost v0 = v@; @*/
        while (v.len() > 0 && v[v.len() - 1] == 0)
        /*@ invariant val(v@) == val(v0), decreases v@.len(), @*/
        {
            /*@ proof { lem_drop_zero(v@); } @*/
            v.pop();
        }
        /*@ proof { if v@.len() == 1 { lem_single(v@[0]); assert(v@ == seq![v@[0]]); } else if v@.len() == 0 { assert(v@ == Seq::<u64>::empty()); } } @*/
        match v.len() {
            0 => Mag::Inline(0),
            1 => Mag::Inline(v[0]),
            _ => Mag::Heap(v),
        }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Mag :: fn limbs

    fn limbs(&self) -> /*@ (r: @*/ &[u64] /*@ )
      ensures r@ == lims(*self), @*/
    {
        match self {
            Mag::Inline(0) => &[],
            Mag::Inline(x) => std::slice::from_ref(x),
            Mag::Heap(v) => v,
        }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Mag :: fn as_single
    fn as_single(&self) -> /*@ (r: @*/ Option<u64> /*@ )
      ensures match r { Some(x) => *self == Mag::Inline(x), None => *self is Heap }, @*/
    {
        match self {
            Mag::Inline(x) => Some(*x),
            Mag::Heap(_) => None,
        }
    }
//#RAW
}
impl BigInt {
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn zero
    fn zero() -> /*@ (r: @*/ Self /*@ )
      ensures wf(r), iv(r) == 0, @*/
    {
        /*@ proof { lem_single(0); } @*/
        BigInt { sign: Sign::Zero, mag: Mag::Inline(0) }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn from_sign_mag
    fn from_sign_mag(neg: bool, mag: Vec<u64>) -> /*@ (r: @*/ Self /*@ )
      ensures wf(r), iv(r) == (if neg { -(val(mag@) as int) } else { val(mag@) as int }), @*/
    {
        let mag = Mag::from_vec(mag);
        /*@ proof { lem_mag_norm(mag); } @*/
        let sign = if mag.limbs().is_empty() {
            Sign::Zero
        } else if neg {
            Sign::Neg
        } else {
            Sign::Pos
        };
        BigInt { sign, mag }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn from_sign_mag_u128
    fn from_sign_mag_u128(neg: bool, m: u128) -> /*@ (r: @*/ Self /*@ )
      ensures wf(r), iv(r) == (if neg { -(m as int) } else { m as int }), @*/
    {
        if m == 0 {
            return Self::zero();
        }
        let lo = m as u64;
        let hi = (m >> 64) as u64;
        /*@ proof { lem_bit_split(m); assert(m >> 64 < 0x1_0000_0000_0000_0000u128) by (bit_vector); lem_single(lo); lem_two(lo, hi); } @*/
        let mag = if hi == 0 { Mag::Inline(lo) } else { Mag::Heap(vec![lo, hi]) };
        /*@ proof { if hi != 0 { assert(lims(mag) =~= seq![lo, hi]); } } @*/
        BigInt { sign: if neg { Sign::Neg } else { Sign::Pos }, mag }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn from_i64
    fn from_i64(x: i64) -> /*@ (r: @*/ Self /*@ )
      ensures wf(r), iv(r) == x, @*/
    {
        Self::from_sign_mag_u128(x < 0, (x as i128).unsigned_abs())
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn from_u64
    fn from_u64(x: u64) -> /*@ (r: @*/ Self /*@ )
      ensures wf(r), iv(r) == x, @*/
    {
        Self::from_sign_mag_u128(false, x as u128)
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn to_i64 | contains_i64
    fn to_i64(&self) -> /*@ (r: @*/ Option<i64> /*@ )
      requires wf(*self),
      ensures match r { Some(x) => x == iv(*self), None => iv(*self) < i64::MIN || iv(*self) > i64::MAX }, @*/
    {
        /*@ proof { lem_mag_norm(self.mag); } @*/
        let m = self.mag.as_single()? as i128;
        let v = if self.sign == Sign::Neg { -m } else { m };
        if (i64::MIN as i128 <= v && v <= i64::MAX as i128) {
            Some(v as i64)
        } else {
            None
        }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn is_zero
    fn is_zero(&self) -> /*@ (r: @*/ bool /*@ )
      requires wf(*self), ensures r == (iv(*self) == 0), @*/
    {
        self.sign == Sign::Zero
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn is_negative
    fn is_negative(&self) -> /*@ (r: @*/ bool /*@ )
      requires wf(*self), ensures r == (iv(*self) < 0), @*/
    {
        self.sign == Sign::Neg
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn is_positive
    fn is_positive(&self) -> /*@ (r: @*/ bool /*@ )
      requires wf(*self), ensures r == (iv(*self) > 0), @*/
    {
        self.sign == Sign::Pos
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn abs
    fn abs(&self) -> /*@ (r: @*/ Self /*@ )
      requires wf(*self), ensures wf(r), iv(r) == (if iv(*self) < 0 { -iv(*self) } else { iv(*self) }), @*/
    {
        BigInt { sign: if self.sign == Sign::Zero { Sign::Zero } else { Sign::Pos }, mag: self.mag.clone() }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn negated
    fn negated(&self) -> /*@ (r: @*/ Self /*@ )
      requires wf(*self), ensures wf(r), iv(r) == -iv(*self), @*/
    {
        let sign = match self.sign {
            Sign::Neg => Sign::Pos,
            Sign::Zero => Sign::Zero,
            Sign::Pos => Sign::Neg,
        };
        BigInt { sign, mag: self.mag.clone() }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn add
    fn add(&self, other: &Self) -> /*@ (r: @*/ Self /*@ )
      requires wf(*self), wf(*other), ensures wf(r), iv(r) == iv(*self) + iv(*other), @*/
    {
        /*@ proof { lem_mag_norm(self.mag); lem_mag_norm(other.mag); } @*/
        if let (Some(a), Some(b)) = (self.mag.as_single(), other.mag.as_single()) {
            let av = if self.sign == Sign::Neg { -(a as i128) } else { a as i128 };
            let bv = if other.sign == Sign::Neg { -(b as i128) } else { b as i128 };
            let sum = av + bv;
            return Self::from_sign_mag_u128(sum < 0, sum.unsigned_abs());
        }
        /*@ proof { ax_limbs(self.mag); ax_limbs(other.mag); } @*/
        match (self.sign, other.sign) {
            (Sign::Zero, _) => other.clone(),
            (_, Sign::Zero) => self.clone(),
            (a, b) if a == b => {
                Self::from_sign_mag(a == Sign::Neg, mag_add(self.mag.limbs(), other.mag.limbs()))
            }
            _ => match mag_cmp(self.mag.limbs(), other.mag.limbs()) {
                Ordering::Equal => Self::zero(),
                Ordering::Greater => Self::from_sign_mag(
                    self.sign == Sign::Neg,
                    mag_sub(self.mag.limbs(), other.mag.limbs()),
                ),
                Ordering::Less => Self::from_sign_mag(
                    other.sign == Sign::Neg,
                    mag_sub(other.mag.limbs(), self.mag.limbs()),
                ),
            },
        }
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn sub
    fn sub(&self, other: &Self) -> /*@ (r: @*/ Self /*@ )
      requires wf(*self), wf(*other), ensures wf(r), iv(r) == iv(*self) - iv(*other), @*/
    {
        self.add(&other.negated())
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn mul | xor_bool
    fn mul(&self, other: &Self) -> /*@ (r: @*/ Self /*@ )
      requires wf(*self), wf(*other), ensures wf(r), iv(r) == iv(*self) * iv(*other), @*/
    {
        /*@ proof { lem_mag_norm(self.mag); lem_mag_norm(other.mag);
            let x = mval(self.mag) as int; let y = mval(other.mag) as int;
            assert((-x) * y == -(x * y)) by (nonlinear_arith); assert(x * (-y) == -(x * y)) by (nonlinear_arith); assert((-x) * (-y) == x * y) by (nonlinear_arith);
            assert(0 * y == 0 && x * 0 == 0 && 0 * (-y) == 0) by (nonlinear_arith); } @*/
        let neg = ((self.sign == Sign::Neg) != (other.sign == Sign::Neg));
        if let (Some(a), Some(b)) = (self.mag.as_single(), other.mag.as_single()) {
            /*@ proof { assert((a as u128) * (b as u128) <= 0xFFFF_FFFF_FFFF_FFFFu128 * 0xFFFF_FFFF_FFFF_FFFFu128) by (nonlinear_arith)
                  requires a as u128 <= 0xFFFF_FFFF_FFFF_FFFFu128, b as u128 <= 0xFFFF_FFFF_FFFF_FFFFu128; } @*/
            return Self::from_sign_mag_u128(neg, (a as u128) * (b as u128));
        }
        if self.is_zero() || other.is_zero() {
            return Self::zero();
        }
        Self::from_sign_mag(neg, mag_mul(self.mag.limbs(), other.mag.limbs()))
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn div_rem | xor_bool
    fn div_rem(&self, other: &Self) -> /*@ (r: @*/ Option<(Self, Self)> /*@ )
      requires wf(*self), wf(*other),
      ensures match r {
         None => iv(*other) == 0,
         Some((q, m)) => iv(*other) != 0 && wf(q) && wf(m) && iv(*self) == iv(q) * iv(*other) + iv(m)
             && iabs(iv(m)) < iabs(iv(*other)) && (iv(m) == 0 || (iv(m) < 0) == (iv(*self) < 0)),
      }, @*/
    {
        /*@ proof { lem_mag_norm(self.mag); lem_mag_norm(other.mag); } @*/
        if other.is_zero() {
            return None;
        }
        let q_neg = ((self.sign == Sign::Neg) != (other.sign == Sign::Neg));
        if let (Some(a), Some(b)) = (self.mag.as_single(), other.mag.as_single()) {
            /*@ proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
                  let q = (a / b) as int; let y = b as int;
                  assert(y * q == q * y && (-q) * y == -(q * y) && q * (-y) == -(q * y) && (-q) * (-y) == q * y) by (nonlinear_arith); } @*/
            return Some((
                Self::from_sign_mag_u128(q_neg, (a / b) as u128),
                Self::from_sign_mag_u128(self.sign == Sign::Neg, (a % b) as u128),
            ));
        }
        if self.is_zero() {
            /*@ proof { let y = iv(*other); assert(0 * y == 0) by (nonlinear_arith); } @*/
            return Some((Self::zero(), Self::zero()));
        }
        let (qm, rm) = mag_divrem(self.mag.limbs(), other.mag.limbs());
        /*@ proof { let q = val(qm@) as int; let y = mval(other.mag) as int;
              assert((-q) * y == -(q * y) && q * (-y) == -(q * y) && (-q) * (-y) == q * y) by (nonlinear_arith); } @*/
        let q = Self::from_sign_mag(q_neg, qm);
        let r = Self::from_sign_mag(self.sign == Sign::Neg, rm);
        Some((q, r))
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl BigInt :: fn pow
    fn pow(&self, mut exp: u32) -> /*@ (r: @*/ BigInt /*@ )
      requires wf(*self), ensures wf(r), iv(r) == ipow(iv(*self), exp as nat), @*/
    {
        /*@ let ghost e0 = exp as nat; @*/
        let mut result = BigInt::from_u64(1);
        let mut base = self.clone();
        /*@ proof { let z = ipow(iv(base), exp as nat); assert(1 * z == z) by (nonlinear_arith); } @*/
        while exp > 0
        /*@ invariant wf(result), wf(base), iv(result) * ipow(iv(base), exp as nat) == ipow(iv(*self), e0),
            decreases exp, @*/
        {
            /*@ let ghost b0 = iv(base); let ghost r0 = iv(result); let ghost x0 = exp;
               proof {
                 assert((exp & 1 == 1) == (exp % 2 == 1)) by (bit_vector);
                 assert(exp >> 1 == exp / 2) by (bit_vector);
                 lem_pow_step(b0, exp as nat);
                 let t = ipow(b0 * b0, (exp / 2) as nat);
                 assert(r0 * (b0 * t) == (r0 * b0) * t) by (nonlinear_arith);
                 if exp / 2 == 0 { assert(ipow(b0, 0) == 1); assert(ipow(b0 * b0, 0) == 1); }
               } @*/
            if exp & 1 == 1 {
                result = result.mul(&base);
            }
            exp >>= 1;
            if exp > 0 {
                base = base.mul(&base);
            }
        }
        /*@ proof { let z = iv(result); assert(z * 1 == z) by (nonlinear_arith); } @*/
        result
    }
//#FN crates/logicaffeine_base/src/numeric.rs :: impl Ord for BigInt :: fn cmp | ren_cmp, rank_closure
    fn bigint_cmp(&self, other: &Self) -> /*@ (r: @*/ Ordering /*@ )
      requires wf(*self), wf(*other),
      ensures (r == Ordering::Less) == (iv(*self) < iv(*other)), (r == Ordering::Equal) == (iv(*self) == iv(*other)), (r == Ordering::Greater) == (iv(*self) > iv(*other)), @*/
    {
        /*@ proof { lem_mag_norm(self.mag); lem_mag_norm(other.mag); } @*/
        let rank = |s: Sign| /*@ -> (o: i8) ensures o == (match s { Sign::Neg => -1i8, Sign::Zero => 0i8, Sign::Pos => 1i8 }) { @*/ match s {
            Sign::Neg => -1i8,
            Sign::Zero => 0,
            Sign::Pos => 1,
        } /*@ } @*/ ;
        match rank(self.sign).cmp(&rank(other.sign)) {
            Ordering::Equal => match self.sign {
                Sign::Zero => Ordering::Equal,
                Sign::Pos => mag_cmp(self.mag.limbs(), other.mag.limbs()),
                Sign::Neg => mag_cmp(other.mag.limbs(), self.mag.limbs()),
            },
            other => other,
        }
    }
//#RAW
}
#[verifier::external_body]
proof fn ax_limbs(m: Mag)
    ensures lims(m).len() < 0x2000_0000_0000
{}
spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
proof fn lem_pow_sq(b: int, k: nat)
    ensures ipow(b, 2 * k) == ipow(b * b, k)
    decreases k
{
    if k > 0 {
        lem_pow_sq(b, (k - 1) as nat);
        assert(ipow(b, 2 * k) == b * ipow(b, (2 * k - 1) as nat));
        assert(ipow(b, (2 * k - 1) as nat) == b * ipow(b, (2 * (k - 1)) as nat));
        let z = ipow(b, (2 * (k - 1)) as nat);
        assert(b * (b * z) == (b * b) * z) by (nonlinear_arith);
    }
}
proof fn lem_pow_step(b: int, e: nat)
    ensures e > 0 ==> ipow(b, e) == (if e % 2 == 1 { b * ipow(b * b, e / 2) } else { ipow(b * b, e / 2) })
{
    if e > 0 { lem_pow_sq(b, e / 2); if e % 2 == 1 { assert((e - 1) as nat == 2 * (e / 2)); } else { assert(e == 2 * (e / 2)); } }
}
spec fn divides(d: int, x: int) -> bool { exists|k: int| #[trigger] (k * d) == x }
//#FN crates/logicaffeine_base/src/numeric.rs :: fn bigint_gcd | expect_gcd
fn bigint_gcd(a: &BigInt, b: &BigInt) -> /*@ (g: @*/ BigInt /*@ )
    requires wf(*a), wf(*b),
    ensures wf(g), iv(g) >= 0, divides(iv(g), iv(*a)), divides(iv(g), iv(*b)),
      forall|d: int| divides(d, iv(*a)) && divides(d, iv(*b)) ==> #[trigger] divides(d, iv(g)),
      (iv(g) == 0) == (iv(*a) == 0 && iv(*b) == 0), @*/
{
    /*@ let ghost a0 = iv(*a); let ghost b0 = iv(*b); @*/
    let mut a = a.abs();
    let mut b = b.abs();
    /*@ proof { assert forall|d: int| #[trigger] divides(d, a0) == divides(d, iv(a)) by { lem_div_neg(d, a0); if iv(a) != a0 { lem_div_neg(d, iv(a)); } };
              assert forall|d: int| #[trigger] divides(d, b0) == divides(d, iv(b)) by { lem_div_neg(d, b0); if iv(b) != b0 { lem_div_neg(d, iv(b)); } }; } @*/
    while !b.is_zero()
    /*@ invariant wf(a), wf(b), iv(a) >= 0, iv(b) >= 0, (iv(a) == 0 && iv(b) == 0) == (a0 == 0 && b0 == 0),
          forall|d: int| #![trigger divides(d, a0)] #![trigger divides(d, iv(a))] (divides(d, a0) && divides(d, b0)) == (divides(d, iv(a)) && divides(d, iv(b))),
        decreases iv(b), @*/
    {
        /*@ let ghost a1 = iv(a); let ghost b1 = iv(b); @*/
        let (_q, r) = a.div_rem(&b).unwrap();
        /*@ proof { 
            assert forall|d: int| (divides(d, a1) && divides(d, b1)) == (#[trigger] divides(d, b1) && divides(d, iv(r))) by { lem_div_lin(d, a1, b1, iv(_q), iv(r)); };
            if b1 == 0 {} else if iv(r) == 0 && b1 == 0 {} } @*/
        a = b;
        b = r;
    }
    /*@ proof {
       let g = iv(a);
       assert(1 * g == g && 0 * g == 0) by (nonlinear_arith);
       assert(divides(g, g)); assert(divides(g, 0));
       assert forall|d: int| #[trigger] divides(d, 0) by { assert(0 * d == 0) by (nonlinear_arith); };
       assert(divides(g, a0) && divides(g, b0)) by { assert(divides(g, iv(a)) && divides(g, iv(b))); };
       assert forall|d: int| divides(d, a0) && divides(d, b0) implies #[trigger] divides(d, g) by { };
    } @*/
    a
}
//#RAW
proof fn lem_div_neg(d: int, x: int)
    ensures divides(d, x) ==> divides(d, -x)
{
    if divides(d, x) { let k = choose|k: int| #[trigger] (k * d) == x; assert((-k) * d == -x) by (nonlinear_arith) requires k * d == x; }
}
proof fn lem_div_lin(d: int, a: int, b: int, q: int, r: int)
    requires a == q * b + r
    ensures (divides(d, a) && divides(d, b)) == (divides(d, b) && divides(d, r))
{
    if divides(d, b) {
        let kb = choose|k: int| #[trigger] (k * d) == b;
        if divides(d, a) { let ka = choose|k: int| #[trigger] (k * d) == a;
            assert((ka - q * kb) * d == r) by (nonlinear_arith) requires ka * d == a, kb * d == b, a == q * b + r; }
        if divides(d, r) { let kr = choose|k: int| #[trigger] (k * d) == r;
            assert((q * kb + kr) * d == a) by (nonlinear_arith) requires kr * d == r, kb * d == b, a == q * b + r; }
    }
}
fn main() {}
}
