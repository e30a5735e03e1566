//#RAW
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// std: rounding-up division (trusted specification)
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r as int == (a + b - 1) / (b as int);
//#ITEM crates/logicaffeine_proof/src/xorsat.rs :: struct XorEquation
//#RAW
type Model = spec_fn(int) -> bool;
// the XOR of the values of the first k variables of the list (indices outside the system count as false)
spec fn parity(m: Model, vars: Seq<usize>, nv: int, k: int) -> bool
    decreases k
{ if k <= 0 { false } else { parity(m, vars, nv, k - 1) != (vars[k - 1] < nv && m(vars[k - 1] as int)) } }
spec fn holds(m: Model, e: XorEquation, nv: int) -> bool { parity(m, e.vars@, nv, e.vars@.len() as int) == e.rhs }
spec fn holds_all(m: Model, es: Seq<XorEquation>, nv: int) -> bool { forall|i: int| 0 <= i < es.len() ==> holds(m, #[trigger] es[i], nv) }
spec fn bit(s: Seq<u64>, i: int) -> bool { (s[i / 64] >> ((i % 64) as u64)) & 1 == 1 }
// the XOR of the values of the variables below k whose bit is set
spec fn dot(m: Model, s: Seq<u64>, k: int) -> bool
    decreases k
{ if k <= 0 { false } else { dot(m, s, k - 1) != (bit(s, k - 1) && m(k - 1)) } }
proof fn lem_dot_flip(m: Model, s: Seq<u64>, t: Seq<u64>, v: int, k: int)
    requires 0 <= v, 0 <= k, forall|j: int| 0 <= j < k ==> #[trigger] bit(t, j) == (bit(s, j) != (j == v))
    ensures dot(m, t, k) == (dot(m, s, k) != (v < k && m(v)))
    decreases k
{ if k > 0 { lem_dot_flip(m, s, t, v, k - 1); assert(bit(t, k - 1) == (bit(s, k - 1) != (k - 1 == v))); } }
proof fn lem_dot_zero(m: Model, s: Seq<u64>, k: int)
    requires k <= 64 * s.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == 0
    ensures !dot(m, s, k)
    decreases k
{
    if k > 0 {
        lem_dot_zero(m, s, k - 1);
        let b = ((k - 1) % 64) as u64;
        assert((0u64 >> b) & 1 == 0) by (bit_vector) requires b < 64;
        assert(s[(k - 1) / 64] == 0);
    }
}
//#FN crates/logicaffeine_proof/src/xorsat.rs :: fn get
fn get(bits: &[u64], i: usize) -> /*@ (r: @*/ bool /*@ )
    requires i < 64 * bits@.len()
    ensures r == bit(bits@, i as int) @*/ {
    (bits[i / 64] >> (i % 64)) & 1 == 1
}
//#FN crates/logicaffeine_proof/src/xorsat.rs :: fn flip
fn flip(bits: &mut [u64], i: usize)
    /*@ requires i < 64 * old(bits)@.len()
    ensures
        final(bits)@.len() == old(bits)@.len(),
        forall|j: int| 0 <= j < 64 * old(bits)@.len() ==> #[trigger] bit(final(bits)@, j) == (bit(old(bits)@, j) != (j == i)), @*/ {
    /*@ let ghost s0 = bits@; @*/
    bits[i / 64] ^= 1u64 << (i % 64);
    /*@ proof {
        let k = (i % 64) as u64; let w = s0[i as int / 64];
        assert forall|j: int| 0 <= j < 64 * s0.len() implies #[trigger] bit(bits@, j) == (bit(s0, j) != (j == i)) by {
            let b = (j % 64) as u64;
            assert((((w ^ (1u64 << k)) >> b) & 1 == 1) == (((w >> b) & 1 == 1) != (b == k))) by (bit_vector) requires b < 64, k < 64;
        }
    } @*/
}
//#FN crates/logicaffeine_proof/src/xorsat.rs :: fn is_zero | iterloop
fn is_zero(bits: &[u64]) -> /*@ (r: @*/ bool /*@ )
    ensures r == forall|i: int| 0 <= i < bits@.len() ==> bits@[i] == 0 @*/ {
    { let mut w__all = true ; let mut w__k : usize = 0 ; while w__k < bits . len ( )
        /*@ invariant_except_break w__all, w__k <= bits@.len(), forall|i: int| 0 <= i < w__k ==> bits@[i] == 0,
        ensures w__all == forall|i: int| 0 <= i < bits@.len() ==> bits@[i] == 0,
        decreases bits@.len() - w__k @*/
    { let w = bits [ w__k ] ; w__k += 1 ; if ! ( w == 0 ) { /*@ assert(bits@[w__k - 1] != 0); @*/ w__all = false ; break ; } } w__all }
}
//#FN crates/logicaffeine_proof/src/xorsat.rs :: fn is_refutation | forwhile
fn is_refutation(equations: &[XorEquation], num_vars: usize, refutation: &[usize]) -> /*@ (r: @*/ bool /*@ )
    ensures r ==> forall|m: Model| !holds_all(m, equations@, num_vars as int) @*/ {
    if refutation.is_empty() {
        return false;
    }
    let nb = num_vars.div_ceil(64).max(1);
    let mut lhs = vec![0u64; nb];
    let mut rhs = false;
    /*@ proof { assert forall|m: Model| !dot(m, lhs@, num_vars as int) by { lem_dot_zero(m, lhs@, num_vars as int); } } @*/
    let mut idx__r__i : usize = 0 ; while idx__r__i < refutation . len ( )
        /*@ invariant
            idx__r__i <= refutation@.len(), num_vars <= 64 * lhs@.len(),
            forall|m: Model| holds_all(m, equations@, num_vars as int) ==> dot(m, lhs@, num_vars as int) == rhs,
        decreases refutation@.len() - idx__r__i @*/
    { let idx__r = & refutation [ idx__r__i ] ; idx__r__i += 1 ; let idx = * idx__r ;
        let Some(eq) = equations.get(idx) else {
            return false;
        };
        /*@ let ghost l0 = lhs@; @*/
        let mut v__r__i : usize = 0 ; while v__r__i < eq . vars . len ( )
            /*@ invariant
                v__r__i <= eq.vars@.len(), num_vars <= 64 * lhs@.len(),
                forall|m: Model| #[trigger] dot(m, lhs@, num_vars as int) == (dot(m, l0, num_vars as int) != parity(m, eq.vars@, num_vars as int, v__r__i as int)),
            decreases eq.vars@.len() - v__r__i @*/
        { let v__r = & eq . vars [ v__r__i ] ; v__r__i += 1 ; let v = * v__r ;
            /*@ let ghost l1 = lhs@; @*/
            if v < num_vars {
                flip(&mut lhs, v);
            }
            /*@ proof { assert forall|m: Model| #[trigger] dot(m, lhs@, num_vars as int) == (dot(m, l0, num_vars as int) != parity(m, eq.vars@, num_vars as int, v__r__i as int)) by {
                assert(dot(m, l1, num_vars as int) == (dot(m, l0, num_vars as int) != parity(m, eq.vars@, num_vars as int, v__r__i - 1)));
                if v < num_vars { lem_dot_flip(m, l1, lhs@, v as int, num_vars as int); }
            } } @*/
        }
        rhs ^= eq.rhs;
        /*@ proof { assert forall|m: Model| holds_all(m, equations@, num_vars as int) implies dot(m, lhs@, num_vars as int) == rhs by { assert(holds(m, equations@[idx as int], num_vars as int)); } } @*/
    }
    /*@ proof { assert forall|m: Model| (forall|i: int| 0 <= i < lhs@.len() ==> lhs@[i] == 0) implies !dot(m, lhs@, num_vars as int) by { lem_dot_zero(m, lhs@, num_vars as int); } } @*/
    is_zero(&lhs) && rhs
}
//#RAW
fn main() {}
}
