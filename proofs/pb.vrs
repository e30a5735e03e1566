//#SUBST amul: assert!(c > 0, "multiply by a positive integer"); =>> must(c > 0);
//#SUBST adiv: assert!(d > 0, "divide by a positive integer"); =>> must(d > 0);
//#SUBST b2i: i64::from(x.rem_euclid(d) != 0) =>> b2i(x.rem_euclid(d) != 0)
//#SUBST clonem: self.terms.clone() =>> copy_map(&self.terms)
//#SUBST getc: terms.get(&v).copied() =>> get_copy(&terms, v)
//#SUBST termc: self.terms.get(&v).copied() =>> get_copy(&self.terms, v)
//#SUBST atidx: self.terms[&v].1 =>> get_copy(&self.terms, v).unwrap().1
//#SUBST mincc: c1.min(c2) =>> min_i64(c1, c2)
//#SUBST cmpcc: c1.cmp(&c2) =>> cmp_i64(c1, c2)
//#SUBST minmax: c.min(d.max(0)) =>> min_i64(c, max_i64(d, 0))
//#RAW
use vstd::prelude::*;
use std::collections::BTreeMap;
use std::cmp::Ordering;
use vstd::std_specs::iter::*;
verus! {
global size_of usize == 8;
broadcast use vstd::std_specs::btree::group_btree_axioms;
pub assume_specification [i64::div_euclid] (a: i64, b: i64) -> (r: i64) requires b > 0 ensures r as int == a as int / b as int;
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (r: i64) requires b > 0 ensures r as int == a as int % b as int;
//#ITEM crates/logicaffeine_proof/src/pseudo_boolean.rs :: struct PbConstraint
//#RAW
type Terms = Map<usize, (i64, bool)>;
type Asg = spec_fn(usize) -> bool;
spec const N: int = 0x1_0000_0000_0000_0000;
spec fn con(t: (i64, bool), x: bool) -> int { if x == t.1 { t.0 as int } else { 0 } }
spec fn conm(m: Terms, k: usize, a: Asg) -> int { if m.dom().contains(k) { con(m[k], a(k)) } else { 0 } }
// the left-hand side under an assignment: the sum over all variables below n
spec fn lhs(m: Terms, a: Asg, n: int) -> int decreases n { if n <= 0 { 0 } else { lhs(m, a, n - 1) + conm(m, (n - 1) as usize, a) } }
spec fn mag(m: Terms, k: usize) -> int { if m.dom().contains(k) { if m[k].0 < 0 { -(m[k].0 as int) } else { m[k].0 as int } } else { 0 } }
spec fn tot(m: Terms, n: int) -> int decreases n { if n <= 0 { 0 } else { tot(m, n - 1) + mag(m, (n - 1) as usize) } }
spec fn sat(c: PbConstraint, a: Asg) -> bool { lhs(c.terms@, a, N) >= c.degree }
spec fn slack(c: PbConstraint, a: Asg) -> int { lhs(c.terms@, a, N) - c.degree }
// normal form: coefficients are not negative
spec fn wf(c: PbConstraint) -> bool { forall|k: usize| c.terms@.dom().contains(k) ==> (#[trigger] c.terms@[k]).0 >= 0 }
// the first n entries of a list, as a map
spec fn part(e: Seq<(usize, (i64, bool))>, n: int) -> Terms decreases n { if n <= 0 { Map::empty() } else { part(e, n - 1).insert(e[n - 1].0, e[n - 1].1) } }
spec fn distinct(e: Seq<(usize, (i64, bool))>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0 }
proof fn lem_ins(m: Terms, k: usize, t: (i64, bool), a: Asg, n: int)
    requires 0 <= n <= N
    ensures lhs(m.insert(k, t), a, n) == lhs(m, a, n) + (if k < n { con(t, a(k)) - conm(m, k, a) } else { 0 })
    decreases n
{ if n > 0 { lem_ins(m, k, t, a, n - 1); } }
proof fn lem_rem(m: Terms, k: usize, a: Asg, n: int)
    requires 0 <= n <= N
    ensures lhs(m.remove(k), a, n) == lhs(m, a, n) - (if k < n { conm(m, k, a) } else { 0 })
    decreases n
{ if n > 0 { lem_rem(m, k, a, n - 1); } }
proof fn lem_tot_ins(m: Terms, k: usize, t: (i64, bool), n: int)
    requires 0 <= n <= N
    ensures tot(m.insert(k, t), n) == tot(m, n) + (if k < n { (if t.0 < 0 { -(t.0 as int) } else { t.0 as int }) - mag(m, k) } else { 0 })
    decreases n
{ if n > 0 { lem_tot_ins(m, k, t, n - 1); } }
proof fn lem_tot_ge(m: Terms, k: usize, n: int)
    requires 0 <= n <= N
    ensures tot(m, n) >= (if k < n { mag(m, k) } else { 0 }), tot(m, n) >= 0
    decreases n
{ if n > 0 { lem_tot_ge(m, k, n - 1); } }
proof fn lem_empty(a: Asg, n: int) ensures lhs(Map::empty(), a, n) == 0, tot(Map::empty(), n) == 0 decreases n { if n > 0 { lem_empty(a, n - 1); } }
proof fn lem_lhs_tot(m: Terms, a: Asg, n: int) ensures -tot(m, n) <= lhs(m, a, n) <= tot(m, n) decreases n { if n > 0 { lem_lhs_tot(m, a, n - 1); } }
proof fn lem_part_dom(e: Seq<(usize, (i64, bool))>, n: int, k: usize)
    requires 0 <= n <= e.len(), distinct(e)
    ensures
        part(e, n).dom().contains(k) <==> exists|i: int| 0 <= i < n && (#[trigger] e[i]).0 == k,
        forall|i: int| 0 <= i < n ==> part(e, n).dom().contains((#[trigger] e[i]).0) && part(e, n)[e[i].0] == e[i].1,
    decreases n
{
    if n > 0 {
        lem_part_dom(e, n - 1, k);
        assert forall|i: int| 0 <= i < n implies part(e, n).dom().contains((#[trigger] e[i]).0) && part(e, n)[e[i].0] == e[i].1 by { if i < n - 1 { lem_part_dom(e, n - 1, e[i].0); assert(e[i].0 != e[n - 1].0); } }
        if part(e, n).dom().contains(k) { if k == e[n - 1].0 { assert(e[n - 1].0 == k); } }
        if exists|i: int| 0 <= i < n && (#[trigger] e[i]).0 == k { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0 == k; assert(part(e, n).dom().contains(e[i].0)); }
    }
}
// std: a map's copy (trusted specification)
#[verifier::external_body]
fn copy_map(m: &BTreeMap<usize, (i64, bool)>) -> (r: BTreeMap<usize, (i64, bool)>) ensures r@ == m@ { m.clone() }
fn must(b: bool) requires b {}
fn b2i(b: bool) -> (r: i64) ensures r == (if b { 1i64 } else { 0i64 }) { if b { 1 } else { 0 } }
fn min_i64(a: i64, b: i64) -> (r: i64) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
fn max_i64(a: i64, b: i64) -> (r: i64) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
fn cmp_i64(a: i64, b: i64) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
fn get_copy(m: &BTreeMap<usize, (i64, bool)>, k: usize) -> (r: Option<(i64, bool)>)
    ensures r == (if m@.dom().contains(k) { Some(m@[k]) } else { None })
{ match m.get(&k) { Some(x) => Some(*x), None => None } }
fn entries(m: &BTreeMap<usize, (i64, bool)>) -> (r: Vec<(usize, (i64, bool))>)
    ensures distinct(r@), part(r@, r@.len() as int) == m@,
{
    let mut v: Vec<(usize, (i64, bool))> = Vec::new();
    let it0 = m.iter();
    let ghost s = IteratorSpec::remaining(&it0);
    assert(forall|k: usize| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k);
    for (a, b) in it: it0
        invariant v@.len() == it.index@, s == it.seq(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 == *s[i].0 && v@[i].1 == *s[i].1,
    { v.push((*a, *b)); }
    proof {
        assert(v@.len() == s.len());
        assert forall|i: int, j: int| 0 <= i < j < v@.len() implies (#[trigger] v@[i]).0 != (#[trigger] v@[j]).0 by { assert(m@[*s[i].0] == *s[i].1); assert(m@[*s[j].0] == *s[j].1); if *s[i].0 == *s[j].0 { assert(s[i] == s[j]); assert(s.no_duplicates()); assert(false); } }
        let p = part(v@, v@.len() as int);
        assert forall|k: usize| p.dom().contains(k) <==> m@.dom().contains(k) by {
            lem_part_dom(v@, v@.len() as int, k);
            if m@.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(v@[i].0 == k); }
            if p.dom().contains(k) { let i = choose|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0 == k; assert(*s[i].0 == k); }
        }
        assert forall|k: usize| p.dom().contains(k) implies p[k] == m@[k] by {
            lem_part_dom(v@, v@.len() as int, k);
            let i = choose|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0 == k; assert(*s[i].0 == k); assert(p[v@[i].0] == v@[i].1);
        }
        assert(p =~= m@);
    }
    v
}
// the number of true literals among the first n
spec fn cnt(l: Seq<(usize, bool)>, a: Asg, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(l, a, n - 1) + (if a(l[n - 1].0) == l[n - 1].1 { 1int } else { 0 }) } }
spec fn dvars(l: Seq<(usize, bool)>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0 }
proof fn lem_cnt_neg(l: Seq<(usize, bool)>, g: Seq<(usize, bool)>, a: Asg, n: int)
    requires 0 <= n <= l.len(), g.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] g[i]).0 == l[i].0 && g[i].1 == !l[i].1
    ensures cnt(g, a, n) == n - cnt(l, a, n)
    decreases n
{ if n > 0 { lem_cnt_neg(l, g, a, n - 1); } }
// the weighted sum of the first n terms
spec fn wsum(l: Seq<(usize, i64, bool)>, a: Asg, n: int) -> int decreases n { if n <= 0 { 0 } else { wsum(l, a, n - 1) + (if a(l[n - 1].0) == l[n - 1].2 { l[n - 1].1 as int } else { 0 }) } }
spec fn wvars(l: Seq<(usize, i64, bool)>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0 }
impl PbConstraint {
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn at_least | slmap
fn at_least(lits: &[(usize, bool)], k: i64) -> /*@ (r: @*/ PbConstraint /*@ )
    requires dvars(lits@)
    ensures wf(r), r.degree == k, forall|a: Asg| #[trigger] lhs(r.terms@, a, N) == cnt(lits@, a, lits@.len() as int), tot(r.terms@, N) == lits@.len() @*/ {
    let terms = { let it__e = lits ; let mut it__i : usize = 0 ; let mut it__r /*@ : BTreeMap<usize, (i64, bool)> @*/ = BTreeMap :: new ( ) ;
        /*@ proof { assert forall|a: Asg| #[trigger] lhs(it__r@, a, N) == 0 by { assert(it__r@ =~= Map::empty()); lem_empty(a, N); } assert(it__r@ =~= Map::empty()); lem_empty(|x: usize| true, N); } @*/
        while it__i < it__e . len ( )
        /*@ invariant it__i <= lits@.len(), it__e@ == lits@, dvars(lits@),
            forall|x: usize| it__r@.dom().contains(x) ==> exists|j: int| 0 <= j < it__i && (#[trigger] lits@[j]).0 == x,
            forall|x: usize| it__r@.dom().contains(x) ==> (#[trigger] it__r@[x]).0 == 1,
            tot(it__r@, N) == it__i,
            forall|a: Asg| #[trigger] lhs(it__r@, a, N) == cnt(lits@, a, it__i as int),
        decreases lits@.len() - it__i @*/
        { let ( v , s ) = it__e [ it__i ] ; it__i += 1 ; /*@ let ghost m0 = it__r@; @*/
          let it__x = ( (v, (1, s)) ) ; it__r . insert ( it__x . 0 , it__x . 1 ) ;
          /*@ proof {
              assert(it__r@ == m0.insert(v, (1i64, s)));
              if m0.dom().contains(v) { let j = choose|j: int| 0 <= j < it__i - 1 && (#[trigger] lits@[j]).0 == v; assert(lits@[it__i - 1].0 == v); }
              assert(lits@[it__i - 1].0 == v);
              lem_tot_ins(m0, v, (1i64, s), N);
              assert forall|a: Asg| #[trigger] lhs(it__r@, a, N) == cnt(lits@, a, it__i as int) by { lem_ins(m0, v, (1i64, s), a, N); assert(lhs(m0, a, N) == cnt(lits@, a, it__i - 1)); }
              assert forall|x: usize| it__r@.dom().contains(x) implies exists|j: int| 0 <= j < it__i && (#[trigger] lits@[j]).0 == x by { if x == v { assert(lits@[it__i - 1].0 == x); } else { let j = choose|j: int| 0 <= j < it__i - 1 && (#[trigger] lits@[j]).0 == x; assert(lits@[j].0 == x); } }
          } @*/
        } it__r };
    PbConstraint { terms, degree: k }
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn clause
fn clause(lits: &[(usize, bool)]) -> /*@ (r: @*/ PbConstraint /*@ )
    requires dvars(lits@)
    ensures wf(r), forall|a: Asg| #[trigger] sat(r, a) <==> cnt(lits@, a, lits@.len() as int) >= 1 @*/ {
    Self::at_least(lits, 1)
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn at_most | slvec
fn at_most(lits: &[(usize, bool)], k: i64) -> /*@ (r: @*/ PbConstraint /*@ )
    requires dvars(lits@), lits@.len() <= 0x3fff_ffff_ffff_ffff, -0x4000_0000_0000_0000 <= k
    ensures wf(r), forall|a: Asg| #[trigger] sat(r, a) <==> cnt(lits@, a, lits@.len() as int) <= k @*/ {
    let negated: Vec<(usize, bool)> = { let it__e = lits ; let mut it__i : usize = 0 ; let mut it__r /*@ : Vec<(usize, bool)> @*/ = Vec :: new ( ) ; while it__i < it__e . len ( )
        /*@ invariant it__i <= lits@.len(), it__e@ == lits@, it__r@.len() == it__i, forall|j: int| 0 <= j < it__i ==> (#[trigger] it__r@[j]).0 == lits@[j].0 && it__r@[j].1 == !lits@[j].1
        decreases lits@.len() - it__i @*/
        { let ( v , s ) = it__e [ it__i ] ; it__i += 1 ; it__r . push ( (v, !s) ) ; } it__r };
    /*@ proof {
        assert forall|i: int, j: int| 0 <= i < j < negated@.len() implies (#[trigger] negated@[i]).0 != (#[trigger] negated@[j]).0 by { assert(lits@[i].0 != lits@[j].0); }
        assert forall|a: Asg| #[trigger] cnt(negated@, a, negated@.len() as int) == lits@.len() - cnt(lits@, a, lits@.len() as int) by { lem_cnt_neg(lits@, negated@, a, lits@.len() as int); }
    } @*/
    Self::at_least(&negated, lits.len() as i64 - k)
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn degree
fn degree(&self) -> /*@ (r: @*/ i64 /*@ ) ensures r == self.degree @*/ {
    self.degree
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn add | forentries, clonem, getc, atidx, mincc, cmpcc
fn add(&self, other: &PbConstraint) -> /*@ (r: @*/ PbConstraint /*@ )
    requires
        tot(self.terms@, N) + tot(other.terms@, N) <= 0x3fff_ffff_ffff_ffff,
        -0x3fff_ffff_ffff_ffff <= self.degree + other.degree <= 0x3fff_ffff_ffff_ffff,
    ensures
        // the slack of the result is the sum of the slacks, under every assignment
        forall|a: Asg| #[trigger] slack(r, a) == slack(*self, a) + slack(*other, a),
        forall|a: Asg| sat(*self, a) && sat(*other, a) ==> #[trigger] sat(r, a),
        wf(*self) && wf(*other) ==> wf(r), @*/ {
    let mut terms = copy_map(&self.terms);
    let mut degree = self.degree + other.degree;
    /*@ let ghost d0 = degree as int; let ghost mut moved: int = 0; @*/
    let v__e = entries ( & other . terms ) ; let mut v__i : usize = 0 ;
    /*@ proof { assert(part(v__e@, 0) =~= Map::empty()); assert forall|a: Asg| #[trigger] lhs(part(v__e@, 0), a, N) == 0 by { lem_empty(a, N); } lem_empty(|x: usize| true, N); lem_tot_ge(other.terms@, 0, N); lem_tot_ge(self.terms@, 0, N); assert(self.terms@.restrict(part(v__e@, 0).dom()) =~= Map::empty()); } @*/
    while v__i < v__e . len ( )
        /*@ invariant
            v__i <= v__e@.len(), distinct(v__e@), part(v__e@, v__e@.len() as int) == other.terms@,
            tot(self.terms@, N) + tot(other.terms@, N) <= 0x3fff_ffff_ffff_ffff, tot(other.terms@, N) >= 0, tot(self.terms@, N) >= 0,
            -0x3fff_ffff_ffff_ffff <= d0 <= 0x3fff_ffff_ffff_ffff, degree == d0 - moved,
            moved <= tot(part(v__e@, v__i as int), N) + tot(self.terms@.restrict(part(v__e@, v__i as int).dom()), N),
            -moved <= tot(part(v__e@, v__i as int), N) + tot(self.terms@.restrict(part(v__e@, v__i as int).dom()), N),
            tot(part(v__e@, v__i as int), N) <= tot(other.terms@, N),
            tot(terms@, N) <= tot(self.terms@, N) + tot(part(v__e@, v__i as int), N),
            forall|k: usize| !part(v__e@, v__i as int).dom().contains(k) ==> (#[trigger] terms@.dom().contains(k) <==> self.terms@.dom().contains(k)),
            forall|k: usize| !part(v__e@, v__i as int).dom().contains(k) && terms@.dom().contains(k) ==> #[trigger] terms@[k] == self.terms@[k],
            forall|a: Asg| #[trigger] lhs(terms@, a, N) - degree == lhs(self.terms@, a, N) + lhs(part(v__e@, v__i as int), a, N) - d0,
            wf(*self) && wf(*other) ==> forall|k: usize| terms@.dom().contains(k) ==> (#[trigger] terms@[k]).0 >= 0,
        decreases v__e@.len() - v__i @*/
    { let ( v , ( c2 , s2 ) ) = v__e [ v__i ] ; v__i += 1 ;
        /*@ let ghost t0 = terms@; let ghost g0 = degree as int; let ghost p0 = part(v__e@, v__i - 1); let ghost p1 = part(v__e@, v__i as int);
        proof {
            assert(p1 == p0.insert(v, (c2, s2)));
            lem_part_dom(v__e@, v__i - 1, v); lem_part_dom(v__e@, v__e@.len() as int, v);
            if p0.dom().contains(v) { let j = choose|j: int| 0 <= j < v__i - 1 && (#[trigger] v__e@[j]).0 == v; assert(v__e@[v__i - 1].0 == v); }
            assert(!p0.dom().contains(v));
            assert(v__e@[v__i - 1].0 == v);
            assert(other.terms@.dom().contains(v) && other.terms@[v] == (c2, s2));
            lem_tot_ins(p0, v, (c2, s2), N);
            lem_part_tot(v__e@, v__i as int, v__e@.len() as int);
            lem_tot_ge(t0, v, N); lem_tot_ge(other.terms@, v, N);
            assert(t0.dom().contains(v) ==> t0[v] == self.terms@[v]);
            let r0 = self.terms@.restrict(p0.dom()); let r1 = self.terms@.restrict(p1.dom());
            if self.terms@.dom().contains(v) { assert(r1 =~= r0.insert(v, self.terms@[v])); lem_tot_ins(r0, v, self.terms@[v], N); } else { assert(r1 =~= r0); }
            lem_restrict(self.terms@, p1.dom(), N); lem_tot_ge(p0, v, N); lem_tot_ge(r0, v, N);
        } @*/
        match get_copy(&terms, v) {
            None => {
                terms.insert(v, (c2, s2));
                /*@ proof { lem_tot_ins(t0, v, (c2, s2), N); } @*/
            }
            Some((c1, s1)) if s1 == s2 => {
                terms.insert(v, (c1 + c2, s1));
                /*@ proof { lem_tot_ins(t0, v, ((c1 + c2) as i64, s1), N); } @*/
            }
            Some((c1, _s1_opposite)) => {
                let cancel = min_i64(c1, c2);
                /*@ proof { lem_tot_part_bounds(self.terms@, other.terms@, t0, v, c1, c2); } @*/
                degree -= cancel;
                /*@ proof { moved = moved + cancel; } @*/
                match cmp_i64(c1, c2) {
                    Ordering::Equal => {
                        terms.remove(&v);
                        /*@ proof { lem_tot_rem(t0, v, N); } @*/
                    }
                    Ordering::Greater => {
                        terms.insert(v, (c1 - c2, get_copy(&self.terms, v).unwrap().1));
                        /*@ proof { lem_tot_ins(t0, v, ((c1 - c2) as i64, _s1_opposite), N); } @*/
                    }
                    Ordering::Less => {
                        terms.insert(v, (c2 - c1, s2));
                        /*@ proof { lem_tot_ins(t0, v, ((c2 - c1) as i64, s2), N); } @*/
                    }
                }
            }
        }
        /*@ proof {
            assert forall|a: Asg| #[trigger] lhs(terms@, a, N) - degree == lhs(self.terms@, a, N) + lhs(p1, a, N) - d0 by {
                assert(lhs(t0, a, N) - g0 == lhs(self.terms@, a, N) + lhs(p0, a, N) - d0);
                lem_ins(p0, v, (c2, s2), a, N);
                if terms@.dom().contains(v) { lem_ins(t0, v, terms@[v], a, N); assert(terms@ =~= t0.insert(v, terms@[v])); }
                else { lem_rem(t0, v, a, N); assert(terms@ =~= t0.remove(v)); }
            }
        } @*/
    }
    PbConstraint { terms, degree }
}
//#RAW
}
proof fn lem_tot_rem(m: Terms, k: usize, n: int)
    requires 0 <= n <= N
    ensures tot(m.remove(k), n) == tot(m, n) - (if k < n { mag(m, k) } else { 0 })
    decreases n
{ if n > 0 { lem_tot_rem(m, k, n - 1); } }
proof fn lem_part_tot(e: Seq<(usize, (i64, bool))>, i: int, n: int)
    requires distinct(e), 0 <= i <= n <= e.len()
    ensures tot(part(e, i), N) <= tot(part(e, n), N)
    decreases n
{
    if i < n {
        lem_part_tot(e, i, n - 1); lem_part_dom(e, n - 1, e[n - 1].0);
        if part(e, n - 1).dom().contains(e[n - 1].0) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] e[j]).0 == e[n - 1].0; assert(e[j].0 != e[n - 1].0); }
        lem_tot_ins(part(e, n - 1), e[n - 1].0, e[n - 1].1, N);
    }
}
proof fn lem_restrict(m: Terms, d: Set<usize>, n: int)
    ensures tot(m.restrict(d), n) <= tot(m, n)
    decreases n
{ if n > 0 { lem_restrict(m, d, n - 1); } }
proof fn lem_tot_part_bounds(s: Terms, o: Terms, t: Terms, v: usize, c1: i64, c2: i64)
    requires t.dom().contains(v), t[v].0 == c1, o.dom().contains(v), o[v].0 == c2
    ensures mag(t, v) <= tot(t, N), mag(o, v) <= tot(o, N)
{ lem_tot_ge(t, v, N); lem_tot_ge(o, v, N); }
// lifting a fact about each coefficient to the sum
proof fn lem_scale(m: Terms, r: Terms, c: int, a: Asg, n: int)
    requires 0 <= n <= N, m.dom() =~= r.dom(), forall|k: usize| m.dom().contains(k) ==> (#[trigger] r[k]).0 == m[k].0 * c && r[k].1 == m[k].1
    ensures lhs(r, a, n) == c * lhs(m, a, n)
    decreases n
{
    if n > 0 {
        lem_scale(m, r, c, a, n - 1);
        let k = (n - 1) as usize;
        assert(conm(r, k, a) == c * conm(m, k, a)) by { if m.dom().contains(k) { assert(r[k].0 == m[k].0 * c); assert(c * m[k].0 == m[k].0 * c) by (nonlinear_arith); } else { assert(c * 0 == 0); } }
        assert(c * (lhs(m, a, n - 1) + conm(m, k, a)) == c * lhs(m, a, n - 1) + c * conm(m, k, a)) by (nonlinear_arith);
    }
}
spec fn ceil_div(x: int, d: int) -> int { x / d + (if x % d != 0 { 1int } else { 0 }) }
proof fn lem_ceil(x: int, d: int) requires d > 0 ensures ceil_div(x, d) * d >= x, (ceil_div(x, d) - 1) * d < x
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, d); vstd::arithmetic::div_mod::lemma_mod_bound(x, d);
    let q = x / d; let m = x % d;
    assert(ceil_div(x, d) * d >= x && (ceil_div(x, d) - 1) * d < x) by (nonlinear_arith) requires x == d * q + m, 0 <= m < d, d > 0, ceil_div(x, d) == q + (if m != 0 { 1int } else { 0 });
}
proof fn lem_ceil_range(x: int, d: int) requires d > 0 ensures x >= 0 ==> 0 <= ceil_div(x, d) <= x, x < 0 ==> x <= ceil_div(x, d) <= 0
{
    lem_ceil(x, d); let q = ceil_div(x, d);
    if x >= 0 { assert(0 <= q <= x) by (nonlinear_arith) requires q * d >= x, (q - 1) * d < x, x >= 0, d > 0; }
    else { assert(x <= q <= 0) by (nonlinear_arith) requires q * d >= x, (q - 1) * d < x, x < 0, d > 0; }
}
proof fn lem_div(m: Terms, r: Terms, d: int, a: Asg, n: int)
    requires 0 <= n <= N, d > 0, m.dom() =~= r.dom(), forall|k: usize| m.dom().contains(k) ==> (#[trigger] r[k]).0 == ceil_div(m[k].0 as int, d) && r[k].1 == m[k].1
    ensures lhs(r, a, n) * d >= lhs(m, a, n)
    decreases n
{
    if n > 0 {
        lem_div(m, r, d, a, n - 1);
        let k = (n - 1) as usize;
        assert(conm(r, k, a) * d >= conm(m, k, a)) by { if m.dom().contains(k) { lem_ceil(m[k].0 as int, d); assert(r[k].0 == ceil_div(m[k].0 as int, d)); assert(0 * d == 0); } else { assert(0 * d == 0); } }
        assert((lhs(r, a, n - 1) + conm(r, k, a)) * d == lhs(r, a, n - 1) * d + conm(r, k, a) * d) by (nonlinear_arith);
    }
}
spec fn capped(m: Terms, r: Terms, d: int) -> bool { forall|k: usize| m.dom().contains(k) ==> m[k].0 >= 0 && (#[trigger] r[k]).0 == (if m[k].0 < d { m[k].0 as int } else { d }) && r[k].1 == m[k].1 }
proof fn lem_sat_min(m: Terms, r: Terms, d: int, a: Asg, n: int)
    requires 0 <= n <= N, d >= 0, m.dom() =~= r.dom(), capped(m, r, d)
    ensures lhs(r, a, n) >= 0, lhs(r, a, n) >= d || lhs(r, a, n) == lhs(m, a, n)
    decreases n
{ if n > 0 { lem_sat_min(m, r, d, a, n - 1); let k = (n - 1) as usize; if m.dom().contains(k) { assert(r[k].0 >= 0); } } }
proof fn lem_max(m: Terms, n: int)
    requires 0 <= n <= N, forall|k: usize| m.dom().contains(k) ==> (#[trigger] m[k]).0 >= 0
    ensures lhs(m, |x: usize| m[x].1, n) == tot(m, n)
    decreases n
{ if n > 0 { lem_max(m, n - 1); let k = (n - 1) as usize; if m.dom().contains(k) { assert(m[k].0 >= 0); } } }
impl PbConstraint {
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn multiply | btmap, amul
fn multiply(&self, c: i64) -> /*@ (r: @*/ PbConstraint /*@ )
    requires
        c > 0, i64::MIN <= self.degree * c <= i64::MAX,
        forall|k: usize| self.terms@.dom().contains(k) ==> i64::MIN <= (#[trigger] self.terms@[k]).0 * c <= i64::MAX,
    ensures forall|a: Asg| #[trigger] sat(r, a) <==> sat(*self, a), wf(*self) ==> wf(r) @*/ {
    must(c > 0);
    PbConstraint {
        terms: /*@ { let f__r = @*/ { let it__e = entries ( & self . terms ) ; let mut it__i : usize = 0 ; let mut it__r /*@ : BTreeMap<usize, (i64, bool)> @*/ = BTreeMap :: new ( ) ;
            /*@ proof { assert(it__r@ =~= Map::empty()); } @*/
            while it__i < it__e . len ( )
            /*@ invariant it__i <= it__e@.len(), distinct(it__e@), part(it__e@, it__e@.len() as int) == self.terms@, c > 0,
                forall|k: usize| self.terms@.dom().contains(k) ==> i64::MIN <= (#[trigger] self.terms@[k]).0 * c <= i64::MAX,
                it__r@.dom() =~= part(it__e@, it__i as int).dom(),
                forall|k: usize| it__r@.dom().contains(k) ==> (#[trigger] it__r@[k]).0 == self.terms@[k].0 * c && it__r@[k].1 == self.terms@[k].1
            decreases it__e@.len() - it__i @*/
            { /*@ proof { lem_part_dom(it__e@, it__e@.len() as int, it__e@[it__i as int].0); assert(self.terms@[it__e@[it__i as int].0] == it__e@[it__i as int].1); } @*/
              let ( v , ( coeff , s ) ) = it__e [ it__i ] ; it__i += 1 ; let it__x = ( (v, (coeff * c, s)) ) ; it__r . insert ( it__x . 0 , it__x . 1 ) ; } it__r } /*@ ;
            proof { assert forall|a: Asg| #[trigger] lhs(f__r@, a, N) == c * lhs(self.terms@, a, N) by { lem_scale(self.terms@, f__r@, c as int, a, N); }
                assert forall|x: int, y: int| #[trigger] (c * x) >= #[trigger] (y * c) <==> x >= y by { assert((c * x) >= (y * c) <==> x >= y) by (nonlinear_arith) requires c > 0; }
                assert forall|k: usize| wf(*self) && f__r@.dom().contains(k) implies (#[trigger] f__r@[k]).0 >= 0 by { assert(self.terms@[k].0 >= 0); assert(self.terms@[k].0 * c >= 0) by (nonlinear_arith) requires self.terms@[k].0 >= 0, c > 0; } }
            f__r } @*/,
        degree: self.degree * c,
    }
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn divide_round | btmap, adiv, b2i
fn divide_round(&self, d: i64) -> /*@ (r: @*/ PbConstraint /*@ )
    requires d > 0
    ensures forall|a: Asg| sat(*self, a) ==> #[trigger] sat(r, a), wf(*self) ==> wf(r) @*/ {
    must(d > 0);
    let ceil = |x: i64| /*@ -> (q: i64) requires d > 0 ensures q as int == ceil_div(x as int, d as int) { proof { lem_ceil_range(x as int, d as int); } @*/ x.div_euclid(d) + b2i(x.rem_euclid(d) != 0) /*@ } @*/;
    /*@ proof { lem_ceil_range(self.degree as int, d as int); } @*/
    PbConstraint {
        terms: /*@ { let f__r = @*/ { let it__e = entries ( & self . terms ) ; let mut it__i : usize = 0 ; let mut it__r /*@ : BTreeMap<usize, (i64, bool)> @*/ = BTreeMap :: new ( ) ;
            /*@ proof { assert(it__r@ =~= Map::empty()); } @*/
            while it__i < it__e . len ( )
            /*@ invariant it__i <= it__e@.len(), distinct(it__e@), part(it__e@, it__e@.len() as int) == self.terms@, d > 0,
                forall|x: i64| #[trigger] call_requires(ceil, (x,)), forall|x: i64, q: i64| #[trigger] call_ensures(ceil, (x,), q) ==> q as int == ceil_div(x as int, d as int),
                it__r@.dom() =~= part(it__e@, it__i as int).dom(),
                forall|k: usize| it__r@.dom().contains(k) ==> (#[trigger] it__r@[k]).0 == ceil_div(self.terms@[k].0 as int, d as int) && it__r@[k].1 == self.terms@[k].1
            decreases it__e@.len() - it__i @*/
            { /*@ proof { lem_part_dom(it__e@, it__e@.len() as int, it__e@[it__i as int].0); assert(self.terms@[it__e@[it__i as int].0] == it__e@[it__i as int].1); } @*/
              let ( v , ( c , s ) ) = it__e [ it__i ] ; it__i += 1 ; let it__x = ( (v, (ceil(c), s)) ) ; it__r . insert ( it__x . 0 , it__x . 1 ) ; } it__r } /*@ ;
            proof {
                assert forall|a: Asg| sat(*self, a) implies #[trigger] lhs(f__r@, a, N) >= ceil_div(self.degree as int, d as int) by {
                    lem_div(self.terms@, f__r@, d as int, a, N); lem_ceil(self.degree as int, d as int);
                    let (l, q, g) = (lhs(f__r@, a, N), ceil_div(self.degree as int, d as int), self.degree as int);
                    assert(l >= q) by (nonlinear_arith) requires l * d >= g, (q - 1) * d < g, d > 0;
                }
                assert forall|k: usize| wf(*self) && f__r@.dom().contains(k) implies (#[trigger] f__r@[k]).0 >= 0 by { lem_ceil_range(self.terms@[k].0 as int, d as int); }
            }
            f__r } @*/,
        degree: ceil(self.degree),
    }
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn saturate | btmap, minmax
fn saturate(&self) -> /*@ (r: @*/ PbConstraint /*@ )
    requires wf(*self)
    ensures wf(r), forall|a: Asg| sat(*self, a) <==> #[trigger] sat(r, a) @*/ {
    let d = self.degree;
    PbConstraint {
        terms: /*@ { let f__r = @*/ { let it__e = entries ( & self . terms ) ; let mut it__i : usize = 0 ; let mut it__r /*@ : BTreeMap<usize, (i64, bool)> @*/ = BTreeMap :: new ( ) ;
            /*@ proof { assert(it__r@ =~= Map::empty()); } @*/
            while it__i < it__e . len ( )
            /*@ invariant it__i <= it__e@.len(), distinct(it__e@), part(it__e@, it__e@.len() as int) == self.terms@,
                it__r@.dom() =~= part(it__e@, it__i as int).dom(),
                forall|k: usize| it__r@.dom().contains(k) ==> (#[trigger] it__r@[k]).0 == ({ let m = if d > 0 { d } else { 0i64 }; if self.terms@[k].0 < m { self.terms@[k].0 } else { m } }) && it__r@[k].1 == self.terms@[k].1
            decreases it__e@.len() - it__i @*/
            { /*@ proof { lem_part_dom(it__e@, it__e@.len() as int, it__e@[it__i as int].0); assert(self.terms@[it__e@[it__i as int].0] == it__e@[it__i as int].1); } @*/
              let ( v , ( c , s ) ) = it__e [ it__i ] ; it__i += 1 ; let it__x = ( (v, (min_i64(c, max_i64(d, 0)), s)) ) ; it__r . insert ( it__x . 0 , it__x . 1 ) ; } it__r } /*@ ;
            proof {
                let m = if d > 0 { d as int } else { 0int };
                assert forall|k: usize| self.terms@.dom().contains(k) implies self.terms@[k].0 >= 0 && (#[trigger] f__r@[k]).0 == (if self.terms@[k].0 < m { self.terms@[k].0 as int } else { m }) && f__r@[k].1 == self.terms@[k].1 by { assert(f__r@.dom().contains(k)); assert(self.terms@[k].0 >= 0); }
                assert forall|a: Asg| (#[trigger] lhs(f__r@, a, N) >= d) <==> (lhs(self.terms@, a, N) >= d) by { lem_sat_min(self.terms@, f__r@, m, a, N); lem_sat_le(self.terms@, f__r@, a, N); }
            }
            f__r } @*/,
        degree: d,
    }
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn is_contradiction | btsum
fn is_contradiction(&self) -> /*@ (r: @*/ bool /*@ )
    requires wf(*self), tot(self.terms@, N) <= i64::MAX
    ensures r ==> forall|a: Asg| !#[trigger] sat(*self, a), !r ==> exists|a: Asg| #[trigger] sat(*self, a) @*/ {
    let max_lhs: i64 = { let it__e = entries ( & self . terms ) ; let mut it__i : usize = 0 ; let mut it__r : i64 = 0 ;
        /*@ proof { lem_empty(|x: usize| true, N); assert(part(it__e@, 0) =~= Map::empty()); } @*/
        while it__i < it__e . len ( )
        /*@ invariant it__i <= it__e@.len(), distinct(it__e@), part(it__e@, it__e@.len() as int) == self.terms@, wf(*self), tot(self.terms@, N) <= i64::MAX,
            it__r == tot(part(it__e@, it__i as int), N)
        decreases it__e@.len() - it__i @*/
        { /*@ proof { let k = it__e@[it__i as int].0; lem_part_dom(it__e@, it__e@.len() as int, k); assert(self.terms@[k] == it__e@[it__i as int].1); lem_part_dom(it__e@, it__i as int, k);
              if part(it__e@, it__i as int).dom().contains(k) { let j = choose|j: int| 0 <= j < it__i && (#[trigger] it__e@[j]).0 == k; assert(it__e@[j].0 != it__e@[it__i as int].0); }
              lem_tot_ins(part(it__e@, it__i as int), k, it__e@[it__i as int].1, N); lem_part_tot(it__e@, it__i + 1, it__e@.len() as int); assert(self.terms@[k].0 >= 0); } @*/
          let ( _ , ( c , _ ) ) = it__e [ it__i ] ; it__i += 1 ; it__r += c ; } it__r };
    /*@ proof {
        assert forall|a: Asg| #[trigger] sat(*self, a) implies self.degree <= max_lhs by { lem_lhs_tot(self.terms@, a, N); }
        lem_max(self.terms@, N);
        if self.degree <= max_lhs { assert(sat(*self, |x: usize| self.terms@[x].1)); }
    } @*/
    self.degree > max_lhs
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn new_weighted | slmap
fn new_weighted(terms: &[(usize, i64, bool)], degree: i64) -> /*@ (r: @*/ PbConstraint /*@ )
    requires wvars(terms@)
    ensures r.degree == degree, forall|a: Asg| #[trigger] lhs(r.terms@, a, N) == wsum(terms@, a, terms@.len() as int) @*/ {
    PbConstraint { terms: { let it__e = terms ; let mut it__i : usize = 0 ; let mut it__r /*@ : BTreeMap<usize, (i64, bool)> @*/ = BTreeMap :: new ( ) ;
        /*@ proof { assert forall|a: Asg| #[trigger] lhs(it__r@, a, N) == 0 by { assert(it__r@ =~= Map::empty()); lem_empty(a, N); } } @*/
        while it__i < it__e . len ( )
        /*@ invariant it__i <= terms@.len(), it__e@ == terms@, wvars(terms@),
            forall|x: usize| it__r@.dom().contains(x) ==> exists|j: int| 0 <= j < it__i && (#[trigger] terms@[j]).0 == x,
            forall|a: Asg| #[trigger] lhs(it__r@, a, N) == wsum(terms@, a, it__i as int),
        decreases terms@.len() - it__i @*/
        { let ( v , c , s ) = it__e [ it__i ] ; it__i += 1 ; /*@ let ghost m0 = it__r@; @*/
          let it__x = ( (v, (c, s)) ) ; it__r . insert ( it__x . 0 , it__x . 1 ) ;
          /*@ proof {
              assert(it__r@ == m0.insert(v, (c, s)));
              if m0.dom().contains(v) { let j = choose|j: int| 0 <= j < it__i - 1 && (#[trigger] terms@[j]).0 == v; assert(terms@[it__i - 1].0 == v); }
              assert(terms@[it__i - 1].0 == v);
              assert forall|a: Asg| #[trigger] lhs(it__r@, a, N) == wsum(terms@, a, it__i as int) by { lem_ins(m0, v, (c, s), a, N); assert(lhs(m0, a, N) == wsum(terms@, a, it__i - 1)); }
              assert forall|x: usize| it__r@.dom().contains(x) implies exists|j: int| 0 <= j < it__i && (#[trigger] terms@[j]).0 == x by { if x == v { assert(terms@[it__i - 1].0 == x); } else { let j = choose|j: int| 0 <= j < it__i - 1 && (#[trigger] terms@[j]).0 == x; assert(terms@[j].0 == x); } }
          } @*/
        } it__r }, degree }
}
//#FN crates/logicaffeine_proof/src/pseudo_boolean.rs :: impl PbConstraint :: fn term | termc
fn term(&self, v: usize) -> /*@ (r: @*/ Option<(i64, bool)> /*@ ) ensures r == (if self.terms@.dom().contains(v) { Some(self.terms@[v]) } else { None }) @*/ {
    get_copy(&self.terms, v)
}
//#RAW
}
proof fn lem_sat_le(m: Terms, r: Terms, a: Asg, n: int)
    requires 0 <= n <= N, m.dom() =~= r.dom(), forall|k: usize| m.dom().contains(k) ==> (#[trigger] r[k]).0 <= m[k].0 && r[k].1 == m[k].1
    ensures lhs(r, a, n) <= lhs(m, a, n)
    decreases n
{ if n > 0 { lem_sat_le(m, r, a, n - 1); let k = (n - 1) as usize; if m.dom().contains(k) { assert(r[k].0 <= m[k].0); } } }
fn main() {}
} // verus!
