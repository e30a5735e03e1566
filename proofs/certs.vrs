//#SUBST ren_assume: assume =>> assumed
//#SUBST rup_path: rup :: =>> crate ::
//#SUBST clone_alpha: alpha.clone() =>> lits_to_vec(&alpha)
//#SUBST clone_clause: clause.clone() =>> lits_to_vec(clause)
//#SUBST sd_path: crate :: symmetry_detect :: =>> crate ::
//#SUBST perm_path: crate :: proof :: Perm =>> Perm
//#SUBST same_key: canon_clause ( d ) == key =>> same_key ( & canon_clause ( d ) , & key )
//#SUBST sort_dedup: k.sort_unstable(); k.dedup(); =>> sort_dedup(&mut k);
//#SUBST bool_u32: u32::from(!l.is_positive()) =>> bool_to_u32(!l.is_positive())
//#SUBST key_set: std::collections::HashSet<Vec<u32>> = clauses.iter().map(|c| clause_key(c)).collect() =>> KeySet = key_set(clauses)
//#SUBST set_has: set.contains( =>> set.has(
//#SUBST ne_lit: sigma.apply(Lit::pos(v as u32)) != Lit::pos(v as u32) =>> ! same_lit ( sigma.apply(Lit::pos(v as u32)) , Lit::pos(v as u32) )
//#SUBST contains_neg: unset.contains(&l.negated()) =>> lits_contain(&unset, l.negated())
//#SUBST contains_lit: unset.contains(&l) =>> lits_contain(&unset, l)
//#SUBST to_vec: original.to_vec() =>> clauses_to_vec(original)
//#SUBST clone_c: c.clone() =>> lits_to_vec(c)
//#RAW
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//#ITEM crates/logicaffeine_proof/src/cdcl.rs :: type Var
//#RAW
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//#ITEM crates/logicaffeine_proof/src/cdcl.rs :: struct Lit
//#RAW
impl Lit {
    spec fn v(self) -> int { (self.0 >> 1) as int }
    spec fn p(self) -> bool { self.0 & 1 == 0 }
    spec fn code(self) -> u32 { self.0 }
}
proof fn lem_code(a: Lit, b: Lit)
    requires a.v() == b.v(), a.p() == b.p()
    ensures a == b
{
    let (x, y) = (a.0, b.0);
    assert(x == y) by (bit_vector) requires x >> 1 == y >> 1, (x & 1 == 0) == (y & 1 == 0);
}
// Meaning: a model gives every variable a truth value.
type Model = spec_fn(int) -> bool;
spec fn holds(m: Model, l: Lit) -> bool { m(l.v()) == l.p() }
spec fn holds_clause(m: Model, c: Seq<Lit>) -> bool { exists|i: int| 0 <= i < c.len() && holds(m, #[trigger] c[i]) }
spec fn holds_all(m: Model, db: Seq<Vec<Lit>>) -> bool { forall|i: int| 0 <= i < db.len() ==> holds_clause(m, (#[trigger] db[i])@) }
spec fn agrees(m: Model, a: Seq<Option<bool>>) -> bool { forall|v: int| 0 <= v < a.len() && (#[trigger] a[v]) is Some ==> m(v) == a[v].unwrap() }
spec fn lits_in(c: Seq<Lit>, n: int) -> bool { forall|i: int| 0 <= i < c.len() ==> 0 <= (#[trigger] c[i]).v() < n }
spec fn all_in(db: Seq<Vec<Lit>>, n: int) -> bool { forall|i: int| 0 <= i < db.len() ==> lits_in((#[trigger] db[i])@, n) }
spec fn value(a: Seq<Option<bool>>, l: Lit) -> Option<bool> {
    match a[l.v()] { Some(b) => Some(b == l.p()), None => None }
}
fn lits_contain(v: &Vec<Lit>, x: Lit) -> (r: bool)
    ensures r == v@.contains(x)
{
    for i in 0..v.len()
        invariant forall|j: int| 0 <= j < i ==> v@[j] != x
    { if v[i].0 == x.0 { assert(v@[i as int] == x); return true; } }
    false
}
fn lits_to_vec(c: &Vec<Lit>) -> (r: Vec<Lit>)
    ensures r@ == c@
{
    let mut r: Vec<Lit> = Vec::new();
    for i in 0..c.len()
        invariant r@ == c@.subrange(0, i as int)
    { r.push(c[i]); assert(r@ == c@.subrange(0, i as int + 1)); }
    assert(c@.subrange(0, c@.len() as int) == c@);
    r
}
fn clauses_to_vec(db: &[Vec<Lit>]) -> (r: Vec<Vec<Lit>>)
    ensures r@.len() == db@.len(), forall|i: int| 0 <= i < db@.len() ==> (#[trigger] r@[i])@ == db@[i]@
{
    let mut r: Vec<Vec<Lit>> = Vec::new();
    for i in 0..db.len()
        invariant r@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j])@ == db@[j]@
    { r.push(lits_to_vec(&db[i])); }
    r
}
impl Lit {
//#FN crates/logicaffeine_proof/src/cdcl.rs :: impl Lit :: fn var
    fn var(self) -> /*@ (r: @*/ Var /*@ ) ensures r as int == self.v() @*/ {
        self.0 >> 1
    }
//#FN crates/logicaffeine_proof/src/cdcl.rs :: impl Lit :: fn is_positive
    fn is_positive(self) -> /*@ (r: @*/ bool /*@ ) ensures r == self.p() @*/ {
        self.0 & 1 == 0
    }
//#FN crates/logicaffeine_proof/src/cdcl.rs :: impl Lit :: fn negated
    fn negated(self) -> /*@ (r: @*/ Lit /*@ ) ensures r.v() == self.v(), r.p() == !self.p() @*/ {
        /*@ let x = self.0;
        assert((x ^ 1) >> 1 == x >> 1) by (bit_vector);
        assert(((x ^ 1) & 1 == 0) == !(x & 1 == 0)) by (bit_vector); @*/
        Lit(self.0 ^ 1)
    }
//#FN crates/logicaffeine_proof/src/cdcl.rs :: impl Lit :: fn pos
    fn pos(v: Var) -> /*@ (r: @*/ Lit /*@ ) requires v < 0x8000_0000 ensures r.v() == v, r.p() @*/ {
        /*@ assert(v < 0x8000_0000u32 ==> (v << 1) >> 1 == v && (v << 1) & 1 == 0) by (bit_vector); @*/
        Lit(v << 1)
    }
//#FN crates/logicaffeine_proof/src/cdcl.rs :: impl Lit :: fn neg
    fn neg(v: Var) -> /*@ (r: @*/ Lit /*@ ) requires v < 0x8000_0000 ensures r.v() == v, !r.p() @*/ {
        /*@ assert(v < 0x8000_0000u32 ==> ((v << 1) | 1) >> 1 == v && ((v << 1) | 1) & 1 == 1) by (bit_vector); @*/
        Lit((v << 1) | 1)
    }
//#FN crates/logicaffeine_proof/src/cdcl.rs :: impl Lit :: fn new
    fn new(v: Var, positive: bool) -> /*@ (r: @*/ Lit /*@ ) requires v < 0x8000_0000 ensures r.v() == v, r.p() == positive @*/ {
        if positive {
            Lit::pos(v)
        } else {
            Lit::neg(v)
        }
    }
//#RAW
}
//#FN crates/logicaffeine_proof/src/rup.rs :: fn lit_val
fn lit_val(assign: &[Option<bool>], l: Lit) -> /*@ (r: @*/ Option<bool> /*@ )
    requires l.v() < assign@.len()
    ensures r == value(assign@, l) @*/ {
    assign[l.var() as usize].map(|b /*@ : bool @*/ | /*@ -> (r: bool) ensures r == (b == l.p()) { @*/ if l.is_positive() { b } else { !b } /*@ } @*/)
}
//#FN crates/logicaffeine_proof/src/rup.rs :: fn set_true
fn set_true(assign: &mut [Option<bool>], l: Lit) -> /*@ (r: @*/ bool /*@ )
    requires l.v() < old(assign)@.len()
    ensures
        final(assign)@.len() == old(assign)@.len(),
        r ==> value(final(assign)@, l) == Some(true),
        r ==> forall|v: int| 0 <= v < old(assign)@.len() && v != l.v() ==> (#[trigger] final(assign)@[v]) == old(assign)@[v],
        r ==> (old(assign)@[l.v()] is Some ==> final(assign)@[l.v()] == old(assign)@[l.v()]),
        !r ==> value(old(assign)@, l) == Some(false) && final(assign)@ == old(assign)@, @*/ {
    match lit_val(assign, l) {
        Some(true) => true,
        Some(false) => false,
        None => {
            assign[l.var() as usize] = Some(l.is_positive());
            true
        }
    }
}
//#RAW
// how many of the first n variables have no value yet: bounds the number of rounds
spec fn nones(a: Seq<Option<bool>>, n: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { nones(a, n - 1) + (if a[n - 1] is None { 1nat } else { 0nat }) } }
proof fn lem_nones(a: Seq<Option<bool>>, b: Seq<Option<bool>>, v: int, n: int)
    requires 0 <= v, n <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < n && j != v ==> a[j] == b[j], v < n ==> a[v] is None && b[v] is Some
    ensures nones(b, n) == nones(a, n) - (if v < n { 1int } else { 0int })
    decreases n
{ if n > 0 { lem_nones(a, b, v, n - 1); } }
//#FN crates/logicaffeine_proof/src/rup.rs :: fn propagate | forwhile,contains_neg,contains_lit
fn propagate(db: &[Vec<Lit>], assign: &mut [Option<bool>]) -> /*@ (r: @*/ bool /*@ )
    requires all_in(db@, old(assign)@.len() as int)
    ensures
        final(assign)@.len() == old(assign)@.len(),
        r ==> forall|m: Model| agrees(m, old(assign)@) ==> !holds_all(m, db@),
        forall|m: Model| agrees(m, old(assign)@) && holds_all(m, db@) ==> agrees(m, final(assign)@), @*/ {
    loop
        /*@ invariant
            all_in(db@, old(assign)@.len() as int),
            assign@.len() == old(assign)@.len(),
            forall|m: Model| agrees(m, old(assign)@) && holds_all(m, db@) ==> agrees(m, assign@),
        decreases nones(assign@, assign@.len() as int) @*/
    {
        /*@ let ghost a0 = assign@; @*/
        let mut changed = false;
        let mut clause__i : usize = 0 ; while clause__i < db . len ( )
            /*@ invariant
                clause__i <= db@.len(),
                all_in(db@, old(assign)@.len() as int),
                assign@.len() == old(assign)@.len(), a0.len() == assign@.len(),
                forall|m: Model| agrees(m, old(assign)@) && holds_all(m, db@) ==> agrees(m, assign@),
                nones(assign@, assign@.len() as int) <= nones(a0, a0.len() as int),
                changed ==> nones(assign@, assign@.len() as int) < nones(a0, a0.len() as int),
            decreases db@.len() - clause__i @*/
        { let clause = & db [ clause__i ] ; clause__i += 1 ;
            let mut satisfied = false;
            let mut unset: Vec<Lit> = Vec::new();
            let mut l__r__i : usize = 0 ; while l__r__i < clause . len ( )
                /*@ invariant_except_break
                    l__r__i <= clause@.len(), !satisfied,
                    forall|j: int| 0 <= j < l__r__i ==> value(assign@, #[trigger] clause@[j]) == Some(false) || unset@.contains(clause@[j]),
                invariant
                    lits_in(clause@, assign@.len() as int),
                    forall|j: int| 0 <= j < unset@.len() ==> 0 <= (#[trigger] unset@[j]).v() < assign@.len() && value(assign@, unset@[j]) is None,
                ensures
                    !satisfied ==> forall|j: int| 0 <= j < clause@.len() ==> value(assign@, #[trigger] clause@[j]) == Some(false) || unset@.contains(clause@[j]),
                decreases clause@.len() - l__r__i
                @*/
            { let l__r = & clause [ l__r__i ] ; l__r__i += 1 ; let l = * l__r ;
                /*@ let ghost u0 = unset@; @*/
                match lit_val(assign, l) {
                    Some(true) => {
                        satisfied = true;
                        break;
                    }
                    Some(false) => {}
                    None => {
                        if lits_contain(&unset, l.negated()) {
                            satisfied = true;
                            break;
                        }
                        if !lits_contain(&unset, l) {
                            unset.push(l);
                        }
                        /*@ proof { assert forall|x: Lit| u0.contains(x) implies unset@.contains(x) by {
                                let k = choose|k: int| 0 <= k < u0.len() && u0[k] == x; assert(unset@[k] == x); }
                            if !u0.contains(l) { assert(unset@[u0.len() as int] == l); } } @*/
                    }
                }
            }
            if satisfied {
                continue;
            }
            /*@ let ghost a1 = assign@; let ghost cl = clause@; let ghost us = unset@;
            proof {
                assert(clause@ == db@[clause__i - 1]@);
                // a model that agrees with the assignment makes the clause true only through a literal still unset
                assert forall|m: Model| agrees(m, a1) && holds_all(m, db@) implies us.len() > 0 && (us.len() == 1 ==> holds(m, us[0])) by {
                    assert(holds_clause(m, cl));
                    let i = choose|i: int| 0 <= i < cl.len() && holds(m, #[trigger] cl[i]);
                    assert(a1[cl[i].v()] is Some ==> m(cl[i].v()) == a1[cl[i].v()].unwrap());
                    assert(us.contains(cl[i]));
                    let k = choose|k: int| 0 <= k < us.len() && us[k] == cl[i];
                }
            } @*/
            if unset.is_empty() {
                return true;
            }
            if unset.len() == 1 {
                set_true(assign, unset[0]);
                changed = true;
                /*@ proof {
                    let l = us[0];
                    assert(value(a1, l) is None);
                    lem_nones(a1, assign@, l.v(), assign@.len() as int);
                    assert forall|m: Model| agrees(m, old(assign)@) && holds_all(m, db@) implies agrees(m, assign@) by {
                        assert(agrees(m, a1) && holds(m, l));
                        assert forall|v: int| 0 <= v < assign@.len() && (#[trigger] assign@[v]) is Some implies m(v) == assign@[v].unwrap() by {
                            if v != l.v() { assert(a1[v] == assign@[v]); }
                        }
                    }
                } @*/
            }
        }
        if !changed {
            return false;
        }
    }
}
//#FN crates/logicaffeine_proof/src/rup.rs :: fn is_rup | forwhile
fn is_rup(num_vars: usize, db: &[Vec<Lit>], c: &[Lit]) -> /*@ (r: @*/ bool /*@ )
    requires all_in(db@, num_vars as int), lits_in(c@, num_vars as int)
    ensures r ==> forall|m: Model| holds_all(m, db@) ==> holds_clause(m, c@) @*/ {
    let mut assign: Vec<Option<bool>> = vec![None; num_vars];
    let mut l__r__i : usize = 0 ; while l__r__i < c . len ( )
        /*@ invariant
            l__r__i <= c@.len(), assign@.len() == num_vars, lits_in(c@, num_vars as int),
            forall|m: Model| !holds_clause(m, c@) ==> agrees(m, assign@),
        decreases c@.len() - l__r__i @*/
    { let l__r = & c [ l__r__i ] ; l__r__i += 1 ; let l = * l__r ;
        /*@ let ghost a0 = assign@; @*/
        if !set_true(&mut assign, l.negated()) {
            /*@ proof { assert forall|m: Model| holds_all(m, db@) implies holds_clause(m, c@) by {
                if !holds_clause(m, c@) { assert(agrees(m, a0)); assert(!holds(m, c@[l__r__i - 1])); assert(a0[l.v()] is Some); }
            } } @*/
            return true;
        }
        /*@ proof { assert forall|m: Model| !holds_clause(m, c@) implies agrees(m, assign@) by {
            assert(agrees(m, a0)); assert(!holds(m, c@[l__r__i - 1]));
            assert forall|v: int| 0 <= v < assign@.len() && (#[trigger] assign@[v]) is Some implies m(v) == assign@[v].unwrap() by {
                if v != l.v() { assert(a0[v] == assign@[v]); }
            }
        } } @*/
    }
    propagate(db, &mut assign)
}
//#FN crates/logicaffeine_proof/src/rup.rs :: fn check_refutation | forwhile,to_vec,clone_c
fn check_refutation(num_vars: usize, original: &[Vec<Lit>], learned: &[Vec<Lit>]) -> /*@ (r: @*/ bool /*@ )
    requires all_in(original@, num_vars as int), all_in(learned@, num_vars as int)
    ensures r ==> forall|m: Model| !holds_all(m, original@) @*/ {
    let mut db: Vec<Vec<Lit>> = clauses_to_vec(original);
    let mut c__i : usize = 0 ; while c__i < learned . len ( )
        /*@ invariant
            c__i <= learned@.len(), all_in(db@, num_vars as int), all_in(learned@, num_vars as int),
            forall|m: Model| holds_all(m, original@) ==> holds_all(m, db@),
        decreases learned@.len() - c__i @*/
    { let c = & learned [ c__i ] ; c__i += 1 ;
        /*@ let ghost d0 = db@; @*/
        if !is_rup(num_vars, &db, c) {
            return false;
        }
        db.push(lits_to_vec(c));
        /*@ proof {
            assert(db@[d0.len() as int]@ == c@);
            assert forall|i: int| 0 <= i < db@.len() implies lits_in((#[trigger] db@[i])@, num_vars as int) by { if i < d0.len() { assert(db@[i] == d0[i]); } }
            assert forall|m: Model| holds_all(m, original@) implies holds_all(m, db@) by {
                assert(holds_all(m, d0));
                assert forall|i: int| 0 <= i < db@.len() implies holds_clause(m, (#[trigger] db@[i])@) by { if i < d0.len() { assert(db@[i] == d0[i]); } }
            }
        } @*/
    }
    /*@ proof { assert forall|m: Model| !holds_clause(m, Seq::<Lit>::empty()) by {} } @*/
    is_rup(num_vars, &db, &[])
}
//#ITEM crates/logicaffeine_proof/src/proof.rs :: struct Perm
//#ITEM crates/logicaffeine_proof/src/proof.rs :: enum Witness
//#ITEM crates/logicaffeine_proof/src/proof.rs :: enum ProofStep
//#RAW
impl Perm {
    spec fn img(&self) -> Seq<Lit> { self.pos_image@ }
    // the image of a literal; the sign is respected
    spec fn im_v(&self, l: Lit) -> int { self.img()[l.v()].v() }
    spec fn im_p(&self, l: Lit) -> bool { self.img()[l.v()].p() == l.p() }
    spec fn covers(&self, n: int) -> bool { n <= self.img().len() < 0x8000_0000 && lits_in(self.img(), n) }
}
spec fn image(s: &Perm, c: Seq<Lit>, r: Seq<Lit>) -> bool {
    r.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] r[i]).v() == s.im_v(c[i]) && r[i].p() == s.im_p(c[i])
}
fn same_lit(a: Lit, b: Lit) -> (r: bool) ensures r == (a == b) { a.0 == b.0 }
fn bool_to_u32(b: bool) -> (r: u32) ensures r == (if b { 1u32 } else { 0u32 }) { if b { 1 } else { 0 } }
fn same_key(a: &Vec<u32>, b: &Vec<u32>) -> (r: bool) ensures r ==> a@ == b@
{
    if a.len() != b.len() { return false; }
    for i in 0..a.len()
        invariant a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j]
    { if a[i] != b[i] { return false; } }
    assert(a@ == b@);
    true
}
// std: sorting and removing neighbours that are equal keeps the set of elements (trusted)
#[verifier::external_body]
fn sort_dedup(k: &mut Vec<u32>)
    ensures forall|x: u32| final(k)@.contains(x) <==> old(k)@.contains(x)
{ k.sort_unstable(); k.dedup(); }
// a clause is told by the set of its literal codes
spec fn coded(c: Seq<Lit>, k: Seq<u32>) -> bool { forall|x: u32| k.contains(x) <==> exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).code() == x }
spec fn key_in(db: Seq<Vec<Lit>>, k: Seq<u32>) -> bool { exists|i: int| 0 <= i < db.len() && coded((#[trigger] db[i])@, k) }
// std: the hash set of the keys of a list of clauses (trusted to contain exactly those keys)
#[verifier::external_body]
pub struct KeySet { s: std::collections::HashSet<Vec<u32>> }
impl KeySet {
    uninterp spec fn of(&self) -> Seq<Vec<Lit>>;
    #[verifier::external_body]
    fn has(&self, k: &Vec<u32>) -> (r: bool)
        ensures r ==> key_in(self.of(), k@)
    { self.s.contains(k) }
}
#[verifier::external_body]
fn key_set(clauses: &[Vec<Lit>]) -> (r: KeySet)
    ensures r.of() == clauses@
{ KeySet { s: clauses.iter().map(|c| clause_key(c)).collect() } }
proof fn lem_coded(c: Seq<Lit>, d: Seq<Lit>, k: Seq<u32>, m: Model)
    requires coded(c, k), coded(d, k), holds_clause(m, d)
    ensures holds_clause(m, c)
{
    let i = choose|i: int| 0 <= i < d.len() && holds(m, #[trigger] d[i]);
    assert(k.contains(d[i].code()));
    let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).code() == d[i].code();
    assert(c[j] == d[i]);
}
// the model seen through the permutation
spec fn through(m: Model, s: &Perm) -> Model { |v: int| if 0 <= v < s.img().len() { holds(m, s.img()[v]) } else { m(v) } }
proof fn lem_through(m: Model, s: &Perm, c: Seq<Lit>, r: Seq<Lit>)
    requires image(s, c, r), lits_in(c, s.img().len() as int)
    ensures holds_clause(m, r) == holds_clause(through(m, s), c)
{
    assert forall|i: int| 0 <= i < c.len() implies holds(m, #[trigger] r[i]) == holds(through(m, s), c[i]) by {}
    if holds_clause(m, r) { let i = choose|i: int| 0 <= i < r.len() && holds(m, #[trigger] r[i]); assert(holds(through(m, s), c[i])); }
    if holds_clause(through(m, s), c) { let i = choose|i: int| 0 <= i < c.len() && holds(through(m, s), #[trigger] c[i]); assert(holds(m, r[i])); }
}
// seen through the permutation, every model of the database still satisfies the clause
spec fn maps(db: Seq<Vec<Lit>>, s: &Perm, c: Seq<Lit>) -> bool { forall|m: Model| #[trigger] holds_all(m, db) ==> holds_clause(through(m, s), c) }
spec fn fixes(s: &Perm, moved: Seq<bool>) -> bool { moved.len() == s.img().len() && forall|j: int| 0 <= j < moved.len() && !(#[trigger] moved[j]) ==> s.img()[j].v() == j && s.img()[j].p() }
proof fn lem_unmoved(db: Seq<Vec<Lit>>, s: &Perm, moved: Seq<bool>, x: int)
    requires 0 <= x < db.len(), fixes(s, moved), lits_in(db[x]@, moved.len() as int), forall|i: int| 0 <= i < db[x]@.len() ==> !moved[(#[trigger] db[x]@[i]).v()]
    ensures maps(db, s, db[x]@)
{
    let c = db[x]@;
    assert forall|m: Model| #[trigger] holds_all(m, db) implies holds_clause(through(m, s), c) by {
        assert(holds_clause(m, c));
        let i = choose|i: int| 0 <= i < c.len() && holds(m, #[trigger] c[i]);
        assert(!moved[c[i].v()]);
        assert(holds(through(m, s), c[i]));
    }
}
proof fn lem_moved(db: Seq<Vec<Lit>>, s: &Perm, c: Seq<Lit>, r: Seq<Lit>, k: Seq<u32>)
    requires image(s, c, r), lits_in(c, s.img().len() as int), coded(r, k), key_in(db, k)
    ensures maps(db, s, c)
{
    assert forall|m: Model| #[trigger] holds_all(m, db) implies holds_clause(through(m, s), c) by {
        let i = choose|i: int| 0 <= i < db.len() && coded((#[trigger] db[i])@, k);
        lem_coded(r, db[i]@, k, m);
        lem_through(m, s, c, r);
    }
}
// what an accepted redundancy step means: if the database has a model, so has the database with the clause
spec fn satisfiable(db: Seq<Vec<Lit>>) -> bool { exists|m: Model| holds_all(m, db) }
spec fn redundant(db: Seq<Vec<Lit>>, c: Seq<Lit>) -> bool {
    forall|m: Model| #[trigger] holds_all(m, db) ==> exists|n: Model| #[trigger] holds_all(n, db) && holds_clause(n, c)
}
impl Perm {
//#FN crates/logicaffeine_proof/src/proof.rs :: impl Perm :: fn apply
    fn apply(&self, l: Lit) -> /*@ (r: @*/ Lit /*@ )
        requires l.v() < self.img().len()
        ensures r.v() == self.im_v(l), r.p() == self.im_p(l) @*/ {
        let img = self.pos_image[l.var() as usize];
        if l.is_positive() {
            img
        } else {
            img.negated()
        }
    }
//#FN crates/logicaffeine_proof/src/proof.rs :: impl Perm :: fn num_vars
    fn num_vars(&self) -> /*@ (r: @*/ usize /*@ ) ensures r == self.img().len() @*/ {
        self.pos_image.len()
    }
//#FN crates/logicaffeine_proof/src/proof.rs :: impl Perm :: fn apply_clause | iterloop
    fn apply_clause(&self, clause: &[Lit]) -> /*@ (r: @*/ Vec<Lit> /*@ )
        requires lits_in(clause@, self.img().len() as int)
        ensures image(self, clause@, r@) @*/ {
        { let mut l__vec /*@ : Vec<Lit> @*/ = Vec :: new ( ) ; let mut l__k : usize = 0 ; while l__k < clause . len ( )
            /*@ invariant lits_in(clause@, self.img().len() as int), l__k <= clause@.len(), l__vec@.len() == l__k,
                forall|i: int| 0 <= i < l__k ==> (#[trigger] l__vec@[i]).v() == self.im_v(clause@[i]) && l__vec@[i].p() == self.im_p(clause@[i]),
            decreases clause@.len() - l__k @*/
        { let l = clause [ l__k ] ; l__k += 1 ; l__vec . push ( self.apply(l) ) ; } l__vec }
    }
//#RAW
}
//#FN crates/logicaffeine_proof/src/symmetry_detect.rs :: fn clause_key | iterloop,sort_dedup,bool_u32
fn clause_key(c: &[Lit]) -> /*@ (r: @*/ Vec<u32> /*@ ) ensures coded(c@, r@) @*/ {
    let mut k: Vec<u32> = { let mut l__vec /*@ : Vec<u32> @*/ = Vec :: new ( ) ; let mut l__k : usize = 0 ; while l__k < c . len ( )
        /*@ invariant l__k <= c@.len(), l__vec@.len() == l__k, forall|i: int| 0 <= i < l__k ==> #[trigger] l__vec@[i] == c@[i].code(),
        decreases c@.len() - l__k @*/
    { let l = & c [ l__k ] ; l__k += 1 ;
        /*@ proof { let x = l.0; assert((x >> 1) * 2 + (if x & 1 == 0 { 0u32 } else { 1u32 }) == x && (x >> 1) <= 0x7fff_ffff) by (bit_vector); } @*/
        l__vec . push ( l.var() * 2 + bool_to_u32(!l.is_positive()) ) ; } l__vec };
    /*@ let ghost k0 = k@;
    proof { assert(coded(c@, k0)) by {
        assert forall|x: u32| k0.contains(x) <==> exists|i: int| 0 <= i < c@.len() && (#[trigger] c@[i]).code() == x by {
            if k0.contains(x) { let i = choose|i: int| 0 <= i < k0.len() && k0[i] == x; assert(c@[i].code() == x); }
            if exists|i: int| 0 <= i < c@.len() && (#[trigger] c@[i]).code() == x { let i = choose|i: int| 0 <= i < c@.len() && (#[trigger] c@[i]).code() == x; assert(k0[i] == x); }
        }
    } } @*/
    sort_dedup(&mut k);
    k
}
//#FN crates/logicaffeine_proof/src/symmetry_detect.rs :: fn perm_is_automorphism | key_set,set_has,ne_lit,forwhile,iterloop
fn perm_is_automorphism(clauses: &[Vec<Lit>], sigma: &Perm) -> /*@ (r: @*/ bool /*@ )
    requires sigma.img().len() < 0x8000_0000, all_in(clauses@, sigma.img().len() as int)
    ensures r ==> forall|m: Model| holds_all(m, clauses@) ==> holds_all(through(m, sigma), clauses@) @*/ {
    let nv = sigma.num_vars();
    let moved: Vec<bool> =
    { let mut v__vec /*@ : Vec<bool> @*/ = Vec :: new ( ) ; let mut v__k = 0 ; let v__n = nv ; while v__k < v__n
        /*@ invariant v__n == nv == sigma.img().len() < 0x8000_0000, v__k <= v__n, v__vec@.len() == v__k,
            forall|j: int| 0 <= j < v__k ==> !(#[trigger] v__vec@[j]) ==> sigma.img()[j].v() == j && sigma.img()[j].p(),
        decreases v__n - v__k @*/
    { let v = v__k ; v__k += 1 ; v__vec . push ( ! same_lit ( sigma.apply(Lit::pos(v as u32)) , Lit::pos(v as u32) ) ) ; } v__vec };
    /*@ assert(fixes(sigma, moved@)); @*/
    if { let mut m__all = true ; let mut m__k : usize = 0 ; while m__k < moved . len ( )
        /*@ invariant_except_break m__all, m__k <= moved@.len(), forall|j: int| 0 <= j < m__k ==> !moved@[j],
        ensures m__all ==> forall|j: int| 0 <= j < moved@.len() ==> !moved@[j],
        decreases moved@.len() - m__k @*/
    { let m = moved [ m__k ] ; m__k += 1 ; if ! ( !m ) { m__all = false ; break ; } } m__all } {
        /*@ proof {
            assert forall|x: int| 0 <= x < clauses@.len() implies maps(clauses@, sigma, (#[trigger] clauses@[x])@) by { assert(lits_in(clauses@[x]@, nv as int)); lem_unmoved(clauses@, sigma, moved@, x); }
        } @*/
        return true;
    }
    let set: KeySet = key_set(clauses);
    let mut c__i : usize = 0 ; while c__i < clauses . len ( )
        /*@ invariant
            c__i <= clauses@.len(), nv == sigma.img().len() == moved@.len(), all_in(clauses@, sigma.img().len() as int), set.of() == clauses@,
            fixes(sigma, moved@),
            forall|j: int| 0 <= j < c__i ==> maps(clauses@, sigma, (#[trigger] clauses@[j])@),
        decreases clauses@.len() - c__i @*/
    { let c = & clauses [ c__i ] ; c__i += 1 ;
        let touches_support =
        { let mut l__any = false ; let mut l__k : usize = 0 ; while l__k < c . len ( )
            /*@ invariant_except_break !l__any, l__k <= c@.len(), forall|j: int| 0 <= j < l__k ==> !moved@[(#[trigger] c@[j]).v()],
            invariant lits_in(c@, nv as int), nv == moved@.len(),
            ensures !l__any ==> forall|j: int| 0 <= j < c@.len() ==> !moved@[(#[trigger] c@[j]).v()],
            decreases c@.len() - l__k @*/
        { let l = & c [ l__k ] ; l__k += 1 ; if ( (l.var() as usize) < nv && moved[l.var() as usize] ) { l__any = true ; break ; } } l__any };
        /*@ assert(c@ == clauses@[c__i - 1]@); assert(lits_in(c@, nv as int));
        assert forall|r: Seq<Lit>, k: Seq<u32>| #[trigger] image(sigma, c@, r) && #[trigger] coded(r, k) && key_in(clauses@, k) implies maps(clauses@, sigma, c@) by { lem_moved(clauses@, sigma, c@, r, k); } @*/
        if touches_support && !set.has(&clause_key(&sigma.apply_clause(c))) {
            return false;
        }
        /*@ proof { if !touches_support { lem_unmoved(clauses@, sigma, moved@, c__i - 1); } } @*/
    }
    /*@ proof { assert forall|m: Model| holds_all(m, clauses@) implies holds_all(through(m, sigma), clauses@) by {
        assert forall|i: int| 0 <= i < clauses@.len() implies holds_clause(through(m, sigma), (#[trigger] clauses@[i])@) by { assert(maps(clauses@, sigma, clauses@[i]@)); } } } @*/
    true
}
//#FN crates/logicaffeine_proof/src/pr.rs :: fn up_conflict | ren_assume,rup_path,forwhile
fn up_conflict(num_vars: usize, db: &[Vec<Lit>], assumed: &[Lit]) -> /*@ (r: @*/ bool /*@ )
    requires all_in(db@, num_vars as int), lits_in(assumed@, num_vars as int)
    ensures r ==> forall|m: Model| holds_all(m, db@) ==> exists|i: int| 0 <= i < assumed@.len() && !holds(m, #[trigger] assumed@[i]) @*/ {
    let mut assign: Vec<Option<bool>> = vec![None; num_vars];
    /*@ let ghost total = |m: Model| forall|i: int| 0 <= i < assumed@.len() ==> holds(m, #[trigger] assumed@[i]); @*/
    let mut l__r__i : usize = 0 ; while l__r__i < assumed . len ( )
        /*@ invariant
            l__r__i <= assumed@.len(), assign@.len() == num_vars, lits_in(assumed@, num_vars as int),
            total == (|m: Model| forall|i: int| 0 <= i < assumed@.len() ==> holds(m, #[trigger] assumed@[i])),
            forall|m: Model| total(m) ==> agrees(m, assign@),
        decreases assumed@.len() - l__r__i @*/
    { let l__r = & assumed [ l__r__i ] ; l__r__i += 1 ; let l = * l__r ;
        /*@ let ghost a0 = assign@; @*/
        if !crate::set_true(&mut assign, l) {
            /*@ proof { assert forall|m: Model| holds_all(m, db@) implies exists|i: int| 0 <= i < assumed@.len() && !holds(m, #[trigger] assumed@[i]) by {
                if total(m) { assert(agrees(m, a0)); assert(holds(m, assumed@[l__r__i - 1])); assert(a0[l.v()] is Some); assert(false); }
            } } @*/
            return true;
        }
        /*@ proof { assert forall|m: Model| total(m) implies agrees(m, assign@) by {
            assert(agrees(m, a0)); assert(holds(m, assumed@[l__r__i - 1]));
            assert forall|v: int| 0 <= v < assign@.len() && (#[trigger] assign@[v]) is Some implies m(v) == assign@[v].unwrap() by {
                if v != l.v() { assert(a0[v] == assign@[v]); }
            }
        } } @*/
    }
    crate::propagate(db, &mut assign)
}
//#FN crates/logicaffeine_proof/src/pr.rs :: fn substitution_sr | ren_assume,perm_path,sd_path,iterloop
fn substitution_sr(num_vars: usize, db: &[Vec<Lit>], clause: &[Lit], sigma: &Perm) -> /*@ (r: @*/ bool /*@ )
    requires all_in(db@, num_vars as int), lits_in(clause@, num_vars as int), sigma.covers(num_vars as int)
    ensures r ==> redundant(db@, clause@) @*/ {
    if !crate::perm_is_automorphism(db, sigma) {
        return false;
    }
    let sigma_c = sigma.apply_clause(clause);
    let mut assumed: Vec<Lit> = { let mut l__vec /*@ : Vec<Lit> @*/ = Vec :: new ( ) ; let mut l__k : usize = 0 ; while l__k < clause . len ( )
        /*@ invariant l__k <= clause@.len(), l__vec@.len() == l__k, forall|i: int| 0 <= i < l__k ==> (#[trigger] l__vec@[i]).v() == clause@[i].v() && l__vec@[i].p() == !clause@[i].p(),
        decreases clause@.len() - l__k @*/
    { let l = & clause [ l__k ] ; l__k += 1 ; l__vec . push ( l.negated() ) ; } l__vec };
    { let mut l__k : usize = 0 ; while l__k < sigma_c . len ( )
        /*@ invariant l__k <= sigma_c@.len(), sigma_c@.len() == clause@.len(), assumed@.len() == clause@.len() + l__k,
            forall|i: int| 0 <= i < clause@.len() ==> (#[trigger] assumed@[i]).v() == clause@[i].v() && assumed@[i].p() == !clause@[i].p(),
            forall|i: int| clause@.len() <= i < assumed@.len() ==> (#[trigger] assumed@[i]).v() == sigma_c@[i - clause@.len()].v() && assumed@[i].p() == !sigma_c@[i - clause@.len()].p(),
        decreases sigma_c@.len() - l__k @*/
    { let l = & sigma_c [ l__k ] ; l__k += 1 ; assumed . push ( l.negated() ) ; } };
    /*@ proof {
        let n = clause@.len() as int;
        if forall|m: Model| holds_all(m, db@) ==> exists|i: int| 0 <= i < assumed@.len() && !holds(m, #[trigger] assumed@[i]) {
            assert forall|m: Model| #[trigger] holds_all(m, db@) implies exists|w: Model| #[trigger] holds_all(w, db@) && holds_clause(w, clause@) by {
                let i = choose|i: int| 0 <= i < assumed@.len() && !holds(m, #[trigger] assumed@[i]);
                if i < n {
                    assert(holds(m, clause@[i]));
                    assert(holds_all(m, db@) && holds_clause(m, clause@));
                } else {
                    assert(holds(m, sigma_c@[i - n]));
                    lem_through(m, sigma, clause@, sigma_c@);
                    assert(holds_all(through(m, sigma), db@));
                }
            }
        }
    } @*/
    up_conflict(num_vars, db, &assumed)
}
//#RAW
// the model with the witness laid over it
spec fn over(m: Model, w: Seq<Option<bool>>) -> Model { |v: int| if 0 <= v < w.len() && w[v] is Some { w[v].unwrap() } else { m(v) } }
//#FN crates/logicaffeine_proof/src/pr.rs :: fn assignment_pr | ren_assume,rup_path,clone_alpha,forwhile,iterloop
fn assignment_pr(num_vars: usize, db: &[Vec<Lit>], clause: &[Lit], omega_true: &[Lit]) -> /*@ (r: @*/ bool /*@ )
    requires all_in(db@, num_vars as int), lits_in(clause@, num_vars as int), lits_in(omega_true@, num_vars as int)
    ensures r ==> redundant(db@, clause@) @*/ {
    let mut omega: Vec<Option<bool>> = vec![None; num_vars];
    let mut l__r__i : usize = 0 ; while l__r__i < omega_true . len ( )
        /*@ invariant l__r__i <= omega_true@.len(), omega@.len() == num_vars, lits_in(omega_true@, num_vars as int),
        decreases omega_true@.len() - l__r__i @*/
    { let l__r = & omega_true [ l__r__i ] ; l__r__i += 1 ; let l = * l__r ;
        if !crate::set_true(&mut omega, l) {
            return false;
        }
    }
    if !{ let mut l__any = false ; let mut l__k : usize = 0 ; while l__k < clause . len ( )
        /*@ invariant_except_break !l__any, l__k <= clause@.len(),
        invariant lits_in(clause@, num_vars as int), omega@.len() == num_vars,
        ensures l__any ==> exists|i: int| 0 <= i < clause@.len() && value(omega@, #[trigger] clause@[i]) == Some(true),
        decreases clause@.len() - l__k @*/
    { let l = clause [ l__k ] ; l__k += 1 ; if ( crate::lit_val(&omega, l) == Some(true) ) { /*@ assert(value(omega@, clause@[l__k - 1]) == Some(true)); @*/ l__any = true ; break ; } } l__any } {
        return false;
    }
    let alpha: Vec<Lit> = { let mut l__vec /*@ : Vec<Lit> @*/ = Vec :: new ( ) ; let mut l__k : usize = 0 ; while l__k < clause . len ( )
        /*@ invariant l__k <= clause@.len(), l__vec@.len() == l__k, forall|i: int| 0 <= i < l__k ==> (#[trigger] l__vec@[i]).v() == clause@[i].v() && l__vec@[i].p() == !clause@[i].p(),
        decreases clause@.len() - l__k @*/
    { let l = clause [ l__k ] ; l__k += 1 ; l__vec . push ( l.negated() ) ; } l__vec };
    /*@ assert forall|m: Model| holds_clause(over(m, omega@), clause@) by {
        let i = choose|i: int| 0 <= i < clause@.len() && value(omega@, #[trigger] clause@[i]) == Some(true);
        assert(holds(over(m, omega@), clause@[i]));
    } @*/
    let mut d__i : usize = 0 ; while d__i < db . len ( )
        /*@ invariant d__i <= db@.len(), omega@.len() == num_vars, all_in(db@, num_vars as int), lits_in(clause@, num_vars as int),
            alpha@.len() == clause@.len(), forall|i: int| 0 <= i < clause@.len() ==> (#[trigger] alpha@[i]).v() == clause@[i].v() && alpha@[i].p() == !clause@[i].p(),
            forall|m: Model, j: int| holds_all(m, db@) && !holds_clause(m, clause@) && 0 <= j < d__i ==> #[trigger] holds_clause(over(m, omega@), db@[j]@),
        decreases db@.len() - d__i @*/
    { let d = & db [ d__i ] ; d__i += 1 ;
        /*@ assert(d@ == db@[d__i - 1]@); assert(lits_in(d@, num_vars as int)); @*/
        if { let mut m__any = false ; let mut m__k : usize = 0 ; while m__k < d . len ( )
            /*@ invariant_except_break !m__any, m__k <= d@.len(),
            invariant lits_in(d@, num_vars as int), omega@.len() == num_vars,
            ensures m__any ==> exists|i: int| 0 <= i < d@.len() && value(omega@, #[trigger] d@[i]) == Some(true),
            decreases d@.len() - m__k @*/
        { let m = d [ m__k ] ; m__k += 1 ; if ( crate::lit_val(&omega, m) == Some(true) ) { /*@ assert(value(omega@, d@[m__k - 1]) == Some(true)); @*/ m__any = true ; break ; } } m__any } {
            /*@ assert forall|m: Model| holds_clause(over(m, omega@), d@) by {
                let i = choose|i: int| 0 <= i < d@.len() && value(omega@, #[trigger] d@[i]) == Some(true);
                assert(holds(over(m, omega@), d@[i]));
            } @*/
            continue;
        }
        let mut assumed = lits_to_vec(&alpha);
        let mut m__r__i : usize = 0 ; while m__r__i < d . len ( )
            /*@ invariant m__r__i <= d@.len(), lits_in(d@, num_vars as int), omega@.len() == num_vars, alpha@.len() <= assumed@.len(),
                lits_in(assumed@, num_vars as int),
                forall|i: int| 0 <= i < alpha@.len() ==> #[trigger] assumed@[i] == alpha@[i],
                forall|i: int| alpha@.len() <= i < assumed@.len() ==> exists|j: int| 0 <= j < d@.len() && value(omega@, #[trigger] d@[j]) is None && d@[j].v() == (#[trigger] assumed@[i]).v() && d@[j].p() == !assumed@[i].p(),
            decreases d@.len() - m__r__i @*/
        { let m__r = & d [ m__r__i ] ; m__r__i += 1 ; let m = * m__r ;
            /*@ let ghost as0 = assumed@; @*/
            if crate::lit_val(&omega, m).is_none() {
                assumed.push(m.negated());
                /*@ proof {
                    assert forall|i: int| alpha@.len() <= i < assumed@.len() implies exists|j: int| 0 <= j < d@.len() && value(omega@, #[trigger] d@[j]) is None && d@[j].v() == (#[trigger] assumed@[i]).v() && d@[j].p() == !assumed@[i].p() by {
                        if i < as0.len() { assert(assumed@[i] == as0[i]); } else { assert(value(omega@, d@[m__r__i - 1]) is None); }
                    }
                } @*/
            }
        }
        if !up_conflict(num_vars, db, &assumed) {
            return false;
        }
        /*@ proof {
            assert forall|m: Model| holds_all(m, db@) && !holds_clause(m, clause@) implies holds_clause(over(m, omega@), d@) by {
                let i = choose|i: int| 0 <= i < assumed@.len() && !holds(m, #[trigger] assumed@[i]);
                if i < alpha@.len() { assert(assumed@[i] == alpha@[i]); assert(holds(m, clause@[i])); }
                else {
                    let j = choose|j: int| 0 <= j < d@.len() && value(omega@, #[trigger] d@[j]) is None && d@[j].v() == assumed@[i].v() && d@[j].p() == !assumed@[i].p();
                    assert(holds(over(m, omega@), d@[j]));
                }
            }
        } @*/
    }
    /*@ proof {
        assert forall|m: Model| #[trigger] holds_all(m, db@) implies exists|w: Model| #[trigger] holds_all(w, db@) && holds_clause(w, clause@) by {
            if holds_clause(m, clause@) { assert(holds_all(m, db@) && holds_clause(m, clause@)); }
            else { assert(holds_all(over(m, omega@), db@)); assert(holds_clause(over(m, omega@), clause@)); }
        }
    } @*/
    true
}
//#RAW
spec fn witness_in(w: Witness, n: int) -> bool {
    match w { Witness::Assignment(o) => lits_in(o@, n), Witness::Substitution(s) => s.covers(n) }
}
spec fn step_in(s: ProofStep, n: int) -> bool {
    match s { ProofStep::Rup(c) => lits_in(c@, n), ProofStep::Pr { clause, witness } => lits_in(clause@, n) && witness_in(witness, n), ProofStep::Delete(c) => true }
}
spec fn steps_in(s: Seq<ProofStep>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> step_in(#[trigger] s[i], n) }
//#FN crates/logicaffeine_proof/src/pr.rs :: fn canon_clause | iterloop,sort_dedup,bool_u32
fn canon_clause(c: &[Lit]) -> /*@ (r: @*/ Vec<u32> /*@ ) ensures coded(c@, r@) @*/ {
    let mut k: Vec<u32> = { let mut l__vec /*@ : Vec<u32> @*/ = Vec :: new ( ) ; let mut l__k : usize = 0 ; while l__k < c . len ( )
        /*@ invariant l__k <= c@.len(), l__vec@.len() == l__k, forall|i: int| 0 <= i < l__k ==> #[trigger] l__vec@[i] == c@[i].code(),
        decreases c@.len() - l__k @*/
    { let l = & c [ l__k ] ; l__k += 1 ;
        /*@ proof { let x = l.0; assert((x >> 1) * 2 + (if x & 1 == 0 { 0u32 } else { 1u32 }) == x && (x >> 1) <= 0x7fff_ffff) by (bit_vector); } @*/
        l__vec . push ( l.var() * 2 + bool_to_u32(!l.is_positive()) ) ; } l__vec };
    /*@ let ghost k0 = k@;
    proof { assert(coded(c@, k0)) by {
        assert forall|x: u32| k0.contains(x) <==> exists|i: int| 0 <= i < c@.len() && (#[trigger] c@[i]).code() == x by {
            if k0.contains(x) { let i = choose|i: int| 0 <= i < k0.len() && k0[i] == x; assert(c@[i].code() == x); }
            if exists|i: int| 0 <= i < c@.len() && (#[trigger] c@[i]).code() == x { let i = choose|i: int| 0 <= i < c@.len() && (#[trigger] c@[i]).code() == x; assert(k0[i] == x); }
        }
    } } @*/
    sort_dedup(&mut k);
    k
}
//#FN crates/logicaffeine_proof/src/pr.rs :: fn is_pr
fn is_pr(num_vars: usize, db: &[Vec<Lit>], clause: &[Lit], witness: &Witness) -> /*@ (r: @*/ bool /*@ )
    requires all_in(db@, num_vars as int), lits_in(clause@, num_vars as int), witness_in(*witness, num_vars as int)
    ensures r ==> redundant(db@, clause@) @*/ {
    match witness {
        Witness::Assignment(omega) => assignment_pr(num_vars, db, clause, omega),
        Witness::Substitution(sigma) => substitution_sr(num_vars, db, clause, sigma),
    }
}
//#RAW
proof fn lem_pushed(d0: Seq<Vec<Lit>>, d1: Seq<Vec<Lit>>, c: Seq<Lit>, n: int)
    requires d1.len() == d0.len() + 1, forall|i: int| 0 <= i < d0.len() ==> d1[i] == d0[i], d1[d0.len() as int]@ == c, all_in(d0, n), lits_in(c, n)
    ensures all_in(d1, n), forall|m: Model| holds_all(m, d0) && holds_clause(m, c) ==> holds_all(m, d1)
{
    assert forall|i: int| 0 <= i < d1.len() implies lits_in((#[trigger] d1[i])@, n) by { if i < d0.len() { assert(d1[i] == d0[i]); } }
    assert forall|m: Model| holds_all(m, d0) && holds_clause(m, c) implies holds_all(m, d1) by {
        assert forall|i: int| 0 <= i < d1.len() implies holds_clause(m, (#[trigger] d1[i])@) by { if i < d0.len() { assert(d1[i] == d0[i]); } }
    }
}
//#FN crates/logicaffeine_proof/src/pr.rs :: fn check_pr_refutation | rup_path,to_vec,clone_c,clone_clause,same_key,forwhile,iterloop
fn check_pr_refutation(num_vars: usize, original: &[Vec<Lit>], steps: &[ProofStep]) -> /*@ (r: @*/ bool /*@ )
    requires all_in(original@, num_vars as int), steps_in(steps@, num_vars as int)
    ensures r ==> !satisfiable(original@) @*/ {
    let mut db: Vec<Vec<Lit>> = clauses_to_vec(original);
    /*@ proof { if satisfiable(original@) { let m = choose|m: Model| holds_all(m, original@); assert(holds_all(m, db@)); } } @*/
    let mut step__i : usize = 0 ; while step__i < steps . len ( )
        /*@ invariant step__i <= steps@.len(), all_in(db@, num_vars as int), steps_in(steps@, num_vars as int),
            satisfiable(original@) ==> satisfiable(db@),
        decreases steps@.len() - step__i @*/
    { let step = & steps [ step__i ] ; step__i += 1 ;
        /*@ let ghost d0 = db@; assert(step_in(*step, num_vars as int)); @*/
        match step {
            ProofStep::Rup(c) => {
                if !crate::is_rup(num_vars, &db, c) {
                    return false;
                }
                db.push(lits_to_vec(c));
                /*@ proof { lem_pushed(d0, db@, c@, num_vars as int);
                    if satisfiable(d0) { let m = choose|m: Model| holds_all(m, d0); assert(holds_all(m, db@)); } } @*/
            }
            ProofStep::Pr { clause, witness } => {
                if !is_pr(num_vars, &db, clause, witness) {
                    return false;
                }
                db.push(lits_to_vec(clause));
                /*@ proof { lem_pushed(d0, db@, clause@, num_vars as int);
                    if satisfiable(d0) { let m = choose|m: Model| holds_all(m, d0); let w = choose|w: Model| #[trigger] holds_all(w, d0) && holds_clause(w, clause@); assert(holds_all(w, db@)); } } @*/
            }
            ProofStep::Delete(clause) => {
                let key = canon_clause(clause);
                if let Some(pos) = { let mut d__position : Option < usize > = None ; let mut d__k : usize = 0 ; while d__k < db . len ( )
                    /*@ invariant_except_break d__position is None,
                    invariant d__k <= db@.len(), db@ == d0,
                    ensures d__position is Some ==> d__position.unwrap() < db@.len(), db@ == d0,
                    decreases db@.len() - d__k @*/
                { let d = & db [ d__k ] ; d__k += 1 ; if ( same_key ( & canon_clause ( d ) , & key ) ) { d__position = Some ( d__k - 1 ) ; break ; } } d__position } {
                    db.swap_remove(pos);
                    /*@ proof {
                        assert forall|i: int| 0 <= i < db@.len() implies exists|j: int| 0 <= j < d0.len() && #[trigger] d0[j] == (#[trigger] db@[i]) by {
                            if i == pos { assert(db@[i] == d0[d0.len() - 1]); } else { assert(db@[i] == d0[i]); }
                        }
                        assert forall|i: int| 0 <= i < db@.len() implies lits_in((#[trigger] db@[i])@, num_vars as int) by { let j = choose|j: int| 0 <= j < d0.len() && #[trigger] d0[j] == db@[i]; assert(lits_in(d0[j]@, num_vars as int)); }
                        if satisfiable(d0) { let m = choose|m: Model| holds_all(m, d0);
                            assert forall|i: int| 0 <= i < db@.len() implies holds_clause(m, (#[trigger] db@[i])@) by { let j = choose|j: int| 0 <= j < d0.len() && #[trigger] d0[j] == db@[i]; assert(holds_clause(m, d0[j]@)); }
                            assert(holds_all(m, db@)); }
                    } @*/
                }
            }
        }
    }
    /*@ proof { assert forall|m: Model| !holds_clause(m, Seq::<Lit>::empty()) by {} } @*/
    crate::is_rup(num_vars, &db, &[])
}
//#RAW
fn main() {}
}
