//#SUBST upsert: knowledge.entry(node).and_modify(|iv| *iv = iv.intersect(&interval)).or_insert(interval); =>> meet_entry(&mut knowledge, node, interval);
//#SUBST maxhlc: self.hlc.max(other.hlc) =>> hlc_max(self.hlc, other.hlc)
//#SUBST copymap: self.knowledge.clone() =>> copy_map(&self.knowledge)
//#SUBST newmap: std::collections::BTreeMap::new() =>> BTreeMap::new()
//#SUBST formap: for (&node, &interval) in &other.knowledge { =>> let ents = entries(&other.knowledge); let mut e__i: usize = 0; while e__i < ents.len() { let node = ents[e__i].0; let interval = ents[e__i].1; e__i += 1;
//#RAW
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
verus! {
global size_of usize == 8;
broadcast use vstd::std_specs::btree::group_btree_axioms;
//#RAW
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
//#ITEM crates/logicaffeine_base/src/temporal.rs :: struct Hlc
//#RAW
#[derive(Clone, Copy)]
//#ITEM crates/logicaffeine_base/src/temporal.rs :: struct EstimateInterval
//#ITEM crates/logicaffeine_base/src/temporal.rs :: struct SyncClock
//#RAW
// the order of timestamps: by physical time, then by counter
spec fn lt(a: Hlc, b: Hlc) -> bool { a.physical_nanos < b.physical_nanos || (a.physical_nanos == b.physical_nanos && a.logical < b.logical) }
spec fn room(a: Hlc) -> bool { a.physical_nanos < i64::MAX }
spec fn larger(a: Hlc, b: Hlc) -> Hlc { if lt(a, b) { b } else { a } }
impl Hlc {
//#ITEM crates/logicaffeine_base/src/temporal.rs :: impl Hlc :: const ZERO
//#FN crates/logicaffeine_base/src/temporal.rs :: impl Hlc :: fn tick
fn tick(self, now_nanos: i64) -> /*@ (r: @*/ Hlc /*@ )
    requires room(self)
    ensures lt(self, r), r.physical_nanos >= now_nanos @*/ {
    let physical = self.physical_nanos.max(now_nanos);
    if physical == self.physical_nanos {
        Hlc::after(physical, self.logical)
    } else {
        Hlc { physical_nanos: physical, logical: 0 }
    }
}
//#FN crates/logicaffeine_base/src/temporal.rs :: impl Hlc :: fn recv
fn recv(self, remote: Hlc, now_nanos: i64) -> /*@ (r: @*/ Hlc /*@ )
    requires room(self), room(remote)
    ensures lt(self, r), lt(remote, r), r.physical_nanos >= now_nanos @*/ {
    let physical = self.physical_nanos.max(remote.physical_nanos).max(now_nanos);
    if physical == self.physical_nanos && physical == remote.physical_nanos {
        Hlc::after(physical, self.logical.max(remote.logical))
    } else if physical == self.physical_nanos {
        Hlc::after(physical, self.logical)
    } else if physical == remote.physical_nanos {
        Hlc::after(physical, remote.logical)
    } else {
        Hlc { physical_nanos: physical, logical: 0 }
    }
}
//#FN crates/logicaffeine_base/src/temporal.rs :: impl Hlc :: fn after
fn after(physical: i64, logical: u32) -> /*@ (r: @*/ Hlc /*@ )
    requires physical < i64::MAX
    ensures lt(Hlc { physical_nanos: physical, logical: logical }, r), r.physical_nanos >= physical, logical < u32::MAX ==> r.physical_nanos == physical @*/ {
    match logical.checked_add(1) {
        Some(logical) => Hlc { physical_nanos: physical, logical },
        None => Hlc { physical_nanos: physical + 1, logical: 0 },
    }
}
//#RAW
}
spec fn smin(a: i64, b: i64) -> i64 { if a <= b { a } else { b } }
spec fn smax(a: i64, b: i64) -> i64 { if a >= b { a } else { b } }
spec fn meet(a: EstimateInterval, b: EstimateInterval) -> EstimateInterval { EstimateInterval { lower_nanos: smax(a.lower_nanos, b.lower_nanos), upper_nanos: smin(a.upper_nanos, b.upper_nanos) } }
spec fn within(a: EstimateInterval, t: int) -> bool { a.lower_nanos <= t <= a.upper_nanos }
proof fn lem_meet(a: EstimateInterval, b: EstimateInterval, c: EstimateInterval)
    ensures meet(a, b) == meet(b, a), meet(meet(a, b), c) == meet(a, meet(b, c)), meet(a, a) == a, forall|t: int| #[trigger] within(meet(a, b), t) <==> within(a, t) && within(b, t) {}
impl EstimateInterval {
//#FN crates/logicaffeine_base/src/temporal.rs :: impl EstimateInterval :: fn new
fn new(lower_nanos: i64, upper_nanos: i64) -> /*@ (r: @*/ Self /*@ ) ensures r.lower_nanos == lower_nanos, r.upper_nanos == upper_nanos @*/ {
    EstimateInterval { lower_nanos, upper_nanos }
}
//#FN crates/logicaffeine_base/src/temporal.rs :: impl EstimateInterval :: fn width
fn width(&self) -> /*@ (r: @*/ i64 /*@ ) requires i64::MIN <= self.upper_nanos - self.lower_nanos <= i64::MAX ensures r == self.upper_nanos - self.lower_nanos @*/ {
    self.upper_nanos - self.lower_nanos
}
//#FN crates/logicaffeine_base/src/temporal.rs :: impl EstimateInterval :: fn contains
fn contains(&self, t: i64) -> /*@ (r: @*/ bool /*@ ) ensures r == within(*self, t as int) @*/ {
    self.lower_nanos <= t && t <= self.upper_nanos
}
//#FN crates/logicaffeine_base/src/temporal.rs :: impl EstimateInterval :: fn intersect
fn intersect(&self, other: &EstimateInterval) -> /*@ (r: @*/ EstimateInterval /*@ ) ensures r == meet(*self, *other) @*/ {
    EstimateInterval {
        lower_nanos: self.lower_nanos.max(other.lower_nanos),
        upper_nanos: self.upper_nanos.min(other.upper_nanos),
    }
}
//#RAW
}
type Know = Map<u64, EstimateInterval>;
spec fn obs(m: Know, k: u64, v: EstimateInterval) -> Know { if m.dom().contains(k) { m.insert(k, meet(m[k], v)) } else { m.insert(k, v) } }
// what both sides know, per node
spec fn join(a: Know, b: Know) -> Know { Map::new(a.dom().union(b.dom()), |k: u64| if a.dom().contains(k) && b.dom().contains(k) { meet(a[k], b[k]) } else if a.dom().contains(k) { a[k] } else { b[k] }) }
spec fn merged(a: SyncClock, b: SyncClock, r: SyncClock) -> bool { r.knowledge@ =~= join(a.knowledge@, b.knowledge@) && r.hlc == larger(a.hlc, b.hlc) }
// the lattice laws
proof fn lem_laws(a: Know, b: Know, c: Know) ensures join(a, b) == join(b, a), join(join(a, b), c) == join(a, join(b, c)), join(a, a) == a
{
    assert forall|k: u64| true implies meet(a[k], b[k]) == meet(b[k], a[k]) && meet(meet(a[k], b[k]), c[k]) == meet(a[k], meet(b[k], c[k])) && meet(a[k], a[k]) == a[k] by { lem_meet(a[k], b[k], c[k]); }
    assert(join(a, b) =~= join(b, a)); assert(join(join(a, b), c) =~= join(a, join(b, c))); assert(join(a, a) =~= a);
}
proof fn lem_larger(a: Hlc, b: Hlc, c: Hlc) ensures larger(a, b) == larger(b, a), larger(larger(a, b), c) == larger(a, larger(b, c)), larger(a, a) == a, !lt(larger(a, b), a), !lt(larger(a, b), b) {}
// merging keeps every node and never widens
proof fn lem_never_widens(a: Know, b: Know, k: u64, t: int)
    ensures a.dom().contains(k) ==> join(a, b).dom().contains(k) && (within(join(a, b)[k], t) ==> within(a[k], t)), b.dom().contains(k) ==> join(a, b).dom().contains(k) && (within(join(a, b)[k], t) ==> within(b[k], t)) {}
// std: maximum by the derived (lexicographic) order, and a map's copy (trusted specifications)
#[verifier::external_body]
fn hlc_max(a: Hlc, b: Hlc) -> (r: Hlc) ensures r == larger(a, b) { a.max(b) }
fn meet_entry(m: &mut BTreeMap<u64, EstimateInterval>, node: u64, interval: EstimateInterval)
    ensures final(m)@ == obs(old(m)@, node, interval)
{
    let v = match m.get(&node) { Some(iv) => iv.intersect(&interval), None => interval };
    m.insert(node, v);
}
#[verifier::external_body]
fn copy_map(m: &BTreeMap<u64, EstimateInterval>) -> (r: BTreeMap<u64, EstimateInterval>) ensures r@ == m@ { m.clone() }
fn entries(m: &BTreeMap<u64, EstimateInterval>) -> (r: Vec<(u64, EstimateInterval)>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1,
        forall|k: u64| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
{
    let mut v: Vec<(u64, EstimateInterval)> = Vec::new();
    let it0 = m.iter();
    let ghost s = IteratorSpec::remaining(&it0);
    assert(forall|k: u64| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k);
    for (a, b) in it: it0
        invariant v@.len() == it.index@, s == it.seq(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 == *s[i].0 && v@[i].1 == *s[i].1,
    { v.push((*a, *b)); }
    proof {
        assert(v@.len() == s.len());
        assert forall|k: u64| #[trigger] m@.contains_key(k) implies exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0 == k by { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(v@[i].0 == k); }
    }
    v
}
impl SyncClock {
//#FN crates/logicaffeine_base/src/temporal.rs :: impl SyncClock :: fn new | newmap
fn new() -> /*@ (r: @*/ Self /*@ ) ensures r.knowledge@ =~= Map::<u64, EstimateInterval>::empty(), r.hlc.physical_nanos == 0, r.hlc.logical == 0 @*/ {
    SyncClock { hlc: Hlc::ZERO, knowledge: BTreeMap::new() }
}
//#FN crates/logicaffeine_base/src/temporal.rs :: impl SyncClock :: fn tick | copymap
fn tick(&self, now_nanos: i64) -> /*@ (r: @*/ SyncClock /*@ )
    requires room(self.hlc)
    ensures lt(self.hlc, r.hlc), r.hlc.physical_nanos >= now_nanos, r.knowledge@ == self.knowledge@ @*/ {
    SyncClock { hlc: self.hlc.tick(now_nanos), knowledge: copy_map(&self.knowledge) }
}
//#FN crates/logicaffeine_base/src/temporal.rs :: impl SyncClock :: fn observe | copymap, upsert
fn observe(&self, node: u64, interval: EstimateInterval) -> /*@ (r: @*/ SyncClock /*@ )
    ensures r.hlc == self.hlc, r.knowledge@ == obs(self.knowledge@, node, interval), r.knowledge@ =~= join(self.knowledge@, Map::empty().insert(node, interval)) @*/ {
    let mut knowledge = copy_map(&self.knowledge);
    meet_entry(&mut knowledge, node, interval);
    SyncClock { hlc: self.hlc, knowledge }
}
//#FN crates/logicaffeine_base/src/temporal.rs :: impl SyncClock :: fn merge | copymap, upsert, maxhlc, formap
fn merge(&self, other: &SyncClock) -> /*@ (r: @*/ SyncClock /*@ )
    ensures merged(*self, *other, r) @*/ {
    let mut knowledge = copy_map(&self.knowledge);
    let ents = entries(&other.knowledge); let mut e__i: usize = 0; while e__i < ents.len()
        /*@ invariant
            e__i <= ents@.len(),
            forall|i: int| 0 <= i < ents@.len() ==> other.knowledge@.contains_key((#[trigger] ents@[i]).0) && other.knowledge@[ents@[i].0] == ents@[i].1,
            knowledge@ =~= join(self.knowledge@, part(ents@, e__i as int)),
        decreases ents@.len() - e__i @*/
    { let node = ents[e__i].0; let interval = ents[e__i].1; e__i += 1;
        /*@ proof { lem_part(ents@, e__i - 1); lem_part_dom(ents@, e__i - 1, other.knowledge@); lem_meet(self.knowledge@[node], interval, interval); } @*/
        meet_entry(&mut knowledge, node, interval);
    }
    /*@ proof {
        lem_part_dom(ents@, ents@.len() as int, other.knowledge@);
        assert(part(ents@, ents@.len() as int) =~= other.knowledge@) by {
            assert forall|k: u64| other.knowledge@.contains_key(k) implies part(ents@, ents@.len() as int).contains_key(k) by { let i = choose|i: int| 0 <= i < ents@.len() && (#[trigger] ents@[i]).0 == k; }
        }
    } @*/
    SyncClock { hlc: hlc_max(self.hlc, other.hlc), knowledge }
}
//#RAW
}
spec fn part(e: Seq<(u64, EstimateInterval)>, n: int) -> Know decreases n { if n <= 0 { Map::empty() } else { part(e, n - 1).insert(e[n - 1].0, e[n - 1].1) } }
proof fn lem_part(e: Seq<(u64, EstimateInterval)>, n: int) requires 0 <= n < e.len() ensures part(e, n + 1) == part(e, n).insert(e[n].0, e[n].1) {}
proof fn lem_part_dom(e: Seq<(u64, EstimateInterval)>, n: int, o: Know)
    requires 0 <= n <= e.len(), forall|i: int| 0 <= i < e.len() ==> o.contains_key((#[trigger] e[i]).0) && o[e[i].0] == e[i].1
    ensures forall|k: u64| #[trigger] part(e, n).contains_key(k) ==> o.contains_key(k) && part(e, n)[k] == o[k], forall|i: int| 0 <= i < n ==> part(e, n).contains_key((#[trigger] e[i]).0)
    decreases n
{ if n > 0 { lem_part_dom(e, n - 1, o); assert(o.contains_key(e[n - 1].0)); assert forall|k: u64| #[trigger] part(e, n).contains_key(k) implies o.contains_key(k) && part(e, n)[k] == o[k] by { if k != e[n - 1].0 { assert(part(e, n - 1).contains_key(k)); } } } }
fn main() {}
}
