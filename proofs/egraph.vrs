//#SUBST ids: self.use_list[ra].clone() =>> copy_ids(&self.use_list[ra])
//#SUBST ids2: self.use_list[rb].clone() =>> copy_ids(&self.use_list[rb])
//#SUBST ids3: self.use_list[func].clone() =>> copy_ids(&self.use_list[func])
//#RAW
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
global size_of usize == 8;
//#ITEM crates/logicaffeine_base/src/union_find.rs :: struct UnionFind
//#RAW
// number of self-parents among the first k elements
spec fn roots(p: Seq<usize>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { roots(p, k - 1) + if p[k - 1] == k - 1 { 1int } else { 0 } } }
spec fn wf(u: UnionFind) -> bool {
    u.parent@.len() == u.rank@.len()
    && (forall|i: int| 0 <= i < u.parent@.len() ==> (#[trigger] u.parent@[i]) < u.parent@.len())
    && (forall|i: int| 0 <= i < u.parent@.len() && (#[trigger] u.parent@[i]) != i ==> u.rank@[i] < u.rank@[u.parent@[i] as int])
    && (forall|i: int| 0 <= i < u.parent@.len() ==> (#[trigger] u.rank@[i]) + roots(u.parent@, u.parent@.len() as int) <= u.parent@.len())
}
spec fn el(u: UnionFind, x: int) -> bool { 0 <= x < u.parent@.len() }
spec fn root(u: UnionFind, x: int) -> int
    decreases u.parent@.len() - u.rank@[x] when wf(u) && el(u, x) via root_dec
{ if u.parent@[x] == x { x } else { root(u, u.parent@[x] as int) } }
#[via_fn]
proof fn root_dec(u: UnionFind, x: int) {
    assert(u.rank@[x] < u.rank@[u.parent@[x] as int] || u.parent@[x] == x);
    lem_count(u.parent@, u.parent@.len() as int);
    assert(u.rank@[u.parent@[x] as int] + roots(u.parent@, u.parent@.len() as int) <= u.parent@.len());
}
proof fn lem_up(u: UnionFind, x: int)
    requires wf(u), el(u, x), u.parent@[x] != x
    ensures u.rank@[x] < u.rank@[u.parent@[x] as int] <= u.parent@.len()
{ lem_count(u.parent@, u.parent@.len() as int); assert(u.rank@[u.parent@[x] as int] + roots(u.parent@, u.parent@.len() as int) <= u.parent@.len()); }
proof fn lem_count(p: Seq<usize>, k: int) ensures roots(p, k) >= 0 decreases k { if k > 0 { lem_count(p, k - 1); } }
// two elements are in the same set
spec fn same(u: UnionFind, a: int, b: int) -> bool { root(u, a) == root(u, b) }
proof fn lem_root(u: UnionFind, x: int)
    requires wf(u), el(u, x)
    ensures el(u, root(u, x)), u.parent@[root(u, x)] == root(u, x), u.rank@[x] <= u.rank@[root(u, x)], root(u, root(u, x)) == root(u, x), root(u, x) != x ==> u.rank@[x] < u.rank@[root(u, x)], u.parent@[x] != x ==> root(u, x) != x
    decreases u.parent@.len() - u.rank@[x]
{
    lem_count(u.parent@, u.parent@.len() as int);
    if u.parent@[x] != x { assert(u.rank@[u.parent@[x] as int] + roots(u.parent@, u.parent@.len() as int) <= u.parent@.len()); lem_root(u, u.parent@[x] as int); }
}
proof fn lem_roots_upd(p: Seq<usize>, x: int, v: usize, k: int)
    requires 0 <= x < p.len(), 0 <= k <= p.len()
    ensures roots(p.update(x, v), k) == roots(p, k) + if x < k { (if v == x { 1int } else { 0 }) - (if p[x] == x { 1int } else { 0 }) } else { 0 }
    decreases k
{ if k > 0 { lem_roots_upd(p, x, v, k - 1); } }
proof fn lem_roots_push(p: Seq<usize>, v: usize, k: int)
    requires 0 <= k <= p.len()
    ensures roots(p.push(v), k) == roots(p, k)
    decreases k
{ if k > 0 { lem_roots_push(p, v, k - 1); } }
// pointing a non-root at its root changes no root
proof fn lem_compress(s: UnionFind, t: UnionFind, x: int)
    requires wf(s), el(s, x), s.parent@[x] != x, t.rank@ == s.rank@, t.parent@ == s.parent@.update(x, root(s, x) as usize)
    ensures wf(t), forall|y: int| el(s, y) ==> #[trigger] root(t, y) == root(s, y), roots(t.parent@, t.parent@.len() as int) == roots(s.parent@, s.parent@.len() as int)
{
    lem_root(s, x);
    lem_roots_upd(s.parent@, x, root(s, x) as usize, s.parent@.len() as int);
    assert forall|i: int| 0 <= i < t.parent@.len() && (#[trigger] t.parent@[i]) != i implies t.rank@[i] < t.rank@[t.parent@[i] as int] by { if i != x { assert(s.parent@[i] == t.parent@[i]); } }
    assert(wf(t));
    assert forall|y: int| el(s, y) implies #[trigger] root(t, y) == root(s, y) by { lem_compress_at(s, t, x, y); }
}
proof fn lem_compress_at(s: UnionFind, t: UnionFind, x: int, y: int)
    requires wf(s), wf(t), el(s, x), el(s, y), s.parent@[x] != x, t.rank@ == s.rank@, t.parent@ == s.parent@.update(x, root(s, x) as usize)
    ensures root(t, y) == root(s, y)
    decreases s.parent@.len() - s.rank@[y]
{
    lem_root(s, x); lem_count(s.parent@, s.parent@.len() as int); lem_root(s, y);
    if y == x { let r = root(s, x); assert(t.parent@[r] == r); assert(root(t, r) == r); }
    else if s.parent@[y] != y { assert(s.rank@[s.parent@[y] as int] + roots(s.parent@, s.parent@.len() as int) <= s.parent@.len()); lem_compress_at(s, t, x, s.parent@[y] as int); }
}
// pointing the root a at the root b moves exactly a's set to b
proof fn lem_link_at(s: UnionFind, t: UnionFind, a: int, b: int, y: int)
    requires wf(s), wf(t), el(s, a), el(s, b), el(s, y), a != b, s.parent@[a] == a, s.parent@[b] == b, t.parent@ == s.parent@.update(a, b as usize)
    ensures root(t, y) == if root(s, y) == a { b } else { root(s, y) }
    decreases s.parent@.len() - s.rank@[y]
{
    lem_count(s.parent@, s.parent@.len() as int);
    assert(t.parent@[b] == b); assert(root(t, b) == b);
    if y != a && s.parent@[y] != y { assert(s.rank@[s.parent@[y] as int] + roots(s.parent@, s.parent@.len() as int) <= s.parent@.len()); lem_link_at(s, t, a, b, s.parent@[y] as int); }
}
proof fn lem_link(s: UnionFind, t: UnionFind, a: int, b: int)
    requires
        wf(s), el(s, a), el(s, b), a != b, s.parent@[a] == a, s.parent@[b] == b, t.parent@ == s.parent@.update(a, b as usize),
        (t.rank@ == s.rank@ && s.rank@[a] < s.rank@[b]) || (s.rank@[a] == s.rank@[b] && t.rank@ == s.rank@.update(b, (s.rank@[b] + 1) as usize) && s.rank@[b] < usize::MAX)
    ensures wf(t), roots(t.parent@, t.parent@.len() as int) == roots(s.parent@, s.parent@.len() as int) - 1, forall|y: int| el(s, y) ==> #[trigger] root(t, y) == if root(s, y) == a { b } else { root(s, y) }
{
    lem_roots_upd(s.parent@, a, b as usize, s.parent@.len() as int);
    assert forall|i: int| 0 <= i < t.parent@.len() && (#[trigger] t.parent@[i]) != i implies t.rank@[i] < t.rank@[t.parent@[i] as int] by { if i != a { assert(s.parent@[i] == t.parent@[i]); assert(i != b); } }
    assert forall|i: int| 0 <= i < t.parent@.len() implies (#[trigger] t.rank@[i]) + roots(t.parent@, t.parent@.len() as int) <= t.parent@.len() by { assert(s.rank@[i] + roots(s.parent@, s.parent@.len() as int) <= s.parent@.len()); }
    assert(wf(t));
    assert forall|y: int| el(s, y) implies #[trigger] root(t, y) == (if root(s, y) == a { b } else { root(s, y) }) by { lem_link_at(s, t, a, b, y); }
}
proof fn lem_make_at(s: UnionFind, t: UnionFind, y: int)
    requires wf(s), wf(t), el(s, y), t.parent@ == s.parent@.push(s.parent@.len() as usize), t.rank@ == s.rank@.push(0)
    ensures root(t, y) == root(s, y)
    decreases s.parent@.len() - s.rank@[y]
{
    lem_count(s.parent@, s.parent@.len() as int);
    if s.parent@[y] != y { assert(s.rank@[s.parent@[y] as int] + roots(s.parent@, s.parent@.len() as int) <= s.parent@.len()); lem_make_at(s, t, s.parent@[y] as int); }
}
impl UnionFind {
//#FN crates/logicaffeine_base/src/union_find.rs :: impl UnionFind :: fn new
    fn new() -> /*@ (r: @*/ Self /*@ )
        ensures wf(r), r.parent@.len() == 0 @*/ {
        UnionFind {
            parent: Vec::new(),
            rank: Vec::new(),
        }
    }
//#FN crates/logicaffeine_base/src/union_find.rs :: impl UnionFind :: fn make_set
    fn make_set(&mut self) -> /*@ (r: @*/ usize /*@ )
        requires wf(*old(self))
        ensures
            wf(*final(self)), r == old(self).parent@.len(), final(self).parent@.len() == old(self).parent@.len() + 1,
            root(*final(self), r as int) == r,
            forall|y: int| el(*old(self), y) ==> #[trigger] root(*final(self), y) == root(*old(self), y), @*/ {
        /*@ let ghost s = *self; @*/
        let id = self.parent.len();
        self.parent.push(id);
        self.rank.push(0);
        /*@ proof {
            let t = *self;
            let n = s.parent@.len() as int;
            lem_roots_push(s.parent@, id, n);
            assert(t.parent@[n] == n);
            assert(roots(t.parent@, n + 1) == roots(s.parent@, n) + 1);
            assert forall|i: int| 0 <= i < t.parent@.len() implies (#[trigger] t.parent@[i]) < t.parent@.len() by { if i < n { assert(s.parent@[i] < n); } }
            assert forall|i: int| 0 <= i < t.parent@.len() && (#[trigger] t.parent@[i]) != i implies t.rank@[i] < t.rank@[t.parent@[i] as int] by { assert(i < n); assert(s.parent@[i] == t.parent@[i]); }
            lem_roots_le(s.parent@, n);
            assert forall|i: int| 0 <= i < t.parent@.len() implies (#[trigger] t.rank@[i]) + roots(t.parent@, t.parent@.len() as int) <= t.parent@.len() by { if i < n { assert(s.rank@[i] + roots(s.parent@, n) <= n); } }
            assert forall|y: int| el(s, y) implies #[trigger] root(t, y) == root(s, y) by { lem_make_at(s, t, y); }
        } @*/
        id
    }
//#RAW
}
proof fn lem_roots_le(p: Seq<usize>, k: int) requires k >= 0 ensures roots(p, k) <= k decreases k { if k > 0 { lem_roots_le(p, k - 1); } }
impl UnionFind {
//#FN crates/logicaffeine_base/src/union_find.rs :: impl UnionFind :: fn len
    fn len(&self) -> /*@ (r: @*/ usize /*@ )
        ensures r == self.parent@.len() @*/ {
        self.parent.len()
    }
//#FN crates/logicaffeine_base/src/union_find.rs :: impl UnionFind :: fn is_empty
    fn is_empty(&self) -> /*@ (r: @*/ bool /*@ )
        ensures r == (self.parent@.len() == 0) @*/ {
        self.parent.is_empty()
    }
//#FN crates/logicaffeine_base/src/union_find.rs :: impl UnionFind :: fn find
    fn find(&mut self, x: usize) -> /*@ (r: @*/ usize /*@ )
        requires wf(*old(self)), el(*old(self), x as int)
        ensures
            r == root(*old(self), x as int), el(*final(self), r as int), wf(*final(self)), final(self).parent@.len() == old(self).parent@.len(),
            final(self).rank@ == old(self).rank@,
            roots(final(self).parent@, final(self).parent@.len() as int) == roots(old(self).parent@, old(self).parent@.len() as int),
            forall|y: int| el(*old(self), y) ==> #[trigger] root(*final(self), y) == root(*old(self), y),
        decreases old(self).parent@.len() - old(self).rank@[x as int] @*/ {
        /*@ proof { lem_root(*self, x as int); if self.parent@[x as int] != x { lem_up(*self, x as int); } } let ghost s0 = *self; @*/
        if self.parent[x] != x {
            /*@ let ghost mut m = *self; @*/
            self.parent[x] = /*@ { let f__r = @*/ self.find(self.parent[x]) /*@ ; proof { m = *self; } f__r } @*/;
            /*@ proof {
                lem_root(s0, x as int); lem_root(m, x as int);
                lem_compress(m, *self, x as int);
            } @*/
        }
        self.parent[x]
    }
//#FN crates/logicaffeine_base/src/union_find.rs :: impl UnionFind :: fn union
    fn union(&mut self, x: usize, y: usize) -> /*@ (r: @*/ bool /*@ )
        requires wf(*old(self)), el(*old(self), x as int), el(*old(self), y as int)
        ensures
            wf(*final(self)), final(self).parent@.len() == old(self).parent@.len(),
            r == !same(*old(self), x as int, y as int),
            roots(final(self).parent@, final(self).parent@.len() as int) == roots(old(self).parent@, old(self).parent@.len() as int) - if r { 1int } else { 0 },
            root(*final(self), x as int) == root(*old(self), x as int) || root(*final(self), x as int) == root(*old(self), y as int),
            forall|a: int| el(*old(self), a) ==> #[trigger] root(*final(self), a) == (if root(*old(self), a) == root(*old(self), x as int) || root(*old(self), a) == root(*old(self), y as int) { root(*final(self), x as int) } else { root(*old(self), a) }),
            forall|a: int, b: int| el(*old(self), a) && el(*old(self), b) ==> #[trigger] same(*final(self), a, b) == (same(*old(self), a, b)
                || (same(*old(self), a, x as int) && same(*old(self), y as int, b)) || (same(*old(self), a, y as int) && same(*old(self), x as int, b))), @*/ {
        /*@ proof { lem_root(*self, x as int); lem_root(*self, y as int); } let ghost s0 = *self; @*/
        let rx = self.find(x);
        let ry = self.find(y);
        /*@ let ghost s = *self; proof { lem_root(s, x as int); lem_root(s, y as int); lem_roots_pos(s.parent@, rx as int, ry as int, s.parent@.len() as int); assert(s.parent.len() as int == s.parent@.len()); assert(s.rank@[rx as int] + roots(s.parent@, s.parent@.len() as int) <= s.parent@.len()); } @*/
        if rx == ry {
            return false;
        }
        if self.rank[rx] < self.rank[ry] {
            self.parent[rx] = ry;
            /*@ proof { lem_link(s, *self, rx as int, ry as int); } @*/
        } else if self.rank[rx] > self.rank[ry] {
            self.parent[ry] = rx;
            /*@ proof { lem_link(s, *self, ry as int, rx as int); } @*/
        } else {
            self.parent[ry] = rx;
            self.rank[rx] += 1;
            /*@ proof { lem_link(s, *self, ry as int, rx as int); } @*/
        }
        true
    }
//#RAW
}
proof fn lem_roots_pos(p: Seq<usize>, a: int, b: int, k: int)
    requires 0 <= a < p.len(), p[a] == a, 0 <= b, 0 <= k
    ensures roots(p, k) >= 0, a < k ==> roots(p, k) >= 1
    decreases k
{ if k > 0 { lem_roots_pos(p, a, b, k - 1); } }

// ---- the congruence-closure graph ----
//#ITEM crates/logicaffeine_kernel/src/cc.rs :: type TermId
//#RAW
#[derive(PartialEq, Eq, Hash)]
//#ITEM crates/logicaffeine_kernel/src/cc.rs :: enum ENode
//#ITEM crates/logicaffeine_kernel/src/cc.rs :: struct EGraph
//#RAW
impl Clone for ENode {
    // the derived Clone (trusted: returns an equal value)
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { match self { ENode::Lit(a) => ENode::Lit(*a), ENode::Var(a) => ENode::Var(*a), ENode::Name(s) => ENode::Name(s.clone()), ENode::App { func, arg } => ENode::App { func: *func, arg: *arg } } }
}
// the derived Hash and Eq (trusted: equal exactly when structurally equal)
#[verifier::external_body]
proof fn ax_key() ensures vstd::std_specs::hash::obeys_key_model::<ENode>() {}
fn copy_ids(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ {
    let mut r: Vec<usize> = Vec::new();
    let mut i = 0;
    while i < v.len() invariant i <= v.len(), r@ == v@.take(i as int) decreases v.len() - i { r.push(v[i]); i += 1; assert(v@.take(i as int) == v@.take(i - 1).push(v@[i - 1])); }
    assert(v@.take(i as int) == v@);
    r
}
type Rel = spec_fn(int, int) -> bool;
type Pairs = Seq<(usize, usize)>;
spec fn app(ns: Seq<ENode>, i: int) -> bool { 0 <= i < ns.len() && ns[i] is App }
spec fn fun(ns: Seq<ENode>, i: int) -> int { ns[i]->func as int }
spec fn arg(ns: Seq<ENode>, i: int) -> int { ns[i]->arg as int }
spec fn equiv(r: Rel, n: int) -> bool {
    (forall|a: int| 0 <= a < n ==> #[trigger] r(a, a)) && (forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] r(a, b) ==> r(b, a))
    && (forall|a: int, b: int, c: int| 0 <= a < n && 0 <= b < n && 0 <= c < n && #[trigger] r(a, b) && #[trigger] r(b, c) ==> r(a, c))
}
spec fn covers(r: Rel, u: UnionFind) -> bool { forall|a: int, b: int| el(u, a) && el(u, b) && #[trigger] same(u, a, b) ==> r(a, b) }
spec fn has(r: Rel, p: Pairs) -> bool { forall|k: int| 0 <= k < p.len() ==> r((#[trigger] p[k]).0 as int, p[k].1 as int) }
// applications whose functions and arguments are equal
spec fn twin(ns: Seq<ENode>, u: UnionFind, i: int, j: int) -> bool { app(ns, i) && app(ns, j) && same(u, fun(ns, i), fun(ns, j)) && same(u, arg(ns, i), arg(ns, j)) }
// i and j follow from the classes and the pending pairs by symmetry and transitivity
spec fn linked(u: UnionFind, p: Pairs, i: int, j: int) -> bool { forall|r: Rel| #[trigger] equiv(r, u.parent@.len() as int) && covers(r, u) && has(r, p) ==> r(i, j) }
spec fn almost(ns: Seq<ENode>, u: UnionFind, p: Pairs) -> bool { forall|i: int, j: int| #[trigger] twin(ns, u, i, j) ==> linked(u, p, i, j) }
spec fn congr(r: Rel, ns: Seq<ENode>) -> bool { forall|i: int, j: int| #[trigger] app(ns, i) && #[trigger] app(ns, j) && r(fun(ns, i), fun(ns, j)) && r(arg(ns, i), arg(ns, j)) ==> r(i, j) }
spec fn closed(ns: Seq<ENode>, u: UnionFind) -> bool { forall|i: int, j: int| #[trigger] twin(ns, u, i, j) ==> same(u, i, j) }
spec fn nodes_ok(ns: Seq<ENode>) -> bool { forall|i: int| #[trigger] app(ns, i) ==> 0 <= fun(ns, i) < ns.len() && 0 <= arg(ns, i) < ns.len() }
spec fn pairs_ok(p: Pairs, n: int) -> bool { forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).0 < n && p[k].1 < n }
spec fn apps(ns: Seq<ENode>, l: Seq<usize>) -> bool { forall|k: int| 0 <= k < l.len() ==> app(ns, #[trigger] l[k] as int) }
spec fn lists_ok(ns: Seq<ENode>, l: Seq<Vec<usize>>) -> bool { forall|r: int| 0 <= r < l.len() ==> apps(ns, (#[trigger] l[r])@) }
spec fn registered(ns: Seq<ENode>, u: UnionFind, l: Seq<Vec<usize>>) -> bool { forall|i: int| #[trigger] app(ns, i) ==> l[root(u, fun(ns, i))]@.contains(i as usize) && l[root(u, arg(ns, i))]@.contains(i as usize) }
spec fn shape(e: EGraph) -> bool {
    wf(e.uf) && e.uf.parent@.len() == e.nodes@.len() && e.use_list@.len() == e.nodes@.len() && nodes_ok(e.nodes@) && pairs_ok(e.pending@, e.nodes@.len() as int) && lists_ok(e.nodes@, e.use_list@)
}
spec fn consed(e: EGraph) -> bool {
    (forall|k: ENode| #[trigger] e.node_map@.contains_key(k) ==> e.node_map@[k] < e.nodes@.len() && e.nodes@[e.node_map@[k] as int] == k)
    && (forall|i: int| 0 <= i < e.nodes@.len() ==> e.node_map@.contains_key(#[trigger] e.nodes@[i]) && e.node_map@[e.nodes@[i]] == i)
}
// what holds between public operations
spec fn valid(e: EGraph) -> bool { shape(e) && registered(e.nodes@, e.uf, e.use_list@) && e.pending@.len() == 0 && closed(e.nodes@, e.uf) && consed(e) }
spec fn grown(u: UnionFind, v: UnionFind) -> bool { forall|a: int, b: int| el(u, a) && el(u, b) && #[trigger] same(u, a, b) ==> same(v, a, b) }
// v's classes follow from u's and the pairs by equivalence and congruence
spec fn sound(ns: Seq<ENode>, u: UnionFind, p: Pairs, v: UnionFind) -> bool { forall|r: Rel| #[trigger] equiv(r, ns.len() as int) && congr(r, ns) && covers(r, u) && has(r, p) ==> covers(r, v) }
spec fn sound_p(ns: Seq<ENode>, u: UnionFind, p: Pairs, q: Pairs) -> bool { forall|r: Rel| #[trigger] equiv(r, ns.len() as int) && congr(r, ns) && covers(r, u) && has(r, p) ==> has(r, q) }
spec fn joined(u: UnionFind, v: UnionFind, x: int, y: int) -> bool {
    forall|a: int, b: int| el(u, a) && el(u, b) ==> #[trigger] same(v, a, b) == (same(u, a, b) || (same(u, a, x) && same(u, y, b)) || (same(u, a, y) && same(u, x, b)))
}
proof fn lem_linked_mono(u: UnionFind, p: Pairs, v: UnionFind, q: Pairs, i: int, j: int)
    requires linked(u, p, i, j), grown(u, v), u.parent@.len() == v.parent@.len(), forall|r: Rel| #[trigger] equiv(r, u.parent@.len() as int) && covers(r, v) && has(r, q) ==> has(r, p)
    ensures linked(v, q, i, j)
{
    assert forall|r: Rel| #[trigger] equiv(r, v.parent@.len() as int) && covers(r, v) && has(r, q) implies r(i, j) by {
        assert forall|a: int, b: int| el(u, a) && el(u, b) && #[trigger] same(u, a, b) implies r(a, b) by { assert(same(v, a, b)); }
        assert(covers(r, u)); assert(has(r, p));
    }
}
// with nothing pending, linked means same
proof fn lem_linked_done(u: UnionFind, p: Pairs, i: int, j: int)
    requires linked(u, p, i, j), p.len() == 0, el(u, i), el(u, j)
    ensures same(u, i, j)
{
    let r: Rel = |a: int, b: int| same(u, a, b);
    assert(equiv(r, u.parent@.len() as int)); assert(covers(r, u)); assert(has(r, p));
}
proof fn lem_same_roots(u: UnionFind, v: UnionFind)
    requires forall|y: int| el(u, y) ==> #[trigger] root(v, y) == root(u, y), u.parent@.len() == v.parent@.len()
    ensures grown(u, v), grown(v, u), forall|r: Rel| covers(r, u) == #[trigger] covers(r, v)
{
    assert forall|a: int, b: int| el(u, a) && el(u, b) implies #[trigger] same(v, a, b) == same(u, a, b) by {}
    assert forall|a: int, b: int| el(u, a) && el(u, b) implies #[trigger] same(u, a, b) == same(v, a, b) by {}
    assert forall|r: Rel| covers(r, u) == #[trigger] covers(r, v) by {
        if covers(r, u) { assert forall|a: int, b: int| el(v, a) && el(v, b) && #[trigger] same(v, a, b) implies r(a, b) by { assert(same(u, a, b)); } }
        if covers(r, v) { assert forall|a: int, b: int| el(u, a) && el(u, b) && #[trigger] same(u, a, b) implies r(a, b) by { assert(same(v, a, b)); } }
    }
}
// a pair already in one class may be dropped
proof fn lem_drop(ns: Seq<ENode>, u: UnionFind, p: Pairs, v: UnionFind, q: Pairs)
    requires
        nodes_ok(ns), ns.len() == u.parent@.len(), almost(ns, u, p), p.len() > 0, q == p.drop_last(), pairs_ok(p, ns.len() as int), u.parent@.len() == v.parent@.len(), forall|y: int| el(u, y) ==> #[trigger] root(v, y) == root(u, y),
        same(u, p.last().0 as int, p.last().1 as int),
    ensures almost(ns, v, q), forall|i: int, j: int| #[trigger] linked(u, p, i, j) ==> linked(v, q, i, j)
{
    lem_same_roots(u, v);
    assert forall|r: Rel| #[trigger] equiv(r, u.parent@.len() as int) && covers(r, v) && has(r, q) implies has(r, p) by {
        assert forall|k: int| 0 <= k < p.len() implies r((#[trigger] p[k]).0 as int, p[k].1 as int) by { if k < q.len() { assert(q[k] == p[k]); } else { assert(same(v, p[k].0 as int, p[k].1 as int)); } }
    }
    assert forall|i: int, j: int| #[trigger] linked(u, p, i, j) implies linked(v, q, i, j) by { lem_linked_mono(u, p, v, q, i, j); }
    assert forall|i: int, j: int| #[trigger] twin(ns, v, i, j) implies linked(v, q, i, j) by { assert(app(ns, i) && app(ns, j)); assert(same(u, fun(ns, i), fun(ns, j))); assert(twin(ns, u, i, j)); assert(linked(u, p, i, j)); }
}
// joining the popped pair keeps everything that was linked
proof fn lem_join(u: UnionFind, p: Pairs, v: UnionFind, q: Pairs, n: int)
    requires
        u.parent@.len() == n, v.parent@.len() == n, p.len() > 0, pairs_ok(p, n), joined(u, v, p.last().0 as int, p.last().1 as int),
        q.len() >= p.len() - 1, forall|k: int| 0 <= k < p.len() - 1 ==> q[k] == p[k],
    ensures grown(u, v), forall|i: int, j: int| #[trigger] linked(u, p, i, j) ==> linked(v, q, i, j)
{
    assert(grown(u, v));
    assert forall|r: Rel| #[trigger] equiv(r, n) && covers(r, v) && has(r, q) implies has(r, p) by {
        assert forall|k: int| 0 <= k < p.len() implies r((#[trigger] p[k]).0 as int, p[k].1 as int) by { if k < p.len() - 1 { assert(q[k] == p[k]); } else { assert(same(v, p[k].0 as int, p[k].1 as int)); } }
    }
    assert forall|i: int, j: int| #[trigger] linked(u, p, i, j) implies linked(v, q, i, j) by { lem_linked_mono(u, p, v, q, i, j); }
}
proof fn lem_joined_sound(u: UnionFind, v: UnionFind, x: int, y: int, r: Rel)
    requires joined(u, v, x, y), el(u, x), el(u, y), equiv(r, u.parent@.len() as int), covers(r, u), r(x, y), u.parent@.len() == v.parent@.len()
    ensures covers(r, v)
{
    assert forall|a: int, b: int| el(v, a) && el(v, b) && #[trigger] same(v, a, b) implies r(a, b) by {
        if same(u, a, b) { } else if same(u, a, x) && same(u, y, b) { assert(r(a, x)); assert(r(y, b)); assert(r(a, y)); } else { assert(same(u, a, y) && same(u, x, b)); assert(r(a, y)); assert(r(x, b)); assert(r(y, x)); assert(r(a, x)); }
    }
}
spec fn holds_pair(q: Pairs, a: int, b: int) -> bool { exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).0 == a && q[k].1 == b }
proof fn lem_pair_linked(v: UnionFind, q: Pairs, a: int, b: int)
    requires holds_pair(q, a, b) || holds_pair(q, b, a), 0 <= a < v.parent@.len(), 0 <= b < v.parent@.len()
    ensures linked(v, q, a, b)
{
    assert forall|r: Rel| #[trigger] equiv(r, v.parent@.len() as int) && covers(r, v) && has(r, q) implies r(a, b) by {
        if holds_pair(q, a, b) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).0 == a && q[k].1 == b; assert(r(q[k].0 as int, q[k].1 as int)); }
        else { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).0 == b && q[k].1 == a; assert(r(q[k].0 as int, q[k].1 as int)); }
    }
}
// after the pairwise check of the two use lists, every new twin is linked
proof fn lem_new_twins(ns: Seq<ENode>, u: UnionFind, p: Pairs, v: UnionFind, q: Pairs, l: Seq<Vec<usize>>)
    requires
        wf(u), nodes_ok(ns), ns.len() == u.parent@.len(), ns.len() == v.parent@.len(), l.len() == ns.len(), p.len() > 0, pairs_ok(p, ns.len() as int), ns.len() <= usize::MAX,
        almost(ns, u, p), registered(ns, u, l), joined(u, v, p.last().0 as int, p.last().1 as int),
        q.len() >= p.len() - 1, forall|k: int| 0 <= k < p.len() - 1 ==> q[k] == p[k],
        forall|i: int, j: int| l[root(u, p.last().0 as int)]@.contains(i as usize) && l[root(u, p.last().1 as int)]@.contains(j as usize) && #[trigger] twin(ns, v, i, j) ==> holds_pair(q, i, j),
    ensures almost(ns, v, q)
{
    let x = p.last().0 as int; let y = p.last().1 as int;
    assert(p[p.len() - 1] == p.last());
    lem_join(u, p, v, q, ns.len() as int);
    assert forall|i: int, j: int| #[trigger] twin(ns, v, i, j) implies linked(v, q, i, j) by {
        assert(app(ns, i) && app(ns, j));
        assert(twin(ns, v, j, i));
        if twin(ns, u, i, j) { assert(linked(u, p, i, j)); }
        else { lem_pair_linked_if(v, q, ns, u, l, x, y, i, j); }
    }
}
proof fn lem_pair_linked_if(v: UnionFind, q: Pairs, ns: Seq<ENode>, u: UnionFind, l: Seq<Vec<usize>>, x: int, y: int, i: int, j: int)
    requires
        nodes_ok(ns), ns.len() == u.parent@.len(), ns.len() == v.parent@.len(), el(u, x), el(u, y), registered(ns, u, l), joined(u, v, x, y), twin(ns, v, i, j), twin(ns, v, j, i), !twin(ns, u, i, j),
        forall|i: int, j: int| l[root(u, x)]@.contains(i as usize) && l[root(u, y)]@.contains(j as usize) && #[trigger] twin(ns, v, i, j) ==> holds_pair(q, i, j),
    ensures linked(v, q, i, j)
{
    assert(app(ns, i) && app(ns, j));
    let fi = fun(ns, i); let fj = fun(ns, j); let ai = arg(ns, i); let aj = arg(ns, j);
    assert(same(v, fi, fj)); assert(same(v, ai, aj));
    if !same(u, fi, fj) {
        if same(u, fi, x) { assert(same(u, y, fj)); assert(holds_pair(q, i, j)); } else { assert(same(u, fi, y) && same(u, x, fj)); assert(holds_pair(q, j, i)); }
    } else {
        if same(u, ai, x) && same(u, y, aj) { assert(holds_pair(q, i, j)); } else { assert(same(u, ai, y) && same(u, x, aj)); assert(holds_pair(q, j, i)); }
    }
    lem_pair_linked(v, q, i, j);
}
proof fn lem_registered(ns: Seq<ENode>, u: UnionFind, v: UnionFind, l: Seq<Vec<usize>>, m: Seq<Vec<usize>>, rx: int, ry: int, t: int)
    requires
        nodes_ok(ns), ns.len() == u.parent@.len(), wf(u), l.len() == ns.len(), m.len() == ns.len(), registered(ns, u, l), t == rx || t == ry, 0 <= rx < ns.len(), 0 <= ry < ns.len(),
        forall|a: int| el(u, a) ==> #[trigger] root(v, a) == (if root(u, a) == rx || root(u, a) == ry { t } else { root(u, a) }),
        forall|r: int| 0 <= r < l.len() && r != t ==> #[trigger] m[r]@ == l[r]@,
        forall|i: usize| l[rx]@.contains(i) ==> #[trigger] m[t]@.contains(i), forall|i: usize| l[ry]@.contains(i) ==> #[trigger] m[t]@.contains(i),
    ensures registered(ns, v, m)
{
    assert forall|i: int| #[trigger] app(ns, i) implies m[root(v, fun(ns, i))]@.contains(i as usize) && m[root(v, arg(ns, i))]@.contains(i as usize) by {
        lem_root(u, fun(ns, i)); lem_root(u, arg(ns, i));
        assert(l[root(u, fun(ns, i))]@.contains(i as usize)); assert(l[root(u, arg(ns, i))]@.contains(i as usize));
    }
}
proof fn lem_registered_same(ns: Seq<ENode>, u: UnionFind, v: UnionFind, l: Seq<Vec<usize>>)
    requires nodes_ok(ns), ns.len() == u.parent@.len(), registered(ns, u, l), forall|y: int| el(u, y) ==> #[trigger] root(v, y) == root(u, y)
    ensures registered(ns, v, l)
{
    assert forall|i: int| #[trigger] app(ns, i) implies l[root(v, fun(ns, i))]@.contains(i as usize) && l[root(v, arg(ns, i))]@.contains(i as usize) by { assert(root(v, fun(ns, i)) == root(u, fun(ns, i))); assert(root(v, arg(ns, i)) == root(u, arg(ns, i))); }
}
impl EGraph {
//#FN crates/logicaffeine_kernel/src/cc.rs :: impl EGraph :: fn new
    fn new() -> /*@ (r: @*/ Self /*@ )
        ensures valid(r), r.nodes@.len() == 0 @*/ {
        /*@ broadcast use vstd::std_specs::hash::group_hash_axioms; @*/
        EGraph {
            nodes: Vec::new(),
            uf: UnionFind::new(),
            node_map: HashMap::new(),
            pending: Vec::new(),
            use_list: Vec::new(),
        }
    }
//#FN crates/logicaffeine_kernel/src/cc.rs :: impl EGraph :: fn merge
    fn merge(&mut self, a: TermId, b: TermId)
        /*@ requires
            shape(*old(self)), registered(old(self).nodes@, old(self).uf, old(self).use_list@), old(self).pending@.len() == 0, a < old(self).nodes@.len(), b < old(self).nodes@.len(),
            almost(old(self).nodes@, old(self).uf, seq![(a, b)]),
        ensures
            shape(*final(self)), registered(final(self).nodes@, final(self).uf, final(self).use_list@), final(self).pending@.len() == 0, closed(final(self).nodes@, final(self).uf),
            final(self).nodes@ == old(self).nodes@, final(self).node_map@ == old(self).node_map@,
            grown(old(self).uf, final(self).uf), same(final(self).uf, a as int, b as int),
            sound(final(self).nodes@, old(self).uf, seq![(a, b)], final(self).uf), @*/ {
        self.pending.push((a, b));
        /*@ proof { assert(self.pending@ =~= seq![(a, b)]); } let ghost u0 = self.uf; let ghost p0 = self.pending@; @*/
        self.propagate();
        /*@ proof { assert(p0[0] == (a, b)); } @*/
    }
//#FN crates/logicaffeine_kernel/src/cc.rs :: impl EGraph :: fn propagate | forcopy, forwhile, whilelet, ids, ids2
    fn propagate(&mut self)
        /*@ requires shape(*old(self)), registered(old(self).nodes@, old(self).uf, old(self).use_list@), almost(old(self).nodes@, old(self).uf, old(self).pending@)
        ensures
            shape(*final(self)), registered(final(self).nodes@, final(self).uf, final(self).use_list@), final(self).pending@.len() == 0, closed(final(self).nodes@, final(self).uf),
            final(self).nodes@ == old(self).nodes@, final(self).node_map@ == old(self).node_map@,
            grown(old(self).uf, final(self).uf),
            forall|k: int| 0 <= k < old(self).pending@.len() ==> same(final(self).uf, (#[trigger] old(self).pending@[k]).0 as int, old(self).pending@[k].1 as int),
            sound(final(self).nodes@, old(self).uf, old(self).pending@, final(self).uf), @*/ {
        /*@ let ghost e0 = *self; let ghost ns = self.nodes@; let ghost n = ns.len() as int;
        proof {
            assert forall|k: int| 0 <= k < e0.pending@.len() implies linked(e0.uf, e0.pending@, (#[trigger] e0.pending@[k]).0 as int, e0.pending@[k].1 as int) by { assert(holds_pair(e0.pending@, e0.pending@[k].0 as int, e0.pending@[k].1 as int)); lem_pair_linked(e0.uf, e0.pending@, e0.pending@[k].0 as int, e0.pending@[k].1 as int); }
        } @*/
        loop
            /*@ invariant_except_break
                shape(*self), self.nodes@ == ns, self.node_map@ == e0.node_map@, n == ns.len(), e0.uf.parent@.len() == n, pairs_ok(e0.pending@, n), e0.nodes@ == ns,
                registered(ns, self.uf, self.use_list@), almost(ns, self.uf, self.pending@), grown(e0.uf, self.uf),
                forall|k: int| 0 <= k < e0.pending@.len() ==> linked(self.uf, self.pending@, (#[trigger] e0.pending@[k]).0 as int, e0.pending@[k].1 as int),
                sound(ns, e0.uf, e0.pending@, self.uf), sound_p(ns, e0.uf, e0.pending@, self.pending@),
            ensures
                shape(*self), self.nodes@ == ns, self.node_map@ == e0.node_map@, registered(ns, self.uf, self.use_list@), self.pending@.len() == 0, closed(ns, self.uf), grown(e0.uf, self.uf),
                forall|k: int| 0 <= k < e0.pending@.len() ==> same(self.uf, (#[trigger] e0.pending@[k]).0 as int, e0.pending@[k].1 as int),
                sound(ns, e0.uf, e0.pending@, self.uf),
            decreases roots(self.uf.parent@, self.uf.parent@.len() as int), self.pending@.len() @*/
        {
            /*@ let ghost e1 = *self; let ghost p1 = self.pending@; proof { lem_count(self.uf.parent@, self.uf.parent@.len() as int); } @*/
            let Some((a, b)) = self.pending.pop() else {
                /*@ proof {
                    assert forall|i: int, j: int| #[trigger] twin(ns, self.uf, i, j) implies same(self.uf, i, j) by { assert(app(ns, i) && app(ns, j)); lem_linked_done(self.uf, self.pending@, i, j); }
                    assert forall|k: int| 0 <= k < e0.pending@.len() implies same(self.uf, (#[trigger] e0.pending@[k]).0 as int, e0.pending@[k].1 as int) by { lem_linked_done(self.uf, self.pending@, e0.pending@[k].0 as int, e0.pending@[k].1 as int); }
                } @*/
                break ; } ;
            /*@ let ghost p2 = self.pending@; proof { assert(p2 =~= p1.drop_last()); assert(p1[p1.len() - 1] == p1.last()); assert(p1.last() == (a, b)); lem_root(e1.uf, a as int); lem_root(e1.uf, b as int);
                assert forall|r: Rel| #[trigger] equiv(r, n) && congr(r, ns) && covers(r, e0.uf) && has(r, e0.pending@) implies has(r, p2) && r(a as int, b as int) by { assert(has(r, p1)); assert(r(p1.last().0 as int, p1.last().1 as int)); assert forall|k: int| 0 <= k < p2.len() implies r((#[trigger] p2[k]).0 as int, p2[k].1 as int) by { assert(p2[k] == p1[k]); } }
                assert(pairs_ok(p2, n)) by { assert forall|k: int| 0 <= k < p2.len() implies (#[trigger] p2[k]).0 < n && p2[k].1 < n by { assert(p2[k] == p1[k]); } }
            } @*/
            let ra = self.uf.find(a);
            let rb = self.uf.find(b);
            if ra == rb {
                /*@ proof {
                    lem_same_roots(e1.uf, self.uf);
                    lem_drop(ns, e1.uf, p1, self.uf, p2);
                    lem_registered_same(ns, e1.uf, self.uf, self.use_list@);
                    assert(grown(e0.uf, self.uf)) by { assert forall|x: int, y: int| el(e0.uf, x) && el(e0.uf, y) && #[trigger] same(e0.uf, x, y) implies same(self.uf, x, y) by { assert(same(e1.uf, x, y)); } }
                } @*/
                continue;
            }
            /*@ let ghost u2 = self.uf; proof { lem_root(u2, ra as int); lem_root(u2, rb as int); lem_root(u2, a as int); lem_root(u2, b as int); } @*/
            let uses_a: Vec<TermId> = copy_ids(&self.use_list[ra]);
            let uses_b: Vec<TermId> = copy_ids(&self.use_list[rb]);
            self.uf.union(ra, rb);
            let new_root = self.uf.find(ra);
            /*@ let ghost u3 = self.uf; proof {
                assert forall|x: int, y: int| el(e1.uf, x) && el(e1.uf, y) implies #[trigger] same(u3, x, y) == (same(e1.uf, x, y) || (same(e1.uf, x, a as int) && same(e1.uf, b as int, y)) || (same(e1.uf, x, b as int) && same(e1.uf, a as int, y))) by { }
                assert(joined(e1.uf, u3, a as int, b as int));
            } @*/
            let mut ua__r__i : usize = 0 ; while ua__r__i < uses_a . len ( )
                /*@ invariant
                    ua__r__i <= uses_a@.len(), self.nodes@ == ns, self.node_map@ == e0.node_map@, self.use_list@ == e1.use_list@, nodes_ok(ns), n == ns.len(), n == u3.parent@.len(), apps(ns, uses_a@), apps(ns, uses_b@),
                    wf(self.uf), self.uf.parent@.len() == n, roots(self.uf.parent@, n) == roots(u3.parent@, n), forall|y: int| el(u3, y) ==> #[trigger] root(self.uf, y) == root(u3, y),
                    self.pending@.len() >= p2.len(), forall|k: int| 0 <= k < p2.len() ==> self.pending@[k] == p2[k],
                    forall|k: int| p2.len() <= k < self.pending@.len() ==> twin(ns, u3, (#[trigger] self.pending@[k]).0 as int, self.pending@[k].1 as int),
                    forall|i: int, j: int| 0 <= i < ua__r__i && 0 <= j < uses_b@.len() && #[trigger] twin(ns, u3, uses_a@[i] as int, uses_b@[j] as int) ==> holds_pair(self.pending@, uses_a@[i] as int, uses_b@[j] as int),
                decreases uses_a@.len() - ua__r__i @*/
            { let ua__r = & uses_a [ ua__r__i ] ; ua__r__i += 1 ; let ua = * ua__r ;
                let mut ub__r__i : usize = 0 ; while ub__r__i < uses_b . len ( )
                    /*@ invariant
                        0 < ua__r__i <= uses_a@.len(), ua == uses_a@[ua__r__i - 1], ub__r__i <= uses_b@.len(), self.nodes@ == ns, self.node_map@ == e0.node_map@, self.use_list@ == e1.use_list@, nodes_ok(ns), n == ns.len(), n == u3.parent@.len(), apps(ns, uses_a@), apps(ns, uses_b@),
                        wf(self.uf), self.uf.parent@.len() == n, roots(self.uf.parent@, n) == roots(u3.parent@, n), forall|y: int| el(u3, y) ==> #[trigger] root(self.uf, y) == root(u3, y),
                        self.pending@.len() >= p2.len(), forall|k: int| 0 <= k < p2.len() ==> self.pending@[k] == p2[k],
                        forall|k: int| p2.len() <= k < self.pending@.len() ==> twin(ns, u3, (#[trigger] self.pending@[k]).0 as int, self.pending@[k].1 as int),
                        forall|i: int, j: int| 0 <= i < ua__r__i - 1 && 0 <= j < uses_b@.len() && #[trigger] twin(ns, u3, uses_a@[i] as int, uses_b@[j] as int) ==> holds_pair(self.pending@, uses_a@[i] as int, uses_b@[j] as int),
                        forall|j: int| 0 <= j < ub__r__i && #[trigger] twin(ns, u3, ua as int, uses_b@[j] as int) ==> holds_pair(self.pending@, ua as int, uses_b@[j] as int),
                    decreases uses_b@.len() - ub__r__i @*/
                { let ub__r = & uses_b [ ub__r__i ] ; ub__r__i += 1 ; let ub = * ub__r ;
                    /*@ let ghost q0 = self.pending@; let ghost u4 = self.uf; proof { assert(app(ns, uses_a@[ua__r__i - 1] as int)); assert(app(ns, uses_b@[ub__r__i - 1] as int)); } @*/
                    if self.congruent(ua, ub) {
                        self.pending.push((ua, ub));
                        /*@ proof {
                            assert(self.pending@ =~= q0.push((ua, ub)));
                            assert(self.pending@[q0.len() as int] == (ua, ub));
                            assert(holds_pair(self.pending@, ua as int, ub as int));
                            assert forall|x: int, y: int| holds_pair(q0, x, y) implies #[trigger] holds_pair(self.pending@, x, y) by { let k = choose|k: int| 0 <= k < q0.len() && (#[trigger] q0[k]).0 == x && q0[k].1 == y; assert(self.pending@[k] == q0[k]); }
                            assert(twin(ns, u4, ua as int, ub as int)); assert(root(u4, fun(ns, ua as int)) == root(u3, fun(ns, ua as int))); assert(twin(ns, u3, ua as int, ub as int));
                        } @*/
                    }
                    /*@ proof { assert(twin(ns, u3, ua as int, ub as int) ==> twin(ns, u4, ua as int, ub as int)); } @*/
                }
            }
            /*@ let ghost q = self.pending@; let ghost u5 = self.uf;
            proof {
                assert(joined(e1.uf, u5, a as int, b as int)) by { assert forall|x: int, y: int| el(e1.uf, x) && el(e1.uf, y) implies #[trigger] same(u5, x, y) == (same(e1.uf, x, y) || (same(e1.uf, x, a as int) && same(e1.uf, b as int, y)) || (same(e1.uf, x, b as int) && same(e1.uf, a as int, y))) by { assert(same(u5, x, y) == same(u3, x, y)); } }
                assert forall|i: int, j: int| e1.use_list@[root(e1.uf, a as int)]@.contains(i as usize) && e1.use_list@[root(e1.uf, b as int)]@.contains(j as usize) && #[trigger] twin(ns, u5, i, j) implies holds_pair(q, i, j) by {
                    assert(app(ns, i) && app(ns, j));
                    assert(ns.len() == self.nodes.len());
                    let x = choose|x: int| 0 <= x < uses_a@.len() && uses_a@[x] == i as usize; let y = choose|y: int| 0 <= y < uses_b@.len() && uses_b@[y] == j as usize;
                    assert(root(u5, fun(ns, i)) == root(u3, fun(ns, i))); assert(root(u5, arg(ns, i)) == root(u3, arg(ns, i))); assert(root(u5, fun(ns, j)) == root(u3, fun(ns, j))); assert(root(u5, arg(ns, j)) == root(u3, arg(ns, j)));
                    assert(twin(ns, u3, uses_a@[x] as int, uses_b@[y] as int));
                }
                assert(ns.len() == self.nodes.len());
                assert forall|k: int| 0 <= k < p1.len() - 1 implies q[k] == p1[k] by { assert(q[k] == p2[k]); }
                assert(root(u2, ra as int) == ra); assert(root(u2, rb as int) == rb); assert(!same(u2, ra as int, rb as int));
                assert(roots(u5.parent@, n) == roots(e1.uf.parent@, n) - 1); lem_count(u5.parent@, n);
                lem_new_twins(ns, e1.uf, p1, u5, q, e1.use_list@);
                lem_join(e1.uf, p1, u5, q, n);
                assert(grown(e0.uf, u5)) by { assert forall|x: int, y: int| el(e0.uf, x) && el(e0.uf, y) && #[trigger] same(e0.uf, x, y) implies same(u5, x, y) by { assert(same(e1.uf, x, y)); } }
                assert forall|r: Rel| #[trigger] equiv(r, n) && congr(r, ns) && covers(r, e0.uf) && has(r, e0.pending@) implies covers(r, u5) && has(r, q) by {
                    assert(covers(r, e1.uf));
                    lem_joined_sound(e1.uf, u5, a as int, b as int, r);
                    assert forall|k: int| 0 <= k < q.len() implies r((#[trigger] q[k]).0 as int, q[k].1 as int) by {
                        if k < p2.len() { assert(q[k] == p2[k]); assert(r(p2[k].0 as int, p2[k].1 as int)); }
                        else {
                            let i = q[k].0 as int; let j = q[k].1 as int;
                            assert(twin(ns, u3, i, j)); assert(app(ns, i) && app(ns, j));
                            assert(same(u5, fun(ns, i), fun(ns, j))); assert(same(u5, arg(ns, i), arg(ns, j)));
                        }
                    }
                }
                assert(pairs_ok(q, n)) by { assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).0 < n && q[k].1 < n by { if k < p2.len() { assert(q[k] == p2[k]); } else { assert(twin(ns, u3, q[k].0 as int, q[k].1 as int)); assert(app(ns, q[k].0 as int)); } } }
                assert(lists_ok(ns, self.use_list@));
            } @*/
            if new_root == ra {
                let mut u__i : usize = 0 ; while u__i < uses_b . len ( )
                    /*@ invariant
                        u__i <= uses_b@.len(), self.uf == u5, self.pending@ == q, self.nodes@ == ns, self.node_map@ == e0.node_map@, ra < n, apps(ns, uses_b@), lists_ok(ns, self.use_list@),
                        self.use_list@.len() == n, forall|r: int| 0 <= r < n && r != ra ==> #[trigger] self.use_list@[r]@ == e1.use_list@[r]@,
                        self.use_list@[ra as int]@ =~= e1.use_list@[ra as int]@ + uses_b@.take(u__i as int),
                    decreases uses_b@.len() - u__i @*/
                { let u = uses_b [ u__i ] ; u__i += 1 ;
                    /*@ let ghost l0 = self.use_list@; @*/
                    self.use_list[ra].push(u);
                    /*@ proof { assert(uses_b@.take(u__i as int) =~= uses_b@.take(u__i - 1).push(u)); lem_pushed_ok(ns, l0, self.use_list@, ra as int, u); } @*/
                }
                /*@ proof { assert(uses_b@.take(u__i as int) =~= uses_b@); lem_union_lists(e1.use_list@[ra as int]@, uses_b@); lem_registered(ns, u2, u5, e1.use_list@, self.use_list@, ra as int, rb as int, ra as int); } @*/
            } else {
                let mut u__i : usize = 0 ; while u__i < uses_a . len ( )
                    /*@ invariant
                        u__i <= uses_a@.len(), self.uf == u5, self.pending@ == q, self.nodes@ == ns, self.node_map@ == e0.node_map@, rb < n, apps(ns, uses_a@), lists_ok(ns, self.use_list@),
                        self.use_list@.len() == n, forall|r: int| 0 <= r < n && r != rb ==> #[trigger] self.use_list@[r]@ == e1.use_list@[r]@,
                        self.use_list@[rb as int]@ =~= e1.use_list@[rb as int]@ + uses_a@.take(u__i as int),
                    decreases uses_a@.len() - u__i @*/
                { let u = uses_a [ u__i ] ; u__i += 1 ;
                    /*@ let ghost l0 = self.use_list@; @*/
                    self.use_list[rb].push(u);
                    /*@ proof { assert(uses_a@.take(u__i as int) =~= uses_a@.take(u__i - 1).push(u)); lem_pushed_ok(ns, l0, self.use_list@, rb as int, u); } @*/
                }
                /*@ proof { assert(uses_a@.take(u__i as int) =~= uses_a@); lem_union_lists(e1.use_list@[rb as int]@, uses_a@); lem_registered(ns, u2, u5, e1.use_list@, self.use_list@, ra as int, rb as int, rb as int); } @*/
            }
        }
    }
//#FN crates/logicaffeine_kernel/src/cc.rs :: impl EGraph :: fn add | refpat, intofind, ids3
    fn add(&mut self, node: ENode) -> /*@ (r: @*/ TermId /*@ )
        requires valid(*old(self)), node is App ==> node->func < old(self).nodes@.len() && node->arg < old(self).nodes@.len()
        ensures
            valid(*final(self)), r < final(self).nodes@.len(), final(self).nodes@[r as int] == node,
            final(self).nodes@ == old(self).nodes@ || (r == old(self).nodes@.len() && final(self).nodes@ == old(self).nodes@.push(node)),
            grown(old(self).uf, final(self).uf),
            forall|q: Rel| #[trigger] equiv(q, final(self).nodes@.len() as int) && congr(q, final(self).nodes@) && covers(q, old(self).uf) ==> covers(q, final(self).uf), @*/ {
        /*@ broadcast use vstd::std_specs::hash::group_hash_axioms; proof { ax_key(); } let ghost e0 = *self; let ghost n0 = self.nodes@.len() as int; @*/
        if let Some ( id__r ) = self.node_map.get(&node) { let id = * id__r ;
            return id;
        }
        let id = self.nodes.len();
        self.nodes.push(node.clone());
        self.node_map.insert(node.clone(), id);
        self.uf.make_set();
        self.use_list.push(Vec::new());
        /*@ let ghost ns = self.nodes@; let ghost u1 = self.uf; let ghost l1 = self.use_list@;
        proof {
            assert(ns == e0.nodes@.push(node));
            lem_added(e0, ns, u1, node);
            assert forall|i: int| app(e0.nodes@, i) implies #[trigger] app(ns, i) && fun(ns, i) == fun(e0.nodes@, i) && arg(ns, i) == arg(e0.nodes@, i) by {}
            assert(consed(*self)) by {
                assert forall|i: int| 0 <= i < ns.len() implies self.node_map@.contains_key(#[trigger] ns[i]) && self.node_map@[ns[i]] == i by { if i < n0 { assert(ns[i] == e0.nodes@[i]); assert(e0.node_map@.contains_key(e0.nodes@[i])); } }
                assert forall|k: ENode| #[trigger] self.node_map@.contains_key(k) implies self.node_map@[k] < ns.len() && ns[self.node_map@[k] as int] == k by { if k != node { assert(e0.node_map@.contains_key(k)); } }
            }
            if !(node is App) {
                assert(registered(ns, u1, l1)) by { assert forall|i: int| #[trigger] app(ns, i) implies l1[root(u1, fun(ns, i))]@.contains(i as usize) && l1[root(u1, arg(ns, i))]@.contains(i as usize) by {
                    assert(app(e0.nodes@, i)); lem_root(e0.uf, fun(ns, i)); lem_root(e0.uf, arg(ns, i)); assert(l1[root(u1, fun(ns, i))] == e0.use_list@[root(e0.uf, fun(ns, i))]); assert(l1[root(u1, arg(ns, i))] == e0.use_list@[root(e0.uf, arg(ns, i))]);
                } }
            }
            assert(lists_ok(ns, l1)) by { assert forall|r: int| 0 <= r < l1.len() implies apps(ns, (#[trigger] l1[r])@) by { if r < n0 { assert(l1[r] == e0.use_list@[r]); assert(apps(e0.nodes@, e0.use_list@[r]@)); assert forall|k: int| 0 <= k < l1[r]@.len() implies app(ns, #[trigger] l1[r]@[k] as int) by { assert(app(e0.nodes@, e0.use_list@[r]@[k] as int)); } } } }
        } @*/
        if let ENode::App { func, arg } = &node {
            let func = self.uf.find(*func);
            let arg = self.uf.find(*arg);
            /*@ let ghost u2 = self.uf; let ghost fr = func as int; let ghost ar = arg as int; proof { lem_root(u1, node->func as int); lem_root(u1, node->arg as int); } @*/
            let uses = copy_ids(&self.use_list[func]);
            self.use_list[func].push(id);
            /*@ let ghost l2 = self.use_list@; proof { assert(app(ns, id as int)); lem_pushed_ok(ns, l1, l2, fr, id); } @*/
            self.use_list[arg].push(id);
            /*@ let ghost l3 = self.use_list@; proof {
                lem_pushed_ok(ns, l2, l3, ar, id);
                assert forall|r: int, i: usize| 0 <= r < l1.len() && l1[r]@.contains(i) implies #[trigger] l3[r]@.contains(i) by {
                    let k = choose|k: int| 0 <= k < l1[r]@.len() && l1[r]@[k] == i; assert(l2[r]@[k] == i); assert(l3[r]@[k] == i);
                }
                assert(l2[fr]@[l1[fr]@.len() as int] == id); assert(l3[fr]@[l1[fr]@.len() as int] == id);
                assert(l3[ar]@[l2[ar]@.len() as int] == id);
                assert(registered(ns, u1, l3)) by {
                    assert forall|i: int| #[trigger] app(ns, i) implies l3[root(u1, fun(ns, i))]@.contains(i as usize) && l3[root(u1, crate::arg(ns, i))]@.contains(i as usize) by {
                        if i < n0 { assert(app(e0.nodes@, i)); lem_root(u1, fun(ns, i)); lem_root(u1, crate::arg(ns, i)); lem_root(e0.uf, fun(ns, i)); lem_root(e0.uf, crate::arg(ns, i)); assert(l1[root(u1, fun(ns, i))] == e0.use_list@[root(e0.uf, fun(ns, i))]); assert(l1[root(u1, crate::arg(ns, i))] == e0.use_list@[root(e0.uf, crate::arg(ns, i))]); }
                    }
                }
            } @*/
            if let Some(other) = { let mut u__find : Option < usize > = None ; let mut u__k : usize = 0 ; while u__k < uses . len ( )
                /*@ invariant_except_break u__find is None,
                    forall|j: int| 0 <= j < u__k ==> !#[trigger] twin(ns, u1, id as int, uses@[j] as int),
                invariant
                    u__k <= uses@.len(), self.nodes@ == ns, self.use_list@ == l3, self.pending@.len() == 0, consed(*self), wf(self.uf), self.uf.parent@.len() == ns.len(), nodes_ok(ns), u1.parent@.len() == ns.len(), apps(e0.nodes@, uses@), ns == e0.nodes@.push(node), id == n0, n0 == e0.nodes@.len(),
                    forall|y: int| el(u1, y) ==> #[trigger] root(self.uf, y) == root(u1, y),
                ensures
                    u__find is Some ==> twin(ns, u1, id as int, u__find->0 as int) && u__find->0 < n0,
                    u__find is None ==> forall|j: int| 0 <= j < uses@.len() ==> !#[trigger] twin(ns, u1, id as int, uses@[j] as int),
                decreases uses@.len() - u__k @*/
            { let u = uses [ u__k ] ; u__k += 1 ;
                /*@ let ghost u3 = self.uf; proof { assert(app(e0.nodes@, uses@[u__k - 1] as int)); assert(app(ns, u as int)); } @*/
                if ( self.congruent(id, u) ) { /*@ proof { assert(twin(ns, u3, id as int, u as int)); assert(app(ns, id as int)); assert(root(u3, fun(ns, id as int)) == root(u1, fun(ns, id as int))); assert(root(u3, fun(ns, u as int)) == root(u1, fun(ns, u as int))); assert(root(u3, crate::arg(ns, id as int)) == root(u1, crate::arg(ns, id as int))); assert(root(u3, crate::arg(ns, u as int)) == root(u1, crate::arg(ns, u as int))); assert(twin(ns, u1, id as int, u as int)); } @*/ u__find = Some ( u ) ; break ; }
                /*@ proof { assert(twin(ns, u1, id as int, u as int) ==> twin(ns, u3, id as int, u as int)); } @*/
            } u__find } {
                /*@ let ghost u4 = self.uf; proof { assert(ns.len() == self.nodes.len()); lem_add_link(e0, ns, u1, u4, node, other); lem_registered_same(ns, u1, u4, l3); lem_same_roots(u1, u4); } @*/
                self.merge(id, other);
                /*@ proof { lem_add_sound(e0, ns, u1, u4, self.uf, node, id, other); } @*/
            } /*@ else { proof {
                let u4 = self.uf;
                lem_registered_same(ns, u1, u4, l3); lem_same_roots(u1, u4);
                assert(closed(ns, u4)) by { assert forall|i: int, j: int| #[trigger] twin(ns, u4, i, j) implies same(u4, i, j) by {
                    assert(app(ns, i) && app(ns, j)); assert(twin(ns, u1, i, j)); assert(twin(ns, u1, j, i));
                    if i < n0 && j < n0 { assert(same(u1, i, j)); }
                    else if i == n0 && j == n0 { }
                    else {
                        let o = if i == n0 { j } else { i };
                        assert(app(e0.nodes@, o)); lem_root(e0.uf, fun(ns, o)); lem_root(u1, fun(ns, o));
                        assert(root(u1, fun(ns, o)) == fr); assert(l1[fr] == e0.use_list@[root(e0.uf, fun(ns, o))]);
                        assert(ns.len() == self.nodes.len());
                        let k = choose|k: int| 0 <= k < uses@.len() && uses@[k] == o as usize;
                        assert(!twin(ns, u1, id as int, uses@[k] as int));
                    }
                } }
                assert forall|q: Rel| #[trigger] equiv(q, ns.len() as int) && congr(q, ns) && covers(q, e0.uf) implies covers(q, u4) by { assert(covers(q, u1)); }
                assert forall|a: int, b: int| el(e0.uf, a) && el(e0.uf, b) && #[trigger] same(e0.uf, a, b) implies same(u4, a, b) by { assert(same(u1, a, b)); }
            } } @*/
        }
        id
    }
//#FN crates/logicaffeine_kernel/src/cc.rs :: impl EGraph :: fn congruent
    fn congruent(&mut self, a: TermId, b: TermId) -> /*@ (r: @*/ bool /*@ )
        requires wf(old(self).uf), old(self).uf.parent@.len() == old(self).nodes@.len(), nodes_ok(old(self).nodes@), a < old(self).nodes@.len(), b < old(self).nodes@.len()
        ensures
            r == twin(old(self).nodes@, old(self).uf, a as int, b as int), final(self).nodes@ == old(self).nodes@, final(self).node_map@ == old(self).node_map@, final(self).pending@ == old(self).pending@, final(self).use_list@ == old(self).use_list@,
            wf(final(self).uf), final(self).uf.parent@.len() == old(self).uf.parent@.len(), roots(final(self).uf.parent@, final(self).uf.parent@.len() as int) == roots(old(self).uf.parent@, old(self).uf.parent@.len() as int),
            forall|y: int| el(old(self).uf, y) ==> #[trigger] root(final(self).uf, y) == root(old(self).uf, y), @*/ {
        /*@ proof { assert(app(self.nodes@, a as int) || !(self.nodes@[a as int] is App)); assert(app(self.nodes@, b as int) || !(self.nodes@[b as int] is App)); } @*/
        match (&self.nodes[a].clone(), &self.nodes[b].clone()) {
            (ENode::App { func: f1, arg: a1 }, ENode::App { func: f2, arg: a2 }) => {
                self.uf.find(*f1) == self.uf.find(*f2) && self.uf.find(*a1) == self.uf.find(*a2)
            }
            _ => false,
        }
    }
//#FN crates/logicaffeine_kernel/src/cc.rs :: impl EGraph :: fn equivalent
    fn equivalent(&mut self, a: TermId, b: TermId) -> /*@ (r: @*/ bool /*@ )
        requires wf(old(self).uf), el(old(self).uf, a as int), el(old(self).uf, b as int)
        ensures
            r == same(old(self).uf, a as int, b as int), final(self).nodes@ == old(self).nodes@, final(self).uf.parent@.len() == old(self).uf.parent@.len(), wf(final(self).uf),
            forall|y: int| el(old(self).uf, y) ==> #[trigger] root(final(self).uf, y) == root(old(self).uf, y), @*/ {
        self.uf.find(a) == self.uf.find(b)
    }
//#RAW
}
// a fresh node joins no class and disturbs none
proof fn lem_added(e: EGraph, ns: Seq<ENode>, u1: UnionFind, node: ENode)
    requires
        valid(e), ns == e.nodes@.push(node), wf(u1), u1.parent@.len() == ns.len(), root(u1, e.nodes@.len() as int) == e.nodes@.len(), forall|y: int| el(e.uf, y) ==> #[trigger] root(u1, y) == root(e.uf, y),
        node is App ==> node->func < e.nodes@.len() && node->arg < e.nodes@.len(),
    ensures
        nodes_ok(ns), grown(e.uf, u1), !(node is App) ==> closed(ns, u1) && registered(ns, u1, e.use_list@),
        forall|i: int, j: int| i < e.nodes@.len() && j < e.nodes@.len() && #[trigger] twin(ns, u1, i, j) ==> same(u1, i, j),
        forall|r: Rel| #[trigger] equiv(r, ns.len() as int) && covers(r, e.uf) ==> covers(r, u1),
{
    let n0 = e.nodes@.len() as int;
    assert(nodes_ok(ns)) by { assert forall|i: int| #[trigger] app(ns, i) implies 0 <= fun(ns, i) < ns.len() && 0 <= arg(ns, i) < ns.len() by { if i < n0 { assert(app(e.nodes@, i)); } } }
    assert forall|a: int, b: int| el(e.uf, a) && el(e.uf, b) implies #[trigger] same(e.uf, a, b) == same(u1, a, b) by {}
    assert forall|i: int, j: int| i < n0 && j < n0 && #[trigger] twin(ns, u1, i, j) implies same(u1, i, j) by { assert(app(ns, i) && app(ns, j)); assert(app(e.nodes@, i) && app(e.nodes@, j)); assert(twin(e.nodes@, e.uf, i, j)); }
    assert forall|r: Rel| #[trigger] equiv(r, ns.len() as int) && covers(r, e.uf) implies covers(r, u1) by {
        assert forall|a: int, b: int| el(u1, a) && el(u1, b) && #[trigger] same(u1, a, b) implies r(a, b) by {
            if a < n0 { lem_root(e.uf, a); } if b < n0 { lem_root(e.uf, b); }
            if a < n0 && b < n0 { assert(same(e.uf, a, b)); } else { assert(a == b); }
        }
    }
    if !(node is App) {
        assert(closed(ns, u1)) by { assert forall|i: int, j: int| #[trigger] twin(ns, u1, i, j) implies same(u1, i, j) by { assert(app(ns, i) && app(ns, j)); } }
        assert(registered(ns, u1, e.use_list@)) by { assert forall|i: int| #[trigger] app(ns, i) implies e.use_list@[root(u1, fun(ns, i))]@.contains(i as usize) && e.use_list@[root(u1, arg(ns, i))]@.contains(i as usize) by { assert(app(e.nodes@, i)); } }
    }
}
// a fresh application congruent to an earlier one: everything congruent to it is linked through that one
proof fn lem_add_link(e: EGraph, ns: Seq<ENode>, u1: UnionFind, u4: UnionFind, node: ENode, other: usize)
    requires
        nodes_ok(ns), ns == e.nodes@.push(node), u1.parent@.len() == ns.len(), u4.parent@.len() == ns.len(), forall|y: int| el(u1, y) ==> #[trigger] root(u4, y) == root(u1, y),
        other < e.nodes@.len(), twin(ns, u1, e.nodes@.len() as int, other as int), ns.len() <= usize::MAX,
        forall|i: int, j: int| i < e.nodes@.len() && j < e.nodes@.len() && #[trigger] twin(ns, u1, i, j) ==> same(u1, i, j),
    ensures almost(ns, u4, seq![(e.nodes@.len() as usize, other)])
{
    let n0 = e.nodes@.len() as int; let q = seq![(n0 as usize, other)]; let o = other as int;
    assert(app(ns, o)); assert(app(ns, n0));
    assert forall|i: int, j: int| #[trigger] twin(ns, u4, i, j) implies linked(u4, q, i, j) by {
        assert(app(ns, i) && app(ns, j));
        assert(twin(ns, u1, i, j));
        assert forall|r: Rel| #[trigger] equiv(r, ns.len() as int) && covers(r, u4) && has(r, q) implies r(i, j) by {
            assert(q[0].0 == n0 && q[0].1 == other); assert(r(q[0].0 as int, q[0].1 as int)); assert(r(n0, o)); assert(r(o, n0));
            if i < n0 && j < n0 { assert(same(u1, i, j)); assert(same(u4, i, j)); }
            else if i == n0 && j == n0 { assert(r(i, j)); }
            else if i == n0 { assert(twin(ns, u1, o, j)); assert(same(u1, o, j)); assert(same(u4, o, j)); assert(r(o, j)); }
            else { assert(twin(ns, u1, i, o)); assert(same(u1, i, o)); assert(same(u4, i, o)); assert(r(i, o)); }
        }
    }
}
proof fn lem_add_sound(e: EGraph, ns: Seq<ENode>, u1: UnionFind, u4: UnionFind, v: UnionFind, node: ENode, id: usize, other: usize)
    requires
        ns == e.nodes@.push(node), id == e.nodes@.len(), u1.parent@.len() == ns.len(), u4.parent@.len() == ns.len(), grown(e.uf, u1), grown(u1, u4), grown(u4, v), e.uf.parent@.len() == e.nodes@.len(),
        forall|r: Rel| covers(r, u1) == #[trigger] covers(r, u4), other < ns.len(), nodes_ok(ns),
        sound(ns, u4, seq![(id, other)], v), twin(ns, u1, id as int, other as int),
        forall|r: Rel| #[trigger] equiv(r, ns.len() as int) && covers(r, e.uf) ==> covers(r, u1),
    ensures grown(e.uf, v), forall|q: Rel| #[trigger] equiv(q, ns.len() as int) && congr(q, ns) && covers(q, e.uf) ==> covers(q, v)
{
    assert forall|a: int, b: int| el(e.uf, a) && el(e.uf, b) && #[trigger] same(e.uf, a, b) implies same(v, a, b) by { assert(same(u1, a, b)); assert(same(u4, a, b)); }
    assert forall|q: Rel| #[trigger] equiv(q, ns.len() as int) && congr(q, ns) && covers(q, e.uf) implies covers(q, v) by {
        assert(covers(q, u1)); assert(covers(q, u4));
        let p = seq![(id, other)];
        assert(app(ns, id as int) && app(ns, other as int));
        assert(same(u1, fun(ns, id as int), fun(ns, other as int))); assert(same(u1, arg(ns, id as int), arg(ns, other as int)));
        assert(q(id as int, other as int));
        assert(has(q, p));
    }
}
// merge's precondition holds for any two terms of a valid graph
proof fn lem_valid_merge(e: EGraph, a: usize, b: usize)
    requires valid(e)
    ensures almost(e.nodes@, e.uf, seq![(a, b)])
{ assert forall|i: int, j: int| #[trigger] twin(e.nodes@, e.uf, i, j) implies linked(e.uf, seq![(a, b)], i, j) by { assert(app(e.nodes@, i) && app(e.nodes@, j)); assert(same(e.uf, i, j)); } }
proof fn lem_pushed_ok(ns: Seq<ENode>, l: Seq<Vec<usize>>, m: Seq<Vec<usize>>, r: int, u: usize)
    requires lists_ok(ns, l), m.len() == l.len(), 0 <= r < l.len(), m[r]@ == l[r]@.push(u), app(ns, u as int), forall|k: int| 0 <= k < l.len() && k != r ==> #[trigger] m[k] == l[k]
    ensures lists_ok(ns, m)
{
    assert forall|k: int| 0 <= k < m.len() implies apps(ns, (#[trigger] m[k])@) by { assert(apps(ns, l[k]@)); if k == r { assert forall|i: int| 0 <= i < m[r]@.len() implies app(ns, #[trigger] m[r]@[i] as int) by { if i < l[r]@.len() { assert(app(ns, l[r]@[i] as int)); } } } }
}
proof fn lem_union_lists(a: Seq<usize>, b: Seq<usize>)
    ensures forall|i: usize| a.contains(i) ==> #[trigger] (a + b).contains(i), forall|i: usize| b.contains(i) ==> #[trigger] (a + b).contains(i)
{
    assert forall|i: usize| a.contains(i) implies #[trigger] (a + b).contains(i) by { let k = choose|k: int| 0 <= k < a.len() && a[k] == i; assert((a + b)[k] == i); }
    assert forall|i: usize| b.contains(i) implies #[trigger] (a + b).contains(i) by { let k = choose|k: int| 0 <= k < b.len() && b[k] == i; assert((a + b)[a.len() + k] == i); }
}
fn main() {}
}
