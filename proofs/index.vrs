//#SUBST oob: panic!("Index {} is out of bounds for seq of length {}", index, len) =>> refuse(index, len)
//#SUBST zero: panic!("Index 0 is invalid: LOGOS uses 1-based indexing (minimum is 1, and -1 reads from the end)") =>> refuse(index, len)
//#SUBST uget: unsafe { self.get_unchecked(idx).clone() } =>> unchecked_clone(self, idx)
//#SUBST ugetv: unsafe { self.get_unchecked(idx).clone() } =>> unchecked_clone(self.as_slice(), idx)
//#SUBST uset: unsafe { *self.get_unchecked_mut(idx) = value; } =>> unchecked_set(self, idx, value);
//#SUBST usetv: unsafe { *self.get_unchecked_mut(idx) = value; } =>> unchecked_setv(self, idx, value);
//#SUBST hint: unsafe { std::hint::assert_unchecked(self.mask + 1 == self.entries.len()); } =>> must(self.mask + 1 == self.entries.len());
//#SUBST hintk: unsafe { std::hint::assert_unchecked(self.mask + 1 == self.keys.len()); } =>> must(self.mask + 1 == self.keys.len());
//#SUBST forkv: for &[k, v] in old.iter() { =>> let mut kv__i: usize = 0; while kv__i < old.len() { let k = old[kv__i][0]; let v = old[kv__i][1]; kv__i += 1;
//#SUBST letkv: let [k, v] = self.entries[i]; =>> let k = self.entries[i][0]; let v = self.entries[i][1];
//#SUBST setval: self.entries[i][1] = value; =>> set_val(&mut self.entries, i, value);
//#SUBST freshm: vec![[Self::EMPTY, 0]; new_slots] =>> fresh(new_slots)
//#SUBST freshc: vec![[Self::EMPTY, 0]; slots] =>> fresh(slots)
//#SUBST npt: ((cap * 4) / 3 + 1).next_power_of_two().max(8) =>> max8(pow2_at_least((cap * 4) / 3 + 1))
//#RAW
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// the position a program names: 1-based from the front, or -1-based from the end
spec fn named(index: i64, len: int) -> bool { 1 <= index <= len || 1 <= -index <= len }
spec fn offset(index: i64, len: int) -> int { if index >= 1 { index - 1 } else { len + index } }
// stands for panic!: reaching it is only allowed for a position outside the collection
#[verifier::external_body]
fn refuse(index: i64, len: usize) -> (r: usize) requires !named(index, len as int) ensures false { panic!() }
fn must(b: bool) requires b {}
// std: get_unchecked / get_unchecked_mut, safe only inside the slice (trusted specification)
#[verifier::external_body]
fn unchecked_clone<T: Clone>(s: &[T], idx: usize) -> (r: T) requires idx < s@.len() ensures cloned(s@[idx as int], r) { s[idx].clone() }
#[verifier::external_body]
fn unchecked_set<T>(s: &mut [T], idx: usize, value: T) requires idx < old(s)@.len() ensures final(s)@ == old(s)@.update(idx as int, value) { s[idx] = value; }
#[verifier::external_body]
fn unchecked_setv<T>(s: &mut Vec<T>, idx: usize, value: T) requires idx < old(s)@.len() ensures final(s)@ == old(s)@.update(idx as int, value) { s[idx] = value; }
trait LogosIndex<I> { type Output; fn logos_get(&self, index: I) -> Self::Output; }
trait LogosIndexMut<I>: LogosIndex<I> { fn logos_set(&mut self, index: I, value: Self::Output); }
pub assume_specification<T> [std::mem::replace] (d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r as int == (if a < 0 { -(a as int) } else { a as int });
//#FN crates/logicaffeine_data/src/indexing.rs :: fn resolve_logos_index | oob, zero
fn resolve_logos_index(index: i64, len: usize) -> /*@ (r: @*/ usize /*@ )
    ensures named(index, len as int), r == offset(index, len as int), r < len @*/ {
    if index >= 1 {
        let idx = (index - 1) as usize;
        if idx >= len {
            refuse(index, len);
        }
        idx
    } else if index <= -1 {
        let back = index.unsigned_abs() as usize;
        if back > len {
            refuse(index, len);
        }
        len - back
    } else {
        refuse(index, len);
        /*@ vstd::pervasive::unreached() @*/
    }
}
//#RAW
impl<T: Clone> LogosIndex<i64> for Vec<T> {
    type Output = T;
//#FN crates/logicaffeine_data/src/indexing.rs :: impl<T: Clone> LogosIndex<i64> for Vec<T> :: fn logos_get | ugetv
fn logos_get(&self, index: i64) -> /*@ (r: @*/ T /*@ )
    ensures named(index, self@.len() as int), cloned(self@[offset(index, self@.len() as int)], r) @*/ {
    let idx = resolve_logos_index(index, self.len());
    unchecked_clone(self.as_slice(), idx)
}
//#RAW
}
impl<T: Clone> LogosIndexMut<i64> for Vec<T> {
//#FN crates/logicaffeine_data/src/indexing.rs :: impl<T: Clone> LogosIndexMut<i64> for Vec<T> :: fn logos_set | usetv
fn logos_set(&mut self, index: i64, value: T)
    /*@ ensures named(index, old(self)@.len() as int), final(self)@ == old(self)@.update(offset(index, old(self)@.len() as int), value) @*/ {
    let idx = resolve_logos_index(index, self.len());
    unchecked_setv(self, idx, value);
}
//#RAW
}
impl<T: Clone> LogosIndex<i64> for [T] {
    type Output = T;
//#FN crates/logicaffeine_data/src/indexing.rs :: impl<T: Clone> LogosIndex<i64> for [T] :: fn logos_get | uget
fn logos_get(&self, index: i64) -> /*@ (r: @*/ T /*@ )
    ensures named(index, self@.len() as int), cloned(self@[offset(index, self@.len() as int)], r) @*/ {
    let idx = resolve_logos_index(index, self.len());
    unchecked_clone(self, idx)
}
//#RAW
}
impl<T: Clone> LogosIndexMut<i64> for [T] {
//#FN crates/logicaffeine_data/src/indexing.rs :: impl<T: Clone> LogosIndexMut<i64> for [T] :: fn logos_set | uset
fn logos_set(&mut self, index: i64, value: T)
    /*@ ensures named(index, old(self)@.len() as int), final(self)@ == old(self)@.update(offset(index, old(self)@.len() as int), value) @*/ {
    let idx = resolve_logos_index(index, self.len());
    unchecked_set(self, idx, value);
}
//#RAW
}
// ---- the flat i64 -> i64 map: linear probing in a power-of-two table ----
//#ITEM crates/logicaffeine_data/src/types.rs :: struct LogosI64Map
//#RAW
type Tab = Seq<[i64; 2]>;
spec fn ky(e: Tab, i: int) -> i64 { e[i]@[0] }
spec fn val(e: Tab, i: int) -> i64 { e[i]@[1] }
spec fn mixed(k: i64) -> u64 { let h = (((k as u64) as int * 0x9E37_79B9_7F4A_7C15) % 0x1_0000_0000_0000_0000) as u64; h ^ (h >> 32) }
spec fn home(k: i64, mask: usize) -> usize { (mixed(k) as usize) & mask }
spec fn nxt(i: int, n: int) -> int { if i + 1 == n { 0 } else { i + 1 } }
// j lies on the probe path from s up to (not including) i
spec fn on(s: int, j: int, i: int) -> bool { if s <= i { s <= j < i } else { j >= s || j < i } }
spec fn full(e: Tab, n: int) -> int decreases n { if n <= 0 { 0 } else { full(e, n - 1) + (if ky(e, n - 1) != 0 { 1int } else { 0 }) } }
// every key can be reached from its home slot, and is stored once
spec fn reach(e: Tab, mask: usize) -> bool { forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && #[trigger] ky(e, i) != 0 && on(home(ky(e, i), mask) as int, j, i) ==> #[trigger] ky(e, j) != 0 }
spec fn once(e: Tab) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() && #[trigger] ky(e, i) != 0 ==> ky(e, i) != #[trigger] ky(e, j) }
spec fn shape(e: Tab, mask: usize) -> bool { e.len() == mask + 1 && mask >= 7 && mask & ((mask + 1) as usize) == 0 && mask < 0x1000_0000_0000_0000 }
spec fn maps(e: Tab, k: i64, v: i64) -> bool { exists|i: int| 0 <= i < e.len() && #[trigger] ky(e, i) == k && val(e, i) == v }
spec fn absent(e: Tab, k: i64) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] ky(e, i) != k }
proof fn lem_nxt(i: usize, mask: usize) requires i <= mask, mask & ((mask + 1) as usize) == 0, mask < 0x1000_0000_0000_0000 ensures ((i + 1) as usize) & mask == nxt(i as int, mask + 1)
{ if i == mask { assert(((mask + 1) as usize) & mask == 0) by (bit_vector) requires mask & ((mask + 1) as usize) == 0; } else { assert(((i + 1) as usize) & mask == (i + 1) as usize) by (bit_vector) requires i < mask, mask & ((mask + 1) as usize) == 0, mask < 0x1000_0000_0000_0000; } }
proof fn lem_home(k: i64, mask: usize) ensures home(k, mask) <= mask
{ let a = mixed(k) as usize; assert(a & mask <= mask) by (bit_vector); }
proof fn lem_double(mask: usize) requires mask & ((mask + 1) as usize) == 0, mask < 0x0800_0000_0000_0000 ensures ((2 * mask + 1) as usize) & ((2 * mask + 2) as usize) == 0
{ assert(((2 * mask + 1) as usize) & ((2 * mask + 2) as usize) == 0) by (bit_vector) requires mask & ((mask + 1) as usize) == 0, mask < 0x0800_0000_0000_0000; }
proof fn lem_full_upd(e: Tab, i: int, x: [i64; 2], n: int)
    requires 0 <= i < e.len(), 0 <= n <= e.len()
    ensures full(e.update(i, x), n) == full(e, n) + (if i < n { (if x@[0] != 0 { 1int } else { 0 }) - (if ky(e, i) != 0 { 1int } else { 0 }) } else { 0 })
    decreases n
{ if n > 0 { lem_full_upd(e, i, x, n - 1); } }
proof fn lem_full_le(e: Tab, n: int) requires 0 <= n <= e.len() ensures 0 <= full(e, n) <= n, full(e, n) < n ==> exists|i: int| 0 <= i < n && #[trigger] ky(e, i) == 0 decreases n
{ if n > 0 { lem_full_le(e, n - 1); if full(e, n) < n { if ky(e, n - 1) != 0 { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ky(e, i) == 0; assert(ky(e, i) == 0); } } } }
proof fn lem_full_empty(e: Tab, n: int) requires 0 <= n <= e.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] ky(e, i) == 0 ensures full(e, n) == 0 decreases n { if n > 0 { lem_full_empty(e, n - 1); } }
proof fn lem_full_mono(e: Tab, a: int, n: int) requires 0 <= a <= n <= e.len() ensures full(e, a) <= full(e, n) decreases n { if a < n { lem_full_mono(e, a, n - 1); } }
spec fn dist(i: int, z: int, n: int) -> int { if z >= i { z - i } else { z + n - i } }
// one step along the probe path: everything passed so far stays passed
proof fn lem_step(s: int, i: int, n: int, z: int)
    requires 0 <= s < n, 0 <= i < n, 0 <= z < n, z != i, !on(s, z, i)
    ensures !on(s, z, nxt(i, n)), dist(nxt(i, n), z, n) == dist(i, z, n) - 1, forall|j: int| 0 <= j < n ==> (#[trigger] on(s, j, nxt(i, n)) <==> on(s, j, i) || j == i)
{}
// writing a key into the empty slot where its probe path ends
proof fn lem_place(e: Tab, mask: usize, i: int, k: i64, v: i64, x: [i64; 2])
    requires
        shape(e, mask), reach(e, mask), once(e), 0 <= i < e.len(), ky(e, i) == 0, k != 0, absent(e, k), x@[0] == k, x@[1] == v,
        forall|j: int| 0 <= j < e.len() && on(home(k, mask) as int, j, i) ==> #[trigger] ky(e, j) != 0,
    ensures
        shape(e.update(i, x), mask), reach(e.update(i, x), mask), once(e.update(i, x)), maps(e.update(i, x), k, v),
        forall|q: i64, w: i64| q != k && q != 0 ==> (#[trigger] maps(e.update(i, x), q, w) <==> maps(e, q, w)),
        forall|w: i64| #[trigger] maps(e.update(i, x), k, w) ==> w == v,
        full(e.update(i, x), e.len() as int) == full(e, e.len() as int) + 1,
{
    let f = e.update(i, x);
    lem_full_upd(e, i, x, e.len() as int);
    assert forall|a: int| 0 <= a < e.len() && a != i implies #[trigger] ky(f, a) == ky(e, a) && val(f, a) == val(e, a) by {}
    assert(ky(f, i) == k && val(f, i) == v);
    assert forall|a: int, j: int| 0 <= a < f.len() && 0 <= j < f.len() && #[trigger] ky(f, a) != 0 && on(home(ky(f, a), mask) as int, j, a) implies #[trigger] ky(f, j) != 0 by {
        if j != i { if a == i { assert(ky(e, j) != 0); } else { assert(ky(e, a) != 0); assert(ky(e, j) != 0); } }
    }
    assert forall|a: int, j: int| 0 <= a < j < f.len() && #[trigger] ky(f, a) != 0 implies ky(f, a) != #[trigger] ky(f, j) by {
        if a == i { assert(ky(e, j) != k); } else if j == i { assert(ky(e, a) != k); } else { assert(ky(e, a) != ky(e, j)); }
    }
    assert forall|q: i64, w: i64| q != k && q != 0 implies (#[trigger] maps(f, q, w) <==> maps(e, q, w)) by {
        if maps(f, q, w) { let a = choose|a: int| 0 <= a < f.len() && #[trigger] ky(f, a) == q && val(f, a) == w; assert(ky(e, a) == q); }
        if maps(e, q, w) { let a = choose|a: int| 0 <= a < e.len() && #[trigger] ky(e, a) == q && val(e, a) == w; assert(ky(f, a) == q); }
    }
    assert forall|w: i64| #[trigger] maps(f, k, w) implies w == v by { let a = choose|a: int| 0 <= a < f.len() && #[trigger] ky(f, a) == k && val(f, a) == w; if a != i { assert(ky(e, a) != k); } }
}
proof fn lem_absent(e: Tab, mask: usize, k: i64, i: int)
    requires
        shape(e, mask), reach(e, mask), k != 0, 0 <= i < e.len(), ky(e, i) == 0,
        forall|j: int| 0 <= j < e.len() && on(home(k, mask) as int, j, i) ==> #[trigger] ky(e, j) != 0 && ky(e, j) != k,
    ensures absent(e, k)
{
    lem_home(k, mask);
    assert forall|x: int| 0 <= x < e.len() implies #[trigger] ky(e, x) != k by {
        if ky(e, x) == k { let s = home(k, mask) as int; assert(x != i); if on(s, x, i) { } else { assert(on(s, i, x)); assert(ky(e, i) != 0); } }
    }
}
#[verifier::external_body]
fn fresh(n: usize) -> (r: Vec<[i64; 2]>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] ky(r@, i) == 0 { vec![[0, 0]; n] }
#[verifier::external_body]
fn set_val(e: &mut Vec<[i64; 2]>, i: usize, v: i64) requires i < old(e)@.len()
    ensures final(e)@.len() == old(e)@.len(), forall|j: int| 0 <= j < old(e)@.len() ==> #[trigger] ky(final(e)@, j) == ky(old(e)@, j), forall|j: int| 0 <= j < old(e)@.len() ==> #[trigger] val(final(e)@, j) == (if j == i { v } else { val(old(e)@, j) })
{ e[i][1] = v; }
#[verifier::external_body]
fn pow2_at_least(n: usize) -> (r: usize) requires n <= 0x0400_0000_0000_0000 ensures n <= r <= 0x0400_0000_0000_0000, r >= 1, ((r - 1) as usize) & r == 0 { n.next_power_of_two() }
fn max8(n: usize) -> (r: usize) ensures r == (if n < 8 { 8usize } else { n }) { if n < 8 { 8 } else { n } }
impl LogosI64Map {
//#ITEM crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: const EMPTY
//#RAW
    spec fn tlen(&self) -> int { self.len - (if self.has_zero_key { 1int } else { 0 }) }
    spec fn wf(&self) -> bool {
        &&& self.tlen() >= 0
        &&& self.mask == 0 ==> self.tlen() == 0 && self.entries@.len() == 0
        &&& self.mask != 0 ==> shape(self.entries@, self.mask) && reach(self.entries@, self.mask) && once(self.entries@) && full(self.entries@, self.entries@.len() as int) == self.tlen() && self.tlen() * 4 <= self.entries@.len() * 3
    }
    // what the map holds: key k is bound to v
    spec fn holds(&self, k: i64, v: i64) -> bool { if k == 0 { self.has_zero_key && self.zero_key_val == v } else { self.mask != 0 && maps(self.entries@, k, v) } }
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn new
fn new() -> /*@ (r: @*/ Self /*@ ) ensures r.wf(), r.len == 0, r.mask == 0, forall|k: i64, v: i64| !#[trigger] r.holds(k, v) @*/ {
    Self {
        entries: Vec::new(),
        mask: 0,
        len: 0,
        has_zero_key: false,
        zero_key_val: 0,
    }
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn with_capacity | freshc, npt
fn with_capacity(cap: usize) -> /*@ (r: @*/ Self /*@ ) requires cap <= 0x0200_0000_0000_0000 ensures r.wf(), r.len == 0, forall|k: i64, v: i64| !#[trigger] r.holds(k, v) @*/ {
    let mut m = Self::new();
    if cap > 0 {
        let slots = max8(pow2_at_least((cap * 4) / 3 + 1));
        m.entries = fresh(slots);
        m.mask = slots - 1;
        /*@ proof { assert(7usize & 8usize == 0) by (bit_vector); lem_full_empty(m.entries@, m.entries@.len() as int); } @*/
    }
    m
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn table_len
fn table_len(&self) -> /*@ (r: @*/ usize /*@ ) requires self.tlen() >= 0 ensures r == self.tlen() @*/ {
    self.len - self.has_zero_key as usize
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn assume_table_invariant | hint
fn assume_table_invariant(&self) /*@ requires self.mask + 1 == self.entries@.len(), self.mask < 0x1000_0000_0000_0000 @*/ {
    must(self.mask + 1 == self.entries.len());
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn slot
fn slot(&self, key: i64) -> /*@ (r: @*/ usize /*@ ) ensures r == home(key, self.mask), r <= self.mask @*/ {
    let mut h = key as u64;
    h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^= h >> 32;
    /*@ proof { lem_home(key, self.mask); } @*/
    (h as usize) & self.mask
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn insert | setval
fn insert(&mut self, key: i64, value: i64)
    /*@ requires old(self).wf(), old(self).len < 0x0400_0000_0000_0000, old(self).mask < 0x0400_0000_0000_0000
    ensures
        final(self).wf(),
        // the key is bound to exactly this value, and no other binding is touched
        forall|k: i64, v: i64| #[trigger] final(self).holds(k, v) <==> (if k == key { v == value } else { old(self).holds(k, v) }),
        final(self).len == old(self).len + (if exists|v: i64| old(self).holds(key, v) { 0int } else { 1 }), @*/ {
    if key == Self::EMPTY {
        /*@ let ghost z__s = *self; @*/
        if !self.has_zero_key {
            self.has_zero_key = true;
            self.len += 1;
        }
        self.zero_key_val = value;
        /*@ proof { if z__s.has_zero_key { assert(z__s.holds(0, z__s.zero_key_val)); } } @*/
        return;
    }
    if self.mask == 0 || (self.table_len() + 1) * 4 > (self.mask + 1) * 3 {
        self.grow();
    }
    self.assume_table_invariant();
    /*@ let ghost m0 = *self; let ghost e0 = self.entries@; let ghost n = self.entries@.len() as int;
        let ghost z = choose|z: int| 0 <= z < n && ky(e0, z) == 0;
        proof { lem_full_le(e0, n); lem_home(key, self.mask); assert(forall|k: i64, v: i64| #[trigger] m0.holds(k, v) <==> old(self).holds(k, v)); } @*/
    let mut i = self.slot(key);
    loop
        /*@ invariant
            self.entries@ == e0, self.mask == m0.mask, *self == m0, m0.wf(), m0.mask != 0, e0.len() == n, key != 0, i <= self.mask, e0 == m0.entries@,
            m0.len <= 0x0400_0000_0000_0000, (m0.tlen() + 1) * 4 <= n * 3,
            0 <= z < n, ky(e0, z) == 0, !on(home(key, m0.mask) as int, z, i as int), home(key, m0.mask) < n,
            forall|j: int| 0 <= j < n && on(home(key, m0.mask) as int, j, i as int) ==> #[trigger] ky(e0, j) != 0 && ky(e0, j) != key,
            forall|k: i64, v: i64| #[trigger] m0.holds(k, v) <==> old(self).holds(k, v), m0.len == old(self).len,
        decreases dist(i as int, z, n) @*/
    {
        let k = self.entries[i][0];
        /*@ proof { assert(k == ky(e0, i as int)); } @*/
        if k == Self::EMPTY {
            self.entries[i] = [key, value];
            self.len += 1;
            /*@ proof {
                lem_absent(e0, m0.mask, key, i as int);
                lem_place(e0, m0.mask, i as int, key, value, self.entries@[i as int]);
                assert(self.entries@ == e0.update(i as int, self.entries@[i as int]));
                assert forall|v: i64| !#[trigger] old(self).holds(key, v) by { assert(m0.holds(key, v) <==> old(self).holds(key, v)); }
                assert forall|kk: i64, v: i64| #[trigger] self.holds(kk, v) <==> (if kk == key { v == value } else { old(self).holds(kk, v) }) by { assert(m0.holds(kk, v) <==> old(self).holds(kk, v)); if kk == key { assert(maps(self.entries@, key, value)); } }
            } @*/
            return;
        }
        if k == key {
            set_val(&mut self.entries, i, value);
            /*@ proof {
                let f = self.entries@;
                lem_full_same(e0, f, n);
                assert forall|a: int, j: int| 0 <= a < f.len() && 0 <= j < f.len() && #[trigger] ky(f, a) != 0 && on(home(ky(f, a), m0.mask) as int, j, a) implies #[trigger] ky(f, j) != 0 by { assert(ky(e0, a) != 0); assert(ky(e0, j) != 0); }
                assert forall|a: int, j: int| 0 <= a < j < f.len() && #[trigger] ky(f, a) != 0 implies ky(f, a) != #[trigger] ky(f, j) by { assert(ky(e0, a) != ky(e0, j)); }
                assert(old(self).holds(key, val(e0, i as int))) by { assert(maps(e0, key, val(e0, i as int))); assert(m0.holds(key, val(e0, i as int))); }
                assert forall|kk: i64, v: i64| #[trigger] self.holds(kk, v) <==> (if kk == key { v == value } else { old(self).holds(kk, v) }) by {
                    assert(m0.holds(kk, v) <==> old(self).holds(kk, v));
                    if kk == key {
                        if v == value { assert(ky(f, i as int) == key && val(f, i as int) == value); }
                        if self.holds(kk, v) { let a = choose|a: int| 0 <= a < f.len() && #[trigger] ky(f, a) == kk && val(f, a) == v; if a != i { if a < i { assert(ky(e0, a) != ky(e0, i as int)); } else { assert(ky(e0, i as int) != ky(e0, a)); } } }
                    } else if kk != 0 {
                        if maps(f, kk, v) { let a = choose|a: int| 0 <= a < f.len() && #[trigger] ky(f, a) == kk && val(f, a) == v; assert(ky(e0, a) == kk && val(e0, a) == v); }
                        if maps(e0, kk, v) { let a = choose|a: int| 0 <= a < e0.len() && #[trigger] ky(e0, a) == kk && val(e0, a) == v; assert(ky(f, a) == kk && val(f, a) == v); }
                    }
                }
            } @*/
            return;
        }
        /*@ proof { lem_nxt(i, self.mask); lem_step(home(key, m0.mask) as int, i as int, n, z); } @*/
        i = (i + 1) & self.mask;
    }
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn grow | forkv, freshm
fn grow(&mut self)
    /*@ requires old(self).wf(), old(self).mask < 0x0400_0000_0000_0000
    ensures
        final(self).wf(), final(self).mask != 0, final(self).len == old(self).len, final(self).has_zero_key == old(self).has_zero_key, final(self).zero_key_val == old(self).zero_key_val,
        (final(self).tlen() + 1) * 4 <= final(self).entries@.len() * 3,
        forall|k: i64, v: i64| #[trigger] final(self).holds(k, v) <==> old(self).holds(k, v), @*/ {
    let new_slots = if self.mask == 0 { 8 } else { (self.mask + 1) * 2 };
    let old = std::mem::replace(&mut self.entries, fresh(new_slots));
    /*@ let ghost s0 = *vstd::prelude::old(self); let ghost oe = old@;
        proof { assert(oe == s0.entries@); if s0.mask != 0 { lem_double(s0.mask); lem_full_le(oe, oe.len() as int); } assert(7usize & 8usize == 0) by (bit_vector); } @*/
    self.mask = new_slots - 1;
    self.assume_table_invariant();
    /*@ proof { lem_full_empty(self.entries@, new_slots as int); if s0.mask == 0 { lem_grow0(s0); assert(full(oe, 0) == 0); } } @*/
    let mut kv__i: usize = 0; while kv__i < old.len()
        /*@ invariant
            kv__i <= oe.len(), old@ == oe, oe == s0.entries@, s0.wf(), oe.len() > 0 ==> s0.mask != 0,
            shape(self.entries@, self.mask), reach(self.entries@, self.mask), once(self.entries@), self.entries@.len() == new_slots,
            self.len == s0.len, self.has_zero_key == s0.has_zero_key, self.zero_key_val == s0.zero_key_val,
            full(self.entries@, new_slots as int) == full(oe, kv__i as int), full(oe, oe.len() as int) < new_slots,
            forall|a: int| 0 <= a < new_slots && #[trigger] ky(self.entries@, a) != 0 ==> exists|b: int| 0 <= b < kv__i && #[trigger] ky(oe, b) == ky(self.entries@, a) && val(oe, b) == val(self.entries@, a),
            forall|b: int| 0 <= b < kv__i && #[trigger] ky(oe, b) != 0 ==> maps(self.entries@, ky(oe, b), val(oe, b)),
        decreases oe.len() - kv__i @*/
    { let k = old[kv__i][0]; let v = old[kv__i][1]; kv__i += 1;
        /*@ let ghost e0 = self.entries@; let ghost n = new_slots as int; let ghost b0 = (kv__i - 1) as int; let ghost z = choose|z: int| 0 <= z < n && ky(e0, z) == 0;
            proof { assert(k == ky(oe, b0) && v == val(oe, b0)); lem_full_mono(oe, kv__i as int, oe.len() as int); lem_full_le(e0, n); lem_home(k, self.mask);
                assert(k != 0 ==> absent(e0, k)) by { if k != 0 && !absent(e0, k) { let a = choose|a: int| 0 <= a < n && #[trigger] ky(e0, a) == k; let b = choose|b: int| 0 <= b < kv__i - 1 && #[trigger] ky(oe, b) == ky(e0, a) && val(oe, b) == val(e0, a); assert(ky(oe, b) != ky(oe, b0)); } } } @*/
        if k != Self::EMPTY {
            let mut i = self.slot(k);
            while self.entries[i][0] != Self::EMPTY
                /*@ invariant
                    self.entries@ == e0, e0.len() == n, shape(e0, self.mask), i <= self.mask, k != 0, n == new_slots, home(k, self.mask) < n,
                    0 <= z < n, ky(e0, z) == 0, !on(home(k, self.mask) as int, z, i as int),
                    forall|j: int| 0 <= j < n && on(home(k, self.mask) as int, j, i as int) ==> #[trigger] ky(e0, j) != 0,
                decreases dist(i as int, z, n) @*/
            {
                /*@ proof { assert(ky(e0, i as int) != 0); lem_nxt(i, self.mask); lem_step(home(k, self.mask) as int, i as int, n, z); } @*/
                i = (i + 1) & self.mask;
            }
            /*@ proof { assert(ky(e0, i as int) == 0); } @*/
            self.entries[i] = [k, v];
            /*@ proof {
                lem_place(e0, self.mask, i as int, k, v, self.entries@[i as int]);
                assert(self.entries@ == e0.update(i as int, self.entries@[i as int]));
                let f = self.entries@;
                assert forall|a: int| 0 <= a < new_slots && #[trigger] ky(f, a) != 0 implies exists|b: int| 0 <= b < kv__i && #[trigger] ky(oe, b) == ky(f, a) && val(oe, b) == val(f, a) by {
                    if a == i { assert(ky(oe, b0) == ky(f, a) && val(oe, b0) == val(f, a)); } else { assert(ky(e0, a) == ky(f, a)); let b = choose|b: int| 0 <= b < kv__i - 1 && #[trigger] ky(oe, b) == ky(e0, a) && val(oe, b) == val(e0, a); assert(ky(oe, b) == ky(f, a)); }
                }
                assert forall|b: int| 0 <= b < kv__i && #[trigger] ky(oe, b) != 0 implies maps(f, ky(oe, b), val(oe, b)) by { if b != b0 { assert(maps(e0, ky(oe, b), val(oe, b))); assert(ky(oe, b) != ky(oe, b0)); } }
            } @*/
        }
    }
    /*@ proof {
        let f = self.entries@;
        assert forall|k: i64, v: i64| #[trigger] self.holds(k, v) <==> s0.holds(k, v) by {
            if k != 0 {
                if maps(f, k, v) { let a = choose|a: int| 0 <= a < f.len() && #[trigger] ky(f, a) == k && val(f, a) == v; let b = choose|b: int| 0 <= b < oe.len() && #[trigger] ky(oe, b) == ky(f, a) && val(oe, b) == val(f, a); assert(ky(oe, b) == k); }
                if s0.mask != 0 && maps(oe, k, v) { let b = choose|b: int| 0 <= b < oe.len() && #[trigger] ky(oe, b) == k && val(oe, b) == v; assert(ky(oe, b) != 0); }
            }
        }
    } @*/
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn get | letkv
/*@ #[verifier::loop_isolation(false)] @*/ fn get(&self, key: &i64) -> /*@ (r: @*/ Option<i64> /*@ )
    requires self.wf()
    ensures match r { Some(v) => forall|w: i64| #[trigger] self.holds(*key, w) <==> w == v, None => forall|w: i64| !#[trigger] self.holds(*key, w) } @*/ {
    let key = *key;
    if key == Self::EMPTY {
        return if self.has_zero_key {
            Some(self.zero_key_val)
        } else {
            None
        };
    }
    if self.mask == 0 {
        return None;
    }
    self.assume_table_invariant();
    /*@ let ghost e0 = self.entries@; let ghost n = self.entries@.len() as int;
        let ghost z = choose|z: int| 0 <= z < n && ky(e0, z) == 0;
        proof { lem_full_le(e0, n); lem_home(key, self.mask); } @*/
    let mut i = self.slot(key);
    loop
        /*@ invariant
            self.wf(), self.mask != 0, e0 == self.entries@, n == e0.len(), key != 0, i <= self.mask,
            0 <= z < n, ky(e0, z) == 0, !on(home(key, self.mask) as int, z, i as int), home(key, self.mask) < n,
            forall|j: int| 0 <= j < n && on(home(key, self.mask) as int, j, i as int) ==> #[trigger] ky(e0, j) != 0 && ky(e0, j) != key,
        decreases dist(i as int, z, n) @*/
    {
        let k = self.entries[i][0]; let v = self.entries[i][1];
        /*@ proof { assert(k == ky(e0, i as int) && v == val(e0, i as int)); } @*/
        if k == key {
            /*@ proof {
                lem_uniq(e0, i as int, key);
            } @*/
            return Some(v);
        }
        if k == Self::EMPTY {
            /*@ proof { lem_absent(e0, self.mask, key, i as int); } @*/
            return None;
        }
        /*@ proof { lem_nxt(i, self.mask); lem_step(home(key, self.mask) as int, i as int, n, z); } @*/
        i = (i + 1) & self.mask;
    }
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn contains_key
fn contains_key(&self, key: &i64) -> /*@ (r: @*/ bool /*@ ) requires self.wf() ensures r <==> exists|w: i64| self.holds(*key, w) @*/ {
    /*@ let f__r = @*/ self.get(key) /*@ ; proof { if let Some(v) = f__r { assert(self.holds(*key, v)); } } f__r @*/ .is_some()
}
//#FN crates/logicaffeine_data/src/types.rs :: impl LogosI64Map :: fn len
fn len(&self) -> /*@ (r: @*/ usize /*@ ) ensures r == self.len @*/ {
    self.len
}
//#RAW
}
proof fn lem_uniq(e: Tab, i: int, k: i64) requires once(e), 0 <= i < e.len(), k != 0, ky(e, i) == k ensures forall|w: i64| #[trigger] maps(e, k, w) <==> w == val(e, i)
{
    assert(maps(e, k, val(e, i)));
    assert forall|w: i64| #[trigger] maps(e, k, w) implies w == val(e, i) by { let a = choose|a: int| 0 <= a < e.len() && #[trigger] ky(e, a) == k && val(e, a) == w; if a < i { assert(ky(e, a) != ky(e, i)); } else if a > i { assert(ky(e, i) != ky(e, a)); } }
}
proof fn lem_grow0(s: LogosI64Map) requires s.wf(), s.mask == 0 ensures s.tlen() == 0 {}
proof fn lem_full_same(e: Tab, f: Tab, n: int) requires 0 <= n <= e.len(), f.len() == e.len(), forall|j: int| 0 <= j < e.len() ==> #[trigger] ky(f, j) == ky(e, j) ensures full(f, n) == full(e, n) decreases n { if n > 0 { lem_full_same(e, f, n - 1); } }
fn main() {}
} // verus!
