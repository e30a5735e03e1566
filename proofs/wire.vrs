//#RAW
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// LEB128: seven bits per byte, least significant first, high bit set on all but the last
spec fn leb(x: u64) -> Seq<u8>
    decreases x
{ if x < 128 { seq![x as u8] } else { seq![((x % 128) + 128) as u8] + leb(x / 128) } }
// the bytes at pos begin with s
spec fn starts(buf: Seq<u8>, pos: int, s: Seq<u8>) -> bool { 0 <= pos && pos + s.len() <= buf.len() && forall|i: int| 0 <= i < s.len() ==> buf[pos + i] == s[i] }
spec fn starts_leb(buf: Seq<u8>, pos: int, x: u64) -> bool { starts(buf, pos, leb(x)) }
spec fn zz(x: i64) -> int { if x >= 0 { 2 * x } else { -2 * x - 1 } }
proof fn lem_leb_len(x: u64) ensures 1 <= leb(x).len() <= 10, leb(x).len() == leb_len(x)
{
    reveal_with_fuel(leb, 11);
    assert(x / 128 < 0x200000000000000) by (bit_vector);
}
spec fn leb_len(x: u64) -> int {
    if x < 0x80 { 1 } else if x < 0x4000 { 2 } else if x < 0x200000 { 3 } else if x < 0x10000000 { 4 } else if x < 0x800000000 { 5 } else if x < 0x40000000000 { 6 }
    else if x < 0x2000000000000 { 7 } else if x < 0x100000000000000 { 8 } else if x < 0x8000000000000000 { 9 } else { 10 }
}
proof fn lem_split(buf: Seq<u8>, pos: int, a: Seq<u8>, b: Seq<u8>)
    requires starts(buf, pos, a + b)
    ensures starts(buf, pos, a), starts(buf, pos + a.len(), b)
{
    assert forall|i: int| 0 <= i < a.len() implies buf[pos + i] == a[i] by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies buf[pos + a.len() + i] == b[i] by { assert((a + b)[a.len() + i] == b[i]); }
}
// one reading step: what the first byte at pos says about any x written there
proof fn lem_step(buf: Seq<u8>, pos: int, x: u64, sh: u64)
    requires starts_leb(buf, pos, x >> sh), sh < 64
    ensures
        pos < buf.len(),
        (x >> sh) < 128 ==> buf[pos] == (x >> sh) && buf[pos] & 0x80 == 0 && (buf[pos] & 0x7f) as u64 == x >> sh && leb(x >> sh).len() == 1,
        (x >> sh) >= 128 ==> buf[pos] & 0x80 != 0 && (buf[pos] & 0x7f) as u64 == (x >> sh) & 0x7f && sh + 7 < 64 && starts_leb(buf, pos + 1, x >> ((sh + 7) as u64)) && leb(x >> sh).len() == leb(x >> ((sh + 7) as u64)).len() + 1,
{
    let y = x >> sh;
    assert(leb(y)[0] == buf[pos + 0]);
    if y < 128 {
        let b = y as u8;
        assert(b & 0x80 == 0 && b & 0x7f == b) by (bit_vector) requires b < 128;
    } else {
        let m = y % 128;
        let b = (m + 128) as u8;
        assert(m == y & 0x7f && y / 128 == y >> 7) by (bit_vector) requires m == y % 128;
        assert(b & 0x80 != 0 && (b & 0x7f) as u64 == m) by (bit_vector) requires m < 128, b == (m + 128) as u8;
        assert(sh < 57) by (bit_vector) requires y == x >> sh, y >= 128, sh < 64;
        let s7 = (sh + 7) as u64;
        assert(y >> 7 == x >> s7) by (bit_vector) requires y == x >> sh, sh < 57, s7 == sh + 7;
        lem_split(buf, pos, seq![b], leb(y / 128));
    }
}
spec fn low(x: u64, sh: u64) -> u64 { if sh >= 64 { x } else { x & sub((1u64 << sh), 1) } }
proof fn lem_low(x: u64, sh: u64, part: u64, res: u64)
    requires sh < 64, part == (x >> sh) & 0x7f, res == low(x, sh)
    ensures sh + 7 < 64 ==> res | (part << sh) == low(x, (sh + 7) as u64), (x >> sh) < 128 ==> res | (part << sh) == x
{
    let s7 = (sh + 7) as u64;
    if s7 < 64 {
        assert((x & sub((1u64 << sh), 1)) | (((x >> sh) & 0x7f) << sh) == x & sub((1u64 << s7), 1)) by (bit_vector) requires s7 == sh + 7, s7 < 64;
    }
    if (x >> sh) < 128 {
        assert((x & sub((1u64 << sh), 1)) | (((x >> sh) & 0x7f) << sh) == x) by (bit_vector) requires sh < 64, (x >> sh) < 128;
    }
}
proof fn lem_low0(x: u64) ensures low(x, 0) == 0, x >> 0u64 == x
{ assert(x & sub((1u64 << 0u64), 1) == 0 && x >> 0u64 == x) by (bit_vector); }
proof fn lem_zz(x: i64) ensures (((x << 1) ^ (x >> 63)) as u64) == zz(x)
{ assert(x >= 0 ==> ((x << 1) ^ (x >> 63)) as u64 == mul(2, x as u64)) by (bit_vector); assert(x < 0 ==> ((x << 1) ^ (x >> 63)) as u64 == !((mul(2, x as u64)))) by (bit_vector);
  assert(x >= 0 ==> (x as u64) <= 0x7fff_ffff_ffff_ffff && x as u64 == x) by (bit_vector);
  let n = x as u64; let m = !mul(2, n);
  if x < 0 { let k = (-1 - x) as u64; assert(m == add(mul(2, k), 1) && k <= 0x7fff_ffff_ffff_ffff) by (bit_vector) requires m == !mul(2, n), n == x as u64, x < 0, k == (sub(-1i64, x)) as u64; }
}
//#RAW

mod wire { use vstd::prelude::*; use super::*;
//#FN crates/logicaffeine_data/src/wire.rs :: fn write_uvarint
    fn write_uvarint(mut x: u64, out: &mut Vec<u8>)
        /*@ ensures final(out)@ == old(out)@ + leb(x) @*/ {
        /*@ let ghost x0 = x; let ghost o0 = out@; @*/
        while x >= 0x80
            /*@ invariant out@ + leb(x) =~= o0 + leb(x0)
            decreases x @*/
        {
            /*@ let ghost y = x; @*/
            out.push((x as u8) | 0x80);
            x >>= 7;
            /*@ proof { assert(y >> 7 == y / 128 && ((y as u8) | 0x80) as u64 == y % 128 + 128 && y / 128 < y) by (bit_vector) requires y >= 128; assert(leb(y) =~= seq![((y % 128) + 128) as u8] + leb(y / 128)); } @*/
        }
        out.push(x as u8);
        /*@ proof { assert(leb(x) =~= seq![x as u8]); } @*/
    }
//#FN crates/logicaffeine_data/src/wire.rs :: fn read_uvarint
    fn read_uvarint(buf: &[u8], pos: &mut usize) -> /*@ (r: @*/ Option<u64> /*@ )
        requires *old(pos) <= buf@.len()
        ensures
            *old(pos) <= *final(pos) <= buf@.len(),
            forall|x: u64| #[trigger] starts_leb(buf@, *old(pos) as int, x) ==> r == Some(x) && *final(pos) == *old(pos) + leb(x).len(), @*/ {
        let mut result = 0u64;
        let mut shift = 0u32;
        /*@ let ghost p0 = *pos as int; proof { assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies result == low(x, shift as u64) && starts_leb(buf@, *pos as int, x >> (shift as u64)) && *pos - p0 + leb(x >> (shift as u64)).len() == leb(x).len() by { lem_low0(x); } } @*/
        loop
            /*@ invariant_except_break
                p0 <= *pos <= buf@.len(), shift <= 70,
                forall|x: u64| #[trigger] starts_leb(buf@, p0, x) ==> shift < 64 && result == low(x, shift as u64) && starts_leb(buf@, *pos as int, x >> (shift as u64)) && *pos - p0 + leb(x >> (shift as u64)).len() == leb(x).len(),
            invariant p0 <= *pos <= buf@.len(), p0 == *old(pos)
            decreases buf@.len() - *pos @*/
        {
            /*@ let ghost p1 = *pos as int; let ghost r1 = result; let ghost s1 = shift as u64;
            proof { assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies p1 < buf@.len() by { lem_step(buf@, p1, x, s1); } } @*/
            /*@ proof { assert(buf.len() as int == buf@.len()); } @*/
            let b = *buf.get(*pos)?;
            *pos += 1;
            if shift >= 64 {
                return None;
            }
            result |= u64::from(b & 0x7f) << shift;
            /*@ proof {
                assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies
                    ((b & 0x80 == 0) ==> result == x && leb(x).len() == *pos - p0) && ((b & 0x80 != 0) ==> s1 + 7 < 64 && result == low(x, (s1 + 7) as u64) && starts_leb(buf@, *pos as int, x >> ((s1 + 7) as u64)) && *pos - p0 + leb(x >> ((s1 + 7) as u64)).len() == leb(x).len()) by {
                    lem_step(buf@, p1, x, s1);
                    let part = (b & 0x7f) as u64; let y = x >> s1;
                    assert(y < 128 ==> y & 0x7f == y) by (bit_vector);
                    assert(result == r1 | (part << s1));
                    lem_low(x, s1, part, r1);
                }
            } @*/
            if b & 0x80 == 0 {
                return Some(result);
            }
            shift += 7;
        }
    }
//#FN crates/logicaffeine_data/src/wire.rs :: fn zigzag
    fn zigzag(x: i64) -> /*@ (r: @*/ u64 /*@ )
        ensures r == zz(x) @*/ {
        /*@ proof { lem_zz(x); } @*/
        ((x << 1) ^ (x >> 63)) as u64
    }
//#FN crates/logicaffeine_data/src/wire.rs :: fn unzigzag
    fn unzigzag(x: u64) -> /*@ (r: @*/ i64 /*@ )
        ensures zz(r) == x @*/ {
        /*@ proof { let a = (x >> 1) as i64; let o = (x & 1) as i64; assert(o == 0 || o == 1) by (bit_vector) requires o == (x & 1) as i64;
            let v = a ^ sub(0i64, o); lem_zz(v); assert((((v << 1) ^ (v >> 63)) as u64) == x) by (bit_vector) requires v == a ^ sub(0i64, o), a == (x >> 1) as i64, o == (x & 1) as i64; } @*/
        ((x >> 1) as i64) ^ -((x & 1) as i64)
    }
//#RAW

//#ITEM crates/logicaffeine_data/src/wire.rs :: const T_FALSE
//#ITEM crates/logicaffeine_data/src/wire.rs :: const T_TRUE
//#ITEM crates/logicaffeine_data/src/wire.rs :: const T_INT
//#ITEM crates/logicaffeine_data/src/wire.rs :: const T_LIST
//#RAW
// what the bytes of a value are, and when two values count as equal
trait Wire: Sized { spec fn bytes(&self) -> Seq<u8>; spec fn eqv(&self, o: &Self) -> bool; }
// the two traits of wire.rs with their contracts: encode appends the bytes, decode of those bytes gives an equal value back
trait WireEncode: Wire { fn wire_encode(&self, out: &mut Vec<u8>) ensures final(out)@ == old(out)@ + self.bytes(); }
trait WireDecode: Wire {
    fn wire_decode(buf: &[u8], pos: &mut usize) -> (r: Option<Self>)
        requires *old(pos) <= buf@.len()
        ensures *old(pos) <= *final(pos) <= buf@.len(), forall|v: Self| starts(buf@, *old(pos) as int, #[trigger] v.bytes()) ==> r is Some && (r->0).eqv(&v) && *final(pos) == *old(pos) + v.bytes().len();
}
impl Wire for i64 { spec fn bytes(&self) -> Seq<u8> { seq![T_INT] + leb(zz(*self) as u64) } spec fn eqv(&self, o: &Self) -> bool { *self == *o } }
impl Wire for bool { spec fn bytes(&self) -> Seq<u8> { seq![if *self { T_TRUE } else { T_FALSE }] } spec fn eqv(&self, o: &Self) -> bool { *self == *o } }
spec fn cat<T: Wire>(s: Seq<T>, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { cat(s, k - 1) + s[k - 1].bytes() } }
impl<T: Wire> Wire for Vec<T> {
    spec fn bytes(&self) -> Seq<u8> { seq![T_LIST] + leb(self@.len() as u64) + cat(self@, self@.len() as int) }
    spec fn eqv(&self, o: &Self) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i].eqv(&o@[i]) }
}
proof fn lem_cat_split<T: Wire>(buf: Seq<u8>, pos: int, s: Seq<T>, n: int, k: int)
    requires starts(buf, pos, cat(s, n)), 0 <= k < n
    ensures starts(buf, pos + cat(s, k).len(), s[k].bytes()), starts(buf, pos, cat(s, k + 1))
    decreases n
{
    if k == n - 1 { lem_split(buf, pos, cat(s, n - 1), s[n - 1].bytes()); }
    else { lem_split(buf, pos, cat(s, n - 1), s[n - 1].bytes()); lem_cat_split(buf, pos, s, n - 1, k); }
}
proof fn lem_zz_inj(a: i64, b: i64) requires zz(a) == zz(b) ensures a == b {}
//#FN crates/logicaffeine_data/src/wire.rs :: fn expect_tag
    fn expect_tag(buf: &[u8], pos: &mut usize, expected: u8) -> /*@ (r: @*/ Option<()> /*@ )
        requires *old(pos) <= buf@.len()
        ensures *final(pos) <= buf@.len(), r is Some <==> *old(pos) < buf@.len() && buf@[*old(pos) as int] == expected, *final(pos) == *old(pos) + if r is Some { 1int } else { 0 } @*/ {
        /*@ proof { assert(buf.len() as int == buf@.len()); } @*/
        let t = *buf.get(*pos)?;
        if t != expected {
            return None;
        }
        *pos += 1;
        Some(())
    }
//#RAW
impl WireEncode for i64 {
//#FN crates/logicaffeine_data/src/wire.rs :: impl WireEncode for i64 :: fn wire_encode
    fn wire_encode(&self, out: &mut Vec<u8>) {
        /*@ let ghost o0 = out@; @*/
        out.push(T_INT);
        write_uvarint(zigzag(*self), out);
        /*@ proof { assert(out@ =~= o0 + self.bytes()); } @*/
    }
//#RAW
}
impl WireDecode for i64 {
//#FN crates/logicaffeine_data/src/wire.rs :: impl WireDecode for i64 :: fn wire_decode
    fn wire_decode(buf: &[u8], pos: &mut usize) -> /*@ (r: @*/ Option<Self> /*@ ) @*/ {
        /*@ let ghost p0 = *pos as int; proof {
            assert forall|v: i64| starts(buf@, p0, #[trigger] v.bytes()) implies p0 < buf@.len() && buf@[p0] == T_INT && starts_leb(buf@, p0 + 1, zz(v) as u64) by { lem_split(buf@, p0, seq![T_INT], leb(zz(v) as u64)); assert(seq![T_INT][0] == buf@[p0 + 0]); }
        } @*/
        expect_tag(buf, pos, T_INT)?;
        Some(unzigzag(read_uvarint(buf, pos)?))
    }
//#RAW
}
impl WireEncode for bool {
//#FN crates/logicaffeine_data/src/wire.rs :: impl WireEncode for bool :: fn wire_encode
    fn wire_encode(&self, out: &mut Vec<u8>) {
        /*@ let ghost o0 = out@; @*/
        out.push(if *self { T_TRUE } else { T_FALSE });
        /*@ proof { assert(out@ =~= o0 + self.bytes()); } @*/
    }
//#RAW
}
impl WireDecode for bool {
//#FN crates/logicaffeine_data/src/wire.rs :: impl WireDecode for bool :: fn wire_decode
    fn wire_decode(buf: &[u8], pos: &mut usize) -> /*@ (r: @*/ Option<Self> /*@ ) @*/ {
        /*@ let ghost p0 = *pos as int; proof { assert(buf.len() as int == buf@.len());
            assert forall|v: bool| starts(buf@, p0, #[trigger] v.bytes()) implies p0 < buf@.len() && buf@[p0] == (if v { T_TRUE } else { T_FALSE }) by { assert(v.bytes()[0] == buf@[p0 + 0]); }
        } @*/
        let t = *buf.get(*pos)?;
        *pos += 1;
        match t {
            T_TRUE => Some(true),
            T_FALSE => Some(false),
            _ => None,
        }
    }
//#RAW
}
impl<T: WireEncode> WireEncode for Vec<T> {
//#FN crates/logicaffeine_data/src/wire.rs :: impl<T: WireEncode> WireEncode for Vec<T> :: fn wire_encode | forwhile
    fn wire_encode(&self, out: &mut Vec<u8>) {
        /*@ let ghost o0 = out@; @*/
        out.push(T_LIST);
        write_uvarint(self.len() as u64, out);
        /*@ let ghost o1 = out@; proof { assert(o1 =~= o0 + (seq![T_LIST] + leb(self@.len() as u64))); } @*/
        let mut e__i : usize = 0 ; while e__i < self . len ( )
            /*@ invariant e__i <= self@.len(), out@ =~= o1 + cat(self@, e__i as int)
            decreases self@.len() - e__i @*/
        { let e = & self [ e__i ] ; e__i += 1 ;
            e.wire_encode(out);
        }
        /*@ proof { assert(out@ =~= o0 + self.bytes()); } @*/
    }
//#RAW
}
impl<T: WireDecode> WireDecode for Vec<T> {
//#FN crates/logicaffeine_data/src/wire.rs :: impl<T: WireDecode> WireDecode for Vec<T> :: fn wire_decode | forwhile
    fn wire_decode(buf: &[u8], pos: &mut usize) -> /*@ (r: @*/ Option<Self> /*@ ) @*/ {
        /*@ let ghost p0 = *pos as int; proof {
            assert forall|v: Vec<T>| starts(buf@, p0, #[trigger] v.bytes()) implies p0 < buf@.len() && buf@[p0] == T_LIST && starts_leb(buf@, p0 + 1, v@.len() as u64) && starts(buf@, p0 + 1 + leb(v@.len() as u64).len(), cat(v@, v@.len() as int)) && v@.len() <= u64::MAX by {
                lem_split(buf@, p0, seq![T_LIST] + leb(v@.len() as u64), cat(v@, v@.len() as int)); lem_split(buf@, p0, seq![T_LIST], leb(v@.len() as u64)); assert(seq![T_LIST][0] == buf@[p0 + 0]); assert(v.len() as int == v@.len()); }
        } @*/
        expect_tag(buf, pos, T_LIST)?;
        let n = read_uvarint(buf, pos)? as usize;
        /*@ let ghost p2 = *pos as int; @*/
        let mut xs /*@ : Vec<T> @*/ = Vec::with_capacity(n.min(1024));
        let mut u____i = 0 ; let u____e = n ; while u____i < u____e
            /*@ invariant
                u____e == n, u____i <= n, p0 <= *pos <= buf@.len(), xs@.len() == u____i, p0 == *old(pos),
                forall|v: Vec<T>| starts(buf@, p0, #[trigger] v.bytes()) ==> v@.len() == n && p2 == p0 + 1 + leb(n as u64).len() && starts(buf@, p2, cat(v@, v@.len() as int)) && *pos == p2 + cat(v@, u____i as int).len() && forall|i: int| 0 <= i < u____i ==> #[trigger] xs@[i].eqv(&v@[i]),
            decreases n - u____i @*/
        { let u__ = u____i ; u____i += 1 ;
            /*@ let ghost p3 = *pos as int; proof { assert forall|v: Vec<T>| starts(buf@, p0, #[trigger] v.bytes()) implies starts(buf@, p3, v@[u____i - 1].bytes()) && cat(v@, u____i as int).len() == cat(v@, u____i - 1).len() + v@[u____i - 1].bytes().len() by { lem_cat_split(buf@, p2, v@, v@.len() as int, u____i - 1); } } @*/
            xs.push(T::wire_decode(buf, pos)?);
        }
        Some(xs)
    }
//#RAW
}
}

mod describe { use vstd::prelude::*; use super::*;
//#FN crates/logicaffeine_base/src/describe.rs :: fn write_uvarint
    fn write_uvarint(mut x: u64, out: &mut Vec<u8>)
        /*@ ensures final(out)@ == old(out)@ + leb(x) @*/ {
        /*@ let ghost x0 = x; let ghost o0 = out@; @*/
        while x >= 0x80
            /*@ invariant out@ + leb(x) =~= o0 + leb(x0)
            decreases x @*/
        {
            /*@ let ghost y = x; @*/
            out.push((x as u8) | 0x80);
            x >>= 7;
            /*@ proof { assert(y >> 7 == y / 128 && ((y as u8) | 0x80) as u64 == y % 128 + 128 && y / 128 < y) by (bit_vector) requires y >= 128; assert(leb(y) =~= seq![((y % 128) + 128) as u8] + leb(y / 128)); } @*/
        }
        out.push(x as u8);
        /*@ proof { assert(leb(x) =~= seq![x as u8]); } @*/
    }
//#FN crates/logicaffeine_base/src/describe.rs :: fn read_uvarint
    fn read_uvarint(buf: &[u8], pos: &mut usize) -> /*@ (r: @*/ Option<u64> /*@ )
        requires *old(pos) <= buf@.len()
        ensures
            *old(pos) <= *final(pos) <= buf@.len(),
            forall|x: u64| #[trigger] starts_leb(buf@, *old(pos) as int, x) ==> r == Some(x) && *final(pos) == *old(pos) + leb(x).len(), @*/ {
        let mut result = 0u64;
        let mut shift = 0u32;
        /*@ let ghost p0 = *pos as int; proof { assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies result == low(x, shift as u64) && starts_leb(buf@, *pos as int, x >> (shift as u64)) && *pos - p0 + leb(x >> (shift as u64)).len() == leb(x).len() by { lem_low0(x); } } @*/
        loop
            /*@ invariant_except_break
                p0 <= *pos <= buf@.len(), shift <= 70,
                forall|x: u64| #[trigger] starts_leb(buf@, p0, x) ==> shift < 64 && result == low(x, shift as u64) && starts_leb(buf@, *pos as int, x >> (shift as u64)) && *pos - p0 + leb(x >> (shift as u64)).len() == leb(x).len(),
            invariant p0 <= *pos <= buf@.len(), p0 == *old(pos)
            decreases buf@.len() - *pos @*/
        {
            /*@ let ghost p1 = *pos as int; let ghost r1 = result; let ghost s1 = shift as u64;
            proof { assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies p1 < buf@.len() by { lem_step(buf@, p1, x, s1); } } @*/
            /*@ proof { assert(buf.len() as int == buf@.len()); } @*/
            let b = *buf.get(*pos)?;
            *pos += 1;
            if shift >= 64 {
                return None;
            }
            result |= u64::from(b & 0x7f) << shift;
            /*@ proof {
                assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies
                    ((b & 0x80 == 0) ==> result == x && leb(x).len() == *pos - p0) && ((b & 0x80 != 0) ==> s1 + 7 < 64 && result == low(x, (s1 + 7) as u64) && starts_leb(buf@, *pos as int, x >> ((s1 + 7) as u64)) && *pos - p0 + leb(x >> ((s1 + 7) as u64)).len() == leb(x).len()) by {
                    lem_step(buf@, p1, x, s1);
                    let part = (b & 0x7f) as u64; let y = x >> s1;
                    assert(y < 128 ==> y & 0x7f == y) by (bit_vector);
                    assert(result == r1 | (part << s1));
                    lem_low(x, s1, part, r1);
                }
            } @*/
            if b & 0x80 == 0 {
                return Some(result);
            }
            shift += 7;
        }
    }
//#FN crates/logicaffeine_base/src/describe.rs :: fn zigzag
    fn zigzag(x: i64) -> /*@ (r: @*/ u64 /*@ )
        ensures r == zz(x) @*/ {
        /*@ proof { lem_zz(x); } @*/
        ((x << 1) ^ (x >> 63)) as u64
    }
//#FN crates/logicaffeine_base/src/describe.rs :: fn unzigzag
    fn unzigzag(x: u64) -> /*@ (r: @*/ i64 /*@ )
        ensures zz(r) == x @*/ {
        /*@ proof { let a = (x >> 1) as i64; let o = (x & 1) as i64; assert(o == 0 || o == 1) by (bit_vector) requires o == (x & 1) as i64;
            let v = a ^ sub(0i64, o); lem_zz(v); assert((((v << 1) ^ (v >> 63)) as u64) == x) by (bit_vector) requires v == a ^ sub(0i64, o), a == (x >> 1) as i64, o == (x & 1) as i64; } @*/
        ((x >> 1) as i64) ^ -((x & 1) as i64)
    }
//#FN crates/logicaffeine_base/src/describe.rs :: fn uvarint_byte_len
    fn uvarint_byte_len(x: u64) -> /*@ (r: @*/ usize /*@ )
        ensures r == leb(x).len() @*/ {
        /*@ broadcast use vstd::std_specs::bits::group_bits_axioms;
        proof { lem_leb_len(x); lem_bits(x, vstd::std_specs::bits::u64_leading_zeros(x) as u64); } @*/
        (((64 - x.leading_zeros()).max(1) + 6) / 7) as usize
    }
//#RAW
}

mod marshal { use vstd::prelude::*; use super::*;
//#FN crates/logicaffeine_compile/src/concurrency/marshal.rs :: fn write_uvarint
    fn write_uvarint(mut x: u64, out: &mut Vec<u8>)
        /*@ ensures final(out)@ == old(out)@ + leb(x) @*/ {
        /*@ let ghost x0 = x; let ghost o0 = out@; @*/
        while x >= 0x80
            /*@ invariant out@ + leb(x) =~= o0 + leb(x0)
            decreases x @*/
        {
            /*@ let ghost y = x; @*/
            out.push((x as u8) | 0x80);
            x >>= 7;
            /*@ proof { assert(y >> 7 == y / 128 && ((y as u8) | 0x80) as u64 == y % 128 + 128 && y / 128 < y) by (bit_vector) requires y >= 128; assert(leb(y) =~= seq![((y % 128) + 128) as u8] + leb(y / 128)); } @*/
        }
        out.push(x as u8);
        /*@ proof { assert(leb(x) =~= seq![x as u8]); } @*/
    }
//#FN crates/logicaffeine_compile/src/concurrency/marshal.rs :: fn read_uvarint
    fn read_uvarint(buf: &[u8], pos: &mut usize) -> /*@ (r: @*/ Option<u64> /*@ )
        requires *old(pos) <= buf@.len()
        ensures
            *old(pos) <= *final(pos) <= buf@.len(),
            forall|x: u64| #[trigger] starts_leb(buf@, *old(pos) as int, x) ==> r == Some(x) && *final(pos) == *old(pos) + leb(x).len(), @*/ {
        let mut result = 0u64;
        let mut shift = 0u32;
        /*@ let ghost p0 = *pos as int; proof { assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies result == low(x, shift as u64) && starts_leb(buf@, *pos as int, x >> (shift as u64)) && *pos - p0 + leb(x >> (shift as u64)).len() == leb(x).len() by { lem_low0(x); } } @*/
        loop
            /*@ invariant_except_break
                p0 <= *pos <= buf@.len(), shift <= 70,
                forall|x: u64| #[trigger] starts_leb(buf@, p0, x) ==> shift < 64 && result == low(x, shift as u64) && starts_leb(buf@, *pos as int, x >> (shift as u64)) && *pos - p0 + leb(x >> (shift as u64)).len() == leb(x).len(),
            invariant p0 <= *pos <= buf@.len(), p0 == *old(pos)
            decreases buf@.len() - *pos @*/
        {
            /*@ let ghost p1 = *pos as int; let ghost r1 = result; let ghost s1 = shift as u64;
            proof { assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies p1 < buf@.len() by { lem_step(buf@, p1, x, s1); } } @*/
            /*@ proof { assert(buf.len() as int == buf@.len()); } @*/
            let b = *buf.get(*pos)?;
            *pos += 1;
            if shift >= 64 {
                return None;
            }
            result |= u64::from(b & 0x7f) << shift;
            /*@ proof {
                assert forall|x: u64| #[trigger] starts_leb(buf@, p0, x) implies
                    ((b & 0x80 == 0) ==> result == x && leb(x).len() == *pos - p0) && ((b & 0x80 != 0) ==> s1 + 7 < 64 && result == low(x, (s1 + 7) as u64) && starts_leb(buf@, *pos as int, x >> ((s1 + 7) as u64)) && *pos - p0 + leb(x >> ((s1 + 7) as u64)).len() == leb(x).len()) by {
                    lem_step(buf@, p1, x, s1);
                    let part = (b & 0x7f) as u64; let y = x >> s1;
                    assert(y < 128 ==> y & 0x7f == y) by (bit_vector);
                    assert(result == r1 | (part << s1));
                    lem_low(x, s1, part, r1);
                }
            } @*/
            if b & 0x80 == 0 {
                return Some(result);
            }
            shift += 7;
        }
    }
//#FN crates/logicaffeine_compile/src/concurrency/marshal.rs :: fn zigzag
    fn zigzag(x: i64) -> /*@ (r: @*/ u64 /*@ )
        ensures r == zz(x) @*/ {
        /*@ proof { lem_zz(x); } @*/
        ((x << 1) ^ (x >> 63)) as u64
    }
//#FN crates/logicaffeine_compile/src/concurrency/marshal.rs :: fn unzigzag
    fn unzigzag(x: u64) -> /*@ (r: @*/ i64 /*@ )
        ensures zz(r) == x @*/ {
        /*@ proof { let a = (x >> 1) as i64; let o = (x & 1) as i64; assert(o == 0 || o == 1) by (bit_vector) requires o == (x & 1) as i64;
            let v = a ^ sub(0i64, o); lem_zz(v); assert((((v << 1) ^ (v >> 63)) as u64) == x) by (bit_vector) requires v == a ^ sub(0i64, o), a == (x >> 1) as i64, o == (x & 1) as i64; } @*/
        ((x >> 1) as i64) ^ -((x & 1) as i64)
    }
//#FN crates/logicaffeine_compile/src/concurrency/marshal.rs :: fn uvarint_byte_len
    fn uvarint_byte_len(x: u64) -> /*@ (r: @*/ usize /*@ )
        ensures r == leb(x).len() @*/ {
        /*@ broadcast use vstd::std_specs::bits::group_bits_axioms;
        proof { lem_leb_len(x); lem_bits(x, vstd::std_specs::bits::u64_leading_zeros(x) as u64); } @*/
        (((64 - x.leading_zeros()).max(1) + 6) / 7) as usize
    }
//#RAW
}

mod stream { use vstd::prelude::*; use super::*;
//#FN crates/logicaffeine_compile/src/concurrency/stream.rs :: fn read_uvarint | forwhile
    fn read_uvarint(buf: &[u8]) -> /*@ (r: @*/ Option<(u64, usize)> /*@ )
        ensures
            r is Some ==> 0 < (r->0).1 <= buf@.len(),
            forall|x: u64| #[trigger] starts_leb(buf@, 0, x) ==> r == Some((x, leb(x).len() as usize)), @*/ {
        let mut value = 0u64;
        let mut shift = 0u32;
        /*@ proof { assert forall|x: u64| #[trigger] starts_leb(buf@, 0, x) implies value == low(x, shift as u64) && starts_leb(buf@, 0, x >> (shift as u64)) && leb(x >> (shift as u64)).len() == leb(x).len() by { lem_low0(x); } } @*/
        let mut i__i = 0 ; let i__e = buf . len ( ) ; while i__i < i__e
            /*@ invariant
                i__e == buf@.len(), i__i <= i__e, shift < 64,
                forall|x: u64| #[trigger] starts_leb(buf@, 0, x) ==> value == low(x, shift as u64) && starts_leb(buf@, i__i as int, x >> (shift as u64)) && i__i + leb(x >> (shift as u64)).len() == leb(x).len(),
            decreases i__e - i__i @*/
        { let i = i__i ; i__i += 1 ;
            /*@ let ghost r1 = value; let ghost s1 = shift as u64; @*/
            let b = buf [ i ] ;
            value |= u64::from(b & 0x7f) << shift;
            /*@ proof {
                assert forall|x: u64| #[trigger] starts_leb(buf@, 0, x) implies
                    ((b & 0x80 == 0) ==> value == x && leb(x).len() == i + 1) && ((b & 0x80 != 0) ==> s1 + 7 < 64 && value == low(x, (s1 + 7) as u64) && starts_leb(buf@, i + 1, x >> ((s1 + 7) as u64)) && i + 1 + leb(x >> ((s1 + 7) as u64)).len() == leb(x).len()) by {
                    lem_step(buf@, i as int, x, s1);
                    let part = (b & 0x7f) as u64; let y = x >> s1;
                    assert(y < 128 ==> y & 0x7f == y) by (bit_vector);
                    assert(value == r1 | (part << s1));
                    lem_low(x, s1, part, r1);
                }
            } @*/
            if b & 0x80 == 0 {
                return Some((value, i + 1));
            }
            shift += 7;
            if shift >= 64 {
                return None;
            }
        }
        /*@ proof { assert forall|x: u64| !#[trigger] starts_leb(buf@, 0, x) by { if starts_leb(buf@, 0, x) { lem_step(buf@, buf@.len() as int, x, shift as u64); } } } @*/
        None
    }
//#FN crates/logicaffeine_compile/src/concurrency/stream.rs :: fn frame_for_stream
    fn frame_for_stream(body: &[u8], out: &mut Vec<u8>)
        /*@ ensures final(out)@ == old(out)@ + leb(body@.len() as u64) + body@ @*/ {
        /*@ let ghost o0 = out@; @*/
        let mut len = body.len() as u64;
        loop
            /*@ invariant_except_break out@ + leb(len) =~= o0 + leb(body@.len() as u64)
            invariant body@.len() <= u64::MAX
            ensures out@ =~= o0 + leb(body@.len() as u64)
            decreases len @*/
        {
            /*@ let ghost y = len; @*/
            let mut byte = (len & 0x7f) as u8;
            len >>= 7;
            /*@ proof { assert(y >> 7 == y / 128 && (y & 0x7f) as u8 as u64 == y % 128 && (((y & 0x7f) as u8) | 0x80) as u64 == y % 128 + 128 && (y >> 7 == 0 <==> y < 128) && (y >= 128 ==> y >> 7 < y)) by (bit_vector);
                if y >= 128 { assert(leb(y) =~= seq![((y % 128) + 128) as u8] + leb(y / 128)); } else { assert(leb(y) =~= seq![y as u8]); } } @*/
            if len != 0 {
                byte |= 0x80;
            }
            out.push(byte);
            if len == 0 {
                break;
            }
        }
        out.extend_from_slice(body);
        /*@ proof { assert(out@ =~= o0 + leb(body@.len() as u64) + body@); } @*/
    }
//#RAW
}
proof fn lem_bits(x: u64, z: u64)
    requires z <= 64, x == 0 <==> z == 64, z < 64 ==> (x >> ((63 - z) as u64)) & 1 != 0, 0 < z < 64 ==> x >> ((64 - z) as u64) == 0
    ensures leb_len(x) == (if z == 64 { 1int } else { (64 - z + 6) / 7 })
{
    if z < 64 {
        let t = (63 - z) as u64;
        assert(x >= (1u64 << t)) by (bit_vector) requires (x >> t) & 1 != 0, t < 64;
        if z > 0 { let u = (64 - z) as u64; assert(x < (1u64 << u)) by (bit_vector) requires x >> u == 0, u < 64; assert((1u64 << u) == 2 * (1u64 << t)) by (bit_vector) requires u == t + 1, t < 63; }
        lem_pow(t);
    }
}
spec fn pw(t: u64) -> u64 { 1u64 << t }
proof fn lem_pow(t: u64)
    requires t < 64
    ensures
        t >= 7 ==> (1u64 << t) >= 0x80, t < 7 ==> (1u64 << t) <= 0x40,
        t >= 14 ==> (1u64 << t) >= 0x4000, t < 14 ==> (1u64 << t) <= 0x2000,
        t >= 21 ==> (1u64 << t) >= 0x200000, t < 21 ==> (1u64 << t) <= 0x100000,
        t >= 28 ==> (1u64 << t) >= 0x10000000, t < 28 ==> (1u64 << t) <= 0x8000000,
        t >= 35 ==> (1u64 << t) >= 0x800000000, t < 35 ==> (1u64 << t) <= 0x400000000,
        t >= 42 ==> (1u64 << t) >= 0x40000000000, t < 42 ==> (1u64 << t) <= 0x20000000000,
        t >= 49 ==> (1u64 << t) >= 0x2000000000000, t < 49 ==> (1u64 << t) <= 0x1000000000000,
        t >= 56 ==> (1u64 << t) >= 0x100000000000000, t < 56 ==> (1u64 << t) <= 0x80000000000000,
        t >= 63 ==> (1u64 << t) >= 0x8000000000000000, t < 63 ==> (1u64 << t) <= 0x4000000000000000,
{
    assert((t >= 7 ==> (1u64 << t) >= 0x80) && (t < 7 ==> (1u64 << t) <= 0x40) && (t >= 14 ==> (1u64 << t) >= 0x4000) && (t < 14 ==> (1u64 << t) <= 0x2000)
        && (t >= 21 ==> (1u64 << t) >= 0x200000) && (t < 21 ==> (1u64 << t) <= 0x100000) && (t >= 28 ==> (1u64 << t) >= 0x10000000) && (t < 28 ==> (1u64 << t) <= 0x8000000)
        && (t >= 35 ==> (1u64 << t) >= 0x800000000) && (t < 35 ==> (1u64 << t) <= 0x400000000) && (t >= 42 ==> (1u64 << t) >= 0x40000000000) && (t < 42 ==> (1u64 << t) <= 0x20000000000)
        && (t >= 49 ==> (1u64 << t) >= 0x2000000000000) && (t < 49 ==> (1u64 << t) <= 0x1000000000000) && (t >= 56 ==> (1u64 << t) >= 0x100000000000000) && (t < 56 ==> (1u64 << t) <= 0x80000000000000)
        && (t >= 63 ==> (1u64 << t) >= 0x8000000000000000) && (t < 63 ==> (1u64 << t) <= 0x4000000000000000)) by (bit_vector) requires t < 64;
}
fn main() {}
}
