//#SUBST topr: vander[0..k].to_vec() =>> top_rows(&vander, k)
//#SUBST padded: let mut padded = data.to_vec(); padded.resize(k * shard_len, 0); =>> let mut padded = pad_bytes(data, k * shard_len);
//#SUBST rowcl: e[*idx].clone() =>> copy_bytes(&e[*idx])
//#SUBST hasix: idxs.contains(idx) =>> has_index(&idxs, idx)
//#SUBST rclone: row.clone() =>> copy_bytes(row)
//#SUBST aswap: a.swap(col, piv) =>> swap_rows(&mut a, col, piv)
//#SUBST rsub: r[k..2 * k].to_vec() =>> sub_bytes(r, k, 2 * k)
//#RAW
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- the field: polynomials over GF(2) modulo x^8 + x^4 + x^3 + x^2 + 1 ----
spec fn xt(a: u8) -> u8 { if a & 0x80 == 0 { a << 1 } else { (a << 1) ^ 0x1d } }
spec fn pw(i: nat) -> u8 decreases i { if i == 0 { 1 } else { xt(pw((i - 1) as nat)) } }
spec fn gmul(a: u8, b: u8) -> u8 {
    let a1 = xt(a); let a2 = xt(a1); let a3 = xt(a2); let a4 = xt(a3); let a5 = xt(a4); let a6 = xt(a5); let a7 = xt(a6);
    (if b & 1 != 0 { a } else { 0 }) ^ (if b & 2 != 0 { a1 } else { 0 }) ^ (if b & 4 != 0 { a2 } else { 0 }) ^ (if b & 8 != 0 { a3 } else { 0 })
    ^ (if b & 16 != 0 { a4 } else { 0 }) ^ (if b & 32 != 0 { a5 } else { 0 }) ^ (if b & 64 != 0 { a6 } else { 0 }) ^ (if b & 128 != 0 { a7 } else { 0 })
}
spec fn find(x: u8, a: u8, i: nat, fuel: nat) -> nat decreases fuel { if fuel == 0 { 0 } else if x == a { i } else { find(xt(x), a, i + 1, (fuel - 1) as nat) } }
spec fn dlog(a: u8) -> nat { find(1, a, 0, 255) }
spec fn all_logs(a: nat) -> bool decreases a { if a == 0 { true } else { dlog(a as u8) < 255 && pw(dlog(a as u8)) == a as u8 && all_logs((a - 1) as nat) } }
spec fn all_pows(i: nat) -> bool decreases i { if i == 0 { true } else { dlog(pw((i - 1) as nat)) == i - 1 && all_pows((i - 1) as nat) } }
proof fn lem_all_logs(n: nat, a: nat) requires all_logs(n), 1 <= a <= n ensures dlog(a as u8) < 255, pw(dlog(a as u8)) == a as u8 decreases n { if a < n { lem_all_logs((n - 1) as nat, a); } }
proof fn lem_all_pows(n: nat, i: nat) requires all_pows(n), i < n ensures dlog(pw(i)) == i decreases n { if i < n - 1 { lem_all_pows((n - 1) as nat, i); } }
// every nonzero element is a power of x below the 255th, in exactly one way
proof fn lem_log(a: u8) requires a != 0 ensures dlog(a) < 255, pw(dlog(a)) == a { assert(all_logs(255)) by (compute_only); lem_all_logs(255, a as nat); }
proof fn lem_dlog(i: nat) requires i < 255 ensures dlog(pw(i)) == i { assert(all_pows(255)) by (compute_only); lem_all_pows(255, i); }
proof fn lem_wrap(i: nat) ensures pw(i + 255) == pw(i) decreases i { if i == 0 { assert(pw(255) == 1) by (compute_only); } else { lem_wrap((i - 1) as nat); } }
proof fn lem_pw_nz(i: nat) ensures pw(i) != 0 decreases i
{ if i > 0 { lem_pw_nz((i - 1) as nat); let a = pw((i - 1) as nat); assert(a != 0 ==> (if a & 0x80 == 0 { a << 1 } else { (a << 1) ^ 0x1d }) != 0) by (bit_vector); } }
proof fn lem_shift(a: u8, b: u8) ensures gmul(a, xt(b)) == xt(gmul(a, b))
{
    let a1 = xt(a); let a2 = xt(a1); let a3 = xt(a2); let a4 = xt(a3); let a5 = xt(a4); let a6 = xt(a5); let a7 = xt(a6);
    let c = xt(b); let g = gmul(a, b); let h = gmul(a, c);
    assert(h == (if g & 0x80 == 0 { g << 1 } else { (g << 1) ^ 0x1d })) by (bit_vector) requires
        a1 == (if a & 0x80 == 0 { a << 1 } else { (a << 1) ^ 0x1d }), a2 == (if a1 & 0x80 == 0 { a1 << 1 } else { (a1 << 1) ^ 0x1d }), a3 == (if a2 & 0x80 == 0 { a2 << 1 } else { (a2 << 1) ^ 0x1d }),
        a4 == (if a3 & 0x80 == 0 { a3 << 1 } else { (a3 << 1) ^ 0x1d }), a5 == (if a4 & 0x80 == 0 { a4 << 1 } else { (a4 << 1) ^ 0x1d }), a6 == (if a5 & 0x80 == 0 { a5 << 1 } else { (a5 << 1) ^ 0x1d }),
        a7 == (if a6 & 0x80 == 0 { a6 << 1 } else { (a6 << 1) ^ 0x1d }), c == (if b & 0x80 == 0 { b << 1 } else { (b << 1) ^ 0x1d }),
        g == (if b & 1 != 0 { a } else { 0 }) ^ (if b & 2 != 0 { a1 } else { 0 }) ^ (if b & 4 != 0 { a2 } else { 0 }) ^ (if b & 8 != 0 { a3 } else { 0 }) ^ (if b & 16 != 0 { a4 } else { 0 }) ^ (if b & 32 != 0 { a5 } else { 0 }) ^ (if b & 64 != 0 { a6 } else { 0 }) ^ (if b & 128 != 0 { a7 } else { 0 }),
        h == (if c & 1 != 0 { a } else { 0 }) ^ (if c & 2 != 0 { a1 } else { 0 }) ^ (if c & 4 != 0 { a2 } else { 0 }) ^ (if c & 8 != 0 { a3 } else { 0 }) ^ (if c & 16 != 0 { a4 } else { 0 }) ^ (if c & 32 != 0 { a5 } else { 0 }) ^ (if c & 64 != 0 { a6 } else { 0 }) ^ (if c & 128 != 0 { a7 } else { 0 });
}
proof fn lem_xor4(a: u8, b: u8, c: u8, d: u8) ensures (a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d) { assert((a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d)) by (bit_vector); }
proof fn lem_dist(a: u8, b: u8, c: u8) ensures gmul(a, b ^ c) == gmul(a, b) ^ gmul(a, c), gmul(b ^ c, a) == gmul(b, a) ^ gmul(c, a)
{
    let a1 = xt(a); let a2 = xt(a1); let a3 = xt(a2); let a4 = xt(a3); let a5 = xt(a4); let a6 = xt(a5); let a7 = xt(a6);
    let d = b ^ c; let g = gmul(a, b); let h = gmul(a, c); let s = gmul(a, d);
    let g0 = if b & 1 != 0 { a } else { 0 }; let h0 = if c & 1 != 0 { a } else { 0 }; let s0 = if d & 1 != 0 { a } else { 0 };
    assert((if d & 1 != 0 { a } else { 0u8 }) == (if b & 1 != 0 { a } else { 0u8 }) ^ (if c & 1 != 0 { a } else { 0u8 })) by (bit_vector) requires d == b ^ c;
    let g1 = if b & 2 != 0 { a1 } else { 0 }; let h1 = if c & 2 != 0 { a1 } else { 0 }; let s1 = if d & 2 != 0 { a1 } else { 0 };
    assert((if d & 2 != 0 { a1 } else { 0u8 }) == (if b & 2 != 0 { a1 } else { 0u8 }) ^ (if c & 2 != 0 { a1 } else { 0u8 })) by (bit_vector) requires d == b ^ c;
    let g2 = if b & 4 != 0 { a2 } else { 0 }; let h2 = if c & 4 != 0 { a2 } else { 0 }; let s2 = if d & 4 != 0 { a2 } else { 0 };
    assert((if d & 4 != 0 { a2 } else { 0u8 }) == (if b & 4 != 0 { a2 } else { 0u8 }) ^ (if c & 4 != 0 { a2 } else { 0u8 })) by (bit_vector) requires d == b ^ c;
    let g3 = if b & 8 != 0 { a3 } else { 0 }; let h3 = if c & 8 != 0 { a3 } else { 0 }; let s3 = if d & 8 != 0 { a3 } else { 0 };
    assert((if d & 8 != 0 { a3 } else { 0u8 }) == (if b & 8 != 0 { a3 } else { 0u8 }) ^ (if c & 8 != 0 { a3 } else { 0u8 })) by (bit_vector) requires d == b ^ c;
    let g4 = if b & 16 != 0 { a4 } else { 0 }; let h4 = if c & 16 != 0 { a4 } else { 0 }; let s4 = if d & 16 != 0 { a4 } else { 0 };
    assert((if d & 16 != 0 { a4 } else { 0u8 }) == (if b & 16 != 0 { a4 } else { 0u8 }) ^ (if c & 16 != 0 { a4 } else { 0u8 })) by (bit_vector) requires d == b ^ c;
    let g5 = if b & 32 != 0 { a5 } else { 0 }; let h5 = if c & 32 != 0 { a5 } else { 0 }; let s5 = if d & 32 != 0 { a5 } else { 0 };
    assert((if d & 32 != 0 { a5 } else { 0u8 }) == (if b & 32 != 0 { a5 } else { 0u8 }) ^ (if c & 32 != 0 { a5 } else { 0u8 })) by (bit_vector) requires d == b ^ c;
    let g6 = if b & 64 != 0 { a6 } else { 0 }; let h6 = if c & 64 != 0 { a6 } else { 0 }; let s6 = if d & 64 != 0 { a6 } else { 0 };
    assert((if d & 64 != 0 { a6 } else { 0u8 }) == (if b & 64 != 0 { a6 } else { 0u8 }) ^ (if c & 64 != 0 { a6 } else { 0u8 })) by (bit_vector) requires d == b ^ c;
    let g7 = if b & 128 != 0 { a7 } else { 0 }; let h7 = if c & 128 != 0 { a7 } else { 0 }; let s7 = if d & 128 != 0 { a7 } else { 0 };
    assert((if d & 128 != 0 { a7 } else { 0u8 }) == (if b & 128 != 0 { a7 } else { 0u8 }) ^ (if c & 128 != 0 { a7 } else { 0u8 })) by (bit_vector) requires d == b ^ c;
    lem_xor4(g0, h0, g1, h1); lem_xor4(g0 ^ g1, h0 ^ h1, g2, h2); lem_xor4(g0 ^ g1 ^ g2, h0 ^ h1 ^ h2, g3, h3); lem_xor4(g0 ^ g1 ^ g2 ^ g3, h0 ^ h1 ^ h2 ^ h3, g4, h4);
    lem_xor4(g0 ^ g1 ^ g2 ^ g3 ^ g4, h0 ^ h1 ^ h2 ^ h3 ^ h4, g5, h5); lem_xor4(g0 ^ g1 ^ g2 ^ g3 ^ g4 ^ g5, h0 ^ h1 ^ h2 ^ h3 ^ h4 ^ h5, g6, h6); lem_xor4(g0 ^ g1 ^ g2 ^ g3 ^ g4 ^ g5 ^ g6, h0 ^ h1 ^ h2 ^ h3 ^ h4 ^ h5 ^ h6, g7, h7);
    lem_comm(d, a); lem_comm(b, a); lem_comm(c, a);
}
proof fn lem_zero(a: u8) ensures gmul(a, 0) == 0, gmul(0, a) == 0
{
    assert(0u8 ^ 0 == 0 && 0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0 && 0u8 & 8 == 0 && 0u8 & 16 == 0 && 0u8 & 32 == 0 && 0u8 & 64 == 0 && 0u8 & 128 == 0 && 0u8 << 1 == 0) by (bit_vector);
    assert(xt(0) == 0);
}
proof fn lem_one(a: u8) ensures gmul(a, 1) == a, gmul(1, a) == a
{
    assert(1u8 & 1 != 0 && 1u8 & 2 == 0 && 1u8 & 4 == 0 && 1u8 & 8 == 0 && 1u8 & 16 == 0 && 1u8 & 32 == 0 && 1u8 & 64 == 0 && 1u8 & 128 == 0 && a ^ 0 == a) by (bit_vector);
    lem_comm(1, a);
}
proof fn lem_pows(i: nat, j: nat) ensures gmul(pw(i), pw(j)) == pw(i + j)
    decreases j
{
    if j == 0 { let a = pw(i); assert(1u8 & 1 != 0 && 1u8 & 2 == 0 && 1u8 & 4 == 0 && 1u8 & 8 == 0 && 1u8 & 16 == 0 && 1u8 & 32 == 0 && 1u8 & 64 == 0 && 1u8 & 128 == 0 && a ^ 0 == a) by (bit_vector); }
    else { lem_pows(i, (j - 1) as nat); lem_shift(pw(i), pw((j - 1) as nat)); }
}
proof fn lem_comm(a: u8, b: u8) ensures gmul(a, b) == gmul(b, a)
{ if a == 0 { lem_zero(b); } else if b == 0 { lem_zero(a); } else { lem_log(a); lem_log(b); lem_pows(dlog(a), dlog(b)); lem_pows(dlog(b), dlog(a)); } }
proof fn lem_assoc(a: u8, b: u8, c: u8) ensures gmul(gmul(a, b), c) == gmul(a, gmul(b, c))
{
    lem_zero(a); lem_zero(b); lem_zero(c); lem_zero(gmul(a, b)); lem_zero(gmul(b, c));
    if a != 0 && b != 0 && c != 0 {
        lem_log(a); lem_log(b); lem_log(c); let i = dlog(a); let j = dlog(b); let k = dlog(c);
        lem_pows(i, j); lem_pows(j, k); lem_pows(i + j, k); lem_pows(i, j + k);
    }
}
proof fn lem_nz(a: u8, b: u8) requires a != 0, b != 0 ensures gmul(a, b) != 0
{ lem_log(a); lem_log(b); lem_pows(dlog(a), dlog(b)); lem_pw_nz(dlog(a) + dlog(b)); }
//#ITEM crates/logicaffeine_compile/src/concurrency/fec.rs :: struct Gf
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn gf | oncelock, forwhile
fn gf() -> /*@ (r: @*/ Gf /*@ )
    ensures forall|i: int| 0 <= i < 512 ==> #[trigger] r.exp@[i] == pw(i as nat), forall|a: int| 1 <= a < 256 ==> #[trigger] r.log@[a] == dlog(a as u8) @*/ {
    let mut exp = [0u8; 512];
    let mut log = [0u8; 256];
    let mut x: u16 = 1;
    let mut i__i = 0 ; let i__e = 255 ; while i__i < i__e
        /*@ invariant
            i__e == 255, 0 <= i__i <= 255, x < 256, x as u8 == pw(i__i as nat),
            forall|j: int| 0 <= j < i__i ==> #[trigger] exp@[j] == pw(j as nat),
            forall|a: int| 1 <= a < 256 && dlog(a as u8) < i__i ==> #[trigger] log@[a] == dlog(a as u8),
        decreases 255 - i__i @*/
    { let i = i__i ; i__i += 1 ;
        /*@ let ghost x0 = x; let ghost l0 = log@; proof { lem_dlog(i as nat); lem_pw_nz(i as nat); } @*/
        exp[i] = x as u8;
        log[x as usize] = i as u8;
        /*@ proof {
            assert forall|a: int| 1 <= a < 256 && dlog(a as u8) < i__i implies #[trigger] log@[a] == dlog(a as u8) by { if a != x0 { lem_log(a as u8); if dlog(a as u8) == i { assert(a as u8 == x0 as u8); } } }
        } @*/
        x <<= 1;
        if x & 0x100 != 0 {
            x ^= 0x11d;
        }
        /*@ proof {
            let y = x0 as u8;
            assert(x0 < 256 && y == x0 as u8 ==> (((x0 << 1) & 0x100 != 0) <==> (y & 0x80 != 0)) && ((x0 << 1) & 0x100 != 0 ==> (((x0 << 1) ^ 0x11d) < 256 && ((x0 << 1) ^ 0x11d) as u8 == (y << 1) ^ 0x1d)) && ((x0 << 1) & 0x100 == 0 ==> ((x0 << 1) < 256 && (x0 << 1) as u8 == (y << 1)))) by (bit_vector);
            assert(x as u8 == xt(y));
        } @*/
    }
    /*@ proof { assert forall|a: int| 1 <= a < 256 implies #[trigger] log@[a] == dlog(a as u8) by { lem_log(a as u8); } } @*/
    let mut i__i = 255 ; let i__e = 512 ; while i__i < i__e
        /*@ invariant
            i__e == 512, 255 <= i__i <= 512, forall|j: int| 0 <= j < i__i ==> #[trigger] exp@[j] == pw(j as nat),
            forall|a: int| 1 <= a < 256 ==> #[trigger] log@[a] == dlog(a as u8),
        decreases 512 - i__i @*/
    { let i = i__i ; i__i += 1 ;
        /*@ proof { lem_wrap((i - 255) as nat); } @*/
        exp[i] = exp[i - 255];
    }
    Gf { exp, log }
}
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn mul
fn mul(a: u8, b: u8) -> /*@ (r: @*/ u8 /*@ )
    ensures r == gmul(a, b) @*/ {
    /*@ proof { lem_zero(a); lem_zero(b); if a != 0 && b != 0 { lem_log(a); lem_log(b); lem_pows(dlog(a), dlog(b)); } } @*/
    if a == 0 || b == 0 {
        return 0;
    }
    let g = gf();
    g.exp[g.log[a as usize] as usize + g.log[b as usize] as usize]
}
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn div
fn div(a: u8, b: u8) -> /*@ (r: @*/ u8 /*@ )
    requires b != 0
    ensures gmul(r, b) == a @*/ {
    /*@ proof { lem_zero(b); if a != 0 { lem_log(a); lem_log(b); lem_pows((dlog(a) + 255 - dlog(b)) as nat, dlog(b)); lem_wrap(dlog(a)); } } @*/
    if a == 0 {
        return 0;
    }
    let g = gf();
    g.exp[g.log[a as usize] as usize + 255 - g.log[b as usize] as usize]
}
//#RAW
// x^j in the field
spec fn gp(x: u8, j: int) -> u8 decreases j { if j <= 0 { 1 } else { gmul(gp(x, j - 1), x) } }
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn pow | forwhile
fn pow(base: u8, exp: usize) -> /*@ (r: @*/ u8 /*@ )
    ensures r == gp(base, exp as int) @*/ {
    let mut r = 1u8;
    let mut u____i = 0 ; let u____e = exp ; while u____i < u____e
        /*@ invariant u____e == exp, u____i <= exp, r == gp(base, u____i as int)
        decreases exp - u____i @*/
    { let u__ = u____i ; u____i += 1 ;
        r = mul(r, base);
    }
    r
}
//#RAW
// ---- linear algebra over the field ----
type V8 = spec_fn(int) -> u8;
type M8 = spec_fn(int, int) -> u8;
spec fn dot(a: V8, b: V8, k: int) -> u8 decreases k { if k <= 0 { 0 } else { dot(a, b, k - 1) ^ gmul(a(k - 1), b(k - 1)) } }
spec fn delta(i: int, j: int) -> u8 { if i == j { 1 } else { 0 } }
proof fn lem_x0(a: u8) ensures a ^ 0 == a, 0 ^ a == a, a ^ a == 0 { assert(a ^ 0 == a && 0 ^ a == a && a ^ a == 0) by (bit_vector); }
proof fn lem_dot_eq(a: V8, a2: V8, b: V8, b2: V8, k: int)
    requires forall|t: int| 0 <= t < k ==> #[trigger] a(t) == a2(t), forall|t: int| 0 <= t < k ==> #[trigger] b(t) == b2(t)
    ensures dot(a, b, k) == dot(a2, b2, k)
    decreases k
{ if k > 0 { lem_dot_eq(a, a2, b, b2, k - 1); assert(a(k - 1) == a2(k - 1)); assert(b(k - 1) == b2(k - 1)); } }
proof fn lem_dot_comm(a: V8, b: V8, k: int) ensures dot(a, b, k) == dot(b, a, k) decreases k { if k > 0 { lem_dot_comm(a, b, k - 1); lem_comm(a(k - 1), b(k - 1)); } }
proof fn lem_dot_comb(a: V8, b: V8, c: V8, f: u8, v: V8, k: int)
    requires forall|t: int| 0 <= t < k ==> #[trigger] c(t) == a(t) ^ gmul(f, b(t))
    ensures dot(c, v, k) == dot(a, v, k) ^ gmul(f, dot(b, v, k))
    decreases k
{
    if k > 0 {
        lem_dot_comb(a, b, c, f, v, k - 1);
        let t = k - 1;
        assert(c(t) == a(t) ^ gmul(f, b(t)));
        lem_dist(v(t), a(t), gmul(f, b(t))); lem_assoc(f, b(t), v(t)); lem_dist(f, dot(b, v, k - 1), gmul(b(t), v(t)));
        lem_xor4(dot(a, v, k - 1), gmul(f, dot(b, v, k - 1)), gmul(a(t), v(t)), gmul(f, gmul(b(t), v(t))));
    } else { lem_zero(f); lem_x0(0); }
}
proof fn lem_dot_scale(b: V8, c: V8, f: u8, v: V8, k: int)
    requires forall|t: int| 0 <= t < k ==> #[trigger] c(t) == gmul(b(t), f)
    ensures dot(c, v, k) == gmul(dot(b, v, k), f)
    decreases k
{
    if k > 0 {
        lem_dot_scale(b, c, f, v, k - 1);
        let t = k - 1;
        assert(c(t) == gmul(b(t), f));
        lem_assoc(b(t), f, v(t)); lem_comm(f, v(t)); lem_assoc(b(t), v(t), f); lem_dist(f, dot(b, v, k - 1), gmul(b(t), v(t)));
    } else { lem_zero(f); }
}
proof fn lem_dot_zero(a: V8, b: V8, k: int) requires forall|t: int| 0 <= t < k ==> #[trigger] b(t) == 0 ensures dot(a, b, k) == 0, dot(b, a, k) == 0
    decreases k
{ if k > 0 { lem_dot_zero(a, b, k - 1); assert(b(k - 1) == 0); lem_zero(a(k - 1)); lem_x0(0); } }
proof fn lem_dot_unit(a: V8, b: V8, i: int, k: int)
    requires forall|t: int| 0 <= t < k ==> #[trigger] a(t) == delta(i, t)
    ensures dot(a, b, k) == (if 0 <= i < k { b(i) } else { 0 }), dot(b, a, k) == (if 0 <= i < k { b(i) } else { 0 })
    decreases k
{
    if k > 0 { lem_dot_unit(a, b, i, k - 1); let t = k - 1; assert(a(t) == delta(i, t)); lem_zero(b(t)); lem_one(b(t)); lem_x0(b(t)); lem_x0(dot(a, b, k - 1)); }
}
// sum over r of m(r) * (sum over t of w(r,t) d(t))  =  sum over t of (sum over r of m(r) w(r,t)) * d(t)
proof fn lem_exchange(m: V8, w: M8, d: V8, n: int, k: int)
    requires n >= 0
    ensures dot(m, |r: int| dot(|t: int| w(r, t), d, k), n) == dot(|t: int| dot(m, |r: int| w(r, t), n), d, k)
    decreases n
{
    let inner = |r: int| dot(|t: int| w(r, t), d, k);
    let c1 = |t: int| dot(m, |r: int| w(r, t), n);
    if n > 0 {
        lem_exchange(m, w, d, n - 1, k);
        let c0 = |t: int| dot(m, |r: int| w(r, t), n - 1);
        let last = |t: int| w(n - 1, t);
        assert forall|t: int| 0 <= t < k implies #[trigger] c1(t) == c0(t) ^ gmul(m(n - 1), last(t)) by { let cv = |r: int| w(r, t); assert(cv(n - 1) == w(n - 1, t)); }
        lem_dot_comb(c0, last, c1, m(n - 1), d, k);
        assert(inner(n - 1) == dot(last, d, k));
    } else { lem_dot_zero(d, c1, k); }
}
// ---- matrices as the code holds them ----
spec fn rows_of(a: Seq<Vec<u8>>, n: int, w: int) -> bool { a.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] a[i])@.len() == w }
spec fn rowv(a: Seq<Vec<u8>>, i: int) -> V8 { |t: int| a[i]@[t] }
spec fn rowq(a: Seq<Vec<u8>>, i: int, k: int) -> V8 { |t: int| a[i]@[k + t] }
spec fn colv(a: Seq<Vec<u8>>, j: int) -> V8 { |t: int| a[t]@[j] }
spec fn kills(a: Seq<Vec<u8>>, v: V8, k: int) -> bool { forall|i: int| 0 <= i < k ==> dot(#[trigger] rowv(a, i), v, k) == 0 }
spec fn killsq(a: Seq<Vec<u8>>, v: V8, k: int) -> bool { forall|i: int| 0 <= i < k ==> dot(#[trigger] rowq(a, i, k), v, k) == 0 }
spec fn zero_v(v: V8, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] v(i) == 0 }
// some nonzero vector is sent to zero
spec fn singular(m: Seq<Vec<u8>>, k: int) -> bool { exists|v: V8| #[trigger] kills(m, v, k) && !zero_v(v, k) }
spec fn left_inv(q: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int) -> bool { forall|i: int, j: int| 0 <= i < k && 0 <= j < k ==> #[trigger] dot(rowv(q, i), colv(m, j), k) == delta(i, j) }
// the augmented matrix [P|Q] with P = Q*m, obtained from [m|1] by invertible row operations
spec fn aug1(a: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int) -> bool { forall|i: int, j: int| 0 <= i < k && 0 <= j < k ==> a[i]@[j] == #[trigger] dot(rowq(a, i, k), colv(m, j), k) }
spec fn aug2(a: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int) -> bool { forall|v: V8| #[trigger] kills(a, v, k) ==> kills(m, v, k) }
spec fn aug3(a: Seq<Vec<u8>>, k: int) -> bool { forall|v: V8| #[trigger] killsq(a, v, k) ==> zero_v(v, k) }
spec fn aug(a: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int) -> bool { rows_of(a, k, 2 * k) && rows_of(m, k, k) && aug1(a, m, k) && aug2(a, m, k) && aug3(a, k) }
spec fn cleared(a: Seq<Vec<u8>>, col: int, k: int) -> bool { forall|i: int, c: int| 0 <= i < k && 0 <= c < col ==> #[trigger] a[i]@[c] == delta(i, c) }
proof fn lem_same_row(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>, i: int, i2: int, k: int, v: V8)
    requires a[i]@ == b[i2]@
    ensures dot(rowv(a, i), v, k) == dot(rowv(b, i2), v, k), dot(rowq(a, i, k), v, k) == dot(rowq(b, i2, k), v, k)
{ lem_dot_eq(rowv(a, i), rowv(b, i2), v, v, k); lem_dot_eq(rowq(a, i, k), rowq(b, i2, k), v, v, k); }
proof fn lem_op_add(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int, r: int, c: int, f: u8)
    requires
        aug(a, m, k), rows_of(b, k, 2 * k), 0 <= r < k, 0 <= c < k, r != c, forall|i: int| 0 <= i < k && i != r ==> (#[trigger] b[i])@ == a[i]@,
        forall|t: int| 0 <= t < 2 * k ==> #[trigger] b[r]@[t] == a[r]@[t] ^ gmul(f, a[c]@[t]),
    ensures aug(b, m, k)
{
    assert forall|v: V8| dot(#[trigger] rowv(b, r), v, k) == dot(rowv(a, r), v, k) ^ gmul(f, dot(rowv(a, c), v, k)) by { lem_dot_comb(rowv(a, r), rowv(a, c), rowv(b, r), f, v, k); }
    assert forall|v: V8| #[trigger] dot(rowq(b, r, k), v, k) == dot(rowq(a, r, k), v, k) ^ gmul(f, dot(rowq(a, c, k), v, k)) by {
        assert forall|t: int| 0 <= t < k implies #[trigger] rowq(b, r, k)(t) == rowq(a, r, k)(t) ^ gmul(f, rowq(a, c, k)(t)) by { assert(b[r]@[k + t] == a[r]@[k + t] ^ gmul(f, a[c]@[k + t])); }
        lem_dot_comb(rowq(a, r, k), rowq(a, c, k), rowq(b, r, k), f, v, k);
    }
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k implies b[i]@[j] == #[trigger] dot(rowq(b, i, k), colv(m, j), k) by {
        assert(a[i]@[j] == dot(rowq(a, i, k), colv(m, j), k)); assert(a[c]@[j] == dot(rowq(a, c, k), colv(m, j), k));
        if i != r { lem_same_row(a, b, i, i, k, colv(m, j)); } else { assert(b[r]@[j] == a[r]@[j] ^ gmul(f, a[c]@[j])); }
    }
    assert forall|v: V8| #[trigger] kills(b, v, k) implies kills(m, v, k) by {
        assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowv(a, i), v, k) == 0 by {
            assert(dot(rowv(b, i), v, k) == 0); assert(dot(rowv(b, c), v, k) == 0);
            lem_same_row(a, b, c, c, k, v); if i != r { lem_same_row(a, b, i, i, k, v); } else { lem_zero(f); lem_x0(dot(rowv(a, r), v, k)); }
        }
        assert(kills(a, v, k));
    }
    assert forall|v: V8| #[trigger] killsq(b, v, k) implies zero_v(v, k) by {
        assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowq(a, i, k), v, k) == 0 by {
            assert(dot(rowq(b, i, k), v, k) == 0); assert(dot(rowq(b, c, k), v, k) == 0);
            lem_same_row(a, b, c, c, k, v); if i != r { lem_same_row(a, b, i, i, k, v); } else { lem_zero(f); lem_x0(dot(rowq(a, r, k), v, k)); }
        }
        assert(killsq(a, v, k));
    }
}
proof fn lem_op_scale(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int, r: int, f: u8)
    requires
        aug(a, m, k), rows_of(b, k, 2 * k), 0 <= r < k, f != 0, forall|i: int| 0 <= i < k && i != r ==> (#[trigger] b[i])@ == a[i]@,
        forall|t: int| 0 <= t < 2 * k ==> #[trigger] b[r]@[t] == gmul(a[r]@[t], f),
    ensures aug(b, m, k)
{
    assert forall|v: V8| dot(#[trigger] rowv(b, r), v, k) == gmul(dot(rowv(a, r), v, k), f) by { lem_dot_scale(rowv(a, r), rowv(b, r), f, v, k); }
    assert forall|v: V8| #[trigger] dot(rowq(b, r, k), v, k) == gmul(dot(rowq(a, r, k), v, k), f) by {
        assert forall|t: int| 0 <= t < k implies #[trigger] rowq(b, r, k)(t) == gmul(rowq(a, r, k)(t), f) by { assert(b[r]@[k + t] == gmul(a[r]@[k + t], f)); }
        lem_dot_scale(rowq(a, r, k), rowq(b, r, k), f, v, k);
    }
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k implies b[i]@[j] == #[trigger] dot(rowq(b, i, k), colv(m, j), k) by {
        assert(a[i]@[j] == dot(rowq(a, i, k), colv(m, j), k));
        if i != r { lem_same_row(a, b, i, i, k, colv(m, j)); } else { assert(b[r]@[j] == gmul(a[r]@[j], f)); }
    }
    assert forall|v: V8| #[trigger] kills(b, v, k) implies kills(m, v, k) by {
        assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowv(a, i), v, k) == 0 by {
            assert(dot(rowv(b, i), v, k) == 0);
            if i != r { lem_same_row(a, b, i, i, k, v); } else { if dot(rowv(a, r), v, k) != 0 { lem_nz(dot(rowv(a, r), v, k), f); } }
        }
        assert(kills(a, v, k));
    }
    assert forall|v: V8| #[trigger] killsq(b, v, k) implies zero_v(v, k) by {
        assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowq(a, i, k), v, k) == 0 by {
            assert(dot(rowq(b, i, k), v, k) == 0);
            if i != r { lem_same_row(a, b, i, i, k, v); } else { if dot(rowq(a, r, k), v, k) != 0 { lem_nz(dot(rowq(a, r, k), v, k), f); } }
        }
        assert(killsq(a, v, k));
    }
}
proof fn lem_op_swap(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int, x: int, y: int)
    requires aug(a, m, k), b.len() == k, 0 <= x < k, 0 <= y < k, forall|i: int| 0 <= i < k ==> (#[trigger] b[i]) == a[if i == x { y } else if i == y { x } else { i }]
    ensures aug(b, m, k)
{
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k implies b[i]@[j] == #[trigger] dot(rowq(b, i, k), colv(m, j), k) by {
        let p = if i == x { y } else if i == y { x } else { i };
        assert(a[p]@[j] == dot(rowq(a, p, k), colv(m, j), k)); lem_same_row(a, b, p, i, k, colv(m, j));
    }
    assert forall|v: V8| #[trigger] kills(b, v, k) implies kills(m, v, k) by {
        assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowv(a, i), v, k) == 0 by { let p = if i == x { y } else if i == y { x } else { i }; assert(dot(rowv(b, p), v, k) == 0); lem_same_row(a, b, i, p, k, v); }
        assert(kills(a, v, k));
    }
    assert forall|v: V8| #[trigger] killsq(b, v, k) implies zero_v(v, k) by {
        assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowq(a, i, k), v, k) == 0 by { let p = if i == x { y } else if i == y { x } else { i }; assert(dot(rowq(b, p, k), v, k) == 0); lem_same_row(a, b, i, p, k, v); }
        assert(killsq(a, v, k));
    }
}
// [m|1] itself
proof fn lem_aug_start(a: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int)
    requires rows_of(a, k, 2 * k), rows_of(m, k, k), forall|i: int, t: int| 0 <= i < k && 0 <= t < k ==> #[trigger] a[i]@[t] == m[i]@[t], forall|i: int, t: int| 0 <= i < k && 0 <= t < k ==> a[i]@[k + t] == #[trigger] delta(i, t)
    ensures aug(a, m, k)
{
    assert forall|i: int, v: V8| 0 <= i < k implies #[trigger] dot(rowq(a, i, k), v, k) == v(i) by { assert forall|t: int| 0 <= t < k implies #[trigger] rowq(a, i, k)(t) == delta(i, t) by { assert(a[i]@[k + t] == delta(i, t)); } lem_dot_unit(rowq(a, i, k), v, i, k); }
    assert forall|v: V8| #[trigger] kills(a, v, k) implies kills(m, v, k) by {
        assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowv(m, i), v, k) == 0 by { assert(dot(rowv(a, i), v, k) == 0); assert forall|t: int| 0 <= t < k implies #[trigger] rowv(m, i)(t) == rowv(a, i)(t) by { assert(a[i]@[t] == m[i]@[t]); } lem_dot_eq(rowv(m, i), rowv(a, i), v, v, k); }
    }
    assert forall|v: V8| #[trigger] killsq(a, v, k) implies zero_v(v, k) by { assert forall|i: int| 0 <= i < k implies #[trigger] v(i) == 0 by { assert(dot(rowq(a, i, k), v, k) == 0); } }
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k implies a[i]@[j] == #[trigger] dot(rowq(a, i, k), colv(m, j), k) by { assert(colv(m, j)(i) == m[i]@[j]); }
}
// no pivot in column col: the matrix is singular
proof fn lem_no_pivot(a: Seq<Vec<u8>>, m: Seq<Vec<u8>>, col: int, k: int)
    requires aug(a, m, k), cleared(a, col, k), 0 <= col < k, forall|i: int| col <= i < k ==> (#[trigger] a[i])@[col] == 0
    ensures singular(m, k)
{
    let v: V8 = |t: int| if t < col { a[t]@[col] } else if t == col { 1u8 } else { 0u8 };
    assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowv(a, i), v, k) == 0 by { lem_null(a, v, i, col, k, k); lem_x0(a[i]@[col]); }
    assert(kills(a, v, k)); assert(v(col) == 1); assert(!zero_v(v, k));
}
proof fn lem_null(a: Seq<Vec<u8>>, v: V8, i: int, col: int, k: int, n: int)
    requires cleared(a, col, k), 0 <= i < k, 0 <= col < k, 0 <= n <= k, v == (|t: int| if t < col { a[t]@[col] } else if t == col { 1u8 } else { 0u8 }), i >= col ==> a[i]@[col] == 0
    ensures dot(rowv(a, i), v, n) == (if n <= col { if i < n { a[i]@[col] } else { 0u8 } } else { 0u8 })
    decreases n
{
    if n > 0 {
        let t = n - 1;
        lem_null(a, v, i, col, k, n - 1);
        assert(rowv(a, i)(t) == a[i]@[t]);
        lem_zero(v(t)); lem_one(v(t)); lem_zero(a[i]@[t]); lem_one(a[i]@[t]); lem_x0(a[i]@[col]); lem_x0(v(t)); lem_x0(0);
        if t < col { assert(a[i]@[t] == delta(i, t)); }
    }
}
proof fn lem_finish(a: Seq<Vec<u8>>, q: Seq<Vec<u8>>, m: Seq<Vec<u8>>, k: int)
    requires aug(a, m, k), cleared(a, k, k), rows_of(q, k, k), forall|i: int, t: int| 0 <= i < k && 0 <= t < k ==> #[trigger] q[i]@[t] == a[i]@[k + t]
    ensures left_inv(q, m, k), forall|v: V8| #[trigger] kills(q, v, k) ==> zero_v(v, k)
{
    assert forall|i: int, v: V8| 0 <= i < k implies #[trigger] dot(rowv(q, i), v, k) == dot(rowq(a, i, k), v, k) by { assert forall|t: int| 0 <= t < k implies #[trigger] rowv(q, i)(t) == rowq(a, i, k)(t) by { assert(q[i]@[t] == a[i]@[k + t]); } lem_dot_eq(rowv(q, i), rowq(a, i, k), v, v, k); }
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k implies #[trigger] dot(rowv(q, i), colv(m, j), k) == delta(i, j) by { assert(a[i]@[j] == dot(rowq(a, i, k), colv(m, j), k)); assert(a[i]@[j] == delta(i, j)); }
    assert forall|v: V8| #[trigger] kills(q, v, k) implies zero_v(v, k) by { assert forall|i: int| 0 <= i < k implies dot(#[trigger] rowq(a, i, k), v, k) == 0 by { assert(dot(rowv(q, i), v, k) == 0); } assert(killsq(a, v, k)); }
}
fn copy_bytes(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { let r = sub_bytes(v, 0, v.len()); assert(v@.subrange(0, v@.len() as int) =~= v@); r }
fn sub_bytes(v: &Vec<u8>, a: usize, b: usize) -> (r: Vec<u8>)
    requires a <= b <= v@.len()
    ensures r@ == v@.subrange(a as int, b as int)
{
    let mut r: Vec<u8> = Vec::new();
    let mut i = a;
    while i < b invariant a <= i <= b <= v@.len(), r@ =~= v@.subrange(a as int, i as int) decreases b - i { r.push(v[i]); i += 1; }
    r
}
// std: swap of two elements (trusted specification)
#[verifier::external_body]
fn swap_rows(a: &mut Vec<Vec<u8>>, x: usize, y: usize)
    requires x < old(a)@.len(), y < old(a)@.len()
    ensures final(a)@ == old(a)@.update(x as int, old(a)@[y as int]).update(y as int, old(a)@[x as int])
{ a.swap(x, y); }
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn invert | enummap, iterloop, forwhile, rclone, aswap, rsub
fn invert(m: &[Vec<u8>]) -> /*@ (r: @*/ Option<Vec<Vec<u8>>> /*@ )
    requires rows_of(m@, m@.len() as int, m@.len() as int), 2 * m@.len() <= usize::MAX
    ensures
        r is None ==> singular(m@, m@.len() as int),
        r is Some ==> rows_of((r->0)@, m@.len() as int, m@.len() as int) && left_inv((r->0)@, m@, m@.len() as int) && forall|v: V8| #[trigger] kills((r->0)@, v, m@.len() as int) ==> zero_v(v, m@.len() as int), @*/ {
    let k = m.len();
    let mut a: Vec<Vec<u8>> = { let mut row__vec /*@ : Vec<Vec<u8>> @*/ = Vec :: new ( ) ; let mut i__k : usize = 0 ; while i__k < m . len ( )
        /*@ invariant
            k == m@.len(), i__k <= k, rows_of(m@, k as int, k as int), 2 * k <= usize::MAX, rows_of(row__vec@, i__k as int, 2 * k as int),
            forall|i: int, t: int| 0 <= i < i__k && 0 <= t < k ==> #[trigger] row__vec@[i]@[t] == m@[i]@[t], forall|i: int, t: int| 0 <= i < i__k && 0 <= t < k ==> row__vec@[i]@[k + t] == #[trigger] delta(i, t),
        decreases k - i__k @*/
    { let i = i__k ; let row = & m [ i__k ] ; i__k += 1 ; row__vec . push ( {
        let mut r = copy_bytes(row);
        { let mut j__k = 0 ; let j__n = k ; while j__k < j__n
            /*@ invariant j__n == k, j__k <= k, m@[i as int]@.len() == k, r@.len() == k + j__k, forall|t: int| 0 <= t < k ==> #[trigger] r@[t] == m@[i as int]@[t], forall|t: int| 0 <= t < j__k ==> r@[k + t] == #[trigger] delta(i as int, t)
            decreases k - j__k @*/
        { let j = j__k ; j__k += 1 ; r . push ( if i == j { 1 } else { 0 } ) ; } };
        r
    } ) ; } row__vec };
    /*@ proof { lem_aug_start(a@, m@, k as int); } @*/
    let mut col__i = 0 ; let col__e = k ; while col__i < col__e
        /*@ invariant col__e == k, col__i <= k, k == m@.len(), 2 * k <= usize::MAX, aug(a@, m@, k as int), cleared(a@, col__i as int, k as int)
        decreases k - col__i @*/
    { let col = col__i ; col__i += 1 ;
        let mut piv = col;
        while piv < k && a[piv][col] == 0
            /*@ invariant col <= piv <= k, col < k, rows_of(a@, k as int, 2 * k as int), forall|i: int| col <= i < piv ==> (#[trigger] a@[i])@[col as int] == 0
            decreases k - piv @*/
        {
            piv += 1;
        }
        if piv == k {
            /*@ proof { lem_no_pivot(a@, m@, col as int, k as int); } @*/
            return None;
        }
        /*@ let ghost a0 = a@; @*/
        swap_rows(&mut a, col, piv);
        /*@ let ghost a1 = a@; proof {
            assert forall|i: int| 0 <= i < k implies (#[trigger] a1[i]) == a0[if i == col { piv as int } else if i == piv { col as int } else { i }] by {}
            lem_op_swap(a0, a1, m@, k as int, col as int, piv as int);
            assert(cleared(a1, col as int, k as int)) by { assert forall|i: int, c: int| 0 <= i < k && 0 <= c < col implies #[trigger] a1[i]@[c] == delta(i, c) by { let p = if i == col { piv as int } else if i == piv { col as int } else { i }; assert(a0[p]@[c] == delta(p, c)); } }
        } @*/
        let inv_p = div(1, a[col][col]);
        /*@ proof { if inv_p == 0 { lem_zero(a1[col as int]@[col as int]); } } @*/
        let mut j__i = 0 ; let j__e = 2 * k ; while j__i < j__e
            /*@ invariant
                j__e == 2 * k, j__i <= 2 * k, 0 <= col < k, rows_of(a1, k as int, 2 * k as int), rows_of(a@, k as int, 2 * k as int), forall|i: int| 0 <= i < k && i != col ==> (#[trigger] a@[i])@ == a1[i]@,
                forall|t: int| 0 <= t < j__i ==> #[trigger] a@[col as int]@[t] == gmul(a1[col as int]@[t], inv_p), forall|t: int| j__i <= t < 2 * k ==> #[trigger] a@[col as int]@[t] == a1[col as int]@[t],
            decreases 2 * k - j__i @*/
        { let j = j__i ; j__i += 1 ;
            a[col][j] = mul(a[col][j], inv_p);
        }
        /*@ let ghost a2 = a@; proof {
            lem_op_scale(a1, a2, m@, k as int, col as int, inv_p);
            lem_comm(inv_p, a1[col as int]@[col as int]);
            assert(a2[col as int]@[col as int] == 1);
            assert(cleared(a2, col as int, k as int)) by { assert forall|i: int, c: int| 0 <= i < k && 0 <= c < col implies #[trigger] a2[i]@[c] == delta(i, c) by { assert(a1[i]@[c] == delta(i, c)); lem_zero(inv_p); if i == col { assert(a2[i]@[c] == gmul(a1[i]@[c], inv_p)); } else { assert(a2[i]@ == a1[i]@); } } }
        } @*/
        let mut row__i = 0 ; let row__e = k ; while row__i < row__e
            /*@ invariant
                row__e == k, row__i <= k, 0 <= col < k, k == m@.len(), 2 * k <= usize::MAX, aug(a@, m@, k as int), cleared(a@, col as int, k as int), a@[col as int]@[col as int] == 1,
                forall|i: int| 0 <= i < row__i && i != col ==> (#[trigger] a@[i])@[col as int] == 0,
            decreases k - row__i @*/
        { let row = row__i ; row__i += 1 ;
            if row == col {
                continue;
            }
            let f = a[row][col];
            /*@ let ghost b0 = a@; @*/
            if f != 0 {
                let mut j__i = 0 ; let j__e = 2 * k ; while j__i < j__e
                    /*@ invariant
                        j__e == 2 * k, j__i <= 2 * k, 0 <= col < k, 0 <= row < k, row != col, rows_of(b0, k as int, 2 * k as int), rows_of(a@, k as int, 2 * k as int), forall|i: int| 0 <= i < k && i != row ==> (#[trigger] a@[i])@ == b0[i]@,
                        forall|t: int| 0 <= t < j__i ==> #[trigger] a@[row as int]@[t] == b0[row as int]@[t] ^ gmul(f, b0[col as int]@[t]), forall|t: int| j__i <= t < 2 * k ==> #[trigger] a@[row as int]@[t] == b0[row as int]@[t],
                    decreases 2 * k - j__i @*/
                { let j = j__i ; j__i += 1 ;
                    /*@ proof { assert(a@[col as int]@ == b0[col as int]@); } @*/
                    a[row][j] ^= mul(f, a[col][j]);
                }
                /*@ proof {
                    lem_op_add(b0, a@, m@, k as int, row as int, col as int, f);
                    lem_one(f); lem_x0(f); lem_zero(f);
                    assert(a@[row as int]@[col as int] == b0[row as int]@[col as int] ^ gmul(f, b0[col as int]@[col as int]));
                    assert(a@[col as int]@ == b0[col as int]@);
                    assert(cleared(a@, col as int, k as int)) by { assert forall|i: int, c: int| 0 <= i < k && 0 <= c < col implies #[trigger] a@[i]@[c] == delta(i, c) by { assert(b0[i]@[c] == delta(i, c)); assert(b0[col as int]@[c] == delta(col as int, c)); lem_x0(delta(i, c)); if i == row { assert(a@[i]@[c] == b0[i]@[c] ^ gmul(f, b0[col as int]@[c])); } else { assert(a@[i]@ == b0[i]@); } } }
                    assert forall|i: int| 0 <= i < row__i && i != col implies (#[trigger] a@[i])@[col as int] == 0 by { if i != row { assert(a@[i]@ == b0[i]@); } }
                } @*/
            }
        }
        /*@ proof { assert forall|i: int, c: int| 0 <= i < k && 0 <= c < col__i implies #[trigger] a@[i]@[c] == delta(i, c) by { if c == col { if i != col { assert(a@[i]@[col as int] == 0); } } } } @*/
    }
    Some(/*@ { let res = @*/ { let mut r__vec /*@ : Vec<Vec<u8>> @*/ = Vec :: new ( ) ; let mut r__k : usize = 0 ; while r__k < a . len ( )
        /*@ invariant rows_of(a@, k as int, 2 * k as int), 2 * k <= usize::MAX, r__k <= k, rows_of(r__vec@, r__k as int, k as int), forall|i: int, t: int| 0 <= i < r__k && 0 <= t < k ==> #[trigger] r__vec@[i]@[t] == a@[i]@[k + t]
        decreases k - r__k @*/
    { let r = & a [ r__k ] ; r__k += 1 ; r__vec . push ( sub_bytes(r, k, 2 * k) ) ; } r__vec } /*@ ; proof { lem_finish(a@, res@, m@, k as int); } res } @*/ )
}
//#RAW
// ---- polynomials: the code evaluates one polynomial per byte position at the nodes 0..n ----
spec fn vr(i: int) -> V8 { |t: int| gp(i as u8, t) }
spec fn gx(x: u8) -> V8 { |t: int| gp(x, t) }
spec fn qc(c: V8, x0: u8, k: int, t: int) -> u8 decreases k - t { if t >= k - 1 { 0 } else { c(t + 1) ^ gmul(x0, qc(c, x0, k, t + 1)) } }
proof fn lem_div_poly(c: V8, x0: u8, x: u8, k: int, n: int)
    requires 1 <= n <= k
    ensures dot(gx(x), c, n) == (c(0) ^ gmul(x0, qc(c, x0, k, 0))) ^ gmul(x ^ x0, dot(gx(x), |t: int| qc(c, x0, k, t), n)) ^ gmul(gp(x, n), qc(c, x0, k, n - 1))
    decreases n
{
    let q = |t: int| qc(c, x0, k, t);
    let r = c(0) ^ gmul(x0, q(0));
    let qn = dot(gx(x), q, n - 1);
    let s = x ^ x0;
    let xn = gp(x, n - 1);
    let t = n - 1;
    assert(gx(x)(t) == xn);
    assert(gp(x, n) == gmul(xn, x));
    lem_assoc(xn, x, q(t)); lem_comm(x, q(t)); lem_assoc(xn, q(t), x);
    // (x ^ x0) * (Q ^ xn q) = (x ^ x0) Q ^ (x xn q ^ x0 xn q)
    let w = gmul(xn, q(t));
    lem_dist(s, qn, w); lem_dist(w, x, x0); lem_comm(x, w); lem_comm(x0, w); lem_comm(s, w); lem_comm(s, qn);
    lem_assoc(xn, q(t), x0); lem_comm(q(t), x0);
    let a = gmul(w, x); let b = gmul(w, x0); let m = gmul(s, qn);
    assert(gmul(gp(x, n), q(t)) == a);
    assert(gmul(s, qn ^ w) == m ^ (a ^ b));
    assert(dot(gx(x), q, n) == qn ^ w);
    assert(gmul(xn, gmul(x0, q(t))) == b);
    if n > 1 {
        lem_div_poly(c, x0, x, k, n - 1);
        let h = gmul(gp(x, n - 1), qc(c, x0, k, n - 2));
        let p0 = dot(gx(x), c, n - 1);
        assert(p0 == (r ^ m) ^ h);
        assert(q(t - 1) == c(t) ^ gmul(x0, q(t)));
        let x0q = gmul(x0, q(t)); let ct = c(t); let qp = q(t - 1);
        assert(qp == ct ^ x0q ==> ct == qp ^ x0q) by (bit_vector);
        lem_dist(xn, qp, x0q);
        assert(gmul(xn, ct) == h ^ b);
        assert(((r ^ m) ^ h) ^ (h ^ b) == (r ^ (m ^ (a ^ b))) ^ a) by (bit_vector);
    } else {
        assert(gp(x, 0) == 1);
        lem_one(c(0)); lem_one(q(0)); lem_zero(s); lem_x0(c(0));
        assert(dot(gx(x), c, 0) == 0); assert(qn == 0);
        let c0 = c(0);
        assert(m == 0); assert(w == q(0)); lem_comm(w, x0); assert(b == gmul(x0, q(0)));
        assert(dot(gx(x), c, 1) == c0);
        assert(c0 == ((c0 ^ b) ^ (0u8 ^ (a ^ b))) ^ a) by (bit_vector);
    }
}
proof fn lem_roots(c: V8, nodes: Seq<u8>, k: int)
    requires nodes.len() == k, nodes.no_duplicates(), forall|i: int| 0 <= i < k ==> dot(gx(#[trigger] nodes[i]), c, k) == 0
    ensures zero_v(c, k)
    decreases k
{
    if k > 0 {
        let x0 = nodes[k - 1];
        let q = |t: int| qc(c, x0, k, t);
        let rest = nodes.subrange(0, k - 1);
        let r = c(0) ^ gmul(x0, q(0));
        lem_div_poly(c, x0, x0, k, k);
        lem_x0(x0); lem_x0(r); lem_x0(0); lem_zero(dot(gx(x0), q, k)); lem_zero(gp(x0, k));
        assert(q(k - 1) == 0);
        assert(r == 0);
        assert forall|i: int| 0 <= i < k - 1 implies dot(gx(#[trigger] rest[i]), q, k - 1) == 0 by {
            let x = rest[i]; assert(x == nodes[i]); assert(x != x0);
            lem_div_poly(c, x0, x, k, k); lem_zero(gp(x, k));
            assert(gx(x)(k - 1) == gp(x, k - 1)); lem_zero(gp(x, k - 1));
            let d1 = dot(gx(x), q, k - 1); lem_x0(d1); assert(dot(gx(x), q, k) == d1);
            lem_x0(gmul(x ^ x0, d1));
            assert(x != x0 ==> x ^ x0 != 0) by (bit_vector);
            if d1 != 0 { lem_nz(x ^ x0, d1); }
        }
        lem_roots(q, rest, k - 1);
        assert forall|i: int| 0 <= i < k implies #[trigger] c(i) == 0 by {
            lem_zero(x0); lem_x0(c(i));
            assert(q(i) == 0) by { if i < k - 1 {} }
            if i > 0 { assert(q(i - 1) == 0); assert(q(i - 1) == c(i) ^ gmul(x0, q(i))); }
        }
    }
}
spec fn good_ix(ix: Seq<usize>, k: int) -> bool { ix.len() == k && ix.no_duplicates() && forall|r: int| 0 <= r < k ==> (#[trigger] ix[r]) < 256 }
// k different nodes: only the zero polynomial vanishes on all of them
proof fn lem_vander(ix: Seq<usize>, c: V8, k: int)
    requires good_ix(ix, k), forall|r: int| 0 <= r < k ==> dot(vr(#[trigger] ix[r] as int), c, k) == 0
    ensures zero_v(c, k)
{
    let nodes = Seq::new(k as nat, |r: int| ix[r] as u8);
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k && i != j implies nodes[i] != nodes[j] by { assert(ix[i] != ix[j]); assert(ix[i] < 256 && ix[j] < 256); }
    assert forall|i: int| 0 <= i < k implies dot(gx(#[trigger] nodes[i]), c, k) == 0 by { assert(dot(vr(ix[i] as int), c, k) == 0); lem_dot_eq(gx(nodes[i]), vr(ix[i] as int), c, c, k); }
    lem_roots(c, nodes, k);
}
spec fn evals(c: V8, k: int) -> V8 { |j: int| dot(vr(j), c, k) }
spec fn is_top(v: Seq<Vec<u8>>, n: int, k: int) -> bool { rows_of(v, n, k) && forall|i: int, t: int| 0 <= i < n && 0 <= t < k ==> #[trigger] v[i]@[t] == vr(i)(t) }
// what encode_matrix stands for: evaluate, at every node, the polynomial that takes the given values at the first k nodes
spec fn enc_by(e: Seq<Vec<u8>>, inv: Seq<Vec<u8>>, n: int, k: int) -> bool {
    rows_of(e, n, k) && rows_of(inv, k, k) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < k ==> #[trigger] e[i]@[j] == dot(vr(i), colv(inv, j), k))
    && (forall|v: V8| #[trigger] kills(inv, v, k) ==> zero_v(v, k))
    && (forall|t: int, c: V8| 0 <= t < k ==> #[trigger] dot(rowv(inv, t), evals(c, k), k) == c(t))
}
spec fn is_enc(e: Seq<Vec<u8>>, n: int, k: int) -> bool { exists|inv: Seq<Vec<u8>>| #[trigger] enc_by(e, inv, n, k) }
proof fn lem_top_ix(k: int) requires 0 <= k <= 256 ensures good_ix(Seq::new(k as nat, |i: int| i as usize), k) {}
proof fn lem_top_ok(v: Seq<Vec<u8>>, k: int) requires is_top(v, k, k), 0 <= k <= 256 ensures !singular(v, k)
{
    assert forall|c: V8| #[trigger] kills(v, c, k) implies zero_v(c, k) by {
        let ix = Seq::new(k as nat, |i: int| i as usize);
        lem_top_ix(k);
        assert forall|r: int| 0 <= r < k implies dot(vr(#[trigger] ix[r] as int), c, k) == 0 by {
            assert(dot(rowv(v, r), c, k) == 0);
            assert forall|t: int| 0 <= t < k implies #[trigger] rowv(v, r)(t) == vr(r)(t) by { assert(v[r]@[t] == vr(r)(t)); }
            lem_dot_eq(rowv(v, r), vr(r), c, c, k);
        }
        lem_vander(ix, c, k);
    }
}
proof fn lem_enc(e: Seq<Vec<u8>>, v: Seq<Vec<u8>>, inv: Seq<Vec<u8>>, top: Seq<Vec<u8>>, n: int, k: int)
    requires is_top(v, n, k), is_top(top, k, k), rows_of(inv, k, k), left_inv(inv, top, k), forall|v: V8| #[trigger] kills(inv, v, k) ==> zero_v(v, k), 0 <= k <= n,
        rows_of(e, n, k), forall|i: int, j: int| 0 <= i < n && 0 <= j < k ==> #[trigger] e[i]@[j] == dot(rowv(v, i), colv(inv, j), k)
    ensures enc_by(e, inv, n, k)
{
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < k implies #[trigger] e[i]@[j] == dot(vr(i), colv(inv, j), k) by {
        assert forall|t: int| 0 <= t < k implies #[trigger] rowv(v, i)(t) == vr(i)(t) by { assert(v[i]@[t] == vr(i)(t)); }
        lem_dot_eq(rowv(v, i), vr(i), colv(inv, j), colv(inv, j), k);
    }
    assert forall|t: int, c: V8| 0 <= t < k implies #[trigger] dot(rowv(inv, t), evals(c, k), k) == c(t) by {
        let w: M8 = |r: int, s: int| gp(r as u8, s);
        lem_exchange(rowv(inv, t), w, c, k, k);
        let ev = evals(c, k); let ev2 = |r: int| dot(|s: int| w(r, s), c, k);
        assert forall|j: int| 0 <= j < k implies #[trigger] ev(j) == ev2(j) by { lem_dot_eq(vr(j), |s: int| w(j, s), c, c, k); }
        lem_dot_eq(rowv(inv, t), rowv(inv, t), ev, ev2, k);
        let cf = |s: int| dot(rowv(inv, t), |r: int| w(r, s), k);
        assert forall|s: int| 0 <= s < k implies #[trigger] cf(s) == delta(t, s) by {
            assert(dot(rowv(inv, t), colv(top, s), k) == delta(t, s));
            assert forall|r: int| 0 <= r < k implies #[trigger] colv(top, s)(r) == w(r, s) by { assert(top[r]@[s] == vr(r)(s)); }
            let wc = |r: int| w(r, s);
            lem_dot_eq(rowv(inv, t), rowv(inv, t), colv(top, s), wc, k);
        }
        lem_dot_unit(cf, c, t, k);
    }
}
// a column of shard bytes s carries the k data bytes d
spec fn poly_at(s: V8, c: V8, n: int, k: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] s(i) == dot(vr(i), c, k) }
spec fn codeword(s: V8, d: V8, n: int, k: int) -> bool { (exists|c: V8| #[trigger] poly_at(s, c, n, k)) && forall|j: int| 0 <= j < k ==> #[trigger] s(j) == d(j) }
proof fn lem_encodes(e: Seq<Vec<u8>>, s: V8, d: V8, n: int, k: int)
    requires is_enc(e, n, k), 0 <= k <= n, forall|i: int| 0 <= i < n ==> #[trigger] s(i) == dot(rowv(e, i), d, k)
    ensures codeword(s, d, n, k)
{
    let inv = choose|inv: Seq<Vec<u8>>| #[trigger] enc_by(e, inv, n, k);
    let c: V8 = |t: int| dot(rowv(inv, t), d, k);
    assert forall|i: int| 0 <= i < n implies #[trigger] s(i) == dot(vr(i), c, k) by { lem_row_poly(e, inv, d, i, n, k); }
    assert(poly_at(s, c, n, k));
    // at the first k nodes the polynomial takes the values d: the difference u is sent to zero by inv
    let u: V8 = |j: int| s(j) ^ d(j);
    assert forall|t: int| 0 <= t < k implies dot(#[trigger] rowv(inv, t), u, k) == 0 by {
        let ev = evals(c, k);
        assert(dot(rowv(inv, t), ev, k) == c(t));
        lem_dot_eq(rowv(inv, t), rowv(inv, t), s, ev, k);
        assert forall|j: int| 0 <= j < k implies #[trigger] u(j) == s(j) ^ gmul(1, d(j)) by { lem_one(d(j)); }
        lem_dot_comb(s, d, u, 1, rowv(inv, t), k);
        lem_dot_comm(u, rowv(inv, t), k); lem_dot_comm(s, rowv(inv, t), k); lem_dot_comm(d, rowv(inv, t), k);
        lem_one(c(t)); lem_x0(c(t));
    }
    assert(kills(inv, u, k));
    assert forall|j: int| 0 <= j < k implies #[trigger] s(j) == d(j) by { assert(u(j) == 0); let a = s(j); let b = d(j); assert(a ^ b == 0 ==> a == b) by (bit_vector); }
}
proof fn lem_row_poly(e: Seq<Vec<u8>>, inv: Seq<Vec<u8>>, d: V8, i: int, n: int, k: int)
    requires enc_by(e, inv, n, k), 0 <= i < n, 0 <= k
    ensures dot(rowv(e, i), d, k) == dot(vr(i), |t: int| dot(rowv(inv, t), d, k), k)
{
    let w: M8 = |r: int, t: int| inv[r]@[t];
    lem_exchange(vr(i), w, d, k, k);
    let c = |t: int| dot(rowv(inv, t), d, k);
    let c2 = |r: int| dot(|t: int| w(r, t), d, k);
    assert forall|t: int| 0 <= t < k implies #[trigger] c(t) == c2(t) by { lem_dot_eq(rowv(inv, t), |s: int| w(t, s), d, d, k); }
    lem_dot_eq(vr(i), vr(i), c, c2, k);
    let er = |t: int| dot(vr(i), |r: int| w(r, t), k);
    assert forall|t: int| 0 <= t < k implies #[trigger] rowv(e, i)(t) == er(t) by { assert(e[i]@[t] == dot(vr(i), colv(inv, t), k)); let wc = |r: int| w(r, t); lem_dot_eq(vr(i), vr(i), colv(inv, t), wc, k); }
    lem_dot_eq(rowv(e, i), er, d, d, k);
}
spec fn picked(rows: Seq<Vec<u8>>, e: Seq<Vec<u8>>, ix: Seq<usize>, k: int) -> bool { rows.len() == k && ix.len() == k && forall|r: int| 0 <= r < k ==> (#[trigger] rows[r])@ == e[ix[r] as int]@ }
// the rows of any k different shards are independent
proof fn lem_pick_ok(rows: Seq<Vec<u8>>, e: Seq<Vec<u8>>, ix: Seq<usize>, n: int, k: int)
    requires is_enc(e, n, k), picked(rows, e, ix, k), good_ix(ix, k), forall|r: int| 0 <= r < k ==> (#[trigger] ix[r]) < n, 0 <= k <= n <= 256
    ensures !singular(rows, k)
{
    let inv = choose|inv: Seq<Vec<u8>>| #[trigger] enc_by(e, inv, n, k);
    assert forall|v: V8| #[trigger] kills(rows, v, k) implies zero_v(v, k) by {
        let c: V8 = |t: int| dot(rowv(inv, t), v, k);
        assert forall|r: int| 0 <= r < k implies dot(vr(#[trigger] ix[r] as int), c, k) == 0 by {
            assert(dot(rowv(rows, r), v, k) == 0);
            assert(rows[r]@ == e[ix[r] as int]@);
            lem_dot_eq(rowv(rows, r), rowv(e, ix[r] as int), v, v, k);
            lem_row_poly(e, inv, v, ix[r] as int, n, k);
        }
        lem_vander(ix, c, k);
        assert forall|t: int| 0 <= t < k implies dot(#[trigger] rowv(inv, t), v, k) == 0 by { assert(c(t) == 0); }
        assert(kills(inv, v, k));
    }
}
// the inverse applied to k bytes of a codeword gives back the data bytes
proof fn lem_recover(rows: Seq<Vec<u8>>, e: Seq<Vec<u8>>, minv: Seq<Vec<u8>>, ix: Seq<usize>, s: V8, d: V8, vals: V8, n: int, k: int, j: int)
    requires is_enc(e, n, k), picked(rows, e, ix, k), forall|r: int| 0 <= r < k ==> (#[trigger] ix[r]) < n, 0 <= k <= n, left_inv(minv, rows, k), codeword(s, d, n, k),
        forall|r: int| 0 <= r < k ==> #[trigger] vals(r) == s(ix[r] as int), 0 <= j < k
    ensures dot(rowv(minv, j), vals, k) == d(j)
{
    let inv = choose|inv: Seq<Vec<u8>>| #[trigger] enc_by(e, inv, n, k);
    let c = choose|c: V8| #[trigger] poly_at(s, c, n, k);
    let ev = evals(c, k);
    let w: M8 = |r: int, t: int| rows[r]@[t];
    let mv = |r: int| dot(|t: int| w(r, t), d, k);
    assert forall|r: int| 0 <= r < k implies #[trigger] vals(r) == mv(r) by {
        let i = ix[r] as int;
        assert(rows[r]@ == e[i]@);
        assert(vals(r) == s(i)); assert(s(i) == dot(vr(i), c, k));
        let wr = |t: int| w(r, t);
        lem_dot_eq(wr, rowv(e, i), d, d, k);
        lem_row_poly(e, inv, d, i, n, k);
        let c2 = |t: int| dot(rowv(inv, t), d, k);
        assert forall|t: int| 0 <= t < k implies #[trigger] c2(t) == c(t) by {
            assert(dot(rowv(inv, t), ev, k) == c(t));
            assert forall|j: int| 0 <= j < k implies #[trigger] d(j) == ev(j) by { assert(s(j) == d(j)); }
            lem_dot_eq(rowv(inv, t), rowv(inv, t), d, ev, k);
        }
        lem_dot_eq(vr(i), vr(i), c2, c, k);
    }
    lem_dot_eq(rowv(minv, j), rowv(minv, j), vals, mv, k);
    lem_exchange(rowv(minv, j), w, d, k, k);
    let cf = |t: int| dot(rowv(minv, j), |r: int| w(r, t), k);
    assert forall|t: int| 0 <= t < k implies #[trigger] cf(t) == delta(j, t) by {
        assert(dot(rowv(minv, j), colv(rows, t), k) == delta(j, t));
        let wc = |r: int| w(r, t);
        lem_dot_eq(rowv(minv, j), rowv(minv, j), colv(rows, t), wc, k);
    }
    lem_dot_unit(cf, d, j, k);
}
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn matmul | iterloop, forwhile
fn matmul(a: &[Vec<u8>], b: &[Vec<u8>]) -> /*@ (r: @*/ Vec<Vec<u8>> /*@ )
    requires b@.len() > 0, rows_of(b@, b@.len() as int, b@[0]@.len() as int), rows_of(a@, a@.len() as int, b@.len() as int)
    ensures rows_of(r@, a@.len() as int, b@[0]@.len() as int), forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < b@[0]@.len() ==> #[trigger] r@[i]@[j] == dot(rowv(a@, i), colv(b@, j), b@.len() as int) @*/ {
    let inner = b.len();
    let cols = b[0].len();
    { let mut row__vec /*@ : Vec<Vec<u8>> @*/ = Vec :: new ( ) ; let mut row__k : usize = 0 ; while row__k < a . len ( )
        /*@ invariant inner == b@.len(), cols == b@[0]@.len(), inner > 0, rows_of(b@, inner as int, cols as int), rows_of(a@, a@.len() as int, inner as int), row__k <= a@.len(), rows_of(row__vec@, row__k as int, cols as int),
            forall|i: int, j: int| 0 <= i < row__k && 0 <= j < cols ==> #[trigger] row__vec@[i]@[j] == dot(rowv(a@, i), colv(b@, j), inner as int)
        decreases a@.len() - row__k @*/
    { let row = & a [ row__k ] ; row__k += 1 ; row__vec . push ( {
        { let mut j__vec /*@ : Vec<u8> @*/ = Vec :: new ( ) ; let mut j__k = 0 ; let j__n = cols ; while j__k < j__n
            /*@ invariant inner == b@.len(), cols == b@[0]@.len(), j__n == cols, rows_of(b@, inner as int, cols as int), 1 <= row__k <= a@.len(), row@ == a@[row__k - 1]@, row@.len() == inner, j__k <= cols, j__vec@.len() == j__k,
                forall|j: int| 0 <= j < j__k ==> #[trigger] j__vec@[j] == dot(rowv(a@, row__k - 1), colv(b@, j), inner as int)
            decreases cols - j__k @*/
        { let j = j__k ; j__k += 1 ; j__vec . push ( {
            let mut acc = 0u8;
            let mut t__i = 0 ; let t__e = inner ; while t__i < t__e
                /*@ invariant inner == b@.len(), t__e == inner, cols == b@[0]@.len(), j < cols, rows_of(b@, inner as int, cols as int), 1 <= row__k <= a@.len(), row@ == a@[row__k - 1]@, row@.len() == inner, t__i <= inner, acc == dot(rowv(a@, row__k - 1), colv(b@, j as int), t__i as int)
                decreases inner - t__i @*/
            { let t = t__i ; t__i += 1 ;
                acc ^= mul(row[t], b[t][j]);
            }
            acc
        } ) ; } j__vec }
    } ) ; } row__vec }
}
//#RAW
fn top_rows(v: &Vec<Vec<u8>>, k: usize) -> (r: Vec<Vec<u8>>)
    requires k <= v@.len()
    ensures r@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] r@[i])@ == v@[i]@
{
    let mut r: Vec<Vec<u8>> = Vec::new();
    let mut i = 0;
    while i < k invariant i <= k <= v@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j])@ == v@[j]@ decreases k - i { r.push(copy_bytes(&v[i])); i += 1; }
    r
}
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn encode_matrix | iterloop, forwhile, topr
fn encode_matrix(n: usize, k: usize) -> /*@ (r: @*/ Option<Vec<Vec<u8>>> /*@ )
    requires 1 <= k <= n <= 256
    ensures r is Some, is_enc((r->0)@, n as int, k as int) @*/ {
    let vander: Vec<Vec<u8>> = { let mut i__vec /*@ : Vec<Vec<u8>> @*/ = Vec :: new ( ) ; let mut i__k = 0 ; let i__n = n ; while i__k < i__n
        /*@ invariant i__n == n, i__k <= n, n <= 256, is_top(i__vec@, i__k as int, k as int) decreases n - i__k @*/
    { let i = i__k ; i__k += 1 ; i__vec . push ( { let mut j__vec /*@ : Vec<u8> @*/ = Vec :: new ( ) ; let mut j__k = 0 ; let j__n = k ; while j__k < j__n
        /*@ invariant j__n == k, j__k <= k, i < 256, j__vec@.len() == j__k, forall|t: int| 0 <= t < j__k ==> #[trigger] j__vec@[t] == vr(i as int)(t) decreases k - j__k @*/
    { let j = j__k ; j__k += 1 ; j__vec . push ( pow(i as u8, j) ) ; } j__vec } ) ; } i__vec };
    let top = top_rows(&vander, k);
    /*@ proof {
        assert forall|i: int, t: int| 0 <= i < k && 0 <= t < k implies #[trigger] top@[i]@[t] == vr(i)(t) by { assert(vander@[i]@[t] == vr(i)(t)); }
        assert(is_top(top@, k as int, k as int));
        lem_top_ok(top@, k as int);
    } @*/
    let inv = invert(&top)?;
    Some(/*@ { let e__r = @*/ matmul(&vander, &inv) /*@ ; proof { lem_enc(e__r@, vander@, inv@, top@, n as int, k as int); } e__r } @*/ )
}
//#RAW
// std: division rounding up (trusted specification)
pub assume_specification[usize::div_ceil](a: usize, b: usize) -> (r: usize)
    requires b != 0
    ensures r as int == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 });
spec fn slen(l: int, k: int) -> int { let c = if l % k == 0 { l / k } else { l / k + 1 }; if c < 1 { 1 } else { c } }
spec fn pad(d: Seq<u8>, i: int) -> u8 { if 0 <= i < d.len() { d[i] } else { 0 } }
proof fn lem_slen(l: int, k: int) requires l >= 0, k >= 1 ensures slen(l, k) >= 1, k * slen(l, k) >= l, k * slen(l, k) <= l + k
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, k); assert(l % k < k && l % k >= 0) by { vstd::arithmetic::div_mod::lemma_mod_bound(l, k); } let c = l / k; assert(l / k >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(l, k); } assert(k * (c + 1) == k * c + k) by (nonlinear_arith); assert(k * 1 == k); assert(k * c >= 0) by (nonlinear_arith) requires k >= 1, c >= 0; }
proof fn lem_at(j: int, b: int, k: int, sl: int) requires 0 <= j < k, 0 <= b < sl ensures 0 <= j * sl + b < k * sl, j * sl >= 0
{ assert(j * sl + b < k * sl && j * sl >= 0) by (nonlinear_arith) requires 0 <= j < k, 0 <= b < sl; }
proof fn lem_at_inj(j: int, b: int, j2: int, b2: int, sl: int) requires 0 <= b < sl, 0 <= b2 < sl, j * sl + b == j2 * sl + b2 ensures j == j2, b == b2
{ assert(j == j2) by (nonlinear_arith) requires 0 <= b < sl, 0 <= b2 < sl, j * sl + b == j2 * sl + b2; }
spec fn dcol(d: Seq<u8>, b: int, sl: int) -> V8 { |j: int| pad(d, j * sl + b) }
spec fn scol(sh: M8, b: int) -> V8 { |i: int| sh(i, b) }
// sh(i, b), byte b of shard i, is an encoding of the message d
spec fn coded(sh: M8, d: Seq<u8>, k: int, n: int) -> bool { forall|b: int| 0 <= b < slen(d.len() as int, k) ==> codeword(#[trigger] scol(sh, b), dcol(d, b, slen(d.len() as int, k)), n, k) }
spec fn shm(s: Seq<Vec<u8>>) -> M8 { |i: int, b: int| s[i]@[b] }
fn pad_bytes(d: &[u8], n: usize) -> (r: Vec<u8>)
    requires n >= d@.len()
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == pad(d@, i)
{
    let mut r: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < n invariant i <= n, n >= d@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == pad(d@, j) decreases n - i { if i < d.len() { r.push(d[i]); } else { r.push(0); } i += 1; }
    r
}
fn has_index(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x)
{
    let mut i = 0;
    while i < v.len() invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x decreases v@.len() - i { if v[i] == *x { return true; } i += 1; }
    false
}
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn shard_len
fn shard_len(orig_len: usize, k: usize) -> /*@ (r: @*/ usize /*@ )
    requires k != 0
    ensures r == slen(orig_len as int, k as int) @*/ {
    orig_len.div_ceil(k).max(1)
}
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn encode | iterloop, forwhile, padded
fn encode(data: &[u8], k: usize, n: usize) -> /*@ (r: @*/ Option<(usize, Vec<Vec<u8>>)> /*@ )
    requires data@.len() + 256 <= usize::MAX
    ensures
        r is None <==> (k == 0 || n < k || n > 256),
        r is Some ==> (r->0).0 == data@.len() && rows_of((r->0).1@, n as int, slen(data@.len() as int, k as int)) && coded(shm((r->0).1@), data@, k as int, n as int), @*/ {
    if k == 0 || n < k || n > 256 {
        return None;
    }
    let shard_len = shard_len(data.len(), k);
    /*@ proof { lem_slen(data@.len() as int, k as int); } @*/
    let mut padded = pad_bytes(data, k * shard_len);
    let e = encode_matrix(n, k)?;
    let shards = { let mut i__vec /*@ : Vec<Vec<u8>> @*/ = Vec :: new ( ) ; let mut i__k = 0 ; let i__n = n ; while i__k < i__n
        /*@ invariant i__n == n, i__k <= n, rows_of(e@, n as int, k as int), padded@.len() == k * shard_len, forall|i: int| 0 <= i < k * shard_len ==> #[trigger] padded@[i] == pad(data@, i), rows_of(i__vec@, i__k as int, shard_len as int),
            forall|i: int, b: int| 0 <= i < i__k && 0 <= b < shard_len ==> #[trigger] i__vec@[i]@[b] == dot(rowv(e@, i), dcol(data@, b, shard_len as int), k as int)
        decreases n - i__k @*/
    { let i = i__k ; i__k += 1 ; i__vec . push ( {
        { let mut b__vec /*@ : Vec<u8> @*/ = Vec :: new ( ) ; let mut b__k = 0 ; let b__n = shard_len ; while b__k < b__n
            /*@ invariant b__n == shard_len, b__k <= shard_len, i < n, rows_of(e@, n as int, k as int), padded@.len() == k * shard_len, forall|i: int| 0 <= i < k * shard_len ==> #[trigger] padded@[i] == pad(data@, i), b__vec@.len() == b__k,
                forall|b: int| 0 <= b < b__k ==> #[trigger] b__vec@[b] == dot(rowv(e@, i as int), dcol(data@, b, shard_len as int), k as int)
            decreases shard_len - b__k @*/
        { let b = b__k ; b__k += 1 ; b__vec . push ( {
            let mut acc = 0u8;
            let mut j__i = 0 ; let j__e = k ; while j__i < j__e
                /*@ invariant j__e == k, j__i <= k, b < shard_len, i < n, rows_of(e@, n as int, k as int), padded@.len() == k * shard_len, forall|i: int| 0 <= i < k * shard_len ==> #[trigger] padded@[i] == pad(data@, i),
                    acc == dot(rowv(e@, i as int), dcol(data@, b as int, shard_len as int), j__i as int)
                decreases k - j__i @*/
            { let j = j__i ; j__i += 1 ;
                /*@ proof { lem_at(j as int, b as int, k as int, shard_len as int); assert(padded@[j * shard_len + b] == pad(data@, j * shard_len + b)); assert(padded.len() as int == padded@.len()); } @*/
                acc ^= mul(e[i][j], padded[j * shard_len + b]);
            }
            acc
        } ) ; } b__vec }
    } ) ; } i__vec };
    /*@ proof {
        assert forall|b: int| 0 <= b < shard_len implies codeword(#[trigger] scol(shm(shards@), b), dcol(data@, b, shard_len as int), n as int, k as int) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] scol(shm(shards@), b)(i) == dot(rowv(e@, i), dcol(data@, b, shard_len as int), k as int) by { assert(shards@[i]@[b] == dot(rowv(e@, i), dcol(data@, b, shard_len as int), k as int)); }
            lem_encodes(e@, scol(shm(shards@), b), dcol(data@, b, shard_len as int), n as int, k as int);
        }
    } @*/
    Some((data.len(), shards))
}
//#RAW
spec fn usable(h: (usize, Vec<u8>), n: int, sl: int) -> bool { h.0 < n && h.1@.len() == sl }
// the shard numbers that are usable among the first m received
spec fn vset(have: Seq<(usize, Vec<u8>)>, m: int, n: int, sl: int) -> Set<usize> decreases m { if m <= 0 { Set::empty() } else if usable(have[m - 1], n, sl) { vset(have, m - 1, n, sl).insert(have[m - 1].0) } else { vset(have, m - 1, n, sl) } }
proof fn lem_vset_fin(have: Seq<(usize, Vec<u8>)>, m: int, n: int, sl: int) ensures vset(have, m, n, sl).finite() decreases m { if m > 0 { lem_vset_fin(have, m - 1, n, sl); } }
proof fn lem_vset_mono(have: Seq<(usize, Vec<u8>)>, m: int, m2: int, n: int, sl: int) requires m <= m2 ensures vset(have, m, n, sl).subset_of(vset(have, m2, n, sl)) decreases m2 { if m < m2 && m2 > 0 { lem_vset_mono(have, m, m2 - 1, n, sl); } }
// every usable received shard is the one that was sent
spec fn intact(have: Seq<(usize, Vec<u8>)>, sh: M8, n: int, sl: int) -> bool { forall|i: int, b: int| 0 <= i < have.len() && usable(have[i], n, sl) && 0 <= b < sl ==> #[trigger] have[i].1@[b] == sh(have[i].0 as int, b) }
spec fn valcol(vals: Seq<&Vec<u8>>, b: int) -> V8 { |r: int| vals[r]@[b] }
//#FN crates/logicaffeine_compile/src/concurrency/fec.rs :: fn decode | iterloop, fortuple, forwhile, rowcl, hasix
fn decode(orig_len: usize, k: usize, n: usize, have: &[(usize, Vec<u8>)]) -> /*@ (res: @*/ Option<Vec<u8>> /*@ )
    requires orig_len + 256 <= usize::MAX
    ensures
        res is Some <==> (1 <= k <= n <= 256 && vset(have@, have@.len() as int, n as int, slen(orig_len as int, k as int)).len() >= k),
        res is Some ==> forall|sh: M8, d: Seq<u8>| #[trigger] coded(sh, d, k as int, n as int) && d.len() == orig_len && intact(have@, sh, n as int, slen(orig_len as int, k as int)) ==> (res->0)@ == d, @*/ {
    if k == 0 || n < k || n > 256 || have.is_empty() {
        return None;
    }
    let shard_len = shard_len(orig_len, k);
    /*@ let ghost sl = shard_len as int; proof { lem_slen(orig_len as int, k as int); lem_vset_fin(have@, have@.len() as int, n as int, sl); } @*/
    let e = encode_matrix(n, k)?;
    let mut idxs: Vec<usize> = Vec::with_capacity(k);
    let mut rows: Vec<Vec<u8>> = Vec::with_capacity(k);
    let mut vals: Vec<&Vec<u8>> = Vec::with_capacity(k);
    /*@ let ghost mut src: Seq<int> = Seq::empty(); @*/
    let mut idx__i : usize = 0 ; while idx__i < have . len ( )
        /*@ invariant_except_break idxs@.len() < k, idxs@.to_set() =~= vset(have@, idx__i as int, n as int, sl),
        invariant
            idx__i <= have@.len(), 1 <= k <= n <= 256, sl == shard_len, is_enc(e@, n as int, k as int), idxs@.len() <= k, idxs@.no_duplicates(), idxs@.to_set().subset_of(vset(have@, have@.len() as int, n as int, sl)),
            picked(rows@, e@, idxs@, idxs@.len() as int), vals@.len() == idxs@.len(), src.len() == idxs@.len(), vset(have@, have@.len() as int, n as int, sl).finite(),
            forall|r: int| 0 <= r < idxs@.len() ==> (#[trigger] idxs@[r]) < n, forall|r: int| 0 <= r < idxs@.len() ==> rows@[r]@.len() == k && (#[trigger] vals@[r])@.len() == sl,
            forall|r: int| 0 <= r < idxs@.len() ==> 0 <= (#[trigger] src[r]) < have@.len() && have@[src[r]].1@ == vals@[r]@ && have@[src[r]].0 == idxs@[r] && usable(have@[src[r]], n as int, sl),
        ensures idxs@.len() < k ==> idxs@.to_set() =~= vset(have@, have@.len() as int, n as int, sl)
        decreases have@.len() - idx__i @*/
    { let idx = & have [ idx__i ] . 0 ; let shard = & have [ idx__i ] . 1 ; idx__i += 1 ;
        /*@ let ghost i0 = idxs@; proof { lem_vset_mono(have@, idx__i as int, have@.len() as int, n as int, sl); let inv = choose|inv: Seq<Vec<u8>>| #[trigger] enc_by(e@, inv, n as int, k as int); assert(rows_of(e@, n as int, k as int)); } @*/
        if *idx >= n || shard.len() != shard_len || has_index(&idxs, idx) {
            /*@ proof { if usable(have@[idx__i - 1], n as int, sl) { assert(idxs@.to_set().contains(*idx)); } } @*/
            continue;
        }
        idxs.push(*idx);
        rows.push(copy_bytes(&e[*idx]));
        vals.push(shard);
        /*@ proof {
            src = src.push(idx__i - 1);
            assert(idxs@.to_set() =~= i0.to_set().insert(*idx)) by { assert forall|x: usize| idxs@.contains(x) <==> i0.contains(x) || x == *idx by { if i0.contains(x) { let q = choose|q: int| 0 <= q < i0.len() && i0[q] == x; assert(idxs@[q] == x); } assert(idxs@[i0.len() as int] == *idx); } }
            assert(idxs@.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < idxs@.len() && 0 <= b < idxs@.len() && a != b implies idxs@[a] != idxs@[b] by { if a == i0.len() { assert(i0.contains(i0[b])); } else if b == i0.len() { assert(i0.contains(i0[a])); } else { assert(i0[a] != i0[b]); } } }
        } @*/
        if idxs.len() == k {
            break;
        }
    }
    /*@ proof { idxs@.unique_seq_to_set(); vstd::set_lib::lemma_len_subset(idxs@.to_set(), vset(have@, have@.len() as int, n as int, sl)); } @*/
    if idxs.len() < k {
        return None;
    }
    /*@ proof { assert(good_ix(idxs@, k as int)); lem_pick_ok(rows@, e@, idxs@, n as int, k as int); } @*/
    let minv = invert(&rows)?;
    let mut data = vec![0u8; k * shard_len];
    let mut b__i = 0 ; let b__e = shard_len ; while b__i < b__e
        /*@ invariant
            b__e == shard_len, b__i <= shard_len, sl == shard_len, data@.len() == k * shard_len, rows_of(minv@, k as int, k as int), vals@.len() == k, k >= 1, forall|r: int| 0 <= r < k ==> (#[trigger] vals@[r])@.len() == sl,
            forall|b: int, j: int| 0 <= b < b__i && 0 <= j < k ==> data@[j * sl + b] == #[trigger] dot(rowv(minv@, j), valcol(vals@, b), k as int),
        decreases shard_len - b__i @*/
    { let b = b__i ; b__i += 1 ;
        let mut j__i = 0 ; let j__e = k ; while j__i < j__e
            /*@ invariant
                j__e == k, j__i <= k, b < shard_len, b__i == b + 1, sl == shard_len, data@.len() == k * shard_len, rows_of(minv@, k as int, k as int), vals@.len() == k, forall|r: int| 0 <= r < k ==> (#[trigger] vals@[r])@.len() == sl,
                forall|b2: int, j: int| 0 <= b2 < b && 0 <= j < k ==> data@[j * sl + b2] == #[trigger] dot(rowv(minv@, j), valcol(vals@, b2), k as int),
                forall|j: int| 0 <= j < j__i ==> data@[j * sl + b] == #[trigger] dot(rowv(minv@, j), valcol(vals@, b as int), k as int),
            decreases k - j__i @*/
        { let j = j__i ; j__i += 1 ;
            let mut acc = 0u8;
            let mut r__i = 0 ; let r__e = k ; while r__i < r__e
                /*@ invariant r__e == k, r__i <= k, j < k, b < shard_len, sl == shard_len, rows_of(minv@, k as int, k as int), vals@.len() == k, forall|r: int| 0 <= r < k ==> (#[trigger] vals@[r])@.len() == sl, acc == dot(rowv(minv@, j as int), valcol(vals@, b as int), r__i as int)
                decreases k - r__i @*/
            { let r = r__i ; r__i += 1 ;
                acc ^= mul(minv[j][r], vals[r][b]);
            }
            /*@ let ghost d0 = data@; proof { lem_at(j as int, b as int, k as int, sl); assert(data.len() as int == data@.len()); } @*/
            data[j * shard_len + b] = acc;
            /*@ proof {
                assert forall|b2: int, j2: int| 0 <= b2 < b && 0 <= j2 < k implies data@[j2 * sl + b2] == #[trigger] dot(rowv(minv@, j2), valcol(vals@, b2), k as int) by { lem_at(j2, b2, k as int, sl); if j2 * sl + b2 == j * sl + b { lem_at_inj(j2, b2, j as int, b as int, sl); } }
                assert forall|j2: int| 0 <= j2 < j__i implies data@[j2 * sl + b] == #[trigger] dot(rowv(minv@, j2), valcol(vals@, b as int), k as int) by { lem_at(j2, b as int, k as int, sl); if j2 != j { if j2 * sl + b == j * sl + b { lem_at_inj(j2, b as int, j as int, b as int, sl); } } }
            } @*/
        }
    }
    /*@ let ghost full = data@; proof {
        assert forall|sh: M8, d: Seq<u8>| #[trigger] coded(sh, d, k as int, n as int) && d.len() == orig_len && intact(have@, sh, n as int, sl) implies full.subrange(0, orig_len as int) =~= d by {
            assert forall|i: int| 0 <= i < orig_len implies full[i] == d[i] by {
                let j = i / sl; let b = i % sl;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, sl); vstd::arithmetic::div_mod::lemma_mod_bound(i, sl); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, sl);
                assert(sl * j == j * sl) by (nonlinear_arith);
                assert(j < k) by (nonlinear_arith) requires j * sl + b < k * sl, b >= 0, sl >= 1;
                let s = scol(sh, b);
                assert(codeword(s, dcol(d, b, sl), n as int, k as int));
                assert forall|r: int| 0 <= r < k implies #[trigger] valcol(vals@, b)(r) == s(idxs@[r] as int) by { let q = src[r]; assert(usable(have@[q], n as int, sl)); assert(have@[q].1@[b] == sh(have@[q].0 as int, b)); assert(vals@[r]@ == have@[q].1@); }
                lem_recover(rows@, e@, minv@, idxs@, s, dcol(d, b, sl), valcol(vals@, b), n as int, k as int, j);
                assert(full[j * sl + b] == dot(rowv(minv@, j), valcol(vals@, b), k as int));
            }
        }
    } @*/
    if orig_len > data.len() {
        return None;
    }
    data.truncate(orig_len);
    Some(data)
}
//#RAW
fn main() {}
}
