use logicaffeine_base::numeric::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use vh::big::Z;
use vh::{Rng, H};

pub fn b(z: &Z) -> BigInt {
    // built only from the byte constructor (limb pairs), checked separately against text
    let mut by = vec![];
    for l in &z.m { by.extend_from_slice(&l.to_le_bytes()); }
    BigInt::from_le_bytes(z.neg, &by)
}
pub fn z(x: &BigInt) -> Z { let (n, by) = x.to_le_bytes(); let m: Vec<u32> = by.chunks(4).map(|c| { let mut a = [0u8; 4]; a[..c.len()].copy_from_slice(c); u32::from_le_bytes(a) }).collect(); Z::new(n, m) }
pub fn gz(r: &mut Rng, maxl: usize) -> Z {
    let n = match r.below(6) { 0 => 0, 1 | 2 => 1, 3 => 2, _ => 1 + r.us(maxl) };
    let mut l: Vec<u64> = (0..n).map(|_| r.edge()).collect();
    if r.chance(1, 4) { for x in l.iter_mut() { *x = if r.bool() { u64::MAX } else { 0 }; } if let Some(x) = l.last_mut() { if *x == 0 { *x = 1; } } }
    Z::from_u64s(r.bool(), &l)
}
pub fn hs<T: Hash>(t: &T) -> u64 { #[allow(deprecated)] let mut h = std::hash::SipHasher::new(); t.hash(&mut h); h.finish() }
fn canon(h: &mut H, x: &BigInt, want: &Z, op: &str, case: &str) {
    let ok = x.to_string() == want.dec() && z(x) == *want;
    h.check(ok, &format!("value-{op}"), || format!("{op}: got {x}, exact result is {}", want.dec()), || case.into());
    let y = b(want);
    h.check(*x == y && hs(x) == hs(&y), &format!("canonical-{op}"), || format!("{op}: result {x} is not equal/hash-equal to the same number built from bytes"), || case.into());
    let (zr, ng, ps) = (x.is_zero(), x.is_negative(), x.is_positive());
    h.check((zr, ng, ps) == (want.is_zero(), want.neg, !want.is_zero() && !want.neg), &format!("sign-{op}"), || format!("{op}: sign predicates {zr}/{ng}/{ps} wrong for {}", want.dec()), || case.into());
}
pub fn c01(h: &mut H) {
    // exhaustive small grid with limb-structured operands
    let l = [0u64, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 10];
    let mut zs = vec![];
    for &a in &l { zs.push(Z::from_u64s(false, &[a])); for &c in &[0u64, 1, u64::MAX, 1 << 63] { zs.push(Z::from_u64s(false, &[a, c])); for &d in &[1u64, u64::MAX] { zs.push(Z::from_u64s(false, &[a, c, d])); } } }
    zs.dedup();
    let n = zs.len();
    for i in 0..n { let t = zs[i].neg(); zs.push(t); }
    if h.group("grid") {
        for i in 0..zs.len() { for j in 0..zs.len() { if (i * 7 + j) % 3 == (h.seed % 3) as usize || h.thorough { ops(h, &zs[i].clone(), &zs[j].clone()); } } }
    }
    h.rounds("random", 6.0, 400_000, |h| { let (x, y) = (gz(&mut h.rng, 5), gz(&mut h.rng, 5)); ops(h, &x, &y); });
    h.rounds("structured-division", 3.0, 60_000, |h| {
        // dividends next to multiples of the divisor
        let (q, d) = (gz(&mut h.rng, 3), gz(&mut h.rng, 3)); if d.is_zero() { return; }
        let e = Z::from_i128(h.rng.range(-2, 2) as i128); let x = q.mul(&d).add(&e); ops(h, &x, &d); });
    h.rounds("conversions", 3.0, 60_000, |h| { let x = gz(&mut h.rng, 6); conv(h, &x); });
    h.rounds("i64", 2.0, 200_000, |h| { let v = h.rng.edge() as i64; let x = BigInt::from_i64(v); let c = format!("from_i64({v})"); h.case(&c, true);
        canon(h, &x, &Z::from_i128(v as i128), "from_i64", &c); h.check(x.to_i64() == Some(v), "to_i64", || format!("to_i64 gave {:?}", x.to_i64()), || c.clone());
        let u = h.rng.edge(); canon(h, &BigInt::from_u64(u), &Z::from_i128(u as i128), "from_u64", &format!("from_u64({u})"));
        // boundary neighbours
        let w = Z::from_i128(*h.rng.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, -(u64::MAX as i128)]) + h.rng.range(-2, 2) as i128);
        let want = w.to_i128().and_then(|t| i64::try_from(t).ok()); let g = b(&w).to_i64(); h.check(g == want, "to_i64", || format!("to_i64({}) = {g:?}", w.dec()), || w.dec()); });
    h.rounds("pow", 2.0, 3000, |h| { let x = gz(&mut h.rng, 2); let e = h.rng.below(14) as u32; let c = format!("({})^{e}", x.dec()); h.case(&c, e > 1); if let Some(r) = h.guard("pow", || c.clone(), || b(&x).pow(e)) { canon(h, &r, &x.pow(e), "pow", &c); } });
    h.rounds("bigexp", 1.0, 40, |h| { let e = h.rng.range(60, 400) as u32; let base = Z::from_i128(h.rng.range(-3, 3) as i128); let c = format!("({})^{e}", base.dec()); h.case(&c, true); let r = b(&base).pow(e); canon(h, &r, &base.pow(e), "pow", &c); });
    h.rounds("badtext", 1.0, 20_000, |h| { let n = h.rng.us(6); let al = b"0123456789+-xa. "; let s: String = (0..n).map(|_| al[h.rng.us(al.len())] as char).collect(); let c = format!("parse {s:?}"); h.case(&c, true);
        let got = h.guard("parse", || c.clone(), || BigInt::parse_decimal(&s)); if let Some(g) = got { let w = Z::parse(&s); h.check(g.as_ref().map(|x| x.to_string()) == w.as_ref().map(|x| x.dec()), "parse", || format!("parse gave {g:?}, exact {:?}", w.map(|x| x.dec())), || c.clone()); } });
}
fn ops(h: &mut H, x: &Z, y: &Z) {
    let case = format!("x={} y={}", x.dec(), y.dec());
    h.case(&case, !x.is_zero() && !y.is_zero());
    let (p, q) = (b(x), b(y));
    let r = h.guard("ops", || case.clone(), || (p.add(&q), p.sub(&q), p.mul(&q), p.div_rem(&q), p.cmp(&q), p.negated(), p.abs(), p == q, p.is_odd()));
    let Some((a, s, m, d, o, n, ab, e, odd)) = r else { return };
    canon(h, &a, &x.add(y), "add", &case); canon(h, &s, &x.sub(y), "sub", &case); canon(h, &m, &x.mul(y), "mul", &case);
    canon(h, &n, &x.neg(), "negated", &case); canon(h, &ab, &x.abs(), "abs", &case);
    h.check(o == x.cmp(y) && e == (x == y) && p.partial_cmp(&q) == Some(o), "cmp", || format!("cmp gave {o:?}, eq {e}"), || case.clone());
    h.check(odd == (x.m.first().map(|l| l & 1 == 1).unwrap_or(false)), "is_odd", || format!("is_odd={odd}"), || case.clone());
    match d {
        None => { h.check(y.is_zero(), "div-none", || "div_rem gave None for a nonzero divisor".into(), || case.clone()); }
        Some((qq, rr)) => if y.is_zero() { h.violation("div-zero", "div_rem by zero returned a value", case.clone()); } else { let (wq, wr) = x.divrem(y); canon(h, &qq, &wq, "quotient", &case); canon(h, &rr, &wr, "remainder", &case); }
    }
}
fn conv(h: &mut H, x: &Z) {
    let case = format!("conv {}", x.dec()); h.case(&case, !x.is_zero());
    let p = b(x); let s = p.to_string();
    h.check(s == x.dec(), "display", || format!("prints {s}"), || case.clone());
    let back = BigInt::parse_decimal(&x.dec()); h.check(back.as_ref() == Some(&p), "parse", || format!("parse gave {back:?}"), || case.clone());
    let plus = BigInt::parse_decimal(&format!("+{}", x.abs().dec())); h.check(plus == Some(b(&x.abs())), "parse-plus", || format!("{plus:?}"), || case.clone());
    let lead = BigInt::parse_decimal(&format!("{}000{}", if x.neg { "-" } else { "" }, x.abs().dec())); h.check(lead.as_ref() == Some(&p), "parse-leading-zeros", || format!("{lead:?}"), || case.clone());
    let (n, mut by) = p.to_le_bytes(); let r1 = BigInt::from_le_bytes(n, &by); h.check(r1 == p, "bytes", || format!("byte round trip gave {r1}"), || case.clone());
    while by.last() == Some(&0) { by.pop(); } let r2 = BigInt::from_le_bytes(n, &by); h.check(r2 == p && hs(&r2) == hs(&p), "bytes-trim", || format!("trimmed byte round trip gave {r2}"), || case.clone());
    for _ in 0..h.rng.us(20) { by.push(0); } let r3 = BigInt::from_le_bytes(n, &by); h.check(r3 == p && hs(&r3) == hs(&p), "bytes-pad", || format!("padded byte round trip gave {r3}"), || case.clone());
    // the zero magnitude with a minus flag is still zero
    let nz = BigInt::from_le_bytes(true, &[0, 0, 0]); h.check(nz.is_zero() && nz == BigInt::zero() && !nz.is_negative(), "neg-zero", || format!("{nz}"), || "from_le_bytes(true,[0,0,0])".into());
}

// ------------------------------------------------------------------ C02
#[derive(Clone, Debug, PartialEq)]
pub struct Q { n: Z, d: Z }
impl Q {
    fn new(n: Z, d: Z) -> Q { let g = n.gcd(&d); let (mut n, mut d) = (n.divrem(&g).0, d.divrem(&g).0); if d.neg { n = n.neg(); d = d.neg(); } Q { n, d } }
    fn int(n: Z) -> Q { Q { n, d: Z::from_i128(1) } }
    fn add(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d)) }
    fn neg(&self) -> Q { Q { n: self.n.neg(), d: self.d.clone() } }
    fn sub(&self, o: &Q) -> Q { self.add(&o.neg()) }
    fn mul(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.n), self.d.mul(&o.d)) }
    fn div(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.d), self.d.mul(&o.n)) }
    fn cmp(&self, o: &Q) -> Ordering { self.n.mul(&o.d).cmp(&o.n.mul(&self.d)) }
    fn s(&self) -> String { if self.d == Z::from_i128(1) { self.n.dec() } else { format!("{}/{}", self.n.dec(), self.d.dec()) } }
    fn zero(&self) -> bool { self.n.is_zero() }
}
fn gq(r: &mut Rng) -> Q { let small = r.chance(1, 2); gq2(r, small) }
fn gq2(r: &mut Rng, small: bool) -> Q { let (n, d) = if small { (Z::from_i128(r.range(-30, 30) as i128), Z::from_i128(r.range(1, 12) as i128)) } else { (gz(r, 3), { let d = gz(r, 2); if d.is_zero() { Z::from_i128(7) } else { d } }) }; Q::new(n, d) }
fn rat(q: &Q) -> Rational { Rational::new(b(&q.n), b(&q.d)).expect("oracle rational has nonzero denominator") }
fn rcheck(h: &mut H, op: &str, got: &Rational, want: &Q, case: &str) {
    let ok = z(got.numerator()) == want.n && z(got.denominator()) == want.d && got.to_string() == want.s();
    h.check(ok, &format!("rational-{op}"), || format!("{op}: got {got} ({}/{}), exact reduced result is {}", got.numerator(), got.denominator(), want.s()), || case.into());
}
fn round_oracle(q: &Q, mode: RoundingMode) -> Z {
    let fl = q.n.divfloor(&q.d); let one = Z::from_i128(1);
    let exact = fl.mul(&q.d) == q.n; if exact { return fl; }
    let ce = fl.add(&one);
    // distance comparison to floor: 2*(n - fl*d) vs d
    let twice = q.n.sub(&fl.mul(&q.d)).mul(&Z::from_i128(2)); let half = twice.cmp(&q.d);
    let neg = q.n.neg;
    let (tz, az) = if neg { (ce.clone(), fl.clone()) } else { (fl.clone(), ce.clone()) };
    let nearest = match half { Ordering::Less => Some(fl.clone()), Ordering::Greater => Some(ce.clone()), Ordering::Equal => None };
    match mode {
        RoundingMode::Down => tz, RoundingMode::Up => az, RoundingMode::Floor => fl, RoundingMode::Ceiling => ce,
        RoundingMode::HalfUp => nearest.unwrap_or(az), RoundingMode::HalfDown => nearest.unwrap_or(tz),
        RoundingMode::HalfEven => nearest.unwrap_or_else(|| if fl.m.first().map(|l| l & 1).unwrap_or(0) == 0 { fl } else { ce }),
    }
}
const MODES: [RoundingMode; 7] = [RoundingMode::Down, RoundingMode::Up, RoundingMode::Floor, RoundingMode::Ceiling, RoundingMode::HalfUp, RoundingMode::HalfDown, RoundingMode::HalfEven];
fn p10(k: u32) -> Z { Z::from_i128(10).pow(k) }
pub fn c02(h: &mut H) {
    h.rounds("rational", 4.0, 60_000, |h| {
        let (x, y) = (gq(&mut h.rng), gq(&mut h.rng)); let case = format!("x={} y={}", x.s(), y.s()); h.case(&case, !x.zero() && !y.zero());
        let (p, q) = (rat(&x), rat(&y));
        rcheck(h, "new", &p, &x, &case);
        // unreduced construction with either sign of the denominator
        let k = { let k = gz(&mut h.rng, 1); if k.is_zero() { Z::from_i128(-6) } else { k } };
        match Rational::new(b(&x.n.mul(&k)), b(&x.d.mul(&k))) { Some(u) => { rcheck(h, "new-unreduced", &u, &x, &case); h.check(u == p && hs(&u) == hs(&p), "rational-eq", || format!("{u} != {p}"), || case.clone()); } None => h.violation("rational-new-none", "new returned None for a nonzero denominator", case.clone()) }
        rcheck(h, "add", &p.add(&q), &x.add(&y), &case); rcheck(h, "sub", &p.sub(&q), &x.sub(&y), &case); rcheck(h, "mul", &p.mul(&q), &x.mul(&y), &case);
        rcheck(h, "negated", &p.negated(), &x.neg(), &case); rcheck(h, "abs", &p.abs(), &Q { n: x.n.abs(), d: x.d.clone() }, &case);
        match p.div(&q) { None => { h.check(y.zero(), "rational-div-none", || "None for nonzero divisor".into(), || case.clone()); } Some(d) => if y.zero() { h.violation("rational-div-zero", "division by zero returned a value", case.clone()); } else { rcheck(h, "div", &d, &x.div(&y), &case); } }
        match p.recip() { None => { h.check(x.zero(), "rational-recip-none", || "None for nonzero".into(), || case.clone()); } Some(d) => if x.zero() { h.violation("rational-recip-zero", "1/0 returned a value", case.clone()); } else { rcheck(h, "recip", &d, &Q::new(x.d.clone(), x.n.clone()), &case); } }
        h.check(p.cmp(&q) == x.cmp(&y) && (p == q) == (x == y), "rational-cmp", || format!("cmp {:?}", p.cmp(&q)), || case.clone());
        let e = h.rng.range(-6, 6) as i32;
        let want = if e >= 0 { Some(Q::new(x.n.pow(e as u32), x.d.pow(e as u32))) } else if x.zero() { None } else { Some(Q::new(x.d.pow((-e) as u32), x.n.pow((-e) as u32))) };
        match (p.pow(e), want) { (Some(g), Some(w)) => rcheck(h, "pow", &g, &w, &format!("{case} e={e}")), (None, None) => {}, (g, _) => h.violation("rational-pow-none", format!("pow({e}) = {g:?}"), case.clone()) }
        let fl = x.n.divfloor(&x.d);
        h.check(z(&p.floor()) == fl, "floor", || format!("floor {}", p.floor()), || case.clone());
        h.check(z(&p.ceil()) == round_oracle(&x, RoundingMode::Ceiling), "ceil", || format!("ceil {}", p.ceil()), || case.clone());
        h.check(z(&p.round()) == round_oracle(&x, RoundingMode::HalfUp), "round", || format!("round {}", p.round()), || case.clone());
        let whole = x.d == Z::from_i128(1);
        h.check(p.is_integer() == whole && p.to_bigint().map(|v| z(&v)) == if whole { Some(x.n.clone()) } else { None } && p.to_i64() == if whole { x.n.to_i128().and_then(|t| i64::try_from(t).ok()) } else { None }, "rational-int", || format!("is_integer {} to_bigint {:?} to_i64 {:?}", p.is_integer(), p.to_bigint(), p.to_i64()), || case.clone());
        h.check((p.is_zero(), p.is_negative(), p.is_positive()) == (x.zero(), x.n.neg, !x.zero() && !x.n.neg), "rational-sign", || "sign".into(), || case.clone());
        let back = Rational::parse(&p.to_string()); h.check(back.as_ref() == Some(&p), "rational-text", || format!("parse(print) = {back:?}"), || case.clone());
    });
    h.check(Rational::new(BigInt::from_i64(3), BigInt::zero()).is_none() && Rational::new(BigInt::zero(), BigInt::zero()).is_none(), "rational-zero-den", || "n/0 accepted".into(), || "n/0".into());
    let dec = |c: &Z, s: u32| Decimal::from_coeff_scale(b(c), s);
    h.rounds("rounding", 4.0, 60_000, |h| {
        // quotients with controlled ties: coefficient near k*10^j/2
        let s1 = h.rng.below(7) as u32; let s2 = h.rng.below(s1 as u64 + 3) as u32; let drop = s1.saturating_sub(s2);
        let base = p10(drop); let halfb = base.divrem(&Z::from_i128(2)).0;
        let k = if h.rng.bool() { Z::from_i128(h.rng.range(-40, 40) as i128) } else { gz(&mut h.rng, 2) };
        let off = match h.rng.below(4) { 0 => halfb.clone(), 1 => halfb.neg(), 2 => Z::from_i128(h.rng.range(-3, 3) as i128), _ => halfb.add(&Z::from_i128(h.rng.range(-1, 1) as i128)) };
        let c = k.mul(&base).add(&off);
        for m in MODES {
            let case = format!("{} scale {s1} -> {s2} {m:?}", c.dec()); h.case(&case, drop > 0);
            let got = dec(&c, s1).rescale(s2, m);
            let want = if s2 >= s1 { c.mul(&p10(s2 - s1)) } else { round_oracle(&Q::new(c.clone(), base.clone()), m) };
            h.check(z(got.coefficient()) == want && got.scale() == s2, "decimal-rescale", || format!("got {got} coeff {}, exact rounding gives coeff {}", got.coefficient(), want.dec()), || case.clone());
        }
    });
    h.rounds("decimal", 4.0, 40_000, |h| {
        let gc = |r: &mut Rng| if r.bool() { Z::from_i128(r.range(-2000, 2000) as i128) } else { gz(r, 2) };
        let (c1, c2) = (gc(&mut h.rng), gc(&mut h.rng)); let (s1, s2) = (h.rng.below(6) as u32, h.rng.below(6) as u32);
        let (x, y) = (Q::new(c1.clone(), p10(s1)), Q::new(c2.clone(), p10(s2)));
        let (p, q) = (dec(&c1, s1), dec(&c2, s2)); let case = format!("({},{s1}) ({},{s2})", c1.dec(), c2.dec()); h.case(&case, true);
        let val = |d: &Decimal| Q::new(z(d.coefficient()), p10(d.scale()));
        for (op, g, w) in [("add", p.add(&q), x.add(&y)), ("sub", p.sub(&q), x.sub(&y)), ("mul", p.mul(&q), x.mul(&y)), ("negated", p.negated(), x.neg()), ("abs", p.abs(), Q { n: x.n.abs(), d: x.d.clone() })] {
            h.check(val(&g) == w, &format!("decimal-{op}"), || format!("got {g}, exact {}", w.s()), || case.clone()); }
        let r = p.to_rational(); rcheck(h, "decimal-to-rational", &r, &x, &case);
        h.check((p == q) == (x == y) && p.cmp(&q) == x.cmp(&y), "decimal-cmp", || format!("eq {} cmp {:?}", p == q, p.cmp(&q)), || case.clone());
        if x == y { h.check(hs(&p) == hs(&q), "decimal-hash", || "equal values hash differently".into(), || case.clone()); }
        // same value at another scale
        let k = h.rng.below(5) as u32; let w = dec(&c1.mul(&p10(k)), s1 + k); h.check(w == p && hs(&w) == hs(&p) && w.cmp(&p) == Ordering::Equal, "decimal-scale-eq", || format!("{w} vs {p}"), || case.clone());
        let sc = h.rng.below(5) as u32;
        for m in MODES { match p.div(&q, sc, m) { None => { h.check(y.zero(), "decimal-div-none", || "None".into(), || case.clone()); } Some(g) => if y.zero() { h.violation("decimal-div-zero", "value for x/0", case.clone()); } else {
            let e = x.div(&y).mul(&Q::int(p10(sc))); let want = round_oracle(&e, m); h.check(z(g.coefficient()) == want && g.scale() == sc, "decimal-div", || format!("{m:?} scale {sc}: got {g}, want coeff {}", want.dec()), || case.clone()); } }
            let g = Decimal::from_rational(&rat(&x.add(&y.mul(&Q::new(Z::from_i128(1), Z::from_i128(3))))), sc, m); let e = x.add(&y.mul(&Q::new(Z::from_i128(1), Z::from_i128(3)))).mul(&Q::int(p10(sc))); let want = round_oracle(&e, m); h.check(z(g.coefficient()) == want && g.scale() == sc, "decimal-from-rational", || format!("{m:?}: got {g} want coeff {}", want.dec()), || case.clone()); }
        let back = Decimal::parse(&p.to_string()); h.check(back.as_ref().map(|d| (z(d.coefficient()), d.scale())) == Some((c1.clone(), s1)), "decimal-text", || format!("parse(print {p}) = {back:?}"), || case.clone());
        let (n, by, s) = p.to_le_bytes(); let r = Decimal::from_le_bytes(n, &by, s); h.check(r == p && r.scale() == s1, "decimal-bytes", || format!("{r}"), || case.clone());
    });
    h.rounds("complex", 3.0, 20_000, |h| {
        let sm = !h.rng.chance(1, 30); let (a, bq, c, d) = (gq2(&mut h.rng, sm), gq2(&mut h.rng, sm), gq2(&mut h.rng, sm), gq2(&mut h.rng, sm)); let (x, y) = (Complex::new(rat(&a), rat(&bq)), Complex::new(rat(&c), rat(&d)));
        let case = format!("({} + {}i) ({} + {}i)", a.s(), bq.s(), c.s(), d.s()); h.case(&case, true);
        let mut ck = |op: &str, g: &Complex, re: Q, im: Q| { rcheck(h, &format!("complex-{op}-re"), g.re(), &re, &case); rcheck(h, &format!("complex-{op}-im"), g.im(), &im, &case); };
        ck("add", &x.add(&y), a.add(&c), bq.add(&d)); ck("sub", &x.sub(&y), a.sub(&c), bq.sub(&d));
        ck("mul", &x.mul(&y), a.mul(&c).sub(&bq.mul(&d)), a.mul(&d).add(&bq.mul(&c))); ck("conj", &x.conjugate(), a.clone(), bq.neg()); ck("neg", &x.negated(), a.neg(), bq.neg());
        let n = c.mul(&c).add(&d.mul(&d));
        match y.recip() { None => { h.check(n.zero(), "complex-recip-none", || "None".into(), || case.clone()); } Some(g) => if n.zero() { h.violation("complex-recip-zero", "1/0", case.clone()); } else { rcheck(h, "complex-recip-re", g.re(), &c.div(&n), &case); rcheck(h, "complex-recip-im", g.im(), &d.neg().div(&n), &case); } }
        match x.div(&y) { None => { h.check(n.zero(), "complex-div-none", || "None".into(), || case.clone()); } Some(g) => if !n.zero() { rcheck(h, "complex-div-re", g.re(), &a.mul(&c).add(&bq.mul(&d)).div(&n), &case); rcheck(h, "complex-div-im", g.im(), &bq.mul(&c).sub(&a.mul(&d)).div(&n), &case); } }
        rcheck(h, "complex-norm", &y.norm_sqr(), &n, &case);
        let e = h.rng.range(-4, 5) as i32; let zero = c.zero() && d.zero();
        let mut w = Some((Q::int(Z::from_i128(1)), Q::int(Z::from_i128(0)))); if e < 0 && zero { w = None; } else { let (br, bi) = if e >= 0 { (c.clone(), d.clone()) } else { (c.div(&n), d.neg().div(&n)) }; for _ in 0..e.abs() { let (r, i) = w.unwrap(); w = Some((r.mul(&br).sub(&i.mul(&bi)), r.mul(&bi).add(&i.mul(&br)))); } }
        match (y.pow(e), w) { (None, None) => {}, (Some(g), Some((r, i))) => { rcheck(h, "complex-pow-re", g.re(), &r, &format!("{case}^{e}")); rcheck(h, "complex-pow-im", g.im(), &i, &format!("{case}^{e}")); } (g, _) => h.violation("complex-pow-none", format!("{g:?}"), format!("{case}^{e}")) }
        let back = Complex::parse(&x.to_string()); h.check(back.as_ref() == Some(&x), "complex-text", || format!("parse(print {x}) = {back:?}"), || case.clone());
    });
    if h.group("complex-extreme-exponent") { for (re, im, e) in [(0, 1, i32::MIN), (1, 0, i32::MIN), (0, -1, i32::MIN), (-1, 0, i32::MIN), (0, 0, i32::MIN), (0, 1, i32::MAX), (0, 1, i32::MIN + 1), (0, 0, i32::MAX)] {
        let c = Complex::new(Rational::from_i64(re), Rational::from_i64(im)); let case = format!("({re}+{im}i)^{e}"); h.case(&case, true);
        if let Some(g) = h.guard("complex-pow-extreme", || case.clone(), || c.pow(e)) {
            let want = if re == 0 && im == 0 { if e < 0 { None } else { Some((0, 0)) } } else if re == 1 { Some((1, 0)) } else if re == -1 { Some((if e % 2 == 0 { 1 } else { -1 }, 0)) } else { let k = (e as i64 * im).rem_euclid(4); Some([(1, 0), (0, 1), (-1, 0), (0, -1)][k as usize]) };
            h.check(g.as_ref().map(|c| (c.re().to_i64().unwrap_or(99), c.im().to_i64().unwrap_or(99))) == want, "complex-pow-extreme", || format!("got {g:?} want {want:?}"), || case.clone()); } } }
    h.rounds("modular", 3.0, 30_000, |h| {
        let m = { let m = if h.rng.bool() { Z::from_i128(h.rng.range(1, 60) as i128) } else { gz(&mut h.rng, 3).abs() }; if m.is_zero() { Z::from_i128(1) } else { m } };
        let (u, v) = (gz(&mut h.rng, 3), gz(&mut h.rng, 3)); let case = format!("{} , {} mod {}", u.dec(), v.dec(), m.dec()); h.case(&case, true);
        let (x, y) = (Modular::new(b(&u), b(&m)).unwrap(), Modular::new(b(&v), b(&m)).unwrap()); let (mu, mv) = (u.modp(&m), v.modp(&m));
        let mut ck = |op: &str, g: Option<Modular>, w: Z| { h.check(g.as_ref().map(|g| (z(g.value()), z(g.modulus()))) == Some((w.clone(), m.clone())), &format!("modular-{op}"), || format!("got {g:?} want {}", w.dec()), || case.clone()); };
        ck("new", Some(x.clone()), mu.clone()); ck("add", x.add(&y), mu.add(&mv).modp(&m)); ck("sub", x.sub(&y), mu.sub(&mv).modp(&m)); ck("mul", x.mul(&y), mu.mul(&mv).modp(&m)); ck("neg", Some(x.negated()), mu.neg().modp(&m));
        let e = h.rng.below(20); let mut w = Z::from_i128(1).modp(&m); for _ in 0..e { w = w.mul(&mu).modp(&m); }
        let g = x.pow(e); h.check(z(g.value()) == w, "modular-pow", || format!("pow {e}: {g:?} want {}", w.dec()), || case.clone());
        let unit = mu.gcd(&m) == Z::from_i128(1);
        match x.inverse() { None => { h.check(!unit, "modular-inverse-none", || "unit not inverted".into(), || case.clone()); } Some(i) => { let p = z(i.value()).mul(&mu).modp(&m); h.check(unit && p == Z::from_i128(1).modp(&m) && !z(i.value()).neg && z(i.value()).cmp(&m) == Ordering::Less, "modular-inverse", || format!("inverse {i:?}"), || case.clone()); } }
        let uy = mv.gcd(&m) == Z::from_i128(1);
        match x.div(&y) { None => { h.check(!uy, "modular-div-none", || "None".into(), || case.clone()); } Some(d) => { h.check(uy && z(d.value()).mul(&mv).modp(&m) == mu, "modular-div", || format!("{d:?}"), || case.clone()); } }
        let m2 = m.add(&Z::from_i128(1)); let other = Modular::new(b(&v), b(&m2)).unwrap(); h.check(x.add(&other).is_none() && x.mul(&other).is_none() && x.sub(&other).is_none() && x.div(&other).is_none(), "modular-mismatch", || "mixed moduli accepted".into(), || case.clone());
        h.check(Modular::new(b(&u), b(&m.neg())).is_none() && Modular::new(b(&u), BigInt::zero()).is_none(), "modular-bad-modulus", || "non-positive modulus accepted".into(), || case.clone());
    });
}
// ------------------------------------------------------------------ C03
fn qf(f: f64) -> Option<Q> { if !f.is_finite() { return None; } let bits = f.to_bits(); let e = ((bits >> 52) & 0x7ff) as i64; let fr = bits & ((1 << 52) - 1); let (m, x) = if e == 0 { (fr, -1074) } else { (fr | 1 << 52, e - 1075) }; let mut n = Z::from_i128(m as i128); let mut d = Z::from_i128(1); if x >= 0 { n = n.shl(x as u32); } else { d = d.shl((-x) as u32); } if bits >> 63 == 1 { n = n.neg(); } Some(Q::new(n, d)) }
fn gf(r: &mut Rng) -> f64 { match r.below(8) { 0 => f64::from_bits(r.u64()), 1 => r.range(-1000, 1000) as f64 / 8.0, 2 => (r.edge() as i64) as f64, 3 => { let p = 2f64.powi(r.range(-1074, 1023) as i32); if r.bool() { p } else { -p } } 4 => { let b = (r.edge() as i64) as f64; f64::from_bits(b.to_bits().wrapping_add(r.range(-2, 2) as u64)) } 5 => *r.pick(&[0.0, -0.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, -5e-324, 9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]), 6 => f64::from_bits((r.below(2046) << 52) | (r.u64() & ((1 << 52) - 1))), _ => { let m = (r.below(1 << 20)) as f64; m * 2f64.powi(r.range(-30, 60) as i32) } } }
pub fn c03(h: &mut H) {
    h.rounds("i64-f64", 6.0, 400_000, |h| {
        let f = gf(&mut h.rng);
        let i = match h.rng.below(4) { 0 => h.rng.edge() as i64, 1 => (f as i64).wrapping_add(h.rng.range(-2, 2)), 2 => h.rng.range(-(1 << 54), 1 << 54), _ => f as i64 };
        let case = format!("i64 {i} vs f64 {f:?} (bits {:#x})", f.to_bits()); h.case(&case, true);
        let want = if f.is_nan() { None } else if f.is_infinite() { Some(if f > 0.0 { Ordering::Less } else { Ordering::Greater }) } else { Some(Q::int(Z::from_i128(i as i128)).cmp(&qf(f).unwrap())) };
        if let Some(g) = h.guard("cmp-i64", || case.clone(), || cmp_i64_f64_exact(i, f)) { h.check(g == want, "cmp-i64-f64", || format!("got {g:?}, exact {want:?}"), || case.clone()); }
        if want == Some(Ordering::Equal) { h.count("equal-i64-f64"); let (a, c) = (numeric_hash_i64(i), numeric_hash_f64(f)); h.check(a == c, "hash-i64-f64", || format!("hashes {a} vs {c}"), || case.clone()); }
    });
    h.rounds("big-f64", 5.0, 20_000, |h| {
        let f = gf(&mut h.rng); let q = qf(f);
        let x = match (&q, h.rng.below(3)) { (Some(q), 0) => q.n.divfloor(&q.d), (Some(q), 1) => q.n.divfloor(&q.d).add(&Z::from_i128(h.rng.range(-1, 2) as i128)), _ => gz(&mut h.rng, 18) };
        let case = format!("big {} vs f64 {f:?}", x.dec()); h.case(&case, true);
        let want = if f.is_nan() { None } else if f.is_infinite() { Some(if f > 0.0 { Ordering::Less } else { Ordering::Greater }) } else { Some(Q::int(x.clone()).cmp(q.as_ref().unwrap())) };
        let bx = b(&x); let g = cmp_bigint_f64_exact(&bx, f); h.check(g == want, "cmp-big-f64", || format!("got {g:?}, exact {want:?}"), || case.clone());
        if want == Some(Ordering::Equal) { h.count("equal-big-f64"); let (a, c) = (numeric_hash_bigint(&bx), numeric_hash_f64(f)); h.check(a == c, "hash-big-f64", || format!("hashes {a} vs {c}"), || case.clone()); }
        if let Some(i) = x.to_i128().and_then(|t| i64::try_from(t).ok()) { h.check(numeric_hash_i64(i) == numeric_hash_bigint(&bx), "hash-i64-big", || format!("i64 {} big {}", numeric_hash_i64(i), numeric_hash_bigint(&bx)), || case.clone()); }
        h.check(numeric_hash_rational(&Rational::from_bigint(bx.clone())) == numeric_hash_bigint(&bx), "hash-rational-big", || "differs".into(), || case.clone());
    });
    h.rounds("rational-f64", 5.0, 8_000, |h| {
        let f = gf(&mut h.rng); let q = qf(f);
        let x = match (&q, h.rng.below(4)) { (Some(q), 0) | (Some(q), 1) => q.clone(), (Some(q), 2) => q.add(&Q::new(Z::from_i128(h.rng.range(-1, 1) as i128), p10(h.rng.below(30) as u32))), _ => gq(&mut h.rng) };
        let case = format!("rational {} vs f64 {f:?}", x.s()); h.case(&case, true);
        let want = if f.is_nan() { None } else if f.is_infinite() { Some(if f > 0.0 { Ordering::Less } else { Ordering::Greater }) } else { Some(x.cmp(q.as_ref().unwrap())) };
        let r = rat(&x); let g = cmp_rational_f64_exact(&r, f); h.check(g == want, "cmp-rational-f64", || format!("got {g:?}, exact {want:?}"), || case.clone());
        if want == Some(Ordering::Equal) { h.count("equal-rational-f64"); let (a, c) = (numeric_hash_rational(&r), numeric_hash_f64(f)); h.check(a == c, "hash-rational-f64", || format!("hashes {a} vs {c}"), || case.clone()); }
        match (rational_from_f64_exact(f), &q) { (Some(g), Some(w)) => rcheck(h, "from-f64", &g, w, &case), (None, None) => {}, (g, _) => h.violation("from-f64", format!("{g:?}"), case.clone()) }
        if let Some(i) = r.to_i64() { h.check(numeric_hash_i64(i) == numeric_hash_rational(&r), "hash-i64-rational", || "differs".into(), || case.clone()); }
    });
    if h.group("powers-of-two") { for e in -1074..1024 { for s in [1.0f64, -1.0] { let f = s * if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { 2f64.powi(e) }; let q = qf(f).unwrap(); let r = rat(&q); let case = format!("2^{e} sign {s}"); h.case(&case, true); h.check(cmp_rational_f64_exact(&r, f) == Some(Ordering::Equal), "cmp-rational-f64", || "not equal to itself".into(), || case.clone()); h.check(numeric_hash_rational(&r) == numeric_hash_f64(f), "hash-rational-f64", || "hash differs".into(), || case.clone());
        if e >= 0 { let bx = b(&q.n); h.check(cmp_bigint_f64_exact(&bx, f) == Some(Ordering::Equal) && numeric_hash_bigint(&bx) == numeric_hash_f64(f), "hash-big-f64", || "2^e".into(), || case.clone()); for d in [-1i128, 1] { let o = b(&q.n.add(&Z::from_i128(d))); let w = if d < 0 { Ordering::Less } else { Ordering::Greater }; h.check(cmp_bigint_f64_exact(&o, f) == Some(w), "cmp-big-f64", || format!("2^{e}{d:+}"), || case.clone()); } } } } }
}
