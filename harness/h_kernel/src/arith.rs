//! C09: planted models for the elimination procedures, exact evaluation for expressions and polynomials.
use logicaffeine_base::numeric::{BigInt, Rational};
use logicaffeine_kernel::lia::{self, Constraint, LinearExpr};
use logicaffeine_kernel::omega::{self, IntConstraint, IntExpr};
use logicaffeine_kernel::ring::{self, Polynomial};
use logicaffeine_kernel::{Literal, Term, VarInterner};
use std::collections::BTreeMap;
use vh::big::Z;
use vh::{Rng, H};

fn b(z: &Z) -> BigInt { let mut by = vec![]; for l in &z.m { by.extend_from_slice(&l.to_le_bytes()); } BigInt::from_le_bytes(z.neg, &by) }
fn z(x: &BigInt) -> Z { let (n, by) = x.to_le_bytes(); let m: Vec<u32> = by.chunks(4).map(|c| { let mut a = [0u8; 4]; a[..c.len()].copy_from_slice(c); u32::from_le_bytes(a) }).collect(); Z::new(n, m) }
fn zi(i: i64) -> Z { Z::from_i128(i as i128) }
/// Exact fractions (never reduced; compared by cross multiplication), positive denominator.
#[derive(Clone, Debug)]
struct Q(Z, Z);
impl Q {
    fn i(x: i64) -> Q { Q(zi(x), zi(1)) }
    fn add(&self, o: &Q) -> Q { Q(self.0.mul(&o.1).add(&o.0.mul(&self.1)), self.1.mul(&o.1)) }
    fn mul(&self, o: &Q) -> Q { Q(self.0.mul(&o.0), self.1.mul(&o.1)) }
    fn eq(&self, o: &Q) -> bool { self.0.mul(&o.1) == o.0.mul(&self.1) }
    fn neg(&self) -> Q { Q(self.0.neg(), self.1.clone()) }
    fn sign(&self) -> i32 { if self.0.is_zero() { 0 } else if self.0.neg { -1 } else { 1 } }
    fn show(&self) -> String { format!("{}/{}", self.0.dec(), self.1.dec()) }
}
fn q(r: &Rational) -> Q { Q(z(r.numerator()), z(r.denominator())) }
fn rat(x: &Q) -> Rational { Rational::new(b(&x.0), b(&x.1)).unwrap() }
fn small(r: &mut Rng) -> i64 { match r.below(4) { 0 => r.range(-1, 1), 1 => r.range(-12, 12), _ => r.range(-4, 4) } }
fn coef(r: &mut Rng, big: bool) -> Z { if big && r.chance(1, 4) { let n = 1 + r.us(2); let l: Vec<u64> = (0..n).map(|_| r.edge()).collect(); Z::from_u64s(r.bool(), &l) } else if big && r.chance(1, 4) { zi(r.edge() as i64) } else { zi(small(r)) } }
fn frac(r: &mut Rng, big: bool) -> Q { let n = coef(r, big); let d = r.range(1, 7); Q(n, zi(d)) }
fn lev(e: &LinearExpr, m: &BTreeMap<i64, Q>) -> Q { let mut s = q(&e.constant); for (v, c) in &e.coefficients { s = s.add(&q(c).mul(&m[v])); } s }
fn iev(e: &IntExpr, m: &BTreeMap<i64, Z>) -> Z { let mut s = z(&e.constant); for (v, c) in &e.coeffs { s = s.add(&z(c).mul(&m[v])); } s }
fn lshow(c: &Constraint) -> String { let mut s = q(&c.expr.constant).show(); for (v, k) in &c.expr.coefficients { s += &format!(" + {}*x{v}", q(k).show()); } s + if c.strict { " < 0" } else { " <= 0" } }
fn ishow(c: &IntConstraint) -> String { let mut s = z(&c.expr.constant).dec(); for (v, k) in &c.expr.coeffs { s += &format!(" + {}*x{v}", z(k).dec()); } s + if c.strict { " < 0" } else { " <= 0" } }

pub fn c09(h: &mut H) {
    h.rounds("linear-exprs", 2.0, 20_000, |h| {
        let m: BTreeMap<i64, Q> = (0..3).map(|v| (v, frac(&mut h.rng, true))).collect();
        let mk = |r: &mut Rng| { let mut e = LinearExpr::constant(rat(&frac(r, true))); for _ in 0..r.us(4) { let v = r.range(0, 2); let k = frac(r, true); e = e.add(&LinearExpr::var(v).scale(&rat(&k))); } e };
        let (x, y, k) = (mk(&mut h.rng), mk(&mut h.rng), frac(&mut h.rng, true));
        let case = format!("x={x:?} y={y:?} k={}", k.show()); h.case(&case, !x.is_constant());
        let (ex, ey) = (lev(&x, &m), lev(&y, &m));
        for (n, got, want) in [("add", lev(&x.add(&y), &m), ex.add(&ey)), ("sub", lev(&x.sub(&y), &m), ex.add(&ey.neg())), ("neg", lev(&x.neg(), &m), ex.neg()), ("scale", lev(&x.scale(&rat(&k)), &m), ex.mul(&k))] {
            h.check(got.eq(&want), &format!("linear-{n}"), || format!("{n}: result evaluates to {}, operands give {}", got.show(), want.show()), || case.clone());
        }
        for v in 0..3 { let c = x.get_coeff(v); let w = x.coefficients.get(&v).map(q).unwrap_or(Q::i(0)); h.check(q(&c).eq(&w), "linear-coeff", || format!("get_coeff({v}) = {c:?}"), || case.clone()); }
        h.check(!x.is_constant() || x.coefficients.values().all(|c| q(c).sign() == 0), "linear-constant", || "is_constant with a variable".into(), || case.clone());
        let one = LinearExpr::var(1); h.check(lev(&one, &m).eq(&m[&1]), "linear-var", || "var does not evaluate to the variable".into(), || "var(1)".into());
    });
    h.rounds("int-exprs", 2.0, 20_000, |h| {
        let m: BTreeMap<i64, Z> = (0..3).map(|v| (v, coef(&mut h.rng, true))).collect();
        let mk = |r: &mut Rng| { let mut e = IntExpr::constant(b(&coef(r, true))); for _ in 0..r.us(4) { let v = r.range(0, 2); let k = coef(r, true); e = e.add(&IntExpr::var(v).scale(b(&k))); } e };
        let (x, y, k) = (mk(&mut h.rng), mk(&mut h.rng), coef(&mut h.rng, true));
        let case = format!("x={x:?} y={y:?} k={}", k.dec()); h.case(&case, !x.is_constant());
        let (ex, ey) = (iev(&x, &m), iev(&y, &m));
        for (n, got, want) in [("add", iev(&x.add(&y), &m), ex.add(&ey)), ("sub", iev(&x.sub(&y), &m), ex.sub(&ey)), ("neg", iev(&x.neg(), &m), ex.neg()), ("scale", iev(&x.scale(b(&k)), &m), ex.mul(&k))] {
            h.check(got == want, &format!("int-{n}"), || format!("{n}: result evaluates to {}, operands give {}", got.dec(), want.dec()), || case.clone());
        }
        for v in 0..3 { let c = x.get_coeff(v); let w = x.coeffs.get(&v).map(z).unwrap_or(zi(0)); h.check(z(&c) == w, "int-coeff", || format!("get_coeff({v}) = {c:?}"), || case.clone()); }
        h.check(!x.is_constant() || x.coeffs.values().all(|c| c.is_zero()), "int-constant", || "is_constant with a variable".into(), || case.clone());
        // tightening a constraint never loses an integer solution and never gains one
        for strict in [false, true] {
            let mut c = IntConstraint { expr: x.clone(), strict };
            let before = ishow(&c); let holds = |c: &IntConstraint, m: &BTreeMap<i64, Z>| { let e = iev(&c.expr, m); if c.strict { e.neg } else { e.neg || e.is_zero() } };
            let s0: Vec<bool> = grid(&mut h.rng, &m).iter().map(|p| holds(&c, p)).collect();
            let pts = { let mut r2 = h.rng.clone(); grid(&mut r2, &m) };
            let s0 = { let _ = s0; pts.iter().map(|p| holds(&c, p)).collect::<Vec<_>>() };
            c.normalize();
            for (p, w) in pts.iter().zip(s0) { let g = holds(&c, p); h.check(!w || g, "normalize", || format!("normalizing {before} to {} excludes the integer point {p:?}", ishow(&c)), || case.clone()); }
        }
    });
    h.rounds("rational-sat", 7.0, 60_000, |h| {
        let nv = 1 + h.rng.us(4) as i64; let big = h.rng.chance(1, 4);
        let m: BTreeMap<i64, Q> = (0..nv).map(|v| (v, frac(&mut h.rng, big))).collect();
        let n = 1 + h.rng.us(6);
        let mut cs = vec![];
        for _ in 0..n {
            let mut e = LinearExpr::constant(Rational::from_i64(0));
            for v in 0..nv { if h.rng.chance(2, 3) { let k = frac(&mut h.rng, big); e = e.add(&LinearExpr::var(v).scale(&rat(&k))); } }
            let strict = h.rng.bool();
            // expr + c {<,<=} 0 holds at the model, as tightly as possible
            let s = lev(&e, &m); let slack = if strict { frac_pos(&mut h.rng) } else if h.rng.chance(2, 3) { Q::i(0) } else { frac_pos(&mut h.rng) };
            let c = s.neg().add(&slack.neg());
            cs.push(Constraint { expr: e.add(&LinearExpr::constant(rat(&c))), strict });
            if !strict && h.rng.chance(1, 3) && slack.sign() == 0 { let o = cs.last().unwrap().expr.neg(); cs.push(Constraint { expr: o, strict: false }); }
        }
        if cs.len() > 7 { cs.truncate(7); }
        h.rng.shuffle(&mut cs);
        for c in &cs { let e = lev(&c.expr, &m); if !(e.sign() < 0 || (e.sign() == 0 && !c.strict)) { return; } }
        let case = cs.iter().map(lshow).collect::<Vec<_>>().join("; "); h.case(&case, true);
        if let Some(u) = h.guard("fm", || case.clone(), || lia::fourier_motzkin_unsat(&cs)) { h.check(!u, "fm-unsat", || format!("reported unsatisfiable, but {:?} satisfies it", m.values().map(|x| x.show()).collect::<Vec<_>>()), || case.clone()); }
    });
    h.rounds("integer-sat", 7.0, 60_000, |h| {
        let nv = 1 + h.rng.us(4) as i64; let big = h.rng.chance(1, 5);
        let m: BTreeMap<i64, Z> = (0..nv).map(|v| (v, coef(&mut h.rng, big))).collect();
        let n = 1 + h.rng.us(6);
        let mut cs = vec![];
        for _ in 0..n {
            let mut e = IntExpr::constant(0);
            for v in 0..nv { if h.rng.chance(2, 3) { let k = coef(&mut h.rng, big); e = e.add(&IntExpr::var(v).scale(b(&k))); } }
            if h.rng.chance(1, 3) { let k = h.rng.range(2, 6); e = e.scale(k); }
            let strict = h.rng.chance(1, 3); let s = iev(&e, &m);
            let sl = if h.rng.chance(2, 3) { 0 } else { h.rng.range(0, 5) } + if strict { 1 } else { 0 };
            let c = s.neg().sub(&zi(sl));
            cs.push(IntConstraint { expr: e.add(&IntExpr::constant(b(&c))), strict });
            if !strict && sl == 0 && h.rng.chance(1, 3) { let o = cs.last().unwrap().expr.neg(); cs.push(IntConstraint { expr: o, strict: false }); }
        }
        if cs.len() > 7 { cs.truncate(7); }
        h.rng.shuffle(&mut cs);
        for c in &cs { let e = iev(&c.expr, &m); if !(e.neg || (e.is_zero() && !c.strict)) { return; } }
        let case = cs.iter().map(ishow).collect::<Vec<_>>().join("; "); h.case(&case, true);
        if let Some(u) = h.guard("omega", || case.clone(), || omega::omega_unsat(&cs)) { h.check(!u, "omega-unsat", || format!("reported unsatisfiable, but {:?} satisfies it", m.values().map(|x| x.dec()).collect::<Vec<_>>()), || case.clone()); }
    });
    h.rounds("small-sets", 4.0, 60_000, |h| {
        // unconstrained small sets; whenever a procedure answers unsat, search a grid for a counterexample
        let nv = 1 + h.rng.us(2) as i64; let n = 1 + h.rng.us(4);
        let cs: Vec<IntConstraint> = (0..n).map(|_| { let mut e = IntExpr::constant(h.rng.range(-5, 5)); for v in 0..nv { let k = h.rng.range(-3, 3); e = e.add(&IntExpr::var(v).scale(k)); } IntConstraint { expr: e, strict: h.rng.chance(1, 3) } }).collect();
        let case = cs.iter().map(ishow).collect::<Vec<_>>().join("; ");
        let u = omega::omega_unsat(&cs); h.case(&case, u);
        let lc: Vec<Constraint> = cs.iter().map(|c| Constraint { expr: c.expr.coeffs.iter().fold(LinearExpr::constant(Rational::from_bigint(c.expr.constant.clone())), |e, (v, k)| e.add(&LinearExpr::var(*v).scale(&Rational::from_bigint(k.clone())))), strict: c.strict }).collect();
        let fu = lia::fourier_motzkin_unsat(&lc);
        let g = 6i64;
        for x in -g..=g { for y in -g..=g {
            if nv == 1 && y != 0 { continue; }
            let m: BTreeMap<i64, Z> = [(0, zi(x)), (1, zi(y))].into();
            let sat = cs.iter().all(|c| { let e = iev(&c.expr, &m); e.neg || (e.is_zero() && !c.strict) });
            if sat { h.check(!u, "omega-unsat", || format!("reported unsatisfiable, but x0={x} x1={y} satisfies it"), || case.clone()); h.check(!fu, "fm-unsat", || format!("reported unsatisfiable, but x0={x} x1={y} satisfies it"), || case.clone()); }
            if fu { let m: BTreeMap<i64, Q> = [(0, Q(zi(x), zi(2))), (1, Q(zi(y), zi(3)))].into(); let sat = lc.iter().all(|c| { let e = lev(&c.expr, &m); e.sign() < 0 || (e.sign() == 0 && !c.strict) }); h.check(!sat, "fm-unsat", || format!("reported unsatisfiable, but x0={x}/2 x1={y}/3 satisfies it"), || case.clone()); }
        } }
    });
    h.rounds("goals", 4.0, 40_000, |h| {
        // a comparison goal certified valid (its negation unsat) must hold at every sampled point
        let (l, r) = (gen(&mut h.rng, 2, true), gen(&mut h.rng, 2, true));
        let rel = *h.rng.pick(&["Lt", "Le", "Gt", "Ge", "lt", "le", "gt", "ge"]);
        let r = if h.rng.bool() { let k = h.rng.range(-2, 2); E::Add(Box::new(l.clone()), Box::new(E::L(k))) } else { r };
        let case = format!("{} {rel} {}", l.show(), r.show());
        let pts: Vec<[Z; 4]> = (0..12).map(|_| [coef(&mut h.rng, true), zi(h.rng.range(-3, 3)), zi(h.rng.range(-3, 3)), zi(h.rng.range(-3, 3))]).collect();
        let holds = |p: &[Z; 4]| { let d = l.ev(p).sub(&r.ev(p)); match rel.to_lowercase().as_str() { "lt" => d.neg, "le" => d.neg || d.is_zero(), "gt" => !d.neg && !d.is_zero(), _ => !d.neg } };
        let mut vi = VarInterner::new();
        let (tl, tr) = (l.term(), r.term());
        h.check(lia::extract_comparison(&sapp(sapp(sname(rel), tl.clone()), tr.clone())).map(|(a, x, y)| a == rel && x == tl && y == tr).unwrap_or(false) || rel.chars().next().unwrap().is_lowercase(), "extract", || "extract_comparison changed the comparison".into(), || case.clone());
        if let (Ok(a), Ok(c)) = (lia::reify_linear(&tl, &mut vi), lia::reify_linear(&tr, &mut vi)) {
            if let Some(n) = lia::goal_to_negated_constraint(rel, &a, &c) { let v = lia::fourier_motzkin_unsat(&[n]); h.case(&case, v); if v { for p in &pts { h.check(holds(p), "lia-goal", || format!("certified valid, false at {:?}", p.iter().map(|x| x.dec()).collect::<Vec<_>>()), || case.clone()); } } }
        }
        let mut vi = VarInterner::new();
        if let (Some(a), Some(c)) = (omega::reify_int_linear(&tl, &mut vi), omega::reify_int_linear(&tr, &mut vi)) {
            if let Some(n) = omega::goal_to_negated_constraint(rel, &a, &c) { let v = omega::omega_unsat(&[n]); h.tick(); if v { for p in &pts { h.check(holds(p), "omega-goal", || format!("certified valid, false at {:?}", p.iter().map(|x| x.dec()).collect::<Vec<_>>()), || case.clone()); } } }
        }
    });
    h.rounds("polynomials", 6.0, 40_000, |h| {
        let d = 1 + h.rng.us(4); let e = gen(&mut h.rng, d, false);
        let kind = h.rng.below(4);
        let f = match kind { 0 => rearrange(&mut h.rng, &e), 1 => { let g = rearrange(&mut h.rng, &e); perturb(&mut h.rng, &g) } 2 => perturb(&mut h.rng, &e), _ => { let d2 = h.rng.us(4); gen(&mut h.rng, d2, false) } };
        let case = format!("{} =? {}", e.show(), f.show());
        let (p, pf) = (e.poly(), f.poly());
        let same = p.canonical_eq(&pf);
        h.case(&case, same);
        let pts: Vec<[Z; 4]> = (0..6).map(|i| [coef(&mut h.rng, i > 2), coef(&mut h.rng, i > 2), zi(h.rng.range(-3, 3)), zi(h.rng.range(-9, 9))]).collect();
        let evs: Vec<(Z, Z)> = pts.iter().map(|x| (e.ev(x), f.ev(x))).collect();
        if same { for (i, (a, c)) in evs.iter().enumerate() { if !h.check(a == c, "poly-equal", || format!("accepted as equal, but {} vs {} at {:?}", a.dec(), c.dec(), pts[i].iter().map(|x| x.dec()).collect::<Vec<_>>()), || case.clone()) { return; } } }
        if kind == 0 { h.check(same && pf.canonical_eq(&p) && p.sub(&pf).canonical_eq(&Polynomial::zero()) && p.neg().add(&pf).canonical_eq(&Polynomial::constant(0)), "poly-ops", || "two forms of one polynomial got different normal forms".into(), || case.clone()); }
        // the reflected syntax denotes the same polynomial
        let mut vi = VarInterner::new();
        match ring::reify(&e.term(), &mut vi) { Ok(r) => { let mut v2 = VarInterner::new(); if let Ok(s) = ring::reify(&f.term(), &mut vi) { let eqr = r.canonical_eq(&s); if eqr { for (a, c) in &evs { h.check(a == c, "reify-equal", || "reified terms accepted as equal but evaluate differently".into(), || case.clone()); } } h.check(eqr == same, "reify", || format!("reified equality {eqr}, constructed equality {same}"), || case.clone()); } let _ = v2.intern("u"); } Err(_) => { h.violation("reify", &format!("cannot reify {}", e.show()), &case); } }
    });
}
fn frac_pos(r: &mut Rng) -> Q { Q(zi(r.range(1, 5)), zi(r.range(1, 9))) }
fn grid(r: &mut Rng, m: &BTreeMap<i64, Z>) -> Vec<BTreeMap<i64, Z>> { let mut v = vec![m.clone()]; for _ in 0..8 { v.push((0..3).map(|i| (i, zi(r.range(-6, 6)))).collect()); } v }

#[derive(Clone, Debug)]
enum E { L(i64), V(i64), N(usize), Add(Box<E>, Box<E>), Sub(Box<E>, Box<E>), Mul(Box<E>, Box<E>) }
const NAMES: [&str; 2] = ["u", "w"];
impl E {
    // variables: x0, x1 (indices), u, w (names)
    fn ev(&self, p: &[Z; 4]) -> Z { match self { E::L(i) => zi(*i), E::V(i) => p[*i as usize].clone(), E::N(i) => p[2 + *i].clone(), E::Add(a, c) => a.ev(p).add(&c.ev(p)), E::Sub(a, c) => a.ev(p).sub(&c.ev(p)), E::Mul(a, c) => a.ev(p).mul(&c.ev(p)) } }
    fn show(&self) -> String { match self { E::L(i) => format!("{i}"), E::V(i) => format!("x{i}"), E::N(i) => NAMES[*i].into(), E::Add(a, c) => format!("({}+{})", a.show(), c.show()), E::Sub(a, c) => format!("({}-{})", a.show(), c.show()), E::Mul(a, c) => format!("{}*{}", a.show(), c.show()) } }
    fn poly(&self) -> Polynomial { match self { E::L(i) => Polynomial::constant(*i), E::V(i) => Polynomial::var(*i), E::N(i) => Polynomial::var(-7 - *i as i64), E::Add(a, c) => a.poly().add(&c.poly()), E::Sub(a, c) => a.poly().sub(&c.poly()), E::Mul(a, c) => a.poly().mul(&c.poly()) } }
    fn term(&self) -> Term { let bin = |o: &str, a: &E, c: &E| sapp(sapp(sname(o), a.term()), c.term()); match self { E::L(i) => app(gl("SLit"), Term::Lit(Literal::Int(*i))), E::V(i) => app(gl("SVar"), Term::Lit(Literal::Int(*i))), E::N(i) => sname(NAMES[*i]), E::Add(a, c) => bin("add", a, c), E::Sub(a, c) => bin("sub", a, c), E::Mul(a, c) => bin("mul", a, c) } }
}
fn gen(r: &mut Rng, d: usize, linear: bool) -> E {
    if d == 0 || r.chance(1, 6) { return match r.below(4) { 0 => E::L(if r.chance(1, 8) { r.edge() as i64 } else { r.range(-3, 3) }), 1 | 2 => E::V(r.range(0, 1)), _ => E::N(r.us(2)) }; }
    let a = gen(r, d - 1, linear); let k = r.below(3);
    if k == 2 { let c = if linear { E::L(r.range(-4, 4)) } else { gen(r, d - 1, linear) }; return if r.bool() { E::Mul(Box::new(a), Box::new(c)) } else { E::Mul(Box::new(c), Box::new(a)) }; }
    let c = gen(r, d - 1, linear);
    if k == 0 { E::Add(Box::new(a), Box::new(c)) } else { E::Sub(Box::new(a), Box::new(c)) }
}
/// Rewrite by commutativity, associativity, distributivity and cancellation: the value at every point is unchanged.
fn rearrange(r: &mut Rng, e: &E) -> E {
    let bx = Box::new;
    let t = match e {
        E::Add(a, c) => { let (a, c) = (rearrange(r, a), rearrange(r, c)); if r.bool() { E::Add(bx(c), bx(a)) } else { E::Add(bx(a), bx(c)) } }
        E::Sub(a, c) => { let (a, c) = (rearrange(r, a), rearrange(r, c)); if r.bool() { E::Add(bx(a), bx(E::Mul(bx(E::L(-1)), bx(c)))) } else { E::Sub(bx(a), bx(c)) } }
        E::Mul(a, c) => { let (a, c) = (rearrange(r, a), rearrange(r, c)); match (&a, &c) { (E::Add(x, y), _) if r.bool() => E::Add(bx(E::Mul(x.clone(), bx(c.clone()))), bx(E::Mul(bx(c.clone()), y.clone()))), (_, E::Sub(x, y)) if r.bool() => E::Sub(bx(E::Mul(bx(a.clone()), x.clone())), bx(E::Mul(y.clone(), bx(a.clone())))), _ => if r.bool() { E::Mul(bx(c), bx(a)) } else { E::Mul(bx(a), bx(c)) } } }
        x => x.clone(),
    };
    if r.chance(1, 8) { let g = gen(r, 1, false); return E::Add(bx(E::Sub(bx(t), bx(g.clone()))), bx(g)); }
    t
}
fn perturb(r: &mut Rng, e: &E) -> E {
    let bx = Box::new;
    if r.chance(1, 3) { return match r.below(5) { 0 => E::Add(bx(e.clone()), bx(E::L(1))), 1 => E::Mul(bx(e.clone()), bx(E::V(0))), 2 => E::Sub(bx(E::L(0)), bx(e.clone())), 3 => E::Mul(bx(e.clone()), bx(e.clone())), _ => E::Add(bx(e.clone()), bx(e.clone())) }; }
    match e { E::Add(a, c) => if r.bool() { E::Add(bx(perturb(r, a)), c.clone()) } else { (**c).clone() }, E::Sub(a, c) => if r.bool() { E::Sub(c.clone(), a.clone()) } else { E::Sub(a.clone(), bx(perturb(r, c))) }, E::Mul(a, c) => if r.bool() { E::Mul(bx(perturb(r, a)), c.clone()) } else { E::Add(a.clone(), c.clone()) }, E::V(i) => E::V(1 - i), E::N(i) => E::N(1 - i), E::L(i) => E::L(i.wrapping_add(1)) }
}
fn app(f: Term, x: Term) -> Term { Term::App(Box::new(f), Box::new(x)) }
fn gl(s: &str) -> Term { Term::Global(s.into()) }
fn sname(s: &str) -> Term { app(gl("SName"), Term::Lit(Literal::Text(s.into()))) }
fn sapp(f: Term, x: Term) -> Term { app(app(gl("SApp"), f), x) }
