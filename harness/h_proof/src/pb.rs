//! C08: pseudo-Boolean rules keep every solution of their premises.
use logicaffeine_proof::cdcl::{Lit, Theory};
use logicaffeine_proof::pseudo_boolean::{CardinalityTheory, PbConstraint};
use vh::{Rng, H};

type T = Vec<(usize, i64, bool)>;
fn sat(t: &T, d: i128, m: u32) -> bool { t.iter().map(|&(v, c, s)| if (m >> v & 1 == 1) == s { c as i128 } else { 0 }).sum::<i128>() >= d }
fn terms(p: &PbConstraint) -> T { p.terms().collect() }
fn psat(p: &PbConstraint, m: u32) -> bool { sat(&terms(p), p.degree() as i128, m) }
fn coeff(r: &mut Rng) -> i64 { match r.below(8) { 0 => 1, 1 => 2, 2 => r.range(1, 1000), 3 => r.range(1, 1 << 40), 4 => 0, _ => r.range(1, 9) } }
fn rand_pb(r: &mut Rng, n: usize) -> (T, i64) {
    let mut vs: Vec<usize> = (0..n).collect(); r.shuffle(&mut vs); vs.truncate(r.us(n + 1));
    let uni = r.chance(1, 3);
    let t: T = vs.into_iter().map(|v| (v, if uni { 1 } else { coeff(r) }, r.bool())).collect();
    let s: i64 = t.iter().map(|x| x.1).sum();
    let d = match r.below(8) { 0 => 0, 1 => -r.range(0, 5), 2 => s, 3 => s + 1, 4 => -r.range(0, 1 << 30), _ => r.range(-2, s + 2) };
    (t, d)
}
fn mk(p: &(T, i64)) -> PbConstraint { PbConstraint::new_weighted(&p.0, p.1) }

fn implied(h: &mut H, key: &str, n: usize, prem: &[(T, i64)], out: &PbConstraint, extra: &str) {
    let t = terms(out); let d = out.degree() as i128;
    let c = || format!("n={n} premises={prem:?} {extra} result={t:?} >= {d}");
    h.case(&format!("{key} {prem:?} {extra}"), !prem[0].0.is_empty());
    for m in 0..1u32 << n {
        if prem.iter().all(|p| sat(&p.0, p.1 as i128, m)) && !sat(&t, d, m) { h.violation(key, format!("assignment {m:b} satisfies the premises but not the derived constraint"), c()); return; }
        let got = out.is_satisfied(&|v| m >> v & 1 == 1);
        if got != sat(&t, d, m) { h.violation("is-satisfied", format!("evaluation under {m:b} is {got}"), c()); return; }
    }
    if out.is_contradiction() { if let Some(m) = (0..1u32 << n).find(|&m| sat(&t, d, m)) { h.violation(&format!("contradiction-{key}"), format!("reported contradictory, but {m:b} satisfies it"), c()); } }
}

pub fn c08(h: &mut H) {
    h.rounds("build", 4.0, 60_000, |h| {
        let n = 1 + h.rng.us(6); let mut vs: Vec<usize> = (0..n).collect(); h.rng.shuffle(&mut vs); vs.truncate(h.rng.us(n + 1));
        let lits: Vec<(usize, bool)> = vs.iter().map(|&v| (v, h.rng.bool())).collect();
        let k = h.rng.range(-3, n as i64 + 3);
        let cnt = |m: u32| lits.iter().filter(|&&(v, s)| (m >> v & 1 == 1) == s).count() as i64;
        let (al, am, cl) = (PbConstraint::at_least(&lits, k), PbConstraint::at_most(&lits, k), PbConstraint::clause(&lits));
        let c = format!("lits={lits:?} k={k}"); h.case(&c, !lits.is_empty());
        for m in 0..1u32 << n {
            let x = cnt(m);
            for (name, p, want) in [("at-least", &al, x >= k), ("at-most", &am, x <= k), ("clause", &cl, x >= 1)] {
                let e = p.is_satisfied(&|v| m >> v & 1 == 1);
                if psat(p, m) != want || e != want { h.violation(name, format!("assignment {m:b}: constraint says {e}, intended {want}"), c.clone()); }
            }
        }
        for (name, p) in [("at-least", &al), ("at-most", &am), ("clause", &cl)] { if p.is_contradiction() && (0..1u32 << n).any(|m| psat(p, m)) { h.violation(&format!("contradiction-{name}"), "satisfiable constraint reported contradictory", c.clone()); } }
        let w: T = lits.iter().map(|&(v, s)| (v, coeff(&mut h.rng), s)).collect();
        let p = PbConstraint::new_weighted(&w, k);
        let mut a = terms(&p); a.sort(); let mut b = w.clone(); b.sort();
        h.check(a == b && p.degree() == k, "weighted", || format!("built {a:?} >= {}", p.degree()), || format!("{w:?} >= {k}"));
        for &(v, cf, s) in &w { h.check(p.term(v) == Some((cf, s)), "term", || format!("term({v}) = {:?}", p.term(v)), || format!("{w:?}")); }
    });
    h.rounds("step", 10.0, 120_000, |h| {
        let n = 1 + h.rng.us(6);
        let a = rand_pb(&mut h.rng, n); let mut b = rand_pb(&mut h.rng, n);
        if h.rng.chance(1, 3) { b.0 = a.0.iter().map(|&(v, c, s)| (v, if h.rng.bool() { c } else { coeff(&mut h.rng) }, s ^ h.rng.chance(2, 3))).collect(); }
        let (pa, pb) = (mk(&a), mk(&b));
        if let Some(o) = h.guard("add", || format!("{a:?} + {b:?}"), || pa.add(&pb)) { implied(h, "add", n, &[a.clone(), b.clone()], &o, ""); }
        let k = match h.rng.below(3) { 0 => 1, 1 => 2, _ => h.rng.range(1, 50) };
        if let Some(o) = h.guard("multiply", || format!("{a:?} * {k}"), || pa.multiply(k)) { implied(h, "multiply", n, &[a.clone()], &o, &format!("by {k}")); }
        let dv = match h.rng.below(4) { 0 => 1, 1 => 2, 2 => 3, _ => h.rng.range(1, 2000) };
        if let Some(o) = h.guard("divide", || format!("{a:?} / {dv}"), || pa.divide_round(dv)) { implied(h, "divide", n, &[a.clone()], &o, &format!("by {dv}")); }
        if let Some(o) = h.guard("saturate", || format!("sat {a:?}"), || pa.saturate()) { implied(h, "saturate", n, &[a.clone()], &o, ""); }
    });
    h.rounds("large", 3.0, 40_000, |h| {
        // coefficients and degrees no floating-point number holds exactly; sums stay below the machine range
        let n = 1 + h.rng.us(4); let bits = h.rng.range(31, 58);
        let big = |r: &mut Rng| ((1i64 << bits) + r.range(-3, 3) + if r.bool() { r.range(0, 1 << (bits - 1)) } else { 0 }).max(0);
        let (a, b) = { let mut one = || { let mut t: T = vec![]; for v in 0..n { if h.rng.chance(5, 6) { let c = if h.rng.bool() { big(&mut h.rng) } else { h.rng.range(0, 5) }; t.push((v, c, h.rng.bool())); } } let s: i64 = t.iter().map(|x| x.1).sum(); let part: i64 = t.iter().filter(|_| h.rng.bool()).map(|x| x.1).sum(); let d = (match h.rng.below(4) { 0 => s, 1 => part, 2 => -part, _ => big(&mut h.rng) }) + h.rng.range(-2, 2); (t, d) }; (one(), one()) };
        let (pa, pb) = (mk(&a), mk(&b));
        if let Some(o) = h.guard("add", || format!("{a:?} + {b:?}"), || pa.add(&pb)) { implied(h, "add", n, &[a.clone(), b.clone()], &o, ""); }
        let dv = match h.rng.below(4) { 0 => 1, 1 => h.rng.range(2, 9), 2 => big(&mut h.rng).max(1), _ => h.rng.range(1, 1 << 31) };
        if let Some(o) = h.guard("divide", || format!("{a:?} / {dv}"), || pa.divide_round(dv)) { implied(h, "divide", n, &[a.clone()], &o, &format!("by {dv}")); }
        if let Some(o) = h.guard("saturate", || format!("sat {a:?}"), || pa.saturate()) { implied(h, "saturate", n, &[a.clone()], &o, ""); }
        let k = h.rng.range(1, 1 << (61 - bits)).min(4); if bits < 57 { if let Some(o) = h.guard("multiply", || format!("{a:?} * {k}"), || pa.multiply(k)) { implied(h, "multiply", n, &[a.clone()], &o, &format!("by {k}")); } }
    });
    h.rounds("chain", 8.0, 60_000, |h| {
        // whole derivations: every line stays implied by the original premises
        let n = 1 + h.rng.us(5);
        let prem: Vec<(T, i64)> = (0..1 + h.rng.us(4)).map(|_| { let mut p = rand_pb(&mut h.rng, n); for t in p.0.iter_mut() { t.1 %= 50; t.1 += 1; } p.1 = h.rng.range(-3, p.0.iter().map(|x| x.1).sum::<i64>() + 1); p }).collect();
        let mut db: Vec<PbConstraint> = prem.iter().map(mk).collect();
        let mut log = String::new();
        for _ in 0..6 {
            let i = h.rng.us(db.len()); let j = h.rng.us(db.len());
            let (o, s) = match h.rng.below(4) { 0 | 1 => (db[i].add(&db[j]), format!("add({i},{j})")), 2 => { let d = h.rng.range(1, 7); (db[i].divide_round(d), format!("div({i},{d})")) } _ => (db[i].saturate(), format!("sat({i})")) };
            log.push_str(&s); log.push(' ');
            implied(h, "chain", n, &prem, &o, &log);
            if o.degree().abs() < 1 << 40 { db.push(o); }
        }
    });
    h.rounds("cardinality", 5.0, 60_000, |h| {
        let n = 1 + h.rng.us(6);
        let cs: Vec<(T, i64)> = (0..1 + h.rng.us(3)).map(|_| { let mut p = rand_pb(&mut h.rng, n); for t in p.0.iter_mut() { t.1 = 1; } p.1 = h.rng.range(-1, p.0.len() as i64 + 1); p }).collect();
        let ps: Vec<PbConstraint> = cs.iter().map(mk).collect();
        let mut th = CardinalityTheory::new(n, &ps);
        let mut trail: Vec<Lit> = vec![]; for v in 0..n { if h.rng.chance(2, 3) { trail.push(Lit::new(v as u32, h.rng.bool())); } }
        let c = format!("n={n} constraints={cs:?} trail={:?}", trail.iter().map(|l| (l.var(), l.is_positive())).collect::<Vec<_>>()); h.case(&c, !trail.is_empty());
        if let Some(out) = h.guard("theory", || c.clone(), || th.propagate(&trail)) {
            for cl in out { for m in 0..1u32 << n { if cs.iter().all(|p| sat(&p.0, p.1 as i128, m)) && !cl.iter().any(|l| (m >> l.var() & 1 == 1) == l.is_positive()) { h.violation("cardinality-theory", format!("clause {:?} is not implied: {m:b}", cl.iter().map(|l| (l.var(), l.is_positive())).collect::<Vec<_>>()), c.clone()); break; } } }
        }
    });
}
