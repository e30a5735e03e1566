//! C06: no checker accepts a refutation of a satisfiable formula.
use logicaffeine_proof::cdcl::{Lit, Solver, SolveResult};
use logicaffeine_proof::pr;
use logicaffeine_proof::proof::{Perm, ProofStep, Witness};
use logicaffeine_proof::proof_emit;
use logicaffeine_proof::rup;
use logicaffeine_proof::xorsat::{self, XorEquation};
use vh::{panics, Rng, H};

pub type F = Vec<Vec<Lit>>;
pub fn lit(v: usize, p: bool) -> Lit { Lit::new(v as u32, p) }
fn tr(l: Lit, m: u64) -> bool { ((m >> l.var()) & 1 == 1) == l.is_positive() }
pub fn holds(f: &F, m: u64) -> bool { f.iter().all(|c| c.iter().any(|&l| tr(l, m))) }
pub fn models(f: &F, n: usize) -> Vec<u64> { (0..1u64 << n).filter(|&m| holds(f, m)).collect() }
pub fn show(f: &[Vec<Lit>]) -> String { f.iter().map(|c| format!("({})", c.iter().map(|l| format!("{}{}", if l.is_positive() { "" } else { "-" }, l.var() + 1)).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join("") }
fn show_steps(s: &[ProofStep]) -> String {
    s.iter().map(|s| match s {
        ProofStep::Rup(c) => format!("R{}", show(&[c.clone()])),
        ProofStep::Delete(c) => format!("D{}", show(&[c.clone()])),
        ProofStep::Pr { clause, witness } => format!("P{}w{}", show(&[clause.clone()]), match witness { Witness::Assignment(w) => show(&[w.clone()]), Witness::Substitution(p) => format!("perm{:?}", (0..p.num_vars()).map(|v| p.apply(Lit::new(v as u32, true))).map(|l| if l.is_positive() { l.var() as i64 + 1 } else { -(l.var() as i64 + 1) }).collect::<Vec<_>>()) }),
    }).collect::<Vec<_>>().join(" ")
}
pub fn rclause(r: &mut Rng, n: usize, k: usize, messy: bool) -> Vec<Lit> {
    let mut c: Vec<Lit> = vec![];
    for _ in 0..k { let l = lit(r.us(n), r.bool()); if messy || !c.iter().any(|x| x.var() == l.var()) { c.push(l); } }
    c
}
/// A satisfiable formula with few models, over n variables; sometimes with repeated or opposite literals.
fn sat_formula(r: &mut Rng, n: usize) -> (F, u64) {
    let m = r.u64() & ((1 << n) - 1);
    let mut f: F = vec![];
    let messy = r.chance(1, 4);
    let want = r.us(4 * n) + 1;
    for _ in 0..want { let k = 1 + r.us(3.min(n)) + r.us(2); let mut c = rclause(r, n, k, messy); if c.is_empty() { continue; } if !c.iter().any(|&l| tr(l, m)) { let i = r.us(c.len()); c[i] = c[i].negated(); if !c.iter().any(|&l| tr(l, m)) { continue; } } f.push(c); }
    if r.bool() { // thin the models out, one clause per unwanted model (possibly shortened)
        for _ in 0..40 { let ms: Vec<u64> = models(&f, n).into_iter().filter(|x| *x != m).collect(); if ms.is_empty() || r.chance(1, 12) { break; }
            let bad = *r.pick(&ms); let mut c: Vec<Lit> = vec![]; for v in 0..n { if (bad ^ m) >> v & 1 == 1 || r.chance(1, 3) { c.push(lit(v, bad >> v & 1 == 0)); } } f.push(c); }
    }
    (f, m)
}
fn trace(f: &F, n: usize) -> Option<F> {
    let mut s = Solver::new(n);
    for c in f { s.add_clause(c.clone()); }
    match s.solve() { SolveResult::Unsat => { let mut t: F = s.learned().iter().map(|l| l.lits.clone()).collect(); t.push(vec![]); Some(t) } _ => None }
}
/// a clause that cuts away every model of f, given as a list of clauses to claim one after another
fn lies(r: &mut Rng, f: &F, n: usize) -> F {
    let ms = models(f, n);
    let mut out: F = vec![];
    let mut left = ms.clone();
    let mut guard = 0;
    while !left.is_empty() && guard < 12 {
        guard += 1;
        let m = *r.pick(&left);
        let k = 1 + r.us(n);
        let mut vs: Vec<usize> = (0..n).collect(); r.shuffle(&mut vs);
        let mut c: Vec<Lit> = vs[..k].iter().map(|&v| lit(v, m >> v & 1 == 0)).collect();
        if r.chance(1, 8) { let l = *r.pick(&c); c.push(l); }
        if r.chance(1, 12) { c.clear(); }
        left.retain(|&x| c.iter().any(|&l| tr(l, x)));
        out.push(c);
    }
    if !left.is_empty() { out.push(vec![]); }
    out
}
fn wit(r: &mut Rng, n: usize, c: &[Lit]) -> Witness {
    match r.below(6) {
        0 => Witness::Assignment(c.to_vec()),
        1 => { let mut w = c.to_vec(); if !w.is_empty() { let i = r.us(w.len()); w.swap(0, i); for _ in 0..r.us(3) { w.push(lit(r.us(n), r.bool())); } } Witness::Assignment(w) }
        2 => { let k = r.us(n + 2); Witness::Assignment(rclause(r, n, k, true)) }
        3 => { let mut vs: Vec<usize> = (0..n).collect(); if r.bool() { r.shuffle(&mut vs); } else if n > 1 { let (a, b) = (r.us(n), r.us(n)); vs.swap(a, b); } Witness::Substitution(Perm::from_images(vs.iter().map(|&v| lit(v, r.chance(3, 4))).collect())) }
        4 => Witness::Substitution(Perm::from_images((0..n).map(|_| lit(r.us(n), r.bool())).collect())), // not a permutation
        _ => { let k = r.us(n) + 1; Witness::Substitution(Perm::from_images((0..k).map(|v| lit(v, true)).collect())) }
    }
}
fn accepts(h: &mut H, key: &str, n: usize, f: &F, cert: impl Fn() -> String, run: impl FnOnce() -> bool) {
    let ok = panics(run).unwrap_or(false); // a panic is not an acceptance
    let c = format!("n={n} f={} cert={}", show(f), cert());
    h.case(&c, true);
    if ok { h.violation(key, "a certificate for a satisfiable formula was accepted", c); }
}
fn lrat_line(id: usize, c: &[Lit], hints: &[usize]) -> String {
    let mut s = format!("{id}"); for l in c { s.push_str(&format!(" {}{}", if l.is_positive() { "" } else { "-" }, l.var() + 1)); } s.push_str(" 0"); for x in hints { s.push_str(&format!(" {x}")); } s.push_str(" 0"); s
}
fn mutate_text(r: &mut Rng, t: &str) -> String {
    let mut lines: Vec<String> = t.lines().map(|s| s.into()).collect();
    for _ in 0..1 + r.us(3) {
        if lines.is_empty() { break; }
        let i = r.us(lines.len());
        match r.below(8) {
            0 => { lines.remove(i); }
            1 => { let l = lines[i].clone(); lines.insert(i, l); }
            2 | 3 => { let mut w: Vec<String> = lines[i].split_whitespace().map(|s| s.into()).collect(); if !w.is_empty() { let j = r.us(w.len()); match r.below(4) { 0 => { w.remove(j); } 1 => { w[j] = r.range(-6, 40).to_string(); } 2 => { w.insert(j, "0".into()); } _ => { w.truncate(j); } } } lines[i] = w.join(" "); }
            4 => { let j = r.us(lines.len()); lines.swap(i, j); }
            5 => { lines.truncate(i + 1); }
            6 => { let w: Vec<String> = lines[i].split_whitespace().map(|s| s.into()).collect(); lines[i] = format!("{} 0 0", w.first().cloned().unwrap_or_default()); }
            _ => { lines.insert(i, r.pick(&["c x", "", "5 d 1 2 0", "99999999999999999999 0 0", "-1 0 0", "0", "7 0", "1 0 0", "p cnf 1 1"]).to_string()); }
        }
    }
    lines.join("\n")
}

pub fn c06(h: &mut H) {
    // fixed shapes
    if h.group("shapes") {
        let two: F = vec![vec![lit(0, true), lit(1, true)]];
        for cert in [vec![vec![]], vec![], vec![vec![lit(0, true)], vec![]], vec![vec![lit(0, true)], vec![lit(0, false)], vec![]]] { let c = cert.clone(); accepts(h, "rup", 2, &two, || show(&cert), || rup::check_refutation(2, &two, &c)); }
        let none: F = vec![]; accepts(h, "rup", 0, &none, || "[]".into(), || rup::check_refutation(0, &none, &[vec![]]));
        for t in ["", "1 0 0", "2 0 1 0", "2 0 1 1 0", "2 0 9 0", "2 0 0", "1 d 1 0\n2 0 0", "2 0", "0 0 0", "2 0 -1 0"] { accepts(h, "lrat", 2, &two, || t.into(), || proof_emit::check_lrat(2, &two, t)); }
        // and the checkers do accept a genuine refutation, so the checks above are not vacuous
        let php: F = vec![vec![lit(0, true), lit(1, true)], vec![lit(0, true), lit(1, false)], vec![lit(0, false), lit(1, true)], vec![lit(0, false), lit(1, false)]];
        h.case("genuine", false);
        if panics(|| rup::check_refutation(2, &php, &[vec![lit(0, true)], vec![]])) == Ok(true) { h.count("genuine-accepted"); }
    }
    h.rounds("rup", 4.0, 60_000, |h| {
        let n = 1 + h.rng.us(6); let (f, _) = sat_formula(&mut h.rng, n);
        let mut cert = lies(&mut h.rng, &f, n);
        if h.rng.chance(1, 6) { cert = (0..h.rng.us(5)).map(|_| { let k = h.rng.us(4); rclause(&mut h.rng, n, k, true) }).collect(); }
        else { let mut g = f.clone(); g.extend(cert.clone()); let clean: F = g; if let Ok(Some(t)) = panics(|| trace(&clean, n)) { cert.extend(t); } else { cert.push(vec![]); } }
        if h.rng.chance(1, 10) { let i = h.rng.us(cert.len() + 1); let l = lit(n + h.rng.us(3), h.rng.bool()); cert.insert(i, vec![l]); }
        let c2 = cert.clone();
        accepts(h, "rup", n, &f, || show(&cert), || rup::check_refutation(n, &f, &c2));
    });
    h.rounds("lrat", 5.0, 60_000, |h| {
        let n = 1 + h.rng.us(5); let (f, _) = sat_formula(&mut h.rng, n);
        let cert = lies(&mut h.rng, &f, n);
        let mut lines = vec![]; let mut id = f.len();
        let mut g = f.clone();
        for c in &cert {
            id += 1;
            // adversarial hints: often the clauses nearest to being falsified by the negation
            let mut ids: Vec<usize> = (1..id).collect(); h.rng.shuffle(&mut ids);
            if h.rng.bool() { let gg = g.clone(); ids.sort_by_key(|&i| gg[i - 1].iter().filter(|l| !c.contains(l)).count()); }
            if h.rng.bool() { ids.truncate(h.rng.us(ids.len() + 1)); }
            if h.rng.chance(1, 6) { ids.push(1 + h.rng.us(id + 2)); }
            lines.push(lrat_line(id, c, &ids)); g.push(c.clone());
        }
        let mut text = lines.join("\n"); text.push('\n');
        if let Ok(Some(t)) = panics(|| trace(&g, n)) { let steps: Vec<ProofStep> = t.into_iter().map(ProofStep::Rup).collect(); if let Ok(Ok(e)) = panics(|| proof_emit::emit_lrat(n, &g, &steps)) { text.push_str(&e); } }
        if h.rng.chance(1, 3) { text = mutate_text(&mut h.rng, &text); }
        if h.rng.chance(1, 8) { // a genuine proof of a different, unsatisfiable formula
            let u: F = (0..1u64 << n.min(2)).map(|m| (0..n.min(2)).map(|v| lit(v, m >> v & 1 == 0)).collect()).collect();
            if let Some(t) = trace(&u, n) { let steps: Vec<ProofStep> = t.into_iter().map(ProofStep::Rup).collect(); if let Ok(Ok(e)) = panics(|| proof_emit::emit_lrat(n, &u, &steps)) { text = e; } } }
        accepts(h, "lrat", n, &f, || text.replace('\n', " / "), || proof_emit::check_lrat(n, &f, &text));
    });
    h.rounds("pr", 7.0, 60_000, |h| {
        let n = 1 + h.rng.us(5); let (mut f, _) = sat_formula(&mut h.rng, n);
        if h.rng.chance(1, 3) && n >= 2 { // make it symmetric so that permutations often are automorphisms
            let (a, b) = (h.rng.us(n), h.rng.us(n)); let sw = |l: Lit| if l.var() as usize == a { lit(b, l.is_positive()) } else if l.var() as usize == b { lit(a, l.is_positive()) } else { l };
            let img: F = f.iter().map(|c| c.iter().map(|&l| sw(l)).collect()).collect(); let mut g = f.clone(); g.extend(img); if !models(&g, n).is_empty() { f = g; }
        }
        let mut steps: Vec<ProofStep> = vec![];
        let cert = lies(&mut h.rng, &f, n);
        let mut g = f.clone();
        for c in &cert { if h.rng.chance(1, 8) && !g.is_empty() { let i = h.rng.us(g.len()); steps.push(ProofStep::Delete(g[i].clone())); } let w = wit(&mut h.rng, n, c); steps.push(if h.rng.chance(1, 6) { ProofStep::Rup(c.clone()) } else { ProofStep::Pr { clause: c.clone(), witness: w } }); g.push(c.clone()); }
        if let Ok(Some(t)) = panics(|| trace(&g, n)) { steps.extend(t.into_iter().map(ProofStep::Rup)); }
        accepts(h, "pr", n, &f, || show_steps(&steps), || pr::check_pr_refutation(n, &f, &steps));
        accepts(h, "pr-fast", n, &f, || show_steps(&steps), || pr::check_pr_refutation_fast(n, &f, &steps));
        // single steps: a redundancy claim may drop models but must keep one
        for s in &steps { if let ProofStep::Pr { clause, witness } = s { let ok = panics(|| pr::is_pr(n, &f, clause, witness)).unwrap_or(false); let mut g = f.clone(); g.push(clause.clone()); if ok { h.count("pr-step-accepted"); if models(&g, n).is_empty() { h.violation("pr-step", "a propagation-redundancy step that removes every model was accepted", format!("n={n} f={} step={}", show(&f), show_steps(&[s.clone()]))); } } } }
    });
    h.rounds("pr-multi", 4.0, 40_000, |h| {
        // several accepted steps in a row keep satisfiability
        let n = 2 + h.rng.us(3); let (f, _) = sat_formula(&mut h.rng, n);
        let mut db = f.clone(); let mut steps = vec![];
        for _ in 0..6 {
            let k = 1 + h.rng.us(2); let c = rclause(&mut h.rng, n, k, false); if c.is_empty() { continue; }
            let w = wit(&mut h.rng, n, &c);
            if panics(|| pr::is_pr(n, &db, &c, &w)).unwrap_or(false) { db.push(c.clone()); steps.push(ProofStep::Pr { clause: c, witness: w }); }
            h.tick();
        }
        let c = format!("n={n} f={} steps={}", show(&f), show_steps(&steps)); h.case(&c, !steps.is_empty());
        if models(&db, n).is_empty() { h.violation("pr-chain", "accepted redundancy steps made a satisfiable formula unsatisfiable", c); }
    });
    h.rounds("xor", 3.0, 80_000, |h| {
        let n = 1 + h.rng.us(6); let m = h.rng.u64();
        let k = h.rng.us(8);
        let sat = h.rng.chance(3, 4);
        let mut eqs = vec![];
        for _ in 0..k { let mut vs: Vec<usize> = (0..h.rng.us(4)).map(|_| h.rng.us(n)).collect(); if h.rng.chance(1, 6) && !vs.is_empty() { let v = vs[0]; vs.push(v); } let p = vs.iter().fold(false, |a, &v| a ^ (m >> v & 1 == 1)); eqs.push((vs, if sat { p } else { h.rng.bool() })); }
        let satisfiable = (0..1u64 << n).any(|m| eqs.iter().all(|(vs, r)| vs.iter().fold(false, |a, &v| a ^ (m >> v & 1 == 1)) == *r));
        let es: Vec<XorEquation> = eqs.iter().map(|(v, r)| XorEquation::new(v.clone(), *r)).collect();
        let mut refs: Vec<Vec<usize>> = vec![vec![], (0..k).collect()];
        for _ in 0..4 { refs.push((0..h.rng.us(6)).map(|_| h.rng.us(k + 2)).collect()); }
        for rf in refs { let c = format!("n={n} eqs={eqs:?} refutation={rf:?}"); h.case(&c, satisfiable); if satisfiable && panics(|| xorsat::is_refutation(&es, n, &rf)).unwrap_or(false) { h.violation("xor", "a parity refutation of a satisfiable system was accepted", c); } }
        if !satisfiable { if let Ok(xorsat::XorOutcome::Unsat(rf)) = panics(|| xorsat::solve(&es, n)) { if panics(|| xorsat::is_refutation(&es, n, &rf)).unwrap_or(false) { h.count("xor-genuine-accepted"); } } }
    });
}
