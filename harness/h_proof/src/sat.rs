//! C07: verdicts of the propositional solvers against exhaustive evaluation and planted models.
use crate::cert::{holds, lit, models, rclause, show, F};
use logicaffeine_proof::cdcl::{BudgetedResult, Lit, RestartMode, SolveResult, Solver};
use logicaffeine_proof::cnf::{cdcl_entails, Cnf};
use logicaffeine_proof::rup::{self, entails_certified, entails_certified_prepared};
use logicaffeine_proof::sat::{find_model, prove_equivalence, prove_unsat, EquivOutcome, ModelOutcome, UnsatOutcome};
use logicaffeine_proof::xorsat::{self, XorEquation, XorOutcome};
use logicaffeine_proof::hornsat::{self, HornClause, HornOutcome};
use logicaffeine_proof::solve::{self, Answer, Solved};
use logicaffeine_proof::twosat::{self, TwoSatOutcome};
use logicaffeine_proof::{inprocess, pigeonhole, pseudo_boolean, sdcl, ProofExpr as E};
use vh::{Rng, H};

fn configure(r: &mut Rng, s: &mut Solver, n: usize) -> String {
    let mode = match r.below(3) { 0 => RestartMode::Adaptive, 1 => RestartMode::Glucose, _ => RestartMode::Luby };
    let (inp, red, lim, gap) = (r.bool(), r.bool(), r.us(6), r.below(4));
    s.set_restart_mode(mode); s.set_inprocess(inp); s.set_inprocess_interval(gap); s.set_reduce(red);
    if red { s.set_reduce_limit(lim); }
    let ph = r.bool();
    if ph { let p: Vec<bool> = (0..n).map(|_| r.bool()).collect(); s.set_initial_phase(&p); }
    format!("mode={} inprocess={inp}/{gap} reduce={red}/{lim} phases={ph}", match mode { RestartMode::Adaptive => "adaptive", RestartMode::Glucose => "glucose", _ => "luby" })
}
fn mbits(m: &[bool]) -> u64 { m.iter().enumerate().fold(0, |a, (i, &b)| if b { a | 1 << i } else { a }) }
fn big_holds(f: &F, m: &[bool]) -> bool { f.iter().all(|c| c.iter().any(|l| m[l.var() as usize] == l.is_positive())) }
fn hard_formula(r: &mut Rng, n: usize, ratio: f64) -> F { let k = (n as f64 * ratio) as usize; (0..k).map(|_| { let mut c = vec![]; while c.len() < 3.min(n) { let l = lit(r.us(n), r.bool()); if !c.iter().any(|x: &Lit| x.var() == l.var()) { c.push(l); } } c }).collect() }

fn verdict(h: &mut H, key: &str, f: &F, n: usize, sat: Option<bool>, r: &SolveResult, case: &dyn Fn() -> String) {
    match r {
        SolveResult::Sat(m) => { if m.len() < n || !big_holds(f, m) { h.violation(&format!("{key}-model"), format!("returned model {m:?} does not satisfy the clauses"), case()); } if sat == Some(false) { h.violation(&format!("{key}-sat"), "unsatisfiable formula reported satisfiable", case()); } }
        SolveResult::Unsat => { if sat == Some(true) { h.violation(&format!("{key}-unsat"), "satisfiable formula reported unsatisfiable", case()); } }
    }
}

// ---- propositional formulas
fn atom(i: usize) -> E { E::Atom(format!("a{i}")) }
fn rexpr(r: &mut Rng, d: usize, n: usize) -> E {
    if d == 0 || r.chance(1, 5) { return atom(r.us(n)); }
    let a = |r: &mut Rng| Box::new(rexpr(r, d - 1, n));
    match r.below(6) { 0 => E::And(a(r), a(r)), 1 => E::Or(a(r), a(r)), 2 => E::Implies(a(r), a(r)), 3 => E::Iff(a(r), a(r)), _ => E::Not(a(r)) }
}
fn ev(e: &E, m: u64) -> bool { match e { E::Atom(s) => m >> s[1..].parse::<u64>().unwrap() & 1 == 1, E::And(a, b) => ev(a, m) & ev(b, m), E::Or(a, b) => ev(a, m) | ev(b, m), E::Implies(a, b) => !ev(a, m) | ev(b, m), E::Iff(a, b) => ev(a, m) == ev(b, m), E::Not(a) => !ev(a, m), _ => unreachable!() } }
fn conj(v: Vec<E>) -> E { v.into_iter().reduce(|a, b| E::And(Box::new(a), Box::new(b))).unwrap_or_else(|| E::Or(Box::new(atom(0)), Box::new(E::Not(Box::new(atom(0)))))) }
fn disj(v: Vec<E>) -> E { v.into_iter().reduce(|a, b| E::Or(Box::new(a), Box::new(b))).unwrap() }
fn le(v: usize, p: bool) -> E { if p { atom(v) } else { E::Not(Box::new(atom(v))) } }
fn not(e: E) -> E { E::Not(Box::new(e)) }
/// conjunctions shaped like the recognisers' targets (rows, exclusions, parity bundles), sat or not
fn structured(r: &mut Rng, n: usize) -> E {
    let mut cs = vec![];
    match r.below(4) {
        0 => { // pigeons/holes with random omissions
            let p = 2 + r.us(2); let hl = (n / p).max(1); let drop = r.chance(1, 2);
            for i in 0..p { let row: Vec<E> = (0..hl).filter(|_| true).map(|j| atom(i * hl + j)).collect(); cs.push(disj(row)); }
            for j in 0..hl { for a in 0..p { for b in a + 1..p { if drop && r.chance(1, 6) { continue; } let (x, y) = (atom(a * hl + j), atom(b * hl + j)); cs.push(if r.bool() { not(E::And(Box::new(x), Box::new(y))) } else { E::Or(Box::new(not(x)), Box::new(not(y))) }); } } }
        }
        1 => { // one long row, some exclusion pairs
            let k = 2 + r.us(n - 1); cs.push(disj((0..k).map(|v| le(v, r.chance(9, 10))).collect()));
            for a in 0..n { for b in a + 1..n { if r.chance(1, 4) { cs.push(not(E::And(Box::new(atom(a)), Box::new(atom(b))))); } } }
            if r.chance(1, 3) { let k = 2 + r.us(n - 1); cs.push(disj((n - k..n).map(atom).collect())); }
        }
        2 => { // parity bundles, possibly incomplete
            for _ in 0..1 + r.us(3) { let mut vs: Vec<usize> = (0..n).collect(); r.shuffle(&mut vs); vs.truncate(1 + r.us(3)); let rhs = r.bool();
                for m in 0..1u64 << vs.len() { if (m.count_ones() & 1 == 1) != rhs { if r.chance(1, 12) { continue; } cs.push(disj(vs.iter().enumerate().map(|(i, &v)| le(v, m >> i & 1 == 0)).collect())); } } }
        }
        _ => { let k = 1 + r.us(4 * n); for _ in 0..k { let c = 1 + r.us(3); cs.push(disj((0..c).map(|_| le(r.us(n), r.bool())).collect())); } }
    }
    if r.chance(1, 4) { let c = 1 + r.us(2); cs.push(disj((0..c).map(|_| le(r.us(n), r.bool())).collect())); }
    r.shuffle(&mut cs);
    conj(cs)
}

fn formula_checks(h: &mut H, e: &E, n: usize) {
    let sat = (0..1u64 << n).any(|m| ev(e, m));
    let c = format!("{e}"); h.case(&c, true);
    if sat { h.count("sat-formula"); } else { h.count("unsat-formula"); }
    let dec = |m: &Vec<(String, bool)>| -> (u64, u64) { let (mut v, mut known) = (0, 0); for (s, b) in m { let i: u64 = s.trim_start_matches('a').parse().unwrap_or(63); known |= 1 << i; if *b { v |= 1 << i; } } (v, known) };
    let ok_model = |m: &Vec<(String, bool)>, e: &E| { let (v, k) = dec(m); let free: Vec<u64> = (0..n as u64).filter(|i| k >> i & 1 == 0).collect(); (0..1u64 << free.len()).all(|s| { let mut x = v; for (j, f) in free.iter().enumerate() { if s >> j & 1 == 1 { x |= 1 << f; } } ev(e, x) }) };
    if let Some(r) = h.guard("find-model", || c.clone(), || find_model(e)) { match r {
        ModelOutcome::Sat(m) => { h.check(ok_model(&m, e), "find-model", || format!("model {m:?} does not satisfy the formula"), || c.clone()); }
        ModelOutcome::Unsat => { h.check(!sat, "find-model-unsat", || "satisfiable formula reported unsatisfiable".into(), || c.clone()); }
        _ => h.count("unsupported") } }
    if let Some(r) = h.guard("prove-unsat", || c.clone(), || prove_unsat(e)) { match r {
        UnsatOutcome::Sat(m) => { h.check(ok_model(&m, e), "prove-unsat-model", || format!("model {m:?} does not satisfy the formula"), || c.clone()); }
        UnsatOutcome::Refuted => { h.check(!sat, "prove-unsat-refuted", || "satisfiable formula reported refuted".into(), || c.clone()); }
        _ => h.count("unsupported") } }
    for (k, r) in [("cutting-plane", h.guard("refute-clausal", || c.clone(), || pseudo_boolean::refute_clausal(e))), ("parity", h.guard("refute-parity", || c.clone(), || xorsat::refute_via_parity(e))), ("pigeonhole", h.guard("pigeonhole", || c.clone(), || pigeonhole::decide_pigeonhole_unsat(e)))] {
        if r == Some(true) { h.count(k); if sat { h.violation(&format!("refuter-{k}"), "satisfiable formula reported refuted", c.clone()); } }
    }
}

pub fn c07(h: &mut H) {
    h.rounds("small", 5.0, 60_000, |h| {
        let n = 1 + h.rng.us(8); let messy = h.rng.chance(1, 4); let k = h.rng.us(6 * n + 2);
        let f: F = (0..k).map(|_| { let w = if h.rng.chance(1, 40) { 0 } else { 1 + h.rng.us(4) }; rclause(&mut h.rng, n, w, messy) }).collect();
        let sat = !models(&f, n).is_empty();
        let mut s = Solver::new(n); let cfg = configure(&mut h.rng, &mut s, n);
        let case = || format!("n={n} {cfg} f={}", show(&f)); h.case(&case(), k > 0);
        if h.guard("add", case, || for c in &f { s.add_clause(c.clone()); }).is_none() { return; }
        let budget = h.rng.below(4);
        let r1 = match h.rng.below(3) {
            0 => match h.guard("budgeted", case, || s.solve_budgeted(budget)) { Some(BudgetedResult::Sat(m)) => SolveResult::Sat(m), Some(BudgetedResult::Unsat) => SolveResult::Unsat, Some(BudgetedResult::Budget) => { h.count("budget-stop"); return budget_resume(h, s, &f, n, sat, &case) } None => return },
            1 => match h.guard("assume", case, || s.solve_under_assumptions(&[])) { Some(r) => r, None => return },
            _ => match h.guard("solve", case, || s.solve()) { Some(r) => r, None => return },
        };
        verdict(h, "solve", &f, n, Some(sat), &r1, &case);
        // asking again must not change a definite answer
        let how = h.rng.below(3);
        let r2 = match how { 0 => h.guard("again", case, || s.solve()), 1 => h.guard("again", case, || s.solve_under_assumptions(&[])), _ => h.guard("again", case, || match s.solve_budgeted(0) { BudgetedResult::Sat(m) => SolveResult::Sat(m), _ => SolveResult::Unsat }) };
        if let Some(r2) = r2 { verdict(h, "again", &f, n, Some(sat), &r2, &|| format!("second call {how}: {}", case())); }
    });
    h.rounds("assumptions", 4.0, 20_000, |h| {
        let n = 2 + h.rng.us(6); let mut f: F = vec![]; let mut s = Solver::new(n); let mut log = String::new();
        for _ in 0..1 + h.rng.us(6) {
            for _ in 0..h.rng.us(8) { let w = 1 + h.rng.us(3); let c = rclause(&mut h.rng, n, w, false); log.push_str(&show(&[c.clone()])); f.push(c.clone()); if h.guard("add", || log.clone(), || s.add_clause(c)).is_none() { return; } }
            let k = h.rng.us(4); let asm: Vec<Lit> = (0..k).map(|_| lit(h.rng.us(n), h.rng.bool())).collect();
            log.push_str(&format!(" ?{} ", show(&[asm.clone()])));
            h.case(&log, true);
            let mut g = f.clone(); for a in &asm { g.push(vec![*a]); }
            let sat = !models(&g, n).is_empty();
            match h.guard("assume", || log.clone(), || s.solve_under_assumptions(&asm)) { Some(r) => verdict(h, "assume", &g, n, Some(sat), &r, &|| log.clone()), None => return }
        }
    });
    h.rounds("planted", 6.0, 400, |h| {
        let n = 20 + h.rng.us(60); let m: Vec<bool> = (0..n).map(|_| h.rng.bool()).collect();
        let mut f = hard_formula(&mut h.rng, n, 4.3); f.retain(|c| c.iter().any(|l| m[l.var() as usize] == l.is_positive()));
        let mut s = Solver::new(n); let cfg = configure(&mut h.rng, &mut s, n); for c in &f { s.add_clause(c.clone()); }
        let case = || format!("planted n={n} {cfg} f={}", show(&f)); h.case(&case(), true);
        if let Some(r) = h.guard("solve", case, || s.solve()) { verdict(h, "planted", &f, n, Some(true), &r, &case); }
    });
    h.rounds("certified", 8.0, 300, |h| {
        // larger unsatisfiable candidates: the answer must be replayable from the original clauses alone
        let n = 12 + h.rng.us(30); let f = hard_formula(&mut h.rng, n, 4.6);
        let mut s = Solver::new(n); let cfg = configure(&mut h.rng, &mut s, n); s.set_inprocess(false); s.set_reduce(false); for c in &f { s.add_clause(c.clone()); }
        let case = || format!("certified n={n} {cfg} f={}", show(&f)); h.case(&case(), true);
        match h.guard("solve", case, || s.solve()) { Some(SolveResult::Unsat) => { let l: F = s.learned().iter().map(|c| c.lits.clone()).collect(); let mut d = dpll_unsat(&f, n); if n > 30 { d = None; } if d == Some(false) { h.violation("certified-unsat", "satisfiable formula reported unsatisfiable", case()); }
                // implied-ness of every learned clause by an independent check
                let mut l2 = l.clone(); l2.push(vec![]); if vh::panics(|| rup::check_refutation(n, &f, &l2)).unwrap_or(false) { h.count("replayed"); } }
            Some(r) => verdict(h, "certified", &f, n, None, &r, &case), None => return }
        // every configuration agrees
        let mut s2 = Solver::new(n); let cfg2 = configure(&mut h.rng, &mut s2, n); for c in &f { s2.add_clause(c.clone()); }
        let a = matches!(s.solve(), SolveResult::Sat(_)); let r2 = h.guard("solve", case, || s2.solve());
        if let Some(r2) = r2 { verdict(h, "config", &f, n, Some(a), &r2, &|| format!("{} vs {cfg2}", case())); }
    });
    h.rounds("xor", 3.0, 60_000, |h| {
        let n = 1 + h.rng.us(8); let k = h.rng.us(10);
        let eqs: Vec<(Vec<usize>, bool)> = (0..k).map(|_| ((0..h.rng.us(5)).map(|_| h.rng.us(n)).collect(), h.rng.bool())).collect();
        let ok = |m: u64| eqs.iter().all(|(vs, r)| vs.iter().fold(false, |a, &v| a ^ (m >> v & 1 == 1)) == *r);
        let sat = (0..1u64 << n).any(ok); let es: Vec<XorEquation> = eqs.iter().map(|(v, r)| XorEquation::new(v.clone(), *r)).collect();
        let c = format!("n={n} eqs={eqs:?}"); h.case(&c, k > 0);
        match h.guard("xor", || c.clone(), || xorsat::solve(&es, n)) {
            Some(XorOutcome::Sat(m)) => { h.check(m.len() >= n && ok(mbits(&m)), "xor-model", || format!("model {m:?} violates an equation"), || c.clone()); h.check(xorsat::satisfies(&es, &m), "xor-satisfies", || "own evaluation rejects the model".into(), || c.clone()); }
            Some(XorOutcome::Unsat(_)) => { h.check(!sat, "xor-unsat", || "satisfiable system reported unsatisfiable".into(), || c.clone()); }
            None => {} }
        let m = h.rng.u64(); let mv: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
        h.check(xorsat::satisfies(&es, &mv) == ok(m & ((1 << n) - 1)), "xor-eval", || "wrong evaluation".into(), || format!("{c} m={mv:?}"));
    });
    h.rounds("horn", 2.0, 80_000, |h| {
        let n = 1 + h.rng.us(6); let k = h.rng.us(3 * n + 1);
        let cs: Vec<HornClause> = (0..k).map(|_| { let w = h.rng.us(4); let body: Vec<usize> = (0..w).map(|_| h.rng.us(n)).collect(); HornClause { body, head: if h.rng.chance(1, 4) { None } else { Some(h.rng.us(n)) } } }).collect();
        let ok = |m: u64| cs.iter().all(|c| !c.body.iter().all(|&b| m >> b & 1 == 1) || c.head.is_some_and(|x| m >> x & 1 == 1));
        let least = (0..1u64 << n).filter(|&m| ok(m)).reduce(|a, b| a & b);
        let c = format!("n={n} horn={cs:?}"); h.case(&c, k > 0);
        match h.guard("horn", || c.clone(), || hornsat::solve(&cs, n)) {
            Some(HornOutcome::Sat(m)) => { h.check(m.len() == n && ok(mbits(&m)), "horn-model", || format!("model {m:?} violates a clause"), || c.clone()); h.check(least == Some(mbits(&m)), "horn-least", || format!("model {m:?} is not the least one"), || c.clone()); h.check(hornsat::satisfies(&cs, &m), "horn-satisfies", || "own evaluation rejects the model".into(), || c.clone()); }
            Some(HornOutcome::Unsat(d)) => { h.check(least.is_none(), "horn-unsat", || "satisfiable system reported unsatisfiable".into(), || c.clone()); h.check(hornsat::is_refutation(&cs, n, &d), "horn-refutation", || format!("{d:?} is not accepted"), || c.clone()); }
            None => {} }
        let (m, d): (u64, Vec<usize>) = (h.rng.u64() & ((1 << n) - 1), (0..h.rng.us(4)).map(|_| h.rng.us(k + 1)).collect()); let mv: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
        h.check(hornsat::satisfies(&cs, &mv) == ok(m), "horn-eval", || "wrong evaluation".into(), || format!("{c} m={mv:?}"));
        if least.is_some() && vh::panics(|| hornsat::is_refutation(&cs, n, &d)).unwrap_or(false) { h.violation("horn-accepts", "a refutation of a satisfiable system was accepted", format!("{c} {d:?}")); }
    });
    h.rounds("two", 2.0, 80_000, |h| {
        let n = 1 + h.rng.us(6); let k = h.rng.us(3 * n + 1);
        let l = |r: &mut Rng| twosat::Lit { var: r.us(n), pos: r.bool() };
        let cs: Vec<(twosat::Lit, twosat::Lit)> = (0..k).map(|_| { let a = l(&mut h.rng); (a, if h.rng.chance(1, 6) { a } else { l(&mut h.rng) }) }).collect();
        let ok = |m: u64| cs.iter().all(|(a, b)| (m >> a.var & 1 == 1) == a.pos || (m >> b.var & 1 == 1) == b.pos);
        let sat = (0..1u64 << n).any(ok);
        let c = format!("n={n} two={cs:?}"); h.case(&c, k > 0);
        match h.guard("two", || c.clone(), || twosat::solve(&cs, n)) {
            Some(TwoSatOutcome::Sat(m)) => { h.check(m.len() == n && ok(mbits(&m)), "two-model", || format!("model {m:?} violates a clause"), || c.clone()); h.check(twosat::satisfies(&cs, &m), "two-satisfies", || "own evaluation rejects the model".into(), || c.clone()); }
            Some(_) => { h.check(!sat, "two-unsat", || "satisfiable system reported unsatisfiable".into(), || c.clone()); }
            None => {} }
        let v = h.rng.us(n); if sat && vh::panics(|| twosat::is_refutation(&cs, n, v)).unwrap_or(false) { h.violation("two-accepts", "a refutation of a satisfiable system was accepted", format!("{c} variable {v}")); }
    });
    h.rounds("front", 8.0, 2_000, |h| {
        let n = 2 + h.rng.us(6); let k = h.rng.us(5 * n + 2); let mut f: F = (0..k).map(|_| { let w = 1 + h.rng.us(3); rclause(&mut h.rng, n, w, false) }).collect();
        match h.rng.below(4) {
            0 => { let mut g = vec![]; for _ in 0..1 + h.rng.us(3) { let mut vs: Vec<usize> = (0..n).collect(); h.rng.shuffle(&mut vs); vs.truncate(1 + h.rng.us(3)); let rhs = h.rng.bool(); for m in 0..1u64 << vs.len() { if (m.count_ones() & 1 == 1) != rhs && !h.rng.chance(1, 20) { g.push(vs.iter().enumerate().map(|(i, &v)| lit(v, m >> i & 1 == 0)).collect::<Vec<_>>()); } } } f.truncate(2); f.extend(g); }
            1 => { let p = 2 + h.rng.us(2); let q = (n / p).max(1); let mut g: F = (0..p).map(|i| (0..q).map(|j| lit(i * q + j, true)).collect()).collect(); for j in 0..q { for a in 0..p { for b in a + 1..p { if !h.rng.chance(1, 12) { g.push(vec![lit(a * q + j, false), lit(b * q + j, false)]); } } } } f.truncate(1); f.extend(g); f.retain(|c| c.iter().all(|l| (l.var() as usize) < n)); }
            _ => {} }
        let sat = !models(&f, n).is_empty();
        let c = format!("n={n} f={}", show(&f)); h.case(&c, !f.is_empty());
        let fronts: [(&str, fn(usize, &[Vec<Lit>]) -> Solved); 3] = [("structured", solve::solve_structured), ("comprehensive", solve::solve_comprehensive), ("components", solve::solve_by_components)];
        for (name, run) in fronts {
            match h.guard(name, || c.clone(), || run(n, &f)) {
                Some(Solved { answer: Answer::Sat(m), via, .. }) => { h.check(m.len() >= n && big_holds(&f, &m), &format!("{name}-model"), || format!("model {m:?} (via {via:?}) violates a clause"), || c.clone()); }
                Some(Solved { answer: Answer::Unsat, via, .. }) => { h.check(!sat, &format!("{name}-unsat"), || format!("satisfiable formula reported unsatisfiable via {via:?}"), || c.clone()); }
                None => {} }
        }
        match h.guard("certified-solver", || c.clone(), || sdcl::solve_certified(n, &f)) {
            Some(sdcl::CertifiedOutcome::Sat(m)) => { h.check(m.len() >= n && big_holds(&f, &m), "sdcl-model", || format!("model {m:?} violates a clause"), || c.clone()); }
            Some(sdcl::CertifiedOutcome::Unsat { .. }) => { h.check(!sat, "sdcl-unsat", || "satisfiable formula reported unsatisfiable".into(), || c.clone()); }
            None => {} }
        if let Some((g, _)) = h.guard("eliminate", || c.clone(), || inprocess::bve(n, &f)) { h.check(models(&g, n).is_empty() == !sat, "eliminate", || format!("simplified to {}", show(&g)), || c.clone()); }
        if let Some((g, _)) = h.guard("vivify", || c.clone(), || inprocess::vivify(n, &f)) { h.check(models(&g, n) == models(&f, n), "vivify", || format!("simplified to {}", show(&g)), || c.clone()); }
        if let Some(inprocess::EquivResult::Classes(cl)) = h.guard("equivalent-literals", || c.clone(), || inprocess::equivalent_literal_scc(n, &f)) {
            let ms = models(&f, n); let val = |m: u32, x: usize| (m >> (x / 2) & 1 == 1) == (x % 2 == 0);
            for a in 0..2 * n { for b in 0..2 * n { if cl[a] == cl[b] && ms.iter().any(|&m| val(m as u32, a) != val(m as u32, b)) { h.violation("equivalent-literals", format!("literals {a} and {b} called equivalent"), c.clone()); } } }
        }
    });
    h.rounds("formula", 9.0, 4_000, |h| {
        let n = 2 + h.rng.us(6);
        let e = if h.rng.bool() { structured(&mut h.rng, n) } else { let d = 1 + h.rng.us(4); rexpr(&mut h.rng, d, n) };
        formula_checks(h, &e, n.max(12)) ;
    });
    h.rounds("entail", 6.0, 4_000, |h| {
        let n = 1 + h.rng.us(4);
        let ps: Vec<E> = (0..h.rng.us(4)).map(|_| { let d = h.rng.us(4); rexpr(&mut h.rng, d, n) }).collect(); let d = h.rng.us(4); let g = rexpr(&mut h.rng, d, n);
        let ent = (0..1u64 << n).all(|m| !ps.iter().all(|p| ev(p, m)) || ev(&g, m));
        let c = format!("{} |= {g}", ps.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(", ")); h.case(&c, !ps.is_empty());
        if let Some(Some(b)) = h.guard("entails", || c.clone(), || cdcl_entails(&ps, &g)) { h.check(b == ent, "cdcl-entails", || format!("answered {b}"), || c.clone()); }
        if let Some(Some(v)) = h.guard("certified", || c.clone(), || entails_certified(&ps, &g)) { let b = matches!(v, rup::Verdict::Entailed); h.check(b == ent, "entails-certified", || format!("answered {b}"), || c.clone()); }
        if let Some(p) = Cnf::from_premises(&ps) { for _ in 0..2 { if let Some(Some(v)) = h.guard("prepared", || c.clone(), || entails_certified_prepared(&p, &g)) { let b = matches!(v, rup::Verdict::Entailed); h.check(b == ent, "entails-prepared", || format!("answered {b}"), || c.clone()); } } }
        let d = h.rng.us(4); let o = if h.rng.chance(1, 3) { not(not(g.clone())) } else { rexpr(&mut h.rng, d, n) };
        let same = (0..1u64 << n).all(|m| ev(&g, m) == ev(&o, m)); let c = format!("{g} === {o}");
        match h.guard("equiv", || c.clone(), || prove_equivalence(&g, &o)) { Some(EquivOutcome::Equivalent) => { h.check(same, "equivalent", || "different formulas reported equivalent".into(), || c.clone()); } Some(EquivOutcome::Differ(m)) => { h.check(!same, "differ", || format!("equal formulas reported different by {m:?}"), || c.clone()); } _ => {} }
    });
}
fn budget_resume(h: &mut H, mut s: Solver, f: &F, n: usize, sat: bool, case: &dyn Fn() -> String) {
    // resuming a budget-stopped search with a larger budget must give the right answer
    if let Some(r) = h.guard("resume", || case(), || s.solve_budgeted(0)) { let r = match r { BudgetedResult::Sat(m) => SolveResult::Sat(m), BudgetedResult::Unsat => SolveResult::Unsat, _ => return }; verdict(h, "resume", f, n, Some(sat), &r, &|| format!("after budget stop: {}", case())); }
}
/// plain DPLL; Some(true) = has no model
fn dpll_unsat(f: &F, n: usize) -> Option<bool> {
    fn go(f: &F, a: &mut Vec<Option<bool>>, fuel: &mut u64) -> Option<bool> {
        if *fuel == 0 { return None; } *fuel -= 1;
        let mut set = vec![];
        loop {
            let mut unit = None; let mut all = true;
            for c in f { let mut s = false; let mut free = None; let mut k = 0; for l in c { match a[l.var() as usize] { Some(b) if b == l.is_positive() => { s = true; break; } None => { free = Some(*l); k += 1; } _ => {} } } if s { continue; } all = false; if k == 0 { for v in set { a[v] = None; } return Some(false); } if k == 1 { unit = free; break; } }
            if all { for v in set { a[v] = None; } return Some(true); }
            match unit { Some(l) => { let l: Lit = l; a[l.var() as usize] = Some(l.is_positive()); set.push(l.var() as usize); } None => break }
        }
        let v = a.iter().position(|x| x.is_none())?;
        let mut res = Some(false);
        for b in [true, false] { a[v] = Some(b); match go(f, a, fuel) { Some(true) => { res = Some(true); break; } None => { res = None; break; } _ => {} } }
        a[v] = None; for v in set { a[v] = None; }
        res
    }
    let mut fuel = 200_000; let _ = holds;
    go(f, &mut vec![None; n], &mut fuel).map(|s| !s)
}
