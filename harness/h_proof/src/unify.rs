//! C24: unification and one-way matching against a reference union-based unifier.
use logicaffeine_proof::unify::{apply_subst_to_expr, apply_subst_to_term, match_expr_pattern, match_term_pattern, unify_exprs, unify_terms, Substitution};
use logicaffeine_proof::{ProofExpr, ProofTerm};
use std::collections::{BTreeMap, HashMap};
use vh::{Rng, H};
use ProofTerm as T;
use ProofExpr as E;

fn term(r: &mut Rng, d: usize, pre: &str, nv: usize, bref: bool) -> T {
    if d == 0 || r.chance(2, 5) { return match r.below(5) { 0 => T::Constant(r.pick(&["a", "b", "v0", "f"]).to_string()), 1 if bref => T::BoundVarRef(format!("{pre}b{}", r.us(2))), _ => T::Variable(format!("{pre}{}", r.us(nv))) }; }
    let k = r.us(4);
    let args: Vec<T> = (0..k).map(|_| term(r, d - 1, pre, nv, bref)).collect();
    if r.chance(1, 5) { T::Group(args) } else { T::Function(r.pick(&["f", "g", "h", "a"]).to_string(), args) }
}
/// replace some subterms by variables, giving a likely unifiable partner
fn blur(r: &mut Rng, t: &T, pre: &str, nv: usize) -> T {
    if r.chance(1, 4) { return T::Variable(format!("{pre}{}", r.us(nv))); }
    match t { T::Function(f, a) => T::Function(f.clone(), a.iter().map(|x| blur(r, x, pre, nv)).collect()), T::Group(a) => T::Group(a.iter().map(|x| blur(r, x, pre, nv)).collect()), t => t.clone() }
}
fn vname(t: &T) -> Option<&String> { match t { T::Variable(v) | T::BoundVarRef(v) => Some(v), _ => None } }
/// Reference: triangular solved form by repeated decomposition, then an explicit acyclicity test.
fn walk<'a>(mut t: &'a T, s: &'a BTreeMap<String, T>) -> &'a T { while let Some(v) = vname(t) { match s.get(v) { Some(x) => t = x, None => break } } t }
fn solve(eqs: &[(T, T)]) -> Option<BTreeMap<String, T>> {
    let mut s: BTreeMap<String, T> = BTreeMap::new(); let mut work: Vec<(T, T)> = eqs.to_vec(); let mut fuel = 200_000;
    while let Some((a, b)) = work.pop() {
        fuel -= 1; if fuel == 0 { return None; }
        let (a, b) = (walk(&a, &s).clone(), walk(&b, &s).clone());
        if let (Some(x), Some(y)) = (vname(&a), vname(&b)) { if x == y { continue; } }
        if let Some(v) = vname(&a) { if deep_occurs(v, &b, &s) { return None; } s.insert(v.clone(), b); continue; }
        if let Some(v) = vname(&b) { if deep_occurs(v, &a, &s) { return None; } s.insert(v.clone(), a); continue; }
        match (a, b) { (T::Constant(x), T::Constant(y)) => if x != y { return None; }, (T::Function(f, xs), T::Function(g, ys)) => { if f != g || xs.len() != ys.len() { return None; } work.extend(xs.into_iter().zip(ys)); } (T::Group(xs), T::Group(ys)) => { if xs.len() != ys.len() { return None; } work.extend(xs.into_iter().zip(ys)); } _ => return None }
    }
    Some(s)
}
fn deep_occurs(v: &str, t: &T, s: &BTreeMap<String, T>) -> bool { let t = walk(t, s); match t { T::Function(_, a) | T::Group(a) => a.iter().any(|x| deep_occurs(v, x, s)), t => vname(t).map(|x| x == v).unwrap_or(false) } }
fn size(t: &T) -> usize { match t { T::Function(_, a) | T::Group(a) => 1 + a.iter().map(size).sum::<usize>(), _ => 1 } }
fn full(t: &T, s: &HashMap<String, T>, fuel: &mut usize) -> Option<T> {
    if *fuel == 0 { return None; } *fuel -= 1;
    Some(match t { T::Function(f, a) => T::Function(f.clone(), a.iter().map(|x| full(x, s, fuel)).collect::<Option<_>>()?), T::Group(a) => T::Group(a.iter().map(|x| full(x, s, fuel)).collect::<Option<_>>()?), t => match vname(t).and_then(|v| s.get(v)) { Some(x) => full(x, s, fuel)?, None => t.clone() } })
}
fn once(t: &T, s: &HashMap<String, T>) -> T { match t { T::Function(f, a) => T::Function(f.clone(), a.iter().map(|x| once(x, s)).collect()), T::Group(a) => T::Group(a.iter().map(|x| once(x, s)).collect()), T::Variable(v) => s.get(v).cloned().unwrap_or_else(|| t.clone()), t => t.clone() } }
fn cyclic(s: &HashMap<String, T>) -> bool {
    fn vars(t: &T, o: &mut Vec<String>) { match t { T::Function(_, a) | T::Group(a) => a.iter().for_each(|x| vars(x, o)), t => if let Some(v) = vname(t) { o.push(v.clone()); } } }
    fn go(v: &str, s: &HashMap<String, T>, st: &mut Vec<String>, done: &mut Vec<String>) -> bool { if done.iter().any(|x| x == v) { return false; } if st.iter().any(|x| x == v) { return true; } st.push(v.into()); let mut o = vec![]; if let Some(t) = s.get(v) { vars(t, &mut o); } let r = o.iter().any(|x| go(x, s, st, done)); st.pop(); done.push(v.into()); r }
    let mut done = vec![]; s.keys().any(|k| go(k, s, &mut vec![], &mut done))
}

fn expr(r: &mut Rng, d: usize, pre: &str, nv: usize, scope: &mut Vec<String>, ctr: &mut usize) -> E {
    let tm = |r: &mut Rng, scope: &Vec<String>| -> T { let mut t = term(r, 2, pre, nv, false); if !scope.is_empty() { t = sprinkle(r, &t, scope); } t };
    if d == 0 || r.chance(1, 4) { return match r.below(6) { 0 => E::Atom(r.pick(&["p", "q"]).to_string()), 1 => { let (a, b) = (tm(r, scope), tm(r, scope)); E::Identity(a, b) } _ => { let k = 1 + r.us(2); let args = (0..k).map(|_| tm(r, scope)).collect(); E::Predicate { name: r.pick(&["P", "Q"]).to_string(), args, world: None } } }; }
    match r.below(7) {
        0 => E::Not(Box::new(expr(r, d - 1, pre, nv, scope, ctr))),
        k @ 1..=4 => { let a = Box::new(expr(r, d - 1, pre, nv, scope, ctr)); let b = Box::new(expr(r, d - 1, pre, nv, scope, ctr)); match k { 1 => E::And(a, b), 2 => E::Or(a, b), 3 => E::Implies(a, b), _ => E::Iff(a, b) } }
        k => { *ctr += 1; let v = format!("{pre}bound{ctr}"); scope.push(v.clone()); let b = Box::new(expr(r, d - 1, pre, nv, scope, ctr)); scope.pop(); if k == 5 { E::ForAll { variable: v, body: b } } else { E::Exists { variable: v, body: b } } }
    }
}
fn sprinkle(r: &mut Rng, t: &T, scope: &[String]) -> T { match t { T::Function(f, a) => T::Function(f.clone(), a.iter().map(|x| sprinkle(r, x, scope)).collect()), T::Group(a) => T::Group(a.iter().map(|x| sprinkle(r, x, scope)).collect()), t => if r.chance(1, 2) { T::Variable(r.pick(scope).clone()) } else { t.clone() } } }
/// like `e` with binders renamed to fresh names, free variables blurred
fn eblur(r: &mut Rng, e: &E, ren: &mut Vec<(String, String)>, pre: &str, nv: usize, ctr: &mut usize) -> E {
    fn t(r: &mut Rng, x: &T, ren: &[(String, String)], pre: &str, nv: usize) -> T { if r.chance(1, 5) { return T::Variable(format!("{pre}{}", r.us(nv))); } match x { T::Function(f, a) => T::Function(f.clone(), a.iter().map(|y| t(r, y, ren, pre, nv)).collect()), T::Group(a) => T::Group(a.iter().map(|y| t(r, y, ren, pre, nv)).collect()), T::Variable(v) => match ren.iter().rev().find(|p| &p.0 == v) { Some(p) => T::Variable(p.1.clone()), None => x.clone() }, x => x.clone() } }
    match e {
        E::Predicate { name, args, world } => E::Predicate { name: name.clone(), args: args.iter().map(|x| t(r, x, ren, pre, nv)).collect(), world: world.clone() },
        E::Identity(a, b) => { let a = t(r, a, ren, pre, nv); let b = t(r, b, ren, pre, nv); E::Identity(a, b) }
        E::And(a, b) => E::And(Box::new(eblur(r, a, ren, pre, nv, ctr)), Box::new(eblur(r, b, ren, pre, nv, ctr))),
        E::Or(a, b) => E::Or(Box::new(eblur(r, a, ren, pre, nv, ctr)), Box::new(eblur(r, b, ren, pre, nv, ctr))),
        E::Implies(a, b) => E::Implies(Box::new(eblur(r, a, ren, pre, nv, ctr)), Box::new(eblur(r, b, ren, pre, nv, ctr))),
        E::Iff(a, b) => E::Iff(Box::new(eblur(r, a, ren, pre, nv, ctr)), Box::new(eblur(r, b, ren, pre, nv, ctr))),
        E::Not(a) => E::Not(Box::new(eblur(r, a, ren, pre, nv, ctr))),
        E::ForAll { variable, body } | E::Exists { variable, body } => { *ctr += 1; let nvn = format!("{pre}ren{ctr}"); ren.push((variable.clone(), nvn.clone())); let b = Box::new(eblur(r, body, ren, pre, nv, ctr)); ren.pop(); if matches!(e, E::ForAll { .. }) { E::ForAll { variable: nvn, body: b } } else { E::Exists { variable: nvn, body: b } } }
        e => e.clone(),
    }
}
/// alpha-equality with de Bruijn matching of binders
fn aeq(a: &E, b: &E, bs: &mut Vec<(String, String)>) -> bool {
    fn t(a: &T, b: &T, bs: &[(String, String)]) -> bool { match (a, b) { (T::Variable(x), T::Variable(y)) => match bs.iter().rev().find(|p| &p.0 == x || &p.1 == y) { Some(p) => &p.0 == x && &p.1 == y, None => x == y }, (T::Function(f, x), T::Function(g, y)) => f == g && x.len() == y.len() && x.iter().zip(y).all(|(a, b)| t(a, b, bs)), (T::Group(x), T::Group(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| t(a, b, bs)), (a, b) => a == b } }
    match (a, b) {
        (E::Predicate { name: n, args: x, .. }, E::Predicate { name: m, args: y, .. }) => n == m && x.len() == y.len() && x.iter().zip(y).all(|(a, b)| t(a, b, bs)),
        (E::Identity(a, b), E::Identity(c, d)) => t(a, c, bs) && t(b, d, bs),
        (E::And(a, b), E::And(c, d)) | (E::Or(a, b), E::Or(c, d)) | (E::Implies(a, b), E::Implies(c, d)) | (E::Iff(a, b), E::Iff(c, d)) => aeq(a, c, bs) && aeq(b, d, bs),
        (E::Not(a), E::Not(b)) => aeq(a, b, bs),
        (E::ForAll { variable: v, body: a }, E::ForAll { variable: w, body: b }) | (E::Exists { variable: v, body: a }, E::Exists { variable: w, body: b }) => { bs.push((v.clone(), w.clone())); let r = aeq(a, b, bs); bs.pop(); r }
        (a, b) => a == b,
    }
}
/// flatten two formulas of the same skeleton into term equations; binders become matching rigid constants. None: skeletons differ
fn pair(a: &E, b: &E, bs: &mut Vec<(String, String)>, out: &mut Vec<(T, T)>) -> Option<()> {
    fn rigid(t: &T, bs: &[(String, String)], left: bool) -> T { match t { T::Variable(v) => match bs.iter().enumerate().rev().find(|(_, p)| if left { &p.0 == v } else { &p.1 == v }) { Some((i, _)) => T::Constant(format!("!bound{i}")), None => t.clone() }, T::Function(f, x) => T::Function(f.clone(), x.iter().map(|y| rigid(y, bs, left)).collect()), T::Group(x) => T::Group(x.iter().map(|y| rigid(y, bs, left)).collect()), t => t.clone() } }
    match (a, b) {
        (E::Atom(x), E::Atom(y)) => if x == y { Some(()) } else { None },
        (E::Predicate { name: n, args: x, .. }, E::Predicate { name: m, args: y, .. }) => { if n != m || x.len() != y.len() { return None; } for (p, q) in x.iter().zip(y) { out.push((rigid(p, bs, true), rigid(q, bs, false))); } Some(()) }
        (E::Identity(a, b), E::Identity(c, d)) => { out.push((rigid(a, bs, true), rigid(c, bs, false))); out.push((rigid(b, bs, true), rigid(d, bs, false))); Some(()) }
        (E::And(a, b), E::And(c, d)) | (E::Or(a, b), E::Or(c, d)) | (E::Implies(a, b), E::Implies(c, d)) | (E::Iff(a, b), E::Iff(c, d)) => { pair(a, c, bs, out)?; pair(b, d, bs, out) }
        (E::Not(a), E::Not(b)) => pair(a, b, bs, out),
        (E::ForAll { variable: v, body: a }, E::ForAll { variable: w, body: b }) | (E::Exists { variable: v, body: a }, E::Exists { variable: w, body: b }) => { bs.push((v.clone(), w.clone())); let r = pair(a, b, bs, out); bs.pop(); r }
        _ => None,
    }
}

fn check_pair(h: &mut H, a: &T, b: &T) {
    let c = format!("{a} =? {b}");
    let want = solve(&[(a.clone(), b.clone())]);
    h.case(&c, size(a) + size(b) > 2);
    let got = match h.guard("unify", || c.clone(), || unify_terms(a, b)) { Some(g) => g, None => return };
    match got {
        Ok(s) => {
            h.count("unifiable");
            if cyclic(&s) { h.violation("cyclic", format!("substitution {s:?} has a cycle"), c); return; }
            let (mut f1, mut f2) = (400_000, 400_000);
            if let (Some(x), Some(y)) = (full(a, &s, &mut f1), full(b, &s, &mut f2)) {
                if x != y { h.violation("not-a-unifier", format!("substitution {s:?} gives {x} and {y}"), c); return; }
                if size(&x) < 5000 { if let (Some(p), Some(q)) = (h.guard("apply", || c.clone(), || apply_subst_to_term(a, &s)), h.guard("apply", || c.clone(), || apply_subst_to_term(b, &s))) { h.check(p == x && q == y, "apply", || format!("applying {s:?} gives {p} / {q}, expected {x}"), || c.clone()); } }
            }
            if want.is_none() { h.violation("no-instance", format!("reported unifiable with {s:?} but no common instance exists"), c); }
        }
        Err(e) => { if want.is_some() { h.violation("refused", format!("common instance exists but unification failed: {e:?}"), c); } }
    }
}

pub fn c24(h: &mut H) {
    h.rounds("terms", 10.0, 300_000, |h| {
        let nv = 1 + h.rng.us(4); let d = 1 + h.rng.us(4); let bref = h.rng.chance(1, 5);
        let a = term(&mut h.rng, d, "v", nv, bref);
        let b = if h.rng.bool() { blur(&mut h.rng, &a, "v", nv) } else { let d = 1 + h.rng.us(3); term(&mut h.rng, d, "v", nv, bref) };
        let a2 = if h.rng.bool() { blur(&mut h.rng, &a, "v", nv) } else { a };
        check_pair(h, &a2, &b); check_pair(h, &b, &a2);
    });
    h.rounds("chains", 3.0, 20_000, |h| {
        // many shared variables: f(x1,..,xk) against f(t2,..) in random order
        let k = 2 + h.rng.us(5); let mut l = vec![]; let mut r = vec![];
        for i in 0..k { let j = h.rng.us(k + 1); l.push(T::Variable(format!("v{i}"))); r.push(match h.rng.below(4) { 0 => T::Variable(format!("v{j}")), 1 => T::Function("g".into(), vec![T::Variable(format!("v{j}"))]), 2 => T::Function("h".into(), vec![T::Variable(format!("v{j}")), T::Variable(format!("v{}", h.rng.us(k)))]), _ => T::Constant("a".into()) }); }
        for i in 0..k { if h.rng.chance(1, 3) { let (a, b) = (l[i].clone(), r[i].clone()); l[i] = b; r[i] = a; } }
        let mut p: Vec<usize> = (0..k).collect(); h.rng.shuffle(&mut p);
        let a = T::Function("f".into(), p.iter().map(|&i| l[i].clone()).collect()); let b = T::Function("f".into(), p.iter().map(|&i| r[i].clone()).collect());
        check_pair(h, &a, &b);
    });
    h.rounds("formulas", 8.0, 100_000, |h| {
        let nv = 1 + h.rng.us(3); let mut ctr = 0; let d = 1 + h.rng.us(3);
        let a = expr(&mut h.rng, d, "v", nv, &mut vec![], &mut ctr);
        let b = if h.rng.chance(4, 5) { eblur(&mut h.rng, &a, &mut vec![], "v", nv, &mut ctr) } else { expr(&mut h.rng, d, "v", nv, &mut vec![], &mut ctr) };
        let c = format!("{a} =? {b}");
        let mut eqs = vec![]; let rigid = pair(&a, &b, &mut vec![], &mut eqs);
        // bound variables may not escape into the answer
        let want = rigid.and_then(|_| solve(&eqs)).filter(|s| { fn esc(t: &T) -> bool { match t { T::Constant(c) => c.starts_with("!bound"), T::Function(_, a) | T::Group(a) => a.iter().any(esc), _ => false } } !s.values().any(esc) });
        h.case(&c, true);
        let got = match h.guard("unify-expr", || c.clone(), || unify_exprs(&a, &b)) { Some(g) => g, None => return };
        match got {
            Ok(s) => {
                h.count("formula-unifiable");
                if cyclic(&s) { h.violation("cyclic-formula", format!("substitution {s:?} has a cycle"), c); return; }
                if let (Some(x), Some(y)) = (h.guard("apply-expr", || c.clone(), || apply_subst_to_expr(&a, &s)), h.guard("apply-expr", || c.clone(), || apply_subst_to_expr(&b, &s))) {
                    if !aeq(&x, &y, &mut vec![]) { h.violation("not-a-unifier-formula", format!("substitution {s:?} gives {x} and {y}"), c); }
                }
            }
            Err(e) => { if want.is_some() { h.violation("refused-formula", format!("common instance exists but unification failed: {e:?}"), c); } }
        }
    });
    h.rounds("matching", 5.0, 100_000, |h| {
        let nv = 1 + h.rng.us(3); let d = 1 + h.rng.us(3);
        let p = term(&mut h.rng, d, "v", nv, false);
        let t = if h.rng.chance(3, 4) { let s: HashMap<String, T> = (0..nv).map(|i| { let pre = if h.rng.bool() { "v" } else { "w" }; (format!("v{i}"), term(&mut h.rng, 1, pre, nv, true)) }).collect(); let t = once(&p, &s); if h.rng.chance(1, 4) { blur(&mut h.rng, &t, "w", 2) } else { t } } else { term(&mut h.rng, d, "v", nv, true) };
        let c = format!("pattern {p} target {t}"); h.case(&c, size(&p) > 1);
        if let Some(Some(s)) = h.guard("match", || c.clone(), || match_term_pattern(&p, &t)) { h.count("matched"); let q = once(&p, &s); h.check(q == t, "match", || format!("substitution {s:?} turns the pattern into {q}"), || c.clone()); }
        // formulas: same, binders are matched by name
        let mut ctr = 0; let a = expr(&mut h.rng, 2, "v", nv, &mut vec![], &mut ctr);
        let b = { let s: Substitution = (0..nv).map(|i| (format!("v{i}"), term(&mut h.rng, 1, "w", nv, false))).collect(); let b = apply_subst_to_expr(&a, &s); if h.rng.chance(1, 3) { let mut c = 0; eblur_same(&mut h.rng, &b, &mut c) } else { b } };
        let c = format!("pattern {a} target {b}"); h.tick();
        if let Some(Some(s)) = h.guard("match-expr", || c.clone(), || match_expr_pattern(&a, &b)) { h.count("matched-formula"); let q = apply_subst_to_expr(&a, &s); h.check(q == b, "match-formula", || format!("substitution {s:?} turns the pattern into {q}"), || c.clone()); }
    });
}
/// change one spot of a formula's terms, keeping binder names
fn eblur_same(r: &mut Rng, e: &E, ctr: &mut usize) -> E {
    match e {
        E::Predicate { name, args, world } => { *ctr += 1; E::Predicate { name: name.clone(), args: args.iter().map(|x| if r.chance(1, 2) { blur(r, x, "w", 2) } else { x.clone() }).collect(), world: world.clone() } }
        E::And(a, b) => E::And(Box::new(eblur_same(r, a, ctr)), Box::new(eblur_same(r, b, ctr))),
        E::Or(a, b) => E::Or(Box::new(eblur_same(r, a, ctr)), Box::new(eblur_same(r, b, ctr))),
        E::Not(a) => E::Not(Box::new(eblur_same(r, a, ctr))),
        E::ForAll { variable, body } => E::ForAll { variable: variable.clone(), body: Box::new(eblur_same(r, body, ctr)) },
        E::Exists { variable, body } => E::Exists { variable: variable.clone(), body: Box::new(eblur_same(r, body, ctr)) },
        e => e.clone(),
    }
}
