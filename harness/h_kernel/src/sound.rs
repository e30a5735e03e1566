//! C10: positivity, guardedness and certificates against independent checkers.
//! `db` below is a small de Bruijn type checker (sorts, products, functions, let, a few inductives with
//! dependent elimination) written from the rules of the calculus; named terms are produced from de Bruijn
//! terms with as much shadowing as is legal, so binder handling is exercised all the time.
use logicaffeine_kernel::certificate::{self, Certificate};
use logicaffeine_kernel::positivity::{check_positivity, check_positivity_mutual};
use logicaffeine_kernel::prelude::StandardLibrary;
use logicaffeine_kernel::termination::{check_termination, check_termination_mutual};
use logicaffeine_kernel::{infer_type, recheck, Context, MutualInductive, Literal, Term, Universe};
use std::rc::Rc;
use vh::{Rng, H};

fn g(s: &str) -> Term { Term::Global(s.into()) }
fn v(s: &str) -> Term { Term::Var(s.into()) }
fn app(a: Term, b: Term) -> Term { Term::App(Box::new(a), Box::new(b)) }
fn apps(a: Term, bs: &[Term]) -> Term { bs.iter().fold(a, |x, b| app(x, b.clone())) }
fn lam(p: &str, t: Term, b: Term) -> Term { Term::Lambda { param: p.into(), param_type: Box::new(t), body: Box::new(b) } }
fn pi(p: &str, t: Term, b: Term) -> Term { Term::Pi { param: p.into(), param_type: Box::new(t), body_type: Box::new(b) } }
fn arr(t: Term, b: Term) -> Term { pi("_", t, b) }
fn prop() -> Term { Term::Sort(Universe::Prop) }
fn ty0() -> Term { Term::Sort(Universe::Type(0)) }
fn mat(d: Term, m: Term, c: Vec<Term>) -> Term { Term::Match { discriminant: Box::new(d), motive: Box::new(m), cases: c } }
fn fix(n: &str, b: Term) -> Term { Term::Fix { name: n.into(), body: Box::new(b) } }
fn cert(t: &Term, c: &Term) -> bool { certificate::recheck(&Certificate::new(t.clone(), c.clone())).is_ok() }

pub fn c10(h: &mut H) {
    let mut ctx = Context::new();
    StandardLibrary::register(&mut ctx);
    if h.group("attacks") { attacks(h, &ctx); }
    h.rounds("positivity", 4.0, 200_000, |h| positivity(h));
    h.rounds("guard", 6.0, 200_000, |h| guard(h));
    h.rounds("typing", 14.0, 60_000, |h| typing(h, &ctx));
}

// ---------------------------------------------------------------- closed proofs of false statements

fn attacks(h: &mut H, ctx: &Context) {
    let fls = g("False"); let nat = g("Nat"); let tru = g("True");
    let poly_false = pi("P", prop(), v("P"));
    let nm = |n: &str, t: Term| lam("_", g(n), t);
    let mut a: Vec<(&str, Term)> = vec![];
    for t in ["Int", "Float", "Text", "Duration", "Date", "Moment"] {
        let l = match t { "Int" => Literal::Int(5), "Float" => Literal::Float(1.5), "Text" => Literal::Text("x".into()), "Duration" => Literal::Duration(3), "Date" => Literal::Date(3), _ => Literal::Moment(3) };
        a.push(("empty match on a literal", mat(Term::Lit(l.clone()), nm(t, fls.clone()), vec![])));
        a.push(("empty match on a literal, plain motive", mat(Term::Lit(l), fls.clone(), vec![])));
    }
    a.push(("hole identity", apps(lam("A", ty0(), lam("x", v("A"), v("x"))), &[Term::Hole, Term::Lit(Literal::Int(1))])));
    a.push(("hole", Term::Hole));
    a.push(("shadowed type variable", apps(lam("A", prop(), lam("x", v("A"), lam("A", prop(), v("x")))), &[tru.clone(), g("I"), fls.clone()])));
    let ln = app(g("TList"), nat.clone());
    let f = fix("f", lam("l", ln.clone(), mat(v("l"), lam("_", ln.clone(), arr(ln.clone(), fls.clone())), vec![lam("z", ln.clone(), apps(v("f"), &[v("z"), v("z")])), lam("h", nat.clone(), lam("t", ln.clone(), lam("z", ln.clone(), apps(v("f"), &[v("t"), v("z")]))))])));
    let nil = app(g("TNil"), nat.clone());
    a.push(("parameter counted as a subterm", apps(f, &[nil.clone(), nil])));
    let p = pi("X", prop(), arr(v("X"), v("X")));
    let bx = apps(g("And"), &[p.clone(), tru.clone()]);
    let cj = apps(g("conj"), &[p.clone(), tru.clone(), lam("X", prop(), lam("y", v("X"), v("y"))), g("I")]);
    let f = fix("f", lam("b", bx.clone(), mat(v("b"), lam("_", bx.clone(), fls.clone()), vec![lam("h", p.clone(), lam("t", tru.clone(), app(v("f"), apps(v("h"), &[bx.clone(), v("b")]))))])));
    a.push(("impredicative field applied", app(f, cj)));
    // recursion that does not decrease, in every position it could hide
    let z = g("Zero"); let s = |t: Term| app(g("Succ"), t);
    let one = s(z.clone());
    let loops: Vec<Term> = vec![
        fix("f", lam("n", nat.clone(), app(v("f"), v("n")))),
        fix("f", lam("n", nat.clone(), app(v("f"), s(v("n"))))),
        fix("f", lam("n", nat.clone(), mat(v("n"), nm("Nat", fls.clone()), vec![app(v("f"), z.clone()), lam("k", nat.clone(), app(v("f"), v("k")))]))),
        fix("f", lam("n", nat.clone(), mat(v("n"), nm("Nat", fls.clone()), vec![app(v("f"), v("n")), lam("k", nat.clone(), app(v("f"), v("k")))]))),
        fix("f", lam("n", nat.clone(), mat(v("n"), nm("Nat", fls.clone()), vec![app(v("f"), one.clone()), lam("k", nat.clone(), app(v("f"), v("n")))]))),
        fix("f", lam("n", nat.clone(), mat(v("n"), nm("Nat", fls.clone()), vec![app(v("f"), one.clone()), lam("k", nat.clone(), app(v("f"), s(v("k"))))]))),
        fix("f", lam("n", nat.clone(), app(lam("n", nat.clone(), mat(v("n"), nm("Nat", fls.clone()), vec![app(v("f"), one.clone()), lam("k", nat.clone(), app(v("f"), v("k")))])), s(v("n"))))),
        fix("f", lam("n", nat.clone(), mat(v("n"), nm("Nat", fls.clone()), vec![app(v("f"), one.clone()), lam("k", nat.clone(), app(lam("k", nat.clone(), app(v("f"), v("k"))), s(v("k"))))]))),
        fix("f", lam("n", nat.clone(), app(lam("q", arr(nat.clone(), fls.clone()), app(v("q"), v("n"))), v("f")))),
        fix("f", lam("n", nat.clone(), mat(s(v("n")), nm("Nat", fls.clone()), vec![app(v("f"), z.clone()), lam("k", nat.clone(), app(v("f"), v("k")))]))),
        fix("f", lam("n", nat.clone(), Term::Let { name: "m".into(), ty: Box::new(nat.clone()), value: Box::new(s(v("n"))), body: Box::new(app(v("f"), v("m"))) })),
        fix("f", lam("n", nat.clone(), app(fix("u", lam("m", nat.clone(), mat(v("m"), nm("Nat", fls.clone()), vec![app(v("f"), v("n")), lam("k", nat.clone(), app(v("u"), v("k")))]))), v("n")))),
    ];
    for l in loops { a.push(("looping recursion", app(l, z.clone()))); }
    a.push(("recursion without an argument", fix("f", v("f"))));
    let mf = |b1: Term, b2: Term| Term::MutualFix { defs: vec![("f".into(), lam("n", nat.clone(), b1)), ("q".into(), lam("n", nat.clone(), b2))], index: 0 };
    a.push(("mutual recursion", app(mf(app(v("q"), v("n")), app(v("f"), v("n"))), z.clone())));
    a.push(("mutual recursion, one side decreasing", app(mf(mat(v("n"), nm("Nat", fls.clone()), vec![app(v("q"), z.clone()), lam("k", nat.clone(), app(v("q"), v("k")))]), app(v("f"), s(v("n")))), z.clone())));
    // case counts, wrong eliminations, missing arguments
    a.push(("match on Nat with no cases", mat(z.clone(), nm("Nat", fls.clone()), vec![])));
    a.push(("match on Bool with one case", mat(g("true"), nm("Bool", fls.clone()), vec![g("I")])));
    a.push(("match on True with no case", mat(g("I"), nm("True", fls.clone()), vec![])));
    a.push(("case of the wrong type", mat(z.clone(), nm("Nat", fls.clone()), vec![g("I"), lam("k", nat.clone(), g("I"))])));
    a.push(("motive that is not constant", mat(g("true"), lam("b", g("Bool"), mat(v("b"), nm("Bool", prop()), vec![fls.clone(), tru.clone()])), vec![g("I"), g("I")])));
    a.push(("unbound variable", v("False_elim")));
    for n in ["False", "I", "True", "Zero", "conj", "refl", "Nat", "left", "Acc_intro"] { a.push(("a constant of another type", g(n))); }
    for u in [Universe::Prop, Universe::Type(0), Universe::SProp] { a.push(("a sort", Term::Sort(u))); }
    // large elimination out of a disjunction / existential
    let tt = apps(g("Or"), &[tru.clone(), tru.clone()]);
    let pick = |d: Term| mat(d, lam("_", tt.clone(), prop()), vec![lam("_", tru.clone(), tru.clone()), lam("_", tru.clone(), fls.clone())]);
    let l = apps(g("left"), &[tru.clone(), tru.clone(), g("I")]); let r = apps(g("right"), &[tru.clone(), tru.clone(), g("I")]);
    a.push(("large elimination with proof irrelevance", apps(lam("x", pick(r.clone()), v("x")), &[app(lam("y", pick(l), v("y")), g("I"))])));
    let exn = apps(g("Ex"), &[g("Bool"), lam("_", g("Bool"), tru.clone())]);
    let w = |b: &str| apps(g("witness"), &[g("Bool"), lam("_", g("Bool"), tru.clone()), g(b), g("I")]);
    let pe = |d: Term| mat(d, lam("_", exn.clone(), prop()), vec![lam("x", g("Bool"), lam("_", tru.clone(), mat(v("x"), nm("Bool", prop()), vec![tru.clone(), fls.clone()])))]);
    a.push(("large elimination of an existential", apps(lam("x", pe(w("false")), v("x")), &[app(lam("y", pe(w("true")), v("y")), g("I"))])));
    // names that coincide with names used inside the kernel
    for arg in ["__arg0", "__arg1", "p", "q", "x", "P", "Q", "A", "proof"] {
        let ex = apps(g("Ex"), &[nat.clone(), lam("m", nat.clone(), apps(g("Eq"), &[nat.clone(), v("m"), v(arg)]))]);
        let t = lam(arg, nat.clone(), lam("e", ex.clone(), mat(v("e"), lam("_", ex.clone(), apps(g("Eq"), &[nat.clone(), v(arg), z.clone()])), vec![lam("m", nat.clone(), lam("pf", apps(g("Eq"), &[nat.clone(), v("m"), v(arg)]), apps(g("refl"), &[nat.clone(), z.clone()])))])));
        a.push(("bound name reused by the eliminator", t));
        let or = apps(g("Or"), &[v(arg), fls.clone()]);
        a.push(("parameter name reused by the eliminator", apps(lam(arg, prop(), lam("o", or.clone(), mat(v("o"), lam("_", or.clone(), fls.clone()), vec![lam("h", fls.clone(), v("h")), lam("h", fls.clone(), v("h"))]))), &[tru.clone(), apps(g("left"), &[tru.clone(), fls.clone(), g("I")])])));
        let or2 = apps(g("Or"), &[fls.clone(), v(arg)]);
        a.push(("parameter name reused by the eliminator", apps(lam(arg, prop(), lam("o", or2.clone(), mat(v("o"), lam("_", or2.clone(), fls.clone()), vec![lam("h", fls.clone(), v("h")), lam("h", fls.clone(), v("h"))]))), &[tru.clone(), apps(g("right"), &[fls.clone(), tru.clone(), g("I")])])));
    }
    // comparing types up to renaming must not confuse binders
    for (x, y) in [("A", "B"), ("B", "A"), ("A", "A")] {
        let t1 = pi(x, prop(), arr(v("A"), v("A")));
        let t2 = pi(y, prop(), arr(v("A"), v("B")));
        a.push(("binder confusion", apps(lam("A", prop(), lam("B", prop(), lam("k", t2.clone(), apps(v("k"), &[tru.clone(), g("I")])))), &[tru.clone(), fls.clone(), lam("A", prop(), lam("w", tru.clone(), v("w")))])));
        let _ = t1;
        let k1 = lam("A", prop(), lam("x", v("A"), lam(x, prop(), lam("y", v(x), v("x")))));
        a.push(("binder confusion", apps(k1, &[tru.clone(), g("I"), fls.clone()])));
    }
    let eq = |a: Term, b: Term, t: Term| apps(g("Eq"), &[t, a, b]);
    let claims = vec![fls.clone(), poly_false, eq(z.clone(), one.clone(), nat.clone()), eq(g("true"), g("false"), g("Bool")), arr(tru.clone(), fls.clone()), pi("n", nat.clone(), apps(g("Eq"), &[nat.clone(), v("n"), z.clone()])), pi("A", prop(), pi("B", prop(), arr(v("A"), v("B"))))];
    // valid small proofs: none of them may be accepted for a false claim
    a.push(("refl", apps(g("refl"), &[nat.clone(), z.clone()])));
    a.push(("identity", lam("A", prop(), lam("x", v("A"), v("x")))));
    a.push(("trivial", lam("x", tru.clone(), g("I"))));
    a.push(("constant function", lam("n", nat.clone(), apps(g("refl"), &[nat.clone(), z.clone()]))));
    a.push(("constant function", lam("n", nat.clone(), apps(g("refl"), &[nat.clone(), v("n")]))));
    a.push(("swapped", lam("A", prop(), lam("B", prop(), lam("x", v("A"), v("x"))))));
    a.push(("swapped", lam("A", prop(), lam("B", prop(), lam("x", v("B"), v("x"))))));
    for (n, t) in &a {
        let mut cl: Vec<Term> = claims.clone();
        // what an application to an arbitrary claim would give
        for c in &claims { if let Term::Pi { .. } = c { } }
        cl.push(pi("x", nat.clone(), g("False")));
        for c in &cl {
            let case = format!("{t} : {c}"); h.case(&case, true);
            if let Some(ok) = h.guard("certificate", || case.clone(), || cert(t, c)) { h.check(!ok, "false-certificate", || format!("certificate of a false statement accepted ({n})"), || case.clone()); }
        }
        // and never under the type either checker computes, when that type is a false claim
        for (who, r) in [("infer_type", infer_type(ctx, t).ok()), ("recheck", recheck(ctx, t).ok())] {
            if let Some(ty) = r { let bad = ty == fls; h.check(!bad, "false-inhabitant", || format!("{who} gives a closed term the type False ({n})"), || format!("{t}")); }
        }
    }
    // no universe is a member of itself or of a smaller one
    let us = [Universe::Prop, Universe::Type(0), Universe::Type(1), Universe::Type(7), Universe::Type(u32::MAX - 1), Universe::Type(u32::MAX)];
    for (i, x) in us.iter().enumerate() { for y in &us[..=i] {
        let (t, c) = (Term::Sort(x.clone()), Term::Sort(y.clone())); let case = format!("{t} : {c}"); h.case(&case, true);
        if let Some(ok) = h.guard("universe", || case.clone(), || cert(&t, &c)) { h.check(!ok, "universe", || "a universe is accepted as a member of a universe no larger than itself".into(), || case.clone()); }
    } }
    // sanity: honest certificates still pass
    for (t, c) in [(g("I"), tru.clone()), (lam("A", prop(), lam("x", v("A"), v("x"))), pi("B", prop(), arr(v("B"), v("B")))), (apps(g("refl"), &[nat.clone(), z.clone()]), eq(z.clone(), z.clone(), nat.clone()))] {
        h.count(if cert(&t, &c) { "honest accepted" } else { "honest rejected" });
    }
}

// ---------------------------------------------------------------- strict positivity

fn occ(block: &[&str], t: &Term) -> bool {
    match t {
        Term::Global(n) => block.contains(&n.as_str()),
        Term::Pi { param_type: a, body_type: b, .. } | Term::Lambda { param_type: a, body: b, .. } => occ(block, a) || occ(block, b),
        Term::App(f, x) => occ(block, f) || occ(block, x),
        Term::Let { ty, value, body, .. } => occ(block, ty) || occ(block, value) || occ(block, body),
        Term::Match { discriminant, motive, cases } => occ(block, discriminant) || occ(block, motive) || cases.iter().any(|c| occ(block, c)),
        Term::Fix { body, .. } => occ(block, body),
        Term::MutualFix { defs, .. } => defs.iter().any(|d| occ(block, &d.1)),
        _ => false,
    }
}
/// Substitution for terms whose binders are all distinct and whose replacement is closed or uses only outer names.
fn sub(t: &Term, x: &str, r: &Term) -> Term {
    let s = |t: &Term| Box::new(sub(t, x, r));
    match t {
        Term::Var(n) if n == x => r.clone(),
        Term::Pi { param, param_type, body_type } => Term::Pi { param: param.clone(), param_type: s(param_type), body_type: if param == x { body_type.clone() } else { s(body_type) } },
        Term::Lambda { param, param_type, body } => Term::Lambda { param: param.clone(), param_type: s(param_type), body: if param == x { body.clone() } else { s(body) } },
        Term::App(f, a) => Term::App(s(f), s(a)),
        Term::Let { name, ty, value, body } => Term::Let { name: name.clone(), ty: s(ty), value: s(value), body: if name == x { body.clone() } else { s(body) } },
        Term::Match { discriminant, motive, cases } => Term::Match { discriminant: s(discriminant), motive: s(motive), cases: cases.iter().map(|c| *s(c)).collect() },
        _ => t.clone(),
    }
}
fn nf(t: &Term) -> Term {
    match t {
        Term::App(f, a) => { let f = nf(f); if let Term::Lambda { param, body, .. } = &f { nf(&sub(body, param, a)) } else { app(f, nf(a)) } }
        Term::Pi { param, param_type, body_type } => pi(param, nf(param_type), nf(body_type)),
        Term::Lambda { param, param_type, body } => lam(param, nf(param_type), nf(body)),
        Term::Let { name, value, body, .. } => nf(&sub(body, name, value)),
        Term::Match { discriminant, motive, cases } => mat(nf(discriminant), nf(motive), cases.iter().map(nf).collect()),
        _ => t.clone(),
    }
}
/// Strictly positive argument type (definition): no occurrence, or Π-telescope without occurrences ending in
/// a block member applied to arguments without occurrences.
fn sp_arg(block: &[&str], t: &Term) -> bool {
    if !occ(block, t) { return true; }
    match t {
        Term::Pi { param_type, body_type, .. } => !occ(block, param_type) && sp_arg(block, body_type),
        _ => { let mut hd = t; while let Term::App(f, a) = hd { if occ(block, a) { return false; } hd = f; } matches!(hd, Term::Global(n) if block.contains(&n.as_str())) }
    }
}
fn sp_ctor(block: &[&str], t: &Term) -> bool {
    match t {
        Term::Pi { param_type, body_type, .. } => sp_arg(block, param_type) && sp_ctor(block, body_type),
        Term::Match { cases, .. } => cases.iter().all(|c| sp_ctor(block, c)),
        Term::Lambda { body, .. } => sp_ctor(block, body),
        _ => true,
    }
}
struct PG { n: usize, block: usize }
impl PG {
    fn name(&mut self) -> String { self.n += 1; format!("v{}", self.n) }
    fn member(&self, r: &mut Rng) -> Term { g(["T", "U"][r.us(self.block)]) }
    fn leaf(&mut self, r: &mut Rng, env: &[String], neg: bool) -> Term {
        match r.below(if neg { 6 } else { 4 }) { 0 if !env.is_empty() => v(r.pick(env)), 0 | 1 => g("X"), 2 => app(g("F"), g("X")), 3 => g("False"), _ => self.member(r) }
    }
    fn ty(&mut self, r: &mut Rng, d: usize, env: &mut Vec<String>) -> Term {
        if d == 0 { let neg = r.chance(2, 3); return self.leaf(r, env, neg); }
        match r.below(9) {
            0..=3 => { let a = self.ty(r, d - 1, env); let n = self.name(); env.push(n.clone()); let b = self.ty(r, d - 1, env); env.pop(); pi(&n, a, b) }
            4 => { let f = if r.chance(1, 2) { self.member(r) } else { g("F") }; let a = self.ty(r, d - 1, env); app(f, a) }
            5 => { let n = self.name(); let k = if r.bool() { prop() } else { ty0() }; env.push(n.clone()); let b = self.ty(r, d - 1, env); env.pop(); let a = self.ty(r, d - 1, &mut vec![]); app(lam(&n, k, b), a) }
            6 => { let n = self.name(); env.push(n.clone()); let b = self.ty(r, d - 1, env); env.pop(); let a = self.ty(r, d - 1, &mut vec![]); Term::Let { name: n, ty: Box::new(prop()), value: Box::new(a), body: Box::new(b) } }
            7 if r.chance(1, 3) => { let a = self.ty(r, d - 1, env); let b = self.ty(r, d - 1, env); mat(g("true"), lam("b", g("Bool"), prop()), vec![a, b]) }
            _ => { let neg = r.bool(); self.leaf(r, env, neg) }
        }
    }
    fn ctor(&mut self, r: &mut Rng) -> Term {
        let k = r.us(4); let mut doms = vec![]; let mut env = vec![];
        for _ in 0..k { let d = r.us(4); let t = self.ty(r, d, &mut env); let n = self.name(); env.push(n.clone()); doms.push((n, t)); }
        let mut res = g("T");
        if r.chance(1, 4) { res = app(g("T"), g("X")); }
        if r.chance(1, 10) { let d = r.us(3); res = self.ty(r, d, &mut env); }
        for (n, t) in doms.into_iter().rev() { res = if r.chance(1, 14) { let w = self.name(); app(lam(&w, prop(), pi(&n, v(&w), res)), t) } else { pi(&n, t, res) }; }
        res
    }
}
fn positivity(h: &mut H) {
    let block = 1 + h.rng.us(2);
    let mut pg = PG { n: 0, block };
    let t = pg.ctor(&mut h.rng);
    let names: &[&str] = if block == 1 { &["T"] } else { &["T", "U"] };
    let ok = if block == 1 && h.rng.bool() { check_positivity("T", "c", &t).is_ok() } else { check_positivity_mutual(names, "c", &t).is_ok() };
    let good = sp_ctor(names, &nf(&t));
    let case = format!("block {names:?}, constructor type {t}"); h.case(&case, ok && occ(names, &t));
    h.check(!ok || good, "positivity", || "accepted, but a defined type occurs in a position that is not strictly positive".into(), || case.clone());
    if h.rng.chance(1, 8) {
        // the same decision through the declaration entry points
        let mut c = Context::new();
        c.add_inductive("X", prop()); c.add_inductive("False", prop()); c.add_inductive("F", arr(prop(), prop())); c.add_inductive("Bool", ty0()); c.add_constructor("true", "Bool", g("Bool")); c.add_constructor("false", "Bool", g("Bool"));
        let m = |n: &str, cs: Vec<(String, Term)>| MutualInductive { name: n.into(), sort: prop(), num_params: 0, constructors: cs };
        let entry = if block == 1 { c.add_inductive("T", prop()); c.add_constructor_checked("c", "T", t.clone()).is_ok() } else { c.add_mutual_inductives(&[m("T", vec![("c".into(), t.clone())]), m("U", vec![])]).is_ok() };
        h.check(!entry || good, "declaration", || "declaration accepted, but a defined type occurs in a position that is not strictly positive".into(), || case.clone());
    }
}

// ---------------------------------------------------------------- structural recursion

/// inductive, constructors as lists of fields; a field is: 0 other, 1 the inductive, 2 a function into it
const INDS: [(&str, usize, &[&[u8]]); 6] = [("N", 0, &[&[], &[1]]), ("L", 1, &[&[], &[0, 1]]), ("W", 0, &[&[], &[2]]), ("B", 0, &[&[], &[1, 1]]), ("K", 2, &[&[3, 0]]), ("R", 1, &[&[0, 2, 1]])];
fn guard_ctx() -> Context {
    let mut c = Context::new();
    c.add_inductive("False", prop());
    for (n, params, ctors) in INDS {
        let mut s = ty0(); for _ in 0..params { s = arr(ty0(), s); }
        c.add_inductive(n, s);
        let ps = ["p", "q"]; let me = (0..params).fold(g(n), |t, i| app(t, v(ps[i])));
        for (i, fs) in ctors.iter().enumerate() {
            let mut t = me.clone();
            for f in fs.iter().rev() { let d = match f { 1 => me.clone(), 2 => arr(g("N"), me.clone()), 3 => pi("Z", ty0(), arr(v("Z"), v("Z"))), _ => if params > 0 { v("p") } else { g("N") } }; t = arr(d, t); }
            for p in (0..params).rev() { t = pi(ps[p], ty0(), t); }
            c.add_constructor(&format!("{n}{i}"), n, t);
        }
    }
    c
}
#[derive(Clone, Debug)]
enum D { V(usize), G(String), L(Box<D>, Box<D>), P(Box<D>, Box<D>), A(Box<D>, Box<D>), M(Box<D>, Box<D>, Vec<D>), F(Vec<D>), Let(Box<D>, Box<D>, Box<D>), O }
fn dbr(t: &Term, env: &mut Vec<String>) -> D {
    let b = |t: &Term, env: &mut Vec<String>| Box::new(dbr(t, env));
    match t {
        Term::Var(n) => match env.iter().rposition(|x| x == n) { Some(p) => D::V(env.len() - 1 - p), None => D::G(n.clone()) },
        Term::Global(n) => D::G(n.clone()),
        Term::Lambda { param, param_type, body } => { let a = b(param_type, env); env.push(param.clone()); let x = b(body, env); env.pop(); D::L(a, x) }
        Term::Pi { param, param_type, body_type } => { let a = b(param_type, env); env.push(param.clone()); let x = b(body_type, env); env.pop(); D::P(a, x) }
        Term::App(f, x) => D::A(b(f, env), b(x, env)),
        Term::Match { discriminant, motive, cases } => D::M(b(discriminant, env), b(motive, env), cases.iter().map(|c| dbr(c, env)).collect()),
        Term::Fix { name, body } => { env.push(name.clone()); let x = dbr(body, env); env.pop(); D::F(vec![x]) }
        Term::MutualFix { defs, .. } => { for d in defs { env.push(d.0.clone()); } let x = defs.iter().map(|d| dbr(&d.1, env)).collect(); for _ in defs { env.pop(); } D::F(x) }
        Term::Let { name, ty, value, body } => { let t = b(ty, env); let v = b(value, env); env.push(name.clone()); let x = b(body, env); env.pop(); D::Let(t, v, x) }
        _ => D::O,
    }
}
/// per level (from the outside): what is known about the variable bound there
#[derive(Clone, Copy, PartialEq)]
enum K { Other, Rec(usize), Struct(usize), Small(Option<usize>, bool) } // Struct/Small carry the inductive
fn ok_calls(t: &D, env: &mut Vec<K>, pos: &[usize]) -> bool {
    match t {
        D::V(i) => !matches!(env[env.len() - 1 - i], K::Rec(_)),
        D::G(_) | D::O => true,
        D::A(..) => {
            let (mut hd, mut args) = (t, vec![]);
            while let D::A(f, x) = hd { args.push(&**x); hd = f; }
            args.reverse();
            if let D::V(i) = hd {
                if let K::Rec(m) = env[env.len() - 1 - i] {
                    let Some(a) = args.get(pos[m]) else { return false };
                    let (mut ah, mut n) = (*a, 0); while let D::A(f, _) = ah { ah = f; n += 1; }
                    let small = match ah { D::V(j) => match env[env.len() - 1 - j] { K::Small(_, fun) => n == 0 || fun, _ => false }, _ => false };
                    return small && args.iter().all(|x| ok_calls(x, env, pos));
                }
            }
            ok_calls(hd, env, pos) && args.iter().all(|x| ok_calls(x, env, pos))
        }
        D::L(a, b) | D::P(a, b) => ok_calls(a, env, pos) && { env.push(K::Other); let r = ok_calls(b, env, pos); env.pop(); r },
        D::F(ds) => { for _ in ds { env.push(K::Other); } let r = ds.iter().all(|d| ok_calls(d, env, pos)); for _ in ds { env.pop(); } r }
        D::Let(a, b, c) => ok_calls(a, env, pos) && ok_calls(b, env, pos) && { env.push(K::Other); let r = ok_calls(c, env, pos); env.pop(); r },
        D::M(d, m, cs) => {
            if !ok_calls(m, env, pos) || !ok_calls(d, env, pos) { return false; }
            let ind = if let D::V(i) = &**d { match env[env.len() - 1 - i] { K::Struct(k) => Some(k), K::Small(k, false) => k, _ => None } } else { None };
            cs.iter().enumerate().all(|(ci, c)| {
                let Some(k) = ind else { return ok_calls(c, env, pos) };
                let fields = INDS[k].2.get(ci).copied().unwrap_or(&[]);
                let n0 = env.len(); let mut cur = c; let mut good = true;
                for f in fields { if let D::L(a, b) = cur { good &= ok_calls(a, env, pos); env.push(K::Small(if *f == 1 { Some(k) } else { None }, *f == 2)); cur = b; } else { break; } }
                let r = good && ok_calls(cur, env, pos); env.truncate(n0); r
            })
        }
    }
}
fn head_ind(t: &D) -> Option<usize> { let mut h = t; while let D::A(f, _) = h { h = f; } if let D::G(n) = h { INDS.iter().position(|x| x.0 == n) } else { None } }
fn telescope(t: &D) -> Vec<Option<usize>> { let mut v = vec![]; let mut c = t; while let D::L(a, b) = c { v.push(head_ind(a)); c = b; } v }
/// Is there a choice of decreasing positions under which every recursive call is on a smaller argument?
fn terminates(bodies: &[D]) -> bool {
    let tel: Vec<Vec<Option<usize>>> = bodies.iter().map(telescope).collect();
    fn go(bodies: &[D], tel: &[Vec<Option<usize>>], pos: &mut Vec<usize>) -> bool {
        if pos.len() < bodies.len() {
            let m = pos.len();
            for p in 0..tel[m].len() { if tel[m][p].is_some() { pos.push(p); if go(bodies, tel, pos) { return true; } pos.pop(); } }
            return false;
        }
        bodies.iter().enumerate().all(|(m, b)| {
            let mut env: Vec<K> = (0..bodies.len()).map(K::Rec).collect();
            let mut cur = b; let mut good = true;
            for p in 0..=pos[m] { if let D::L(a, x) = cur { good &= ok_calls(a, &mut env, pos); env.push(if p == pos[m] { K::Struct(tel[m][p].unwrap()) } else { K::Other }); cur = x; } }
            good && ok_calls(cur, &mut env, pos)
        })
    }
    go(bodies, &tel, &mut vec![])
}
struct GG { recs: Vec<&'static str> }
const VN: [&str; 5] = ["n", "m", "x", "y", "f"];
impl GG {
    fn ity(&self, r: &mut Rng) -> Term { let (n, p, _) = *r.pick(&INDS); (0..p).fold(g(n), |t, _| app(t, g("N"))) }
    fn call(&self, r: &mut Rng, d: usize, env: &[(&'static str, Option<usize>)]) -> Term {
        let f = *r.pick(&self.recs); let n = 1 + r.us(2); let mut t = v(f);
        for _ in 0..n { let a = if r.chance(3, 4) && !env.is_empty() { let x = v(r.pick(env).0); if r.chance(1, 5) { app(x, g("N0")) } else { x } } else { self.body(r, d.saturating_sub(1), env) }; t = app(t, a); }
        t
    }
    fn body(&self, r: &mut Rng, d: usize, env: &[(&'static str, Option<usize>)]) -> Term {
        if d == 0 { return match r.below(6) { 0 => g("N0"), 1 if r.chance(1, 6) => v(*r.pick(&self.recs)), _ if env.is_empty() => g("N0"), _ => v(r.pick(env).0) }; }
        match r.below(12) {
            0..=4 => {
                // match, preferably on a variable
                let ivars: Vec<_> = env.iter().filter(|e| e.1.is_some()).collect();
                let (disc, k) = if !ivars.is_empty() && r.chance(4, 5) { let e = **r.pick(&ivars); (v(e.0), e.1.unwrap()) } else { (self.body(r, d - 1, env), r.us(INDS.len())) };
                let cases = INDS[k].2.iter().map(|fs| {
                    let mut e2 = env.to_vec(); let mut names = vec![]; let extra = if r.chance(1, 6) { 1 } else { 0 };
                    for i in 0..fs.len() + extra { let n = *r.pick(&VN); e2.retain(|x| x.0 != n); e2.push((n, if i < fs.len() && fs[i] == 1 { Some(k) } else { None })); names.push(n); }
                    let mut b = if r.chance(2, 3) { self.call(r, d - 1, &e2) } else { self.body(r, d - 1, &e2) };
                    for n in names.into_iter().rev() { let t = if r.chance(1, 14) { app(lam("_", g("N"), g("N")), self.call(r, 0, env)) } else { self.ity(r) }; b = lam(n, t, b); }
                    b
                }).collect();
                let mo = if r.chance(1, 12) { self.call(r, 0, env) } else { lam("_", g("N"), g("N")) };
                mat(disc, mo, cases)
            }
            5..=7 => self.call(r, d, env),
            8 => { let n = *r.pick(&VN); let t = self.ity(r); let mut e2 = env.to_vec(); e2.retain(|x| x.0 != n); e2.push((n, None)); let b = self.body(r, d - 1, &e2); let a = self.body(r, d - 1, env); app(lam(n, t, b), a) }
            9 => { let n = *r.pick(&VN); let mut e2 = env.to_vec(); e2.retain(|x| x.0 != n); e2.push((n, None)); let b = self.body(r, d - 1, &e2); let a = self.body(r, d - 1, env); if r.bool() { Term::Let { name: n.into(), ty: Box::new(g("N")), value: Box::new(a), body: Box::new(b) } } else { pi(n, a, b) } }
            10 => { let n = *r.pick(&VN); let m = *r.pick(&VN); let mut e2 = env.to_vec(); e2.retain(|x| x.0 != n && x.0 != m); e2.push((m, Some(0))); let b = self.body(r, d - 1, &e2); let fx = fix(n, lam(m, g("N"), b)); if r.bool() { fx } else { Term::MutualFix { defs: vec![(n.into(), lam(m, g("N"), v(m))), ("k".into(), if let Term::Fix { body, .. } = fx { *body } else { unreachable!() })], index: 0 } } }
            _ => { let a = self.body(r, d - 1, env); let b = self.body(r, d - 1, env); app(a, b) }
        }
    }
    fn def(&self, r: &mut Rng, d: usize) -> Term {
        let n = 1 + r.us(3); let mut env: Vec<(&'static str, Option<usize>)> = vec![]; let mut doms = vec![];
        for _ in 0..n { let nm = *r.pick(&VN); let k = r.us(INDS.len()); let ind = r.chance(4, 5); let t = if ind { (0..INDS[k].1).fold(g(INDS[k].0), |t, _| app(t, g("N"))) } else { arr(g("N"), g("N")) }; let t = if r.chance(1, 30) { app(t, self.call(r, 0, &env)) } else { t }; env.retain(|x| x.0 != nm); env.push((nm, if ind { Some(k) } else { None })); doms.push((nm, t)); }
        // most bodies start by matching on one of the arguments
        let mut b = self.body(r, d, &env);
        for (n, t) in doms.into_iter().rev() { b = lam(n, t, b); }
        b
    }
}
fn guard(h: &mut H) {
    thread_local! { static C: Context = guard_ctx(); }
    let mutual = h.rng.chance(1, 3);
    let gg = GG { recs: if mutual { vec!["f", "k"] } else { vec!["f"] } };
    let d = 1 + h.rng.us(4);
    let b1 = gg.def(&mut h.rng, d);
    if mutual {
        let b2 = gg.def(&mut h.rng, d); let defs = vec![("f".to_string(), b1), ("k".to_string(), b2)];
        let ok = C.with(|c| check_termination_mutual(c, &defs).is_ok());
        let ds: Vec<D> = defs.iter().map(|x| dbr(&x.1, &mut vec!["f".into(), "k".into()])).collect();
        let case = format!("mutual f := {} and k := {}", defs[0].1, defs[1].1); h.case(&case, ok);
        h.check(!ok || terminates(&ds), "mutual-guard", || "accepted, but some recursive call is not on a smaller argument".into(), || case.clone());
    } else {
        let ok = C.with(|c| check_termination(c, "f", &b1).is_ok());
        let ds = vec![dbr(&b1, &mut vec!["f".into()])];
        let case = format!("fix f := {b1}"); h.case(&case, ok);
        h.check(!ok || terminates(&ds), "guard", || "accepted, but some recursive call is not on a smaller argument".into(), || case.clone());
    }
}

// ---------------------------------------------------------------- typing against an independent checker

/// de Bruijn terms; sorts are 0 = Prop, n+1 = Type n
#[derive(Clone, Debug, PartialEq)]
enum T { S(u32), V(usize), C(&'static str), Pi(Rc<T>, Rc<T>), L(Rc<T>, Rc<T>), A(Rc<T>, Rc<T>), Let(Rc<T>, Rc<T>, Rc<T>), M(Rc<T>, Rc<T>, Vec<T>) }
use T::*;
fn ra(t: T) -> Rc<T> { Rc::new(t) }
fn ap(f: T, x: T) -> T { A(ra(f), ra(x)) }
fn aps(f: T, xs: &[T]) -> T { xs.iter().fold(f, |f, x| ap(f, x.clone())) }
fn shift(t: &T, by: isize, from: usize) -> T {
    let s = |t: &Rc<T>, k: usize| ra(shift(t, by, from + k));
    match t { V(i) if *i >= from => V((*i as isize + by) as usize), S(_) | V(_) | C(_) => t.clone(), Pi(a, b) => Pi(s(a, 0), s(b, 1)), L(a, b) => L(s(a, 0), s(b, 1)), A(a, b) => A(s(a, 0), s(b, 0)), Let(a, b, c) => Let(s(a, 0), s(b, 0), s(c, 1)), M(a, b, c) => M(s(a, 0), s(b, 0), c.iter().map(|c| shift(c, by, from)).collect()) }
}
fn subst(t: &T, d: usize, r: &T) -> T {
    let s = |t: &Rc<T>, k: usize| ra(subst(t, d + k, r));
    match t { V(i) => if *i == d { shift(r, d as isize, 0) } else if *i > d { V(i - 1) } else { V(*i) }, S(_) | C(_) => t.clone(), Pi(a, b) => Pi(s(a, 0), s(b, 1)), L(a, b) => L(s(a, 0), s(b, 1)), A(a, b) => A(s(a, 0), s(b, 0)), Let(a, b, c) => Let(s(a, 0), s(b, 0), s(c, 1)), M(a, b, c) => M(s(a, 0), s(b, 0), c.iter().map(|c| subst(c, d, r)).collect()) }
}
struct Ind { name: &'static str, params: usize, ctors: &'static [&'static str], subsingleton: bool }
const TI: [Ind; 6] = [
    Ind { name: "True", params: 0, ctors: &["I"], subsingleton: true }, Ind { name: "False", params: 0, ctors: &[], subsingleton: true },
    Ind { name: "And", params: 2, ctors: &["conj"], subsingleton: true }, Ind { name: "Or", params: 2, ctors: &["left", "right"], subsingleton: false },
    Ind { name: "Bool", params: 0, ctors: &["true", "false"], subsingleton: false }, Ind { name: "Nat", params: 0, ctors: &["Zero", "Succ"], subsingleton: false },
];
fn arrow(a: T, b: T) -> T { Pi(ra(a), ra(shift(&b, 1, 0))) }
fn const_type(n: &str) -> T {
    let two = |b: T| Pi(ra(S(0)), ra(Pi(ra(S(0)), ra(b))));
    let pair = |c: &'static str, k: usize| aps(C(c), &[V(1 + k), V(k)]);
    match n {
        "True" | "False" => S(0), "I" => C("True"), "Bool" | "Nat" => S(1), "true" | "false" => C("Bool"), "Zero" => C("Nat"), "Succ" => arrow(C("Nat"), C("Nat")),
        "And" | "Or" => two(S(0)), "conj" => two(arrow(V(1), arrow(V(0), pair("And", 0)))), "left" => two(arrow(V(1), pair("Or", 0))), "right" => two(arrow(V(0), pair("Or", 0))),
        _ => unreachable!("{n}"),
    }
}
/// remaining steps; whether case binders take their type from the constructor whatever their annotation says
struct Fuel(u32, bool);
type R<X> = Result<X, String>;
fn whnf(t: &T, f: &mut Fuel) -> R<T> {
    if f.0 == 0 { return Err("fuel".into()); } f.0 -= 1;
    match t {
        A(g, x) => { let g = whnf(g, f)?; if let L(_, b) = &g { whnf(&subst(b, 0, x), f) } else { Ok(A(ra(g), x.clone())) } }
        Let(_, x, b) => whnf(&subst(b, 0, x), f),
        M(d, m, cs) => {
            let d = whnf(d, f)?; let (hd, args) = spine(&d);
            if let C(c) = hd { for i in &TI { if let Some(p) = i.ctors.iter().position(|x| *x == c) { if p < cs.len() && args.len() >= i.params { return whnf(&aps(cs[p].clone(), &args[i.params..]), f); } } } }
            Ok(M(ra(d), m.clone(), cs.clone()))
        }
        _ => Ok(t.clone()),
    }
}
fn spine(t: &T) -> (T, Vec<T>) { let (mut h, mut a) = (t.clone(), vec![]); while let A(f, x) = h { a.push((*x).clone()); h = (*f).clone(); } a.reverse(); (h, a) }
fn conv(env: &mut Vec<T>, a: &T, b: &T, sub: bool, f: &mut Fuel) -> R<bool> {
    if a == b { return Ok(true); }
    let (a, b) = (whnf(a, f)?, whnf(b, f)?);
    if a == b { return Ok(true); }
    let r = match (&a, &b) {
        (S(i), S(j)) => if sub { i <= j } else { i == j },
        (Pi(x, y), Pi(z, w)) => { let d = if sub { conv(env, z, x, true, f)? } else { conv(env, x, z, false, f)? }; d && { env.push((**z).clone()); let r = conv(env, y, w, sub, f); env.pop(); r? } }
        (L(x, y), L(_, w)) => { env.push((**x).clone()); let r = conv(env, y, w, false, f); env.pop(); r? }
        (L(x, y), o) | (o, L(x, y)) => { let e = ap(shift(o, 1, 0), V(0)); env.push((**x).clone()); let r = conv(env, y, &e, false, f); env.pop(); r? }
        (A(x, y), A(z, w)) => conv(env, x, z, false, f)? && conv(env, y, w, false, f)?,
        (M(x, m, c), M(y, n, d)) => c.len() == d.len() && conv(env, x, y, false, f)? && conv(env, m, n, false, f)? && { let mut ok = true; for (p, q) in c.iter().zip(d) { ok = ok && conv(env, p, q, false, f)?; } ok },
        _ => false,
    };
    if r { return Ok(true); }
    // proof irrelevance: two proofs of one proposition
    if let Ok(ta) = infer(env, &a, f) { if let Ok(s) = infer(env, &ta, f) { if whnf(&s, f)? == S(0) { if let Ok(tb) = infer(env, &b, f) { if conv(env, &ta, &tb, false, f)? { return Ok(true); } } } } }
    Ok(false)
}
fn sort_of(env: &mut Vec<T>, t: &T, f: &mut Fuel) -> R<u32> { let s = infer(env, t, f)?; match whnf(&s, f)? { S(n) => Ok(n), _ => Err("not a type".into()) } }
fn check(env: &mut Vec<T>, t: &T, ty: &T, f: &mut Fuel) -> R<()> { let i = infer(env, t, f)?; if conv(env, &i, ty, true, f)? { Ok(()) } else { Err("type mismatch".into()) } }
fn infer(env: &mut Vec<T>, t: &T, f: &mut Fuel) -> R<T> {
    if f.0 == 0 { return Err("fuel".into()); } f.0 -= 1;
    match t {
        S(0) => Ok(S(2)), S(n) => Ok(S(n + 1)),
        V(i) => env.len().checked_sub(1 + i).map(|p| shift(&env[p], *i as isize + 1, 0)).ok_or("scope".into()),
        C(n) => Ok(const_type(n)),
        Pi(a, b) => { let i = sort_of(env, a, f)?; env.push((**a).clone()); let j = sort_of(env, b, f); env.pop(); let j = j?; Ok(S(if j == 0 { 0 } else { i.max(j) })) }
        L(a, b) => { sort_of(env, a, f)?; env.push((**a).clone()); let r = infer(env, b, f); env.pop(); Ok(Pi(a.clone(), ra(r?))) }
        A(g, x) => { let tg = infer(env, g, f)?; match whnf(&tg, f)? { Pi(a, b) => { check(env, x, &a, f)?; Ok(subst(&b, 0, x)) } _ => Err("not a function".into()) } }
        Let(ty, x, b) => { sort_of(env, ty, f)?; check(env, x, ty, f)?; infer(env, &subst(b, 0, x), f) }
        M(d, m, cs) => {
            let td = infer(env, d, f)?; let td = whnf(&td, f)?; let (hd, args) = spine(&td);
            let ind = TI.iter().find(|i| hd == C(i.name) && i.params == args.len()).ok_or("not inductive")?;
            let tm = infer(env, m, f)?; let tm = whnf(&tm, f)?;
            let mo = match &tm { Pi(a, s) => { if !conv(env, a, &td, false, f)? { return Err("motive domain".into()); } if !matches!(whnf(s, f)?, S(_)) { return Err("motive sort".into()); } (**m).clone() } S(_) => L(ra(td.clone()), ra(shift(m, 1, 0))), _ => return Err("motive".into()) };
            if cs.len() != ind.ctors.len() { return Err("cases".into()); }
            for (c, k) in cs.iter().zip(ind.ctors) {
                // telescope of the constructor after its parameters
                let mut ct = const_type(k); for a in &args { if let Pi(_, b) = &ct { ct = subst(b, 0, a); } }
                fn close(ct: &T, mo: &T, done: T, n: usize) -> T { match ct { Pi(a, b) => Pi(a.clone(), ra(close(b, mo, ap(shift(&done, 1, 0), V(0)), n + 1))), _ => ap(shift(mo, n as isize, 0), done) } }
                let want = close(&ct, &mo, aps(C(k), &args), 0);
                if f.1 { lax_case(env, c, &want, f)? } else { check(env, c, &want, f)? }
            }
            let ret = ap(mo, (**d).clone());
            let sd = sort_of(env, &td, f)?; let sr = sort_of(env, &ret, f)?;
            if sd == 0 && sr != 0 && !ind.subsingleton { return Err("large elimination".into()); }
            Ok(ret)
        }
    }
}
fn lax_case(env: &mut Vec<T>, c: &T, want: &T, f: &mut Fuel) -> R<()> {
    match (c, want) { (L(_, b), Pi(a, w)) => { env.push((**a).clone()); let r = lax_case(env, b, w, f); env.pop(); r } _ => { if let L(..) = c { let w = whnf(want, f)?; if let (L(_, b), Pi(a, w)) = (c, &w) { env.push((**a).clone()); let r = lax_case(env, b, w, f); env.pop(); return r; } } check(env, c, want, f) } }
}
/// Named form with random (legally) shadowing binder names.
const BN: [&str; 8] = ["A", "B", "P", "Q", "x", "p", "__arg0", "__arg1"];
fn free(t: &T, d: usize, out: &mut Vec<usize>) { match t { V(i) => if *i >= d { out.push(i - d) }, S(_) | C(_) => {} Pi(a, b) | L(a, b) => { free(a, d, out); free(b, d + 1, out) } A(a, b) => { free(a, d, out); free(b, d, out) } Let(a, b, c) => { free(a, d, out); free(b, d, out); free(c, d + 1, out) } M(a, b, c) => { free(a, d, out); free(b, d, out); for c in c { free(c, d, out) } } } }
fn named(t: &T, env: &mut Vec<String>, r: &mut Rng) -> Term {
    fn bind(b: &T, env: &mut Vec<String>, r: &mut Rng) -> String {
        let mut fv = vec![]; free(b, 1, &mut fv); // free variables of the body other than the new binder
        let used: Vec<&String> = fv.iter().map(|i| &env[env.len() - 1 - i]).collect();
        let few = 2 + r.us(BN.len() - 1);
        for _ in 0..12 { let n = BN[r.us(few)].to_string(); if !used.contains(&&n) { return n; } }
        let mut k = 0; loop { let n = format!("z{k}"); if !used.contains(&&n) { return n; } k += 1; }
    }
    match t {
        S(0) => prop(), S(n) => Term::Sort(Universe::Type(n - 1)), V(i) => v(&env[env.len() - 1 - i].clone()), C(n) => g(n),
        Pi(a, b) => { let x = named(a, env, r); let n = bind(b, env, r); env.push(n.clone()); let y = named(b, env, r); env.pop(); pi(&n, x, y) }
        L(a, b) => { let x = named(a, env, r); let n = bind(b, env, r); env.push(n.clone()); let y = named(b, env, r); env.pop(); lam(&n, x, y) }
        A(a, b) => { let x = named(a, env, r); let y = named(b, env, r); app(x, y) }
        Let(a, b, c) => { let x = named(a, env, r); let y = named(b, env, r); let n = bind(c, env, r); env.push(n.clone()); let z = named(c, env, r); env.pop(); Term::Let { name: n, ty: Box::new(x), value: Box::new(y), body: Box::new(z) } }
        M(a, b, c) => { let x = named(a, env, r); let y = named(b, env, r); let cs = c.iter().map(|c| named(c, env, r)).collect(); mat(x, y, cs) }
    }
}
fn from_named(t: &Term, env: &mut Vec<String>) -> Option<T> {
    Some(match t {
        Term::Sort(Universe::Prop) => S(0), Term::Sort(Universe::Type(n)) => S(n + 1),
        Term::Var(n) => V(env.len() - 1 - env.iter().rposition(|x| x == n)?),
        Term::Global(n) => { for i in &TI { if i.name == n { return Some(C(i.name)); } for c in i.ctors { if c == n { return Some(C(c)); } } } return None; }
        Term::Pi { param, param_type, body_type } => { let a = from_named(param_type, env)?; env.push(param.clone()); let b = from_named(body_type, env); env.pop(); Pi(ra(a), ra(b?)) }
        Term::Lambda { param, param_type, body } => { let a = from_named(param_type, env)?; env.push(param.clone()); let b = from_named(body, env); env.pop(); L(ra(a), ra(b?)) }
        Term::App(f, x) => A(ra(from_named(f, env)?), ra(from_named(x, env)?)),
        Term::Let { name, ty, value, body } => { let a = from_named(ty, env)?; let b = from_named(value, env)?; env.push(name.clone()); let c = from_named(body, env); env.pop(); Let(ra(a), ra(b), ra(c?)) }
        Term::Match { discriminant, motive, cases } => { let d = from_named(discriminant, env)?; let m = from_named(motive, env)?; let mut cs = vec![]; for c in cases { cs.push(from_named(c, env)?); } M(ra(d), ra(m), cs) }
        _ => return None,
    })
}
/// A random type in the given context (mostly propositions), then a random inhabitant attempt.
fn gty(r: &mut Rng, env: &mut Vec<T>, d: usize) -> T {
    let props: Vec<usize> = (0..env.len()).filter(|i| env[env.len() - 1 - i] == S(0)).collect();
    if d == 0 || r.chance(1, 5) { return match r.below(7) { 0..=3 if !props.is_empty() => V(*r.pick(&props)), 4 => C("Nat"), 5 => C("Bool"), 6 => C("False"), _ => C("True") }; }
    match r.below(7) {
        0 | 1 => { env.push(S(0)); let b = gty(r, env, d - 1); env.pop(); Pi(ra(S(0)), ra(b)) }
        2 | 3 => { let a = gty(r, env, d - 1); env.push(a.clone()); let b = gty(r, env, d - 1); env.pop(); Pi(ra(a), ra(b)) }
        4 => { let a = gty(r, env, d - 1); let b = gty(r, env, d - 1); aps(C(if r.bool() { "And" } else { "Or" }), &[a, b]) }
        5 => { let a = gty(r, env, d - 1); env.push(S(0)); let b = gty(r, env, d - 1); env.pop(); ap(L(ra(S(0)), ra(b)), a) }
        _ => { let a = gty(r, env, d - 1); let b = gty(r, env, d - 1); M(ra(C(if r.bool() { "true" } else { "false" })), ra(L(ra(C("Bool")), ra(S(0)))), vec![a, b]) }
    }
}
/// Try to build something of (roughly) the goal type; may fail and return an ill-typed term.
fn gtm(r: &mut Rng, env: &mut Vec<T>, goal: &T, d: usize) -> T {
    let mut f = Fuel(300, false); let goal = whnf(goal, &mut f).unwrap_or(goal.clone());
    // a variable of that type
    if r.chance(3, 4) {
        let mut c: Vec<usize> = vec![];
        for i in 0..env.len() { let ty = shift(&env[env.len() - 1 - i], i as isize + 1, 0); let mut f = Fuel(200, false); if conv(env, &ty, &goal, true, &mut f).unwrap_or(false) { c.push(i); } }
        if !c.is_empty() { return V(*r.pick(&c)); }
    }
    if d == 0 { return match &goal { C("True") => C("I"), C("Nat") => C("Zero"), C("Bool") => C("true"), S(_) => C("True"), _ if !env.is_empty() => V(r.us(env.len())), _ => C("I") }; }
    if r.chance(1, 7) && !env.is_empty() {
        // eliminate something in scope or built on the spot
        let i = r.us(env.len()); let ty = shift(&env[env.len() - 1 - i], i as isize + 1, 0); let mut f = Fuel(300, false);
        if let Ok(w) = whnf(&ty, &mut f) { let (hd, args) = spine(&w); if let Some(ind) = TI.iter().find(|k| hd == C(k.name) && k.params == args.len()) {
            let mo = if r.chance(4, 5) { L(ra(w.clone()), ra(shift(&goal, 1, 0))) } else { goal.clone() };
            let mut cs = vec![];
            for k in ind.ctors { let mut ct = const_type(k); for a in &args { if let Pi(_, b) = &ct { ct = subst(b, 0, a); } } let mut doms = vec![]; while let Pi(a, b) = ct.clone() { doms.push((*a).clone()); ct = (*b).clone(); }
                for a in &doms { env.push(a.clone()); } let gl = shift(&goal, doms.len() as isize, 0); let mut b = gtm(r, env, &gl, d - 1); for _ in &doms { env.pop(); } for a in doms.into_iter().rev() { b = L(ra(a), ra(b)); } cs.push(b); }
            return M(ra(V(i)), ra(mo), cs);
        } }
    }
    if r.chance(1, 6) {
        // a redex or let
        let a = gty(r, env, 1); let x = gtm(r, env, &a, d - 1); env.push(a.clone()); let b = gtm(r, env, &shift(&goal, 1, 0), d - 1); env.pop();
        return if r.bool() { ap(L(ra(a), ra(b)), x) } else { Let(ra(a), ra(x), ra(b)) };
    }
    match &goal {
        Pi(a, b) => { env.push((**a).clone()); let t = gtm(r, env, b, d - 1); env.pop(); L(a.clone(), ra(t)) }
        C("True") => C("I"), C("Bool") => C(if r.bool() { "true" } else { "false" }), C("Nat") => { if r.bool() { C("Zero") } else { ap(C("Succ"), gtm(r, env, &goal, d - 1)) } }
        S(_) => gty(r, env, d - 1),
        _ => {
            let (hd, args) = spine(&goal);
            match hd {
                C("And") if args.len() == 2 => { let p = gtm(r, env, &args[0], d - 1); let q = gtm(r, env, &args[1], d - 1); aps(C("conj"), &[args[0].clone(), args[1].clone(), p, q]) }
                C("Or") if args.len() == 2 => { let l = r.bool(); let p = gtm(r, env, &args[if l { 0 } else { 1 }], d - 1); aps(C(if l { "left" } else { "right" }), &[args[0].clone(), args[1].clone(), p]) }
                _ => {
                    // apply a function in scope to plausible arguments
                    if env.is_empty() { return C("I"); }
                    let i = r.us(env.len()); let mut t = V(i); let mut ty = shift(&env[env.len() - 1 - i], i as isize + 1, 0);
                    for _ in 0..3 { let mut f = Fuel(300, false); match whnf(&ty, &mut f) { Ok(Pi(a, b)) => { let x = if *a == S(0) && r.bool() { goal.clone() } else { gtm(r, env, &a, d - 1) }; ty = subst(&b, 0, &x); t = ap(t, x); } _ => break } }
                    t
                }
            }
        }
    }
}
/// Small damage: swap a variable, a constant or a binder type somewhere.
fn damage(r: &mut Rng, t: &T, depth: usize) -> T {
    if r.chance(1, 6) { return match t { V(_) if depth > 0 => V(r.us(depth)), C(_) => C(*r.pick(&["True", "False", "I", "Nat", "Zero", "true"])), S(n) => S(if *n == 0 { 1 } else { n - 1 }), A(f, _) if r.bool() => (**f).clone(), L(a, b) if r.bool() => { let _ = a; L(ra(gty(r, &mut vec![], 1)), b.clone()) } _ => if depth > 0 && r.bool() { V(r.us(depth)) } else { t.clone() } }; }
    let mut d = |t: &Rc<T>, k: usize| ra(damage(r, t, depth + k));
    match t { Pi(a, b) => { if d(&ra(S(0)), 0) == ra(S(0)) { Pi(a.clone(), d(b, 1)) } else { Pi(d(a, 0), b.clone()) } } L(a, b) => L(a.clone(), d(b, 1)), A(a, b) => { let x = d(a, 0); if x == *a { A(x, d(b, 0)) } else { A(x, b.clone()) } } Let(a, b, c) => Let(a.clone(), b.clone(), d(c, 1)), M(a, b, c) => { let mut c = c.clone(); if c.is_empty() { return M(d(a, 0), b.clone(), c); } let i = c.len() - 1; c[i] = (*d(&ra(c[i].clone()), 0)).clone(); M(a.clone(), b.clone(), c) } _ => t.clone() }
}
fn typing(h: &mut H, ctx: &Context) {
    let d = 1 + h.rng.us(4);
    let goal = gty(&mut h.rng, &mut vec![], d);
    let mut t = gtm(&mut h.rng, &mut vec![], &goal, 6);
    if h.rng.chance(1, 2) { for _ in 0..1 + h.rng.us(2) { t = damage(&mut h.rng, &t, 0); } }
    let mut fv = vec![]; free(&t, 0, &mut fv); if !fv.is_empty() { return; }
    let mut fuel = Fuel(60_000, false);
    let own = infer(&mut vec![], &t, &mut fuel);
    if fuel.0 == 0 || matches!(&own, Err(e) if e == "fuel") { return; }
    let mut fuel = Fuel(60_000, true);
    let lax = infer(&mut vec![], &t, &mut fuel);
    if fuel.0 == 0 || matches!(&lax, Err(e) if e == "fuel") { return; }
    let nt = named(&t, &mut vec![], &mut h.rng);
    let case = format!("{nt}"); h.case(&case, own.is_ok());
    let mut claims: Vec<T> = vec![goal.clone()];
    for (who, r) in [("infer_type", h.guard("infer", || case.clone(), || infer_type(ctx, &nt).ok())), ("recheck", h.guard("recheck", || case.clone(), || recheck(ctx, &nt).ok()))] {
        let Some(Some(ty)) = r else { continue };
        h.tick();
        let Some(k) = from_named(&ty, &mut vec![]) else { h.check(false, who, || format!("{who} gives the type {ty}, which is not closed"), || case.clone()); continue };
        let own = if who == "recheck" { &lax } else { &own };
        match own {
            Err(e) => { h.check(false, who, || format!("{who} gives the type {ty}, but the term is ill-typed ({e})"), || case.clone()); }
            Ok(o) => { let mut f = Fuel(200_000, who == "recheck"); match conv(&mut vec![], o, &k, true, &mut f) { Ok(c) => { h.check(c, who, || format!("{who} gives the type {ty}, the term has type {}", named(o, &mut vec![], &mut Rng::new(1))), || case.clone()); } Err(_) => h.count("undecided") } }
        }
        claims.push(k);
    }
    if let Ok(o) = &own { let x = damage(&mut h.rng, o, 0); let mut fv = vec![]; free(&x, 0, &mut fv); if fv.is_empty() { claims.push(x); } }
    for c in claims {
        let nc = named(&c, &mut vec![], &mut h.rng);
        let Some(ok) = h.guard("certificate", || format!("{case} : {nc}"), || cert(&nt, &nc)) else { continue };
        if !ok { continue; }
        h.count("accepted");
        match &own { Err(e) => { h.check(false, "certificate", || format!("certificate accepted, but its term is ill-typed ({e})"), || format!("{case} : {nc}")); } Ok(o) => { let mut f = Fuel(200_000, false); if let Ok(cv) = conv(&mut vec![], o, &c, true, &mut f) { h.check(cv, "certificate", || "certificate accepted, but its term does not have the claimed type".into(), || format!("{case} : {nc}")); } } }
    }
}
