//! C19: generated programs on every engine, against an interpreter over unbounded integers written here.
use logicaffeine_compile::compile::{tw_outcome, vm_outcome, vm_outcome_tiered, vm_outcome_with_args, RunOutcome};
use logicaffeine_compile::ast::stmt::BinaryOpKind as B;
use logicaffeine_compile::interpreter::RuntimeValue as V;
use logicaffeine_compile::optimization::Tier;
use logicaffeine_compile::semantics::arith;
use logicaffeine_jit::ForgeTier;
use std::cmp::Ordering::*;
use vh::{big::Z, Rng, H};

#[derive(Clone, Debug)]
enum E { Lit(i64), Var(usize), Bin(char, Box<E>, Box<E>), Item(usize, Box<E>), Len(usize), Call(usize, Vec<E>) }
#[derive(Clone, Debug)]
enum S { Set(usize, E), /* counter, its first value, whether the limit is included */ While(usize, (i64, bool), E, Vec<S>), If(C, Vec<S>, Vec<S>), Push(usize, E), Put(usize, E, E), Show(Vec<E>) }
#[derive(Clone, Debug)]
struct C { op: usize, a: E, b: E }
/// parameters are variables 0.., then locals; the body ends with a Return
#[derive(Clone, Debug)]
struct F { params: usize, vars: usize, body: Vec<S>, ret: E }
#[derive(Clone, Debug)]
struct P { fns: Vec<F>, init: Vec<i64>, lists: Vec<Vec<i64>>, body: Vec<S> }
const OPS: [&str; 6] = ["is less than", "is at most", "is greater than", "is at least", "equals", "is not"];

fn se(e: &E) -> String {
    match e {
        E::Lit(n) if *n == i64::MIN => "(0 - 9223372036854775807 - 1)".into(),
        E::Lit(n) if *n < 0 => format!("(0 - {})", -n),
        E::Lit(n) => n.to_string(),
        E::Var(v) => format!("v{v}"),
        E::Bin(o, a, b) => format!("({} {o} {})", se(a), se(b)),
        E::Item(l, i) => format!("(item {} of xs{l})", se(i)),
        E::Len(l) => format!("(length of xs{l})"),
        E::Call(f, a) => format!("fun{f}({})", a.iter().map(se).collect::<Vec<_>>().join(", ")),
    }
}
fn ss(b: &[S], ind: usize, out: &mut String) {
    let p = "    ".repeat(ind);
    for s in b {
        match s {
            S::Set(v, e) => out.push_str(&format!("{p}Set v{v} to {}.\n", se(e))),
            S::While(v, (s, incl), n, b) => { out.push_str(&format!("{p}Set v{v} to {s}.\n{p}While v{v} is {} {}:\n", if *incl { "at most" } else { "less than" }, se(n))); ss(b, ind + 1, out); out.push_str(&format!("{p}    Set v{v} to v{v} + 1.\n")) }
            S::If(c, t, f) => {
                out.push_str(&format!("{p}If {} {} {}:\n", se(&c.a), OPS[c.op], se(&c.b))); ss(t, ind + 1, out);
                if !f.is_empty() { out.push_str(&format!("{p}Otherwise:\n")); ss(f, ind + 1, out); }
            }
            S::Push(l, e) => out.push_str(&format!("{p}Push {} to xs{l}.\n", se(e))),
            S::Put(l, i, e) => out.push_str(&format!("{p}Set item {} of xs{l} to {}.\n", se(i), se(e))),
            S::Show(es) => out.push_str(&format!("{p}Show \"\" + {}.\n", es.iter().map(se).collect::<Vec<_>>().join(" + \" \" + "))),
        }
    }
}
fn source(p: &P) -> String {
    let mut o = String::new();
    for (i, f) in p.fns.iter().enumerate() {
        o.push_str(&format!("## To fun{i} ({}) -> Int:\n", (0..f.params).map(|k| format!("p{k}: Int")).collect::<Vec<_>>().join(", ")));
        for k in 0..f.vars { o.push_str(&format!("    Let mutable v{k} be {}.\n", if k < f.params { format!("p{k}") } else { "0".into() })); }
        ss(&f.body, 1, &mut o);
        o.push_str(&format!("    Return {}.\n\n", se(&f.ret)));
    }
    o.push_str("## Main\n");
    for (i, v) in p.init.iter().enumerate() { o.push_str(&format!("Let mutable v{i} be {}.\n", se(&E::Lit(*v)))); }
    for (i, l) in p.lists.iter().enumerate() { o.push_str(&format!("Let mutable xs{i} be a new Seq of Int.\n")); for x in l { o.push_str(&format!("Push {} to xs{i}.\n", se(&E::Lit(*x)))); } }
    ss(&p.body, 0, &mut o);
    o
}

#[derive(PartialEq)]
enum Stop { Fail, Limit }
struct M<'a> { p: &'a P, lists: Vec<Vec<Z>>, out: String, fuel: u64, wide: bool }
impl M<'_> {
    fn e(&mut self, e: &E, v: &mut Vec<Z>) -> Result<Z, Stop> {
        let r = match e {
            E::Lit(n) => Z::from_i128(*n as i128),
            E::Var(k) => v[*k].clone(),
            E::Bin(o, a, b) => {
                let a = self.e(a, v)?; let b = self.e(b, v)?;
                match o { '+' => a.add(&b), '-' => a.sub(&b), '*' => a.mul(&b), _ => { if b.is_zero() { return Err(Stop::Fail); } let (q, r) = a.divrem(&b); if *o == '/' { q } else { r } } }
            }
            E::Item(l, i) => { let i = self.e(i, v)?; let k = self.at(*l, &i)?; self.lists[*l][k].clone() }
            E::Len(l) => Z::from_i128(self.lists[*l].len() as i128),
            E::Call(f, a) => {
                let p = self.p; let f = &p.fns[*f];
                let mut w = vec![]; for x in a { w.push(self.e(x, v)?); }
                w.resize(f.vars, Z::from_i128(0));
                self.run(&f.body, &mut w)?; self.e(&f.ret, &mut w)?
            }
        };
        if r.bits() > 63 { self.wide = true; }
        if r.bits() > 400 || self.fuel == 0 { return Err(Stop::Limit); }
        self.fuel -= 1;
        Ok(r)
    }
    fn at(&self, l: usize, i: &Z) -> Result<usize, Stop> {
        match i.to_i128() { Some(k) if k >= 1 && k <= self.lists[l].len() as i128 => Ok(k as usize - 1), Some(k) if k > 0 => Err(Stop::Fail), _ => Err(Stop::Limit) }
    }
    fn run(&mut self, b: &[S], v: &mut Vec<Z>) -> Result<(), Stop> {
        for s in b {
            match s {
                S::Set(k, e) => v[*k] = self.e(e, v)?,
                S::While(k, (s, incl), n, b) => {
                    v[*k] = Z::from_i128(*s as i128);
                    loop { let n = self.e(n, v)?; let o = v[*k].cmp(&n); if o == Greater || o == Equal && !*incl { break; } self.run(b, v)?; v[*k] = v[*k].add(&Z::from_i128(1)); if self.fuel == 0 { return Err(Stop::Limit); } self.fuel -= 1; }
                }
                S::If(c, t, f) => {
                    let a = self.e(&c.a, v)?; let b = self.e(&c.b, v)?; let o = a.cmp(&b);
                    let r = match c.op { 0 => o == Less, 1 => o != Greater, 2 => o == Greater, 3 => o != Less, 4 => o == Equal, _ => o != Equal };
                    self.run(if r { t } else { f }, v)?
                }
                S::Push(l, e) => { let x = self.e(e, v)?; self.lists[*l].push(x); if self.lists[*l].len() > 3000 { return Err(Stop::Limit); } }
                S::Put(l, i, e) => { let i = self.e(i, v)?; let x = self.e(e, v)?; let k = self.at(*l, &i)?; self.lists[*l][k] = x; }
                S::Show(es) => { let mut t = vec![]; for e in es { t.push(self.e(e, v)?.dec()); } self.out.push_str(&t.join(" ")); self.out.push('\n'); if self.out.len() > 60000 { return Err(Stop::Limit); } }
            }
        }
        Ok(())
    }
}

struct G { vars: usize, lists: usize, fns: usize, arity: Vec<usize>, next: usize, wide: bool }
impl G {
    fn lit(&self, r: &mut Rng) -> i64 {
        match r.below(10) {
            0 => *r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 62, -(1 << 62), 3037000500, 3037000499, 4294967296, 4294967295, 2147483648, 2147483647, -2147483648, 1 << 47, (1 << 47) - 1, -(1 << 47), 1 << 48, 1 << 50, 1 << 53]),
            1 => r.edge() as i64,
            2 => r.range(-1000, 1000),
            _ => r.range(-3, 12),
        }
    }
    fn v(&self, r: &mut Rng) -> E { E::Var(r.us(self.vars)) }
    fn e(&self, r: &mut Rng, d: usize) -> E {
        match if d == 0 { r.below(4) } else { r.below(12) } {
            0 => E::Lit(self.lit(r)),
            1..=3 => self.v(r),
            4 if self.lists > 0 => { let l = r.us(self.lists); if r.chance(1, 4) { E::Len(l) } else { E::Item(l, Box::new(self.ix(r, l, d - 1))) } }
            5 if self.fns > 0 => { let f = r.us(self.fns); E::Call(f, (0..self.arity[f]).map(|_| self.e(r, d.min(2) - 1)).collect()) }
            6 | 7 => {
                // divisor usually a nonzero literal
                let b = if r.chance(1, 8) { self.e(r, d - 1) } else { E::Lit(*r.pick(&[1, 2, 3, 4, 7, 8, 10, 16, 64, 100, 1000, 1024, 65536, 1000007, 2147483647, 1 << 31, 1 << 32, i64::MAX, -1, -2, -3, -8, -10])) };
                E::Bin(if r.bool() { '/' } else { '%' }, Box::new(self.e(r, d - 1)), Box::new(b))
            }
            _ => E::Bin(*r.pick(&['+', '-', '*', '+', '-']), Box::new(self.e(r, d - 1)), Box::new(self.e(r, d - 1))),
        }
    }
    fn ix(&self, r: &mut Rng, l: usize, d: usize) -> E {
        let bx = Box::new;
        match r.below(8) {
            0 => E::Lit(r.range(1, 6)),
            1 => E::Bin('+', bx(self.v(r)), bx(E::Lit(1))),
            2 => E::Len(l),
            // ((e % len) + len) % len + 1 is always in range
            _ => { let e = self.e(r, d); let n = || bx(E::Len(l)); E::Bin('+', bx(E::Bin('%', bx(E::Bin('+', bx(E::Bin('%', bx(e), n())), n())), n())), bx(E::Lit(1))) }
        }
    }
    fn c(&self, r: &mut Rng) -> C { C { op: r.us(6), a: self.e(r, 2), b: self.e(r, 1) } }
    /// target never one of the enclosing loop counters
    fn t(&self, r: &mut Rng, busy: &[usize]) -> usize { loop { let k = r.us(self.vars); if !busy.contains(&k) { return k; } } }
    fn set(&self, r: &mut Rng, busy: &[usize]) -> S {
        let k = self.t(r, busy);
        let mut e = self.e(r, 3);
        if !self.wide || r.chance(1, 2) { e = E::Bin('%', Box::new(e), Box::new(E::Lit(*r.pick(&[10, 100, 97, 1000000007, 1 << 31, 1 << 40, 1 << 48, i64::MAX, 1 << 62])))); }
        S::Set(k, e)
    }
    fn body(&mut self, r: &mut Rng, depth: usize, len: usize, busy: &mut Vec<usize>, lists: bool) -> Vec<S> {
        let mut b = vec![];
        for _ in 0..1 + r.us(len) {
            b.push(match r.below(10) {
                0 | 1 if depth > 0 && busy.len() + 1 < self.vars => {
                    let k = self.t(r, busy);
                    let n = if self.lists > 0 && r.chance(1, 6) { E::Len(r.us(self.lists)) } else if r.chance(1, 12) { E::Var(r.us(self.vars)) } else if busy.is_empty() { E::Lit(*r.pick(&[3, 10, 40, 60, 110, 130, 300, 600])) } else { E::Lit(r.range(1, 12)) };
                    let shape = if r.chance(1, 2) { (0, false) } else { (*r.pick(&[0, 1, 1, 2, 5]), r.bool()) };
                    // the loops that have closed forms: a sum of the counter, a count, a power of two
                    if busy.len() + 2 < self.vars && r.chance(1, 4) {
                        busy.push(k); let a = self.t(r, busy); busy.pop();
                        b.push(S::Set(a, E::Lit(*r.pick(&[0, 1, 1, 3, 7]))));
                        let (o, y) = match r.us(4) { 0 => ('+', E::Var(k)), 1 => ('+', E::Lit(1)), 2 => ('*', E::Lit(2)), _ => ('+', E::Lit(r.range(2, 9))) };
                        let n = if o == '*' { E::Lit(*r.pick(&[5, 20, 40, 61, 62, 63, 64, 65, 70])) } else { n };
                        b.push(S::While(k, shape, n, vec![S::Set(a, E::Bin(o, Box::new(E::Var(a)), Box::new(y)))]));
                        continue;
                    }
                    busy.push(k); let x = self.body(r, depth - 1, len, busy, lists); busy.pop();
                    S::While(k, shape, n, x)
                }
                2 if depth > 0 => S::If(self.c(r), self.body(r, depth - 1, 2, busy, lists), if r.bool() { self.body(r, depth - 1, 2, busy, lists) } else { vec![] }),
                3 if lists && self.lists > 0 => S::Push(r.us(self.lists), self.e(r, 2)),
                4 | 5 if lists && self.lists > 0 => { let l = r.us(self.lists); S::Put(l, self.ix(r, l, 1), self.e(r, 2)) }
                6 if lists && r.chance(1, 3) => S::Show((0..1 + r.us(2)).map(|_| self.e(r, 2)).collect()),
                _ => self.set(r, busy),
            });
        }
        b
    }
}
fn program(r: &mut Rng) -> P {
    let mut g = G { vars: 2 + r.us(4), lists: 0, fns: 0, arity: vec![], next: 0, wide: r.bool() };
    let _ = g.next;
    let mut fns = vec![];
    for _ in 0..r.us(3) {
        let params = 1 + r.us(2); let vars = params + 1 + r.us(2);
        let mut q = G { vars, lists: 0, fns: g.fns, arity: g.arity.clone(), next: 0, wide: g.wide };
        let body = q.body(r, 2, 2, &mut vec![], false);
        fns.push(F { params, vars, body, ret: q.e(r, 2) });
        g.fns += 1; g.arity.push(params);
    }
    g.lists = r.us(3);
    let init = (0..g.vars).map(|_| g.lit(r)).collect();
    let lists = (0..g.lists).map(|_| (0..1 + r.us(5)).map(|_| g.lit(r)).collect()).collect();
    let mut body = g.body(r, 3, 4, &mut vec![], true);
    body.push(S::Show((0..g.vars).map(E::Var).collect()));
    for l in 0..g.lists { body.push(S::Show(vec![E::Len(l), E::Item(l, Box::new(E::Lit(1))), E::Item(l, Box::new(E::Len(l)))])); }
    P { fns, init, lists, body }
}
fn norm(s: &str) -> String { s.lines().map(|l| l.trim_end()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n") }

/// every engine and setting; the first is the reference for the wording of failures
fn engines(src: &str) -> Vec<(&'static str, Result<RunOutcome, String>)> {
    let f = ForgeTier::new();
    let mut v = vec![("tree-walker", vh::panics(|| tw_outcome(src))), ("bytecode", vh::panics(|| vm_outcome(src))), ("bytecode+native", vh::panics(|| vm_outcome_with_args(src, &[], Some(&f))))];
    for (n, t) in [("tier 0", Tier::T0), ("tier 1", Tier::T1), ("tier 2", Tier::T2), ("tier 3", Tier::T3)] { v.push((n, vh::panics(|| vm_outcome_tiered(src, &[], t, None)))); }
    v.push(("tier 3+native", vh::panics(|| vm_outcome_tiered(src, &[], Tier::T3, Some(&ForgeTier::new())))));
    v
}
fn compare(h: &mut H, src: &str, out: &str, fails: bool) {
    let mut reference: Option<String> = None;
    for (k, (n, r)) in engines(src).into_iter().enumerate() {
        let r = match r { Ok(r) => r, Err(m) => { h.violation("engine-panic", format!("{n} panicked: {m}"), src); continue } };
        if r.error.as_deref().map_or(false, |e| e.contains("out of registers")) {
            h.violation("registers-exhausted", format!("{n}: {:?}, the program {}", r.error, if fails { "fails otherwise" } else { "does not fail" }), src);
            continue;
        }
        h.check(norm(&r.output) == norm(out), "output", || format!("{n} printed {:?} (error {:?}), the program's value is {:?}", norm(&r.output), r.error, norm(out)), || src.to_string());
        h.check(r.error.is_some() == fails, "failure", || format!("{n}: error {:?}, the program {}", r.error, if fails { "fails" } else { "does not fail" }), || src.to_string());
        if k == 0 { reference = r.error.clone() }
        // an item read moved ahead of its loop reports its own failure first
        let moved = fails && k > 2 && r.error.as_deref().map_or(false, |e| e.starts_with("Index")) && src.contains("While");
        h.check(!fails || r.error.is_none() || r.error == reference, if moved { "failing-read-moved-ahead" } else { "errors-differ" }, || format!("tree-walker error {:?}, {n} error {:?}", reference, r.error), || src.to_string());
    }
}
/// all programs one simplification smaller
fn smaller_e(e: &E) -> Vec<E> {
    let mut r = vec![];
    match e {
        E::Lit(n) => { if *n != 0 { r.push(E::Lit(n / 2)); if *n < 0 { r.push(E::Lit(-(n / 2))); } } }
        E::Var(_) | E::Len(_) => {}
        E::Bin(o, a, b) => {
            r.push((**a).clone()); r.push((**b).clone());
            for x in smaller_e(a) { r.push(E::Bin(*o, Box::new(x), b.clone())); }
            for x in smaller_e(b) { r.push(E::Bin(*o, a.clone(), Box::new(x))); }
        }
        E::Item(l, i) => { r.push((**i).clone()); for x in smaller_e(i) { r.push(E::Item(*l, Box::new(x))); } }
        E::Call(f, a) => { r.extend(a.iter().cloned()); for k in 0..a.len() { for x in smaller_e(&a[k]) { let mut a = a.clone(); a[k] = x; r.push(E::Call(*f, a)); } } }
    }
    r
}
fn smaller_b(b: &[S]) -> Vec<Vec<S>> {
    let mut r = vec![];
    for k in 0..b.len() {
        let with = |x: Vec<S>| { let mut v = b[..k].to_vec(); v.extend(x); v.extend_from_slice(&b[k + 1..]); v };
        r.push(with(vec![]));
        match &b[k] {
            S::Set(v, e) => for e in smaller_e(e) { r.push(with(vec![S::Set(*v, e)])) },
            S::While(v, sh, n, body) => {
                r.push(with(body.clone()));
                for e in smaller_e(n) { r.push(with(vec![S::While(*v, *sh, e, body.clone())])) }
                for x in smaller_b(body) { r.push(with(vec![S::While(*v, *sh, n.clone(), x)])) }
            }
            S::If(c, t, f) => {
                r.push(with(t.clone())); r.push(with(f.clone()));
                for x in smaller_b(t) { if !x.is_empty() { r.push(with(vec![S::If(c.clone(), x, f.clone())])) } }
                for x in smaller_b(f) { r.push(with(vec![S::If(c.clone(), t.clone(), x)])) }
                for e in smaller_e(&c.a) { r.push(with(vec![S::If(C { a: e, ..c.clone() }, t.clone(), f.clone())])) }
                for e in smaller_e(&c.b) { r.push(with(vec![S::If(C { b: e, ..c.clone() }, t.clone(), f.clone())])) }
            }
            S::Push(l, e) => for e in smaller_e(e) { r.push(with(vec![S::Push(*l, e)])) },
            S::Put(l, i, e) => { for x in smaller_e(i) { r.push(with(vec![S::Put(*l, x, e.clone())])) } for x in smaller_e(e) { r.push(with(vec![S::Put(*l, i.clone(), x)])) } }
            S::Show(es) => for j in 0..es.len() { if es.len() > 1 { let mut v = es.clone(); v.remove(j); r.push(with(vec![S::Show(v)])); } for x in smaller_e(&es[j]) { let mut v = es.clone(); v[j] = x; r.push(with(vec![S::Show(v)])); } },
        }
    }
    r
}
fn empty_while(b: &[S]) -> bool { b.iter().any(|s| match s { S::While(_, _, _, b) => empty_while(b), S::If(_, t, f) => t.is_empty() || empty_while(t) || empty_while(f), _ => false }) }
fn calls(p: &P) -> bool { let t = format!("{:?}", (&p.body, &p.fns.iter().map(|f| (&f.body, &f.ret)).collect::<Vec<_>>())); t.contains("Call(") }
fn smaller(p: &P) -> Vec<P> {
    let mut r = vec![];
    if !p.fns.is_empty() && !calls(p) { r.push(P { fns: vec![], ..p.clone() }); }
    for b in smaller_b(&p.body) { if !empty_while(&b) { r.push(P { body: b, ..p.clone() }); } }
    for k in 0..p.fns.len() {
        for b in smaller_b(&p.fns[k].body) { if !empty_while(&b) { let mut q = p.clone(); q.fns[k].body = b; r.push(q); } }
        for e in smaller_e(&p.fns[k].ret) { let mut q = p.clone(); q.fns[k].ret = e; r.push(q); }
    }
    for k in 0..p.init.len() { if p.init[k] != 0 { let mut q = p.clone(); q.init[k] /= 2; r.push(q); } }
    for k in 0..p.lists.len() { for j in 0..p.lists[k].len() { let mut q = p.clone(); q.lists[k].remove(j); r.push(q); if p.lists[k][j] != 0 { let mut q = p.clone(); q.lists[k][j] /= 2; r.push(q); } } }
    r
}
/// output and whether the program fails; None outside the size limits
fn meaning(p: &P) -> Option<(String, bool, bool)> {
    if refused(p) { return None }
    let mut m = M { p, lists: p.lists.iter().map(|l| l.iter().map(|x| Z::from_i128(*x as i128)).collect()).collect(), out: String::new(), fuel: 30_000, wide: false };
    let mut v: Vec<Z> = p.init.iter().map(|x| Z::from_i128(*x as i128)).collect();
    let fails = match m.run(&p.body, &mut v) { Ok(()) => false, Err(Stop::Fail) => true, Err(Stop::Limit) => return None };
    Some((m.out, fails, m.wide))
}
/// a literal index below one is refused before the program runs, even where it is never reached
fn refused(p: &P) -> bool {
    fn e(x: &E) -> bool {
        match x {
            E::Item(_, i) => matches!(**i, E::Lit(n) if n < 1) || e(i),
            E::Bin(_, a, b) => e(a) || e(b),
            E::Call(_, a) => a.iter().any(e),
            _ => false,
        }
    }
    fn b(x: &[S]) -> bool {
        x.iter().any(|s| match s {
            S::Set(_, a) | S::Push(_, a) => e(a),
            S::While(_, _, a, t) => e(a) || b(t),
            S::If(c, t, f) => e(&c.a) || e(&c.b) || b(t) || b(f),
            S::Put(_, i, a) => matches!(i, E::Lit(n) if *n < 1) || e(i) || e(a),
            S::Show(a) => a.iter().any(e),
        })
    }
    b(&p.body) || p.fns.iter().any(|f| b(&f.body) || e(&f.ret))
}
fn wrong(p: &P) -> bool {
    let Some((out, fails, _)) = meaning(p) else { return false };
    let rs = engines(&source(p));
    let e0 = match &rs[0].1 { Ok(r) => r.error.clone(), _ => None };
    rs.iter().any(|(_, r)| match r { Ok(r) => norm(&r.output) != norm(&out) || r.error.is_some() != fails || r.error != e0, Err(_) => true })
}
fn shrink(mut p: P) -> P {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(25);
    'again: loop {
        for q in smaller(&p) { if std::time::Instant::now() > end { return p; } if wrong(&q) { p = q; continue 'again; } }
        return p;
    }
}
fn ints(h: &mut H) {
    let p = program(&mut h.rng);
    let Some((mut out, mut fails, wide)) = meaning(&p) else { h.count("outside the size limits"); return };
    let mut src = source(&p);
    h.case(&src, true);
    if wide { h.count("values beyond 64 bits"); }
    if fails { h.count("failing programs"); }
    if !wrong(&p) { return }
    { let q = shrink(p); let m = meaning(&q).unwrap(); out = m.0; fails = m.1; src = source(&q); }
    compare(h, &src, &out, fails);
}
pub fn show(src: &str) { for (n, r) in engines(src) { println!("{n}: {:?}", r.map(|r| (r.output, r.error))) } }
fn edge(r: &mut Rng) -> i64 {
    let b = match r.us(6) { 0 => 0, 1 => i64::MAX, 2 => i64::MIN, 3 => 1i64 << r.us(63), 4 => 3_037_000_499, _ => r.u64() as i64 >> r.us(64) };
    let b = b.wrapping_add(r.us(5) as i64 - 2);
    if r.chance(1, 2) { b.wrapping_neg() } else { b }
}
/// an integer as the engines hold it, with its value
fn operand(r: &mut Rng) -> (V, Z) {
    let (a, b) = (edge(r), edge(r));
    let za = Z::from_i128(a as i128);
    if r.chance(2, 3) { return (V::Int(a), za); }
    let z = za.mul(&Z::from_i128(b as i128));
    (arith::multiply(V::Int(a), V::Int(b)).unwrap(), z)
}
/// the shared arithmetic of every engine, on 64-bit and promoted operands
fn kernel(h: &mut H) {
    let ((a, za), (b, zb)) = (operand(&mut h.rng), operand(&mut h.rng));
    let (op, name) = *h.rng.pick(&[(B::Add, "+"), (B::Subtract, "-"), (B::Multiply, "*"), (B::Divide, "/"), (B::FloorDivide, "//"), (B::Modulo, "%"), (B::Lt, "<"), (B::LtEq, "<="), (B::Gt, ">"), (B::GtEq, ">="), (B::Eq, "=="), (B::NotEq, "!="), (B::Pow, "**")]);
    let (b, zb) = if name == "**" { let e = h.rng.us(9) as i64; (V::Int(e), Z::from_i128(e as i128)) } else { (b, zb) };
    let t = format!("{} {name} {}", za.dec(), zb.dec());
    h.case(&t, true);
    h.check(a.to_display_string() == za.dec(), "kernel", || format!("the operand {} is held as {}", za.dec(), a.to_display_string()), || t.clone());
    let o = za.cmp(&zb);
    let want = match name {
        "+" => Some(za.add(&zb).dec()), "-" => Some(za.sub(&zb).dec()), "*" => Some(za.mul(&zb).dec()),
        "/" => (!zb.is_zero()).then(|| za.divrem(&zb).0.dec()), "%" => (!zb.is_zero()).then(|| za.divrem(&zb).1.dec()),
        "//" => (!zb.is_zero()).then(|| za.divfloor(&zb).dec()),
        "**" => Some(za.pow(zb.to_i128().unwrap() as u32).dec()),
        c => Some(match c { "<" => o == Less, "<=" => o != Greater, ">" => o == Greater, ">=" => o != Less, "==" => o == Equal, _ => o != Equal }.to_string()),
    };
    match vh::panics(|| arith::binary_op(op, a, b)) {
        Err(m) => h.violation("kernel", format!("{t} panicked: {m}"), &t),
        Ok(r) => {
            let got = r.as_ref().ok().map(|v| v.to_display_string());
            h.check(got == want, "kernel", || format!("{t} gave {r:?}, the value is {want:?}", r = got), || t.clone());
            // one representation per value: a result that fits 64 bits is held in 64 bits
            if let Ok(V::BigInt(x)) = &r { h.check(x.to_i64().is_none(), "kernel", || format!("{t} is held unpromoted values as a big integer: {x}"), || t.clone()); }
        }
    }
}
/// loops over binary64 variables, evaluated here with the same IEEE operations
fn floats(h: &mut H) {
    let r = &mut h.rng;
    let n = 1 + r.us(3);
    let lit = |r: &mut Rng| { let x = (r.us(4001) as f64 - 2000.0) / *r.pick(&[1.0, 2.0, 4.0, 8.0, 10.0, 100.0]); if x == 0.0 { 0.5 } else { x } };
    let show = |x: f64| { let t = format!("{:?}", x.abs()); if x < 0.0 { format!("(0.0 - {t})") } else { t } };
    let init: Vec<f64> = (0..n).map(|_| lit(r).abs()).collect();
    let trips = *r.pick(&[0usize, 1, 2, 3, 5, 17, 64, 300]);
    enum A { V(usize), L(f64) }
    let mut steps = vec![];
    for _ in 0..1 + r.us(4) {
        let a = |r: &mut Rng| if r.chance(1, 2) { A::V(r.us(n)) } else { A::L(lit(r)) };
        let op = *r.pick(&['+', '-', '*', '/', '+', '-']);
        let x = if r.chance(3, 4) { A::V(r.us(n)) } else { a(r) };
        let y = if op == '/' { A::L(lit(r)) } else if op == '*' { A::L(lit(r) / 1024.0) } else { a(r) };
        let guard = r.chance(1, 3).then(|| (r.us(n), lit(r)));
        steps.push((r.us(n), op, x, y, guard));
    }
    let st = |a: &A| match a { A::V(k) => format!("f{k}"), A::L(x) => show(*x) };
    let mut src = String::from("## Main\n");
    for (k, x) in init.iter().enumerate() { src += &format!("Let mutable f{k} be {:?}.\n", x); }
    src += &format!("Let mutable i be 0.\nWhile i is less than {trips}:\n");
    for (t, op, x, y, g) in &steps {
        let line = format!("Set f{t} to ({} {op} {}).\n", st(x), st(y));
        match g { None => src += &format!("    {line}"), Some((k, c)) => src += &format!("    If f{k} is less than {}:\n        {line}", show(*c)) }
    }
    src += "    Set i to i + 1.\n";
    for k in 0..n { src += &format!("Show f{k}.\n"); }
    let mut f = init.clone();
    for _ in 0..trips { for (t, op, x, y, g) in &steps {
        if let Some((k, c)) = g { if !(f[*k] < *c) { continue } }
        let v = |a: &A| match a { A::V(k) => f[*k], A::L(x) => if *x < 0.0 { 0.0 - x.abs() } else { *x } };
        let (a, b) = (v(x), v(y));
        f[*t] = match op { '+' => a + b, '-' => a - b, '*' => a * b, _ => a / b };
    } }
    let out: String = f.iter().map(|x| V::Float(*x).to_display_string() + "\n").collect();
    h.case(&src, trips > 0);
    compare(h, &src, &out, false);
}
pub fn c19(h: &mut H) {
    h.rounds("kernel", 4.0, 400_000, kernel);
    h.rounds("floats", 6.0, 100_000, floats);
    h.rounds("ints", 30.0, 1_000_000, ints);
}
