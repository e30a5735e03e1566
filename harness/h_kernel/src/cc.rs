//! C23: disjoint sets and congruence closure against closures computed from the definition.
use logicaffeine_base::union_find::UnionFind;
use logicaffeine_kernel::cc::{check_goal, EGraph, ENode};
use logicaffeine_kernel::{Literal, Term};
use std::collections::HashMap;
use vh::{Rng, H};

/// The smallest equivalence containing the pairs, as a class number per element.
fn classes(n: usize, pairs: &[(usize, usize)]) -> Vec<usize> {
    let mut c: Vec<usize> = (0..n).collect();
    loop {
        let mut ch = false;
        for &(a, b) in pairs { let m = c[a].min(c[b]); if c[a] != m { c[a] = m; ch = true; } if c[b] != m { c[b] = m; ch = true; } }
        if !ch { return c; }
    }
}

pub fn c23(h: &mut H) {
    h.rounds("union-find", 4.0, 30_000, |h| {
        let steps = 1 + h.rng.us(60);
        let mut uf = UnionFind::new();
        let mut pairs: Vec<(usize, usize)> = vec![];
        let mut n = 0usize;
        let mut log = String::new();
        for _ in 0..steps {
            let k = h.rng.below(10);
            if n == 0 || k < 2 {
                let id = uf.make_set(); log.push_str("make;");
                h.check(id == n, "make-set", || format!("make_set returned {id}, expected {n}"), || log.clone()); n += 1;
            } else if k < 7 {
                let a = h.rng.us(n); let b = if h.rng.chance(1, 2) { h.rng.us(n) } else { (a + 1) % n };
                let before = classes(n, &pairs);
                log.push_str(&format!("union({a},{b});"));
                let (r, want) = (uf.union(a, b), before[a] != before[b]); pairs.push((a, b));
                h.check(r == want, "union-result", || format!("union({a},{b}) returned {r} but the sets were {}", if want { "distinct" } else { "already joined" }), || log.clone());
            } else {
                let (a, b) = (h.rng.us(n), h.rng.us(n)); log.push_str(&format!("find({a}),find({b});"));
                let c = classes(n, &pairs); let (fa, fb) = (uf.find(a), uf.find(b));
                h.check((fa == fb) == (c[a] == c[b]), "connected", || format!("find({a})={fa}, find({b})={fb} but connected is {}", c[a] == c[b]), || log.clone());
                h.check(fa < n && c[fa] == c[a] && uf.find(fa) == fa, "representative", || format!("find({a})={fa} is not a fixed member of its set"), || log.clone());
            }
            h.check(uf.len() == n && uf.is_empty() == (n == 0), "len", || format!("len {} after creating {n}", uf.len()), || log.clone());
        }
        h.case(&log, pairs.len() > 1);
        let c = classes(n, &pairs);
        for a in 0..n { for b in 0..n { let (fa, fb) = (uf.find(a), uf.find(b)); if !h.check((fa == fb) == (c[a] == c[b]), "connected", || format!("{a} and {b}: same set {}, connected {}", fa == fb, c[a] == c[b]), || log.clone()) { return; } } }
    });
    h.rounds("egraph", 8.0, 60_000, |h| {
        let steps = 2 + h.rng.us(26);
        let mut g = EGraph::new();
        let mut nodes: Vec<ENode> = vec![]; // by id
        let mut stated: Vec<(usize, usize)> = vec![];
        let mut log = String::new();
        let late = h.rng.bool();
        for s in 0..steps {
            let n = nodes.len();
            let k = h.rng.below(10);
            let want_add = n < 2 || if late { k < 6 } else { s * 2 < steps && k < 9 };
            if want_add {
                let node = if n == 0 || h.rng.chance(1, 3) { atom(&mut h.rng) } else { let (f, a) = (h.rng.us(n), h.rng.us(n)); ENode::App { func: f, arg: a } };
                log.push_str(&format!("add {};", show(&node)));
                let id = g.add(node.clone());
                match nodes.iter().position(|x| *x == node) {
                    Some(p) => { h.check(id == p, "hash-cons", || format!("adding {} again returned {id}, first id {p}", show(&node)), || log.clone()); }
                    None => { h.check(id == n, "new-id", || format!("new node got id {id}, expected {n}"), || log.clone()); nodes.push(node); }
                }
            } else if k < 8 {
                let (a, b) = (h.rng.us(n), h.rng.us(n)); log.push_str(&format!("merge({a},{b});")); g.merge(a, b); stated.push((a, b));
            } else { let (a, b) = (h.rng.us(n), h.rng.us(n)); compare(h, &mut g, &nodes, &stated, a, b, &log); }
        }
        h.case(&log, !stated.is_empty() && nodes.iter().any(|n| matches!(n, ENode::App { .. })));
        let c = close(&nodes, &stated);
        for a in 0..nodes.len() { for b in 0..a {
            let e = g.equivalent(a, b);
            if !h.check(e == (c[a] == c[b]), "congruence", || format!("{} and {}: reported {}, follows {}", full(&nodes, a), full(&nodes, b), e, c[a] == c[b]), || log.clone()) { return; }
        } }
    });
    h.rounds("goals", 5.0, 30_000, |h| {
        // goals of the tactic: equalities between small curried terms under equational hypotheses
        let k = h.rng.us(5);
        let hyps: Vec<(S, S)> = (0..k).map(|_| { let d = h.rng.us(3); let e = h.rng.us(3); (gen(&mut h.rng, d), gen(&mut h.rng, e)) }).collect();
        let (d, e) = (h.rng.us(4), h.rng.us(4));
        let goal = (gen(&mut h.rng, d), gen(&mut h.rng, e));
        // bias toward provable goals: rewrite the left side with the hypotheses
        let goal = if h.rng.bool() { let mut t = goal.0.clone(); for _ in 0..3 { if !hyps.is_empty() { let q = h.rng.pick(&hyps).clone(); t = rewrite(&t, &q.0, &q.1); } } (goal.0, t) } else { goal };
        let mut t = eq(&goal.0, &goal.1);
        for (a, b) in hyps.iter().rev() { t = sapp(sapp(sname("implies"), eq(a, b)), t); }
        let mut nodes = vec![]; let mut map = HashMap::new();
        let mut st = vec![];
        for (a, b) in &hyps { let x = intern(&mut nodes, &mut map, a); let y = intern(&mut nodes, &mut map, b); st.push((x, y)); }
        let (x, y) = (intern(&mut nodes, &mut map, &goal.0), intern(&mut nodes, &mut map, &goal.1));
        let c = close(&nodes, &st);
        let case = format!("hypotheses {hyps:?} goal {goal:?}"); h.case(&case, !hyps.is_empty());
        if let Some(r) = h.guard("check-goal", || case.clone(), || check_goal(&t)) { h.check(r == (c[x] == c[y]), "goal", || format!("check_goal says {r}, the equality follows: {}", c[x] == c[y]), || case.clone()); }
    });
}
fn compare(h: &mut H, g: &mut EGraph, nodes: &[ENode], st: &[(usize, usize)], a: usize, b: usize, log: &str) {
    let c = close(nodes, st); let e = g.equivalent(a, b);
    h.check(e == (c[a] == c[b]), "congruence", || format!("{} and {}: reported {}, follows {}", full(nodes, a), full(nodes, b), e, c[a] == c[b]), || log.to_string());
}
fn atom(r: &mut Rng) -> ENode { match r.below(4) { 0 => ENode::Lit(r.range(-1, 1)), 1 => ENode::Var(r.range(0, 1)), _ => ENode::Name(["f", "a", "b"][r.us(3)].into()) } }
fn show(n: &ENode) -> String { match n { ENode::Lit(i) => format!("{i}"), ENode::Var(i) => format!("#{i}"), ENode::Name(s) => s.clone(), ENode::App { func, arg } => format!("[{func}]([{arg}])") } }
fn full(ns: &[ENode], i: usize) -> String { match &ns[i] { ENode::App { func, arg } => { let a = full(ns, *arg); format!("{}({a})", full(ns, *func)) } x => show(x) } }
/// Least congruence over the given nodes containing the stated pairs.
fn close(nodes: &[ENode], st: &[(usize, usize)]) -> Vec<usize> {
    let mut pairs = st.to_vec();
    loop {
        let c = classes(nodes.len(), &pairs);
        let mut more = false;
        for i in 0..nodes.len() { for j in 0..i { if c[i] != c[j] { if let (ENode::App { func: f, arg: a }, ENode::App { func: g, arg: b }) = (&nodes[i], &nodes[j]) { if c[*f] == c[*g] && c[*a] == c[*b] { pairs.push((i, j)); more = true; } } } } }
        if !more { return c; }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum S { L(i64), V(i64), N(&'static str), A(Box<S>, Box<S>) }
fn gen(r: &mut Rng, d: usize) -> S { if d == 0 { match r.below(5) { 0 => S::L(r.range(0, 1)), 1 => S::V(r.range(0, 1)), k => S::N(["f", "a", "b"][k as usize - 2]) } } else { let e = r.us(d); let f = gen(r, e); let x = gen(r, d - 1); S::A(Box::new(f), Box::new(x)) } }
fn rewrite(t: &S, a: &S, b: &S) -> S { if t == a { return b.clone(); } match t { S::A(f, x) => S::A(Box::new(rewrite(f, a, b)), Box::new(rewrite(x, a, b))), _ => t.clone() } }
fn app(f: Term, x: Term) -> Term { Term::App(Box::new(f), Box::new(x)) }
fn gl(s: &str) -> Term { Term::Global(s.into()) }
fn sname(s: &str) -> Term { app(gl("SName"), Term::Lit(Literal::Text(s.into()))) }
fn sapp(f: Term, x: Term) -> Term { app(app(gl("SApp"), f), x) }
fn syn(s: &S) -> Term { match s { S::L(i) => app(gl("SLit"), Term::Lit(Literal::Int(*i))), S::V(i) => app(gl("SVar"), Term::Lit(Literal::Int(*i))), S::N(n) => sname(n), S::A(f, x) => sapp(syn(f), syn(x)) } }
fn eq(a: &S, b: &S) -> Term { sapp(sapp(sname("Eq"), syn(a)), syn(b)) }
fn intern(nodes: &mut Vec<ENode>, m: &mut HashMap<S, usize>, s: &S) -> usize {
    if let Some(&i) = m.get(s) { return i; }
    let n = match s { S::L(i) => ENode::Lit(*i), S::V(i) => ENode::Var(*i), S::N(x) => ENode::Name((*x).into()), S::A(f, x) => { let f = intern(nodes, m, f); let x = intern(nodes, m, x); ENode::App { func: f, arg: x } } };
    nodes.push(n); m.insert(s.clone(), nodes.len() - 1); nodes.len() - 1
}
