//! C11: every merge schedule of a random operation history must give the value that the history alone determines.
//! Oracle: operations are recorded with the set of operations their replica had received; the value of any state is a function
//! of the set of operations it has received.
use logicaffeine_data::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use vh::{Rng, H};

type Ops = BTreeSet<usize>;
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Inc(u64), Dec(u64),
    Set(u32, u64),
    Add(u8), Rem(u8, Ops), // Rem carries the additions it observed
    Put(u8, u64, bool), // key, increment; bool: through get_or_insert (an addition of the key) or get_mut
    Ins(u32), Del(u32),
}
struct Log { ops: Vec<(usize, Op, Ops)>, next: u32, multi: bool }

trait Kind {
    const NAME: &'static str;
    type S: Clone + Merge;
    fn new(id: u64) -> Self::S;
    /// perform one random local operation, returning its record
    fn op(s: &mut Self::S, r: &mut Rng, seen: &Ops, log: &mut Log) -> Option<Op>;
    fn value(s: &Self::S) -> String;
    fn oracle(seen: &Ops, log: &Log) -> Option<String>;
    /// deliver by delta: (delta against the receiver's version) applied to it; None if the type has no deltas
    fn delta(_from: &Self::S, _to: &mut Self::S) -> Option<()> { None }
    fn same(_a: &Self::S, _b: &Self::S) -> bool { true }
    fn seq(_s: &Self::S) -> Vec<u32> { vec![] }
}

fn alive(seen: &Ops, log: &Log, is_add: impl Fn(&Op) -> Option<u8>) -> BTreeMap<u8, usize> {
    let mut killed = Ops::new();
    for i in seen { if let Op::Rem(_, k) = &log.ops[*i].1 { killed.extend(k.iter().copied()); } }
    let mut m = BTreeMap::new();
    for i in seen { if let Some(e) = is_add(&log.ops[*i].1) { if !killed.contains(i) { *m.entry(e).or_insert(0) += 1; } } }
    m
}
fn observed(e: u8, seen: &Ops, log: &Log, is_add: impl Fn(&Op) -> Option<u8>) -> Ops { seen.iter().copied().filter(|i| is_add(&log.ops[*i].1) == Some(e)).collect() }
fn add_of(o: &Op) -> Option<u8> { if let Op::Add(e) = o { Some(*e) } else { None } }
fn put_of(o: &Op) -> Option<u8> { if let Op::Put(e, _, true) = o { Some(*e) } else { None } }

struct KG; struct KP; struct KL; struct KM; struct KMe; struct KA; struct KR; struct KO; struct KRga; struct KY;
impl Kind for KG {
    const NAME: &'static str = "gcounter"; type S = GCounter;
    fn new(id: u64) -> GCounter { GCounter::with_replica_id(id) }
    fn op(s: &mut GCounter, r: &mut Rng, _: &Ops, _: &mut Log) -> Option<Op> { let n = if r.chance(1, 6) { r.below(1 << 40) } else { r.below(5) }; s.increment(n); Some(Op::Inc(n)) }
    fn value(s: &GCounter) -> String { s.value().to_string() }
    fn oracle(seen: &Ops, log: &Log) -> Option<String> { Some(seen.iter().map(|i| if let Op::Inc(n) = log.ops[*i].1 { n } else { 0 }).sum::<u64>().to_string()) }
}
impl Kind for KP {
    const NAME: &'static str = "pncounter"; type S = PNCounter;
    fn new(id: u64) -> PNCounter { PNCounter::with_replica_id(id) }
    fn op(s: &mut PNCounter, r: &mut Rng, _: &Ops, _: &mut Log) -> Option<Op> { let b = r.below(30); let n = r.below(2 << b); Some(if r.bool() { s.increment(n); Op::Inc(n) } else { s.decrement(n); Op::Dec(n) }) }
    fn value(s: &PNCounter) -> String { s.value().to_string() }
    fn oracle(seen: &Ops, log: &Log) -> Option<String> { Some(seen.iter().map(|i| match log.ops[*i].1 { Op::Inc(n) => n as i64, Op::Dec(n) => -(n as i64), _ => 0 }).sum::<i64>().to_string()) }
    fn delta(f: &PNCounter, t: &mut PNCounter) -> Option<()> { if let Some(d) = f.delta_since(&t.version()) { t.apply_delta(&d); } Some(()) }
}
impl Kind for KL {
    const NAME: &'static str = "lww"; type S = LWWRegister<u32>;
    fn new(_: u64) -> LWWRegister<u32> { LWWRegister::new(0, 0) }
    // a writer's timestamp exceeds every timestamp it has seen; timestamps are unique across replicas (low bits from the log)
    fn op(s: &mut LWWRegister<u32>, r: &mut Rng, _: &Ops, log: &mut Log) -> Option<Op> { log.next += 1; let t = ((s.timestamp() >> 16) + 1 + r.below(4)) << 16 | log.next as u64; s.set(log.next, t); Some(Op::Set(log.next, t)) }
    fn value(s: &LWWRegister<u32>) -> String { s.get().to_string() }
    fn oracle(seen: &Ops, log: &Log) -> Option<String> { Some(seen.iter().filter_map(|i| if let Op::Set(v, t) = log.ops[*i].1 { Some((t, v)) } else { None }).max().map(|x| x.1).unwrap_or(0).to_string()) }
    fn same(a: &LWWRegister<u32>, b: &LWWRegister<u32>) -> bool { a == b }
}
impl Kind for KM {
    const NAME: &'static str = "mvregister"; type S = MVRegister<u32>;
    fn new(id: u64) -> MVRegister<u32> { MVRegister::new(id) }
    fn op(s: &mut MVRegister<u32>, r: &mut Rng, _: &Ops, log: &mut Log) -> Option<Op> { log.next += 1; if r.bool() { s.set(log.next); } else { s.resolve(log.next); } Some(Op::Set(log.next, 0)) }
    fn value(s: &MVRegister<u32>) -> String { let mut v: Vec<u32> = s.values().into_iter().copied().collect(); v.sort(); format!("{v:?} {}", s.has_conflict()) }
    fn oracle(seen: &Ops, log: &Log) -> Option<String> {
        let mut v: Vec<u32> = seen.iter().filter(|i| !seen.iter().any(|j| log.ops[*j].2.contains(i))).filter_map(|i| if let Op::Set(v, _) = log.ops[*i].1 { Some(v) } else { None }).collect();
        v.sort(); let c = v.len() > 1; Some(format!("{v:?} {c}"))
    }
    fn delta(f: &MVRegister<u32>, t: &mut MVRegister<u32>) -> Option<()> { if let Some(d) = f.delta_since(&t.version()) { t.apply_delta(&d); } Some(()) }
}
// the same register with values that replicas write independently: equal values are one value to a reader, however many writes carry it
impl Kind for KMe {
    const NAME: &'static str = "mvregister-equal"; type S = MVRegister<u32>;
    fn new(id: u64) -> MVRegister<u32> { MVRegister::new(id) }
    fn op(s: &mut MVRegister<u32>, r: &mut Rng, _: &Ops, _: &mut Log) -> Option<Op> { let v = r.below(2) as u32; if r.bool() { s.set(v); } else { s.resolve(v); } Some(Op::Set(v, 0)) }
    fn value(s: &MVRegister<u32>) -> String { let v: BTreeSet<u32> = s.values().into_iter().copied().collect(); format!("{v:?} {}", v.len() < 2 || s.has_conflict()) }
    fn oracle(seen: &Ops, log: &Log) -> Option<String> {
        let v: BTreeSet<u32> = seen.iter().filter(|i| !seen.iter().any(|j| log.ops[*j].2.contains(i))).filter_map(|i| if let Op::Set(v, _) = log.ops[*i].1 { Some(v) } else { None }).collect();
        Some(format!("{v:?} true"))
    }
    fn delta(f: &MVRegister<u32>, t: &mut MVRegister<u32>) -> Option<()> { if let Some(d) = f.delta_since(&t.version()) { t.apply_delta(&d); } Some(()) }
}
fn set_value<B: SetBias>(s: &ORSet<u8, B>) -> String { let mut v: Vec<u8> = s.iter().copied().collect(); v.sort(); let c: Vec<u8> = (0..6).filter(|e| s.contains(e)).collect(); format!("{v:?} {c:?} {} {}", s.len(), s.is_empty()) }
fn set_oracle(seen: &Ops, log: &Log) -> String { let v: Vec<u8> = alive(seen, log, add_of).into_keys().collect(); format!("{v:?} {v:?} {} {}", v.len(), v.is_empty()) }
impl Kind for KA {
    const NAME: &'static str = "orset-addwins"; type S = ORSet<u8, AddWins>;
    fn new(id: u64) -> Self::S { ORSet::new(id) }
    fn op(s: &mut Self::S, r: &mut Rng, seen: &Ops, log: &mut Log) -> Option<Op> {
        let e = r.below(4) as u8;
        if r.chance(3, 5) { if r.bool() { s.add(e) } else { s.insert(e) } Some(Op::Add(e)) } else { let o = observed(e, seen, log, add_of); s.remove(&e); Some(Op::Rem(e, o)) }
    }
    fn value(s: &Self::S) -> String { set_value(s) }
    fn oracle(seen: &Ops, log: &Log) -> Option<String> { Some(set_oracle(seen, log)) }
    fn delta(f: &Self::S, t: &mut Self::S) -> Option<()> { if let Some(d) = f.delta_since(&t.version()) { t.apply_delta(&d); } Some(()) }
    fn same(a: &Self::S, b: &Self::S) -> bool { a == b && b == a }
}
// remove-wins: each element is added once in the whole history, so a removal has observed either all of it or none of it
impl Kind for KR {
    const NAME: &'static str = "orset-removewins"; type S = ORSet<u8, RemoveWins>;
    fn new(id: u64) -> Self::S { ORSet::new(id) }
    fn op(s: &mut Self::S, r: &mut Rng, seen: &Ops, log: &mut Log) -> Option<Op> {
        if r.chance(3, 5) { let e = log.next as u8; if e >= 6 { return None; } log.next += 1; s.add(e); Some(Op::Add(e)) } else { let e = r.below(6) as u8; let o = observed(e, seen, log, add_of); s.remove(&e); Some(Op::Rem(e, o)) }
    }
    fn value(s: &Self::S) -> String { set_value(s) }
    fn oracle(seen: &Ops, log: &Log) -> Option<String> { Some(set_oracle(seen, log)) }
    fn delta(f: &Self::S, t: &mut Self::S) -> Option<()> { if let Some(d) = f.delta_since(&t.version()) { t.apply_delta(&d); } Some(()) }
    fn same(a: &Self::S, b: &Self::S) -> bool { a == b }
}
impl Kind for KO {
    const NAME: &'static str = "ormap"; type S = ORMap<u8, PNCounter>;
    fn new(id: u64) -> Self::S { ORMap::new(id) }
    fn op(s: &mut Self::S, r: &mut Rng, seen: &Ops, log: &mut Log) -> Option<Op> {
        let k = r.below(4) as u8; let n = r.below(9);
        match r.below(5) {
            0 | 1 => { s.get_or_insert(k).increment(n); Some(Op::Put(k, n, true)) }
            2 => { s.get_mut(&k)?.increment(n); Some(Op::Put(k, n, false)) }
            _ => { let o = observed(k, seen, log, put_of); s.remove(&k); Some(Op::Rem(k, o)) }
        }
    }
    fn value(s: &Self::S) -> String {
        let mut v: Vec<(u8, i64)> = s.iter().map(|(k, v)| (*k, v.value())).collect(); v.sort();
        let g: Vec<(u8, i64)> = (0..6).filter_map(|k| s.get(&k).map(|v| (k, v.value()))).collect();
        let mut ks: Vec<u8> = s.keys().copied().collect(); ks.sort();
        format!("{v:?} {g:?} {ks:?} {}", s.len())
    }
    fn oracle(seen: &Ops, log: &Log) -> Option<String> {
        let ks: Vec<u8> = alive(seen, log, put_of).into_keys().collect();
        let v: Vec<(u8, i64)> = ks.iter().map(|k| (*k, seen.iter().map(|i| if let Op::Put(e, n, _) = log.ops[*i].1 { if e == *k { n as i64 } else { 0 } } else { 0 }).sum())).collect();
        Some(format!("{v:?} {v:?} {ks:?} {}", ks.len()))
    }
    // an update through get_mut does not advance the map's version, so it is not an addition a delta must carry
    fn delta(f: &Self::S, t: &mut Self::S) -> Option<()> { if let Some(d) = f.delta_since(&t.version()) { t.apply_delta(&d); Some(()) } else { None } }
}
macro_rules! seqkind { ($k:ident, $t:ident, $n:expr) => {
    impl Kind for $k {
        const NAME: &'static str = $n; type S = $t<u32>;
        fn new(id: u64) -> Self::S { $t::new(id) }
        fn op(s: &mut Self::S, r: &mut Rng, _: &Ops, log: &mut Log) -> Option<Op> {
            let before = s.to_vec(); let n = before.len(); log.next += 1; let v = log.next;
            let mut want = before.clone();
            let o = match r.below(6) {
                0 | 1 => { s.append(v); want.push(v); Op::Ins(v) }
                2 if n > 0 => { let i = r.us(n); s.insert_after(i, v); want.insert(i + 1, v); Op::Ins(v) }
                3 => { let i = r.us(n + 1); s.insert_before(i, v); want.insert(i, v); Op::Ins(v) }
                _ if n > 0 => { let i = r.us(n); s.remove(i); want.remove(i); Op::Del(before[i]) }
                _ => { s.append(v); want.push(v); Op::Ins(v) }
            };
            if s.to_vec() != want { panic!("local edit {o:?} of {before:?} gave {:?}, expected {want:?}", s.to_vec()); }
            Some(o)
        }
        fn value(s: &Self::S) -> String {
            let v = s.to_vec(); let it: Vec<u32> = s.iter().copied().collect(); let g: Vec<u32> = (0..v.len()).filter_map(|i| s.get(i).copied()).collect();
            let mut w = v.clone(); w.sort(); format!("{w:?} {} {} {}", v == it && v == g && s.get(v.len()).is_none(), s.len(), s.is_empty())
        }
        fn oracle(seen: &Ops, log: &Log) -> Option<String> {
            let del: BTreeSet<u32> = seen.iter().filter_map(|i| if let Op::Del(v) = log.ops[*i].1 { Some(v) } else { None }).collect();
            let w: BTreeSet<u32> = seen.iter().filter_map(|i| if let Op::Ins(v) = log.ops[*i].1 { if del.contains(&v) { None } else { Some(v) } } else { None }).collect();
            Some(format!("{:?} true {} {}", w.iter().collect::<Vec<_>>(), w.len(), w.is_empty()))
        }
        fn delta(f: &Self::S, t: &mut Self::S) -> Option<()> { if let Some(d) = f.delta_since(&t.version()) { t.apply_delta(&d); } Some(()) }
        fn seq(s: &Self::S) -> Vec<u32> { s.to_vec() }
    }
} }
seqkind!(KRga, RGA, "rga");
seqkind!(KY, YATA, "yata");

fn removal(o: &Op) -> bool { matches!(o, Op::Rem(..) | Op::Del(_)) }
fn hidden(o: &Op) -> bool { matches!(o, Op::Put(_, _, false)) }

fn history<K: Kind>(h: &mut H) where K::S: Debug {
    let r = &mut h.rng;
    let n = 2 + r.us(4);
    let steps = 4 + r.us(26);
    let ids: Vec<u64> = { let mut v: Vec<u64> = (0..n as u64).map(|i| i + 1).collect(); if r.bool() { r.shuffle(&mut v); } if r.chance(1, 8) { v = (0..n).map(|_| r.u64() | 1).collect(); } v };
    let mut st: Vec<K::S> = ids.iter().map(|i| K::new(*i)).collect();
    let mut seen: Vec<Ops> = vec![Ops::new(); n];
    let mut log = Log { ops: vec![], next: 0, multi: false }; let _ = log.multi;
    let mut net: Vec<(K::S, Ops)> = vec![];
    let mut trace = format!("{} replicas={ids:?}:", K::NAME);
    let mut seqs: Vec<Vec<u32>> = vec![];
    let r2 = &mut h.rng.clone();
    let res = vh::panics(|| -> Result<(usize, usize), (String, String)> {
        let r = r2;
        let mut merges = 0; let mut deltas = 0;
        let chk = |s: &K::S, seen: &Ops, log: &Log, what: &str| -> Result<(), (String, String)> {
            let w = K::oracle(seen, log).unwrap(); let g = K::value(s);
            if g != w { Err((format!("{}-value", K::NAME), format!("{what}: value {g}, the received operations {seen:?} determine {w}"))) } else { Ok(()) }
        };
        for _ in 0..steps {
            let a = r.us(n);
            match r.below(10) {
                0..=4 => {
                    let past = seen[a].clone();
                    if let Some(o) = K::op(&mut st[a], r, &past, &mut log) {
                        trace.push_str(&format!(" #{} r{a} {o:?};", log.ops.len()));
                        seen[a].insert(log.ops.len()); log.ops.push((a, o, past));
                        chk(&st[a], &seen[a], &log, "after a local operation")?;
                    }
                }
                5 => { net.push((st[a].clone(), seen[a].clone())); trace.push_str(&format!(" snap r{a};")); }
                6 | 7 => {
                    let b = r.us(n); if a == b { let c = st[a].clone(); st[a].merge(&c); chk(&st[a], &seen[a], &log, "after merging with itself")?; continue; }
                    let o = st[b].clone(); st[a].merge(&o); let s = seen[b].clone(); seen[a].extend(s); merges += 1;
                    trace.push_str(&format!(" r{a}<-r{b};")); chk(&st[a], &seen[a], &log, "after a merge")?;
                }
                8 if !net.is_empty() => { let k = r.us(net.len()); let (o, s) = net[k].clone(); st[a].merge(&o); seen[a].extend(s); merges += 1; trace.push_str(&format!(" r{a}<-snap{k};")); chk(&st[a], &seen[a], &log, "after merging an old state")?; }
                _ => {
                    let b = r.us(n); if a == b { continue; }
                    let new: Vec<usize> = seen[b].difference(&seen[a]).copied().collect();
                    if new.iter().any(|i| removal(&log.ops[*i].1) || hidden(&log.ops[*i].1)) { continue; }
                    let from = st[b].clone(); let mut to = st[a].clone();
                    if K::delta(&from, &mut to).is_some() {
                        st[a] = to; let s = seen[b].clone(); seen[a].extend(s); deltas += 1;
                        trace.push_str(&format!(" r{a}<-delta r{b};")); chk(&st[a], &seen[a], &log, "after applying a delta of additions")?;
                    }
                }
            }
            seqs.push(K::seq(&st[a]));
        }
        // every replica receives everything, in different orders, groupings and multiplicities
        let all: Ops = (0..log.ops.len()).collect();
        let pool: Vec<K::S> = st.iter().cloned().chain(net.iter().map(|x| x.0.clone())).collect();
        let mut finals: Vec<K::S> = vec![];
        for f in 0..4 {
            let mut p = pool.clone();
            if f > 0 { let k = r.us(p.len()); let d = p[k].clone(); p.push(d); }
            r.shuffle(&mut p);
            if f % 2 == 0 { let mut x = p.pop().unwrap(); for o in &p { x.merge(o); } finals.push(x); }
            else { while p.len() > 1 { let b = p.swap_remove(r.us(p.len())); let k = r.us(p.len()); p[k].merge(&b); } finals.push(p.pop().unwrap()); }
        }
        for x in &finals { chk(x, &all, &log, "after receiving every update")?; }
        for i in 0..finals.len() {
            if K::seq(&finals[i]) != K::seq(&finals[0]) { return Err((format!("{}-order", K::NAME), format!("replicas that received everything hold {:?} and {:?}", K::seq(&finals[i]), K::seq(&finals[0])))); }
            if !K::same(&finals[i], &finals[0]) { return Err((format!("{}-unequal", K::NAME), format!("replicas that received everything compare unequal: {:?} and {:?}", finals[i], finals[0]))); }
            let mut x = finals[i].clone(); x.merge(&finals[(i + 1) % finals.len()]);
            chk(&x, &all, &log, "after merging again")?;
            if !K::same(&x, &finals[0]) || K::seq(&x) != K::seq(&finals[0]) { return Err((format!("{}-unstable", K::NAME), "merging equal replicas changed one".into())); }
        }
        let pos: HashMap<u32, usize> = K::seq(&finals[0]).into_iter().enumerate().map(|(i, v)| (v, i)).collect();
        for s in &seqs { let p: Vec<usize> = s.iter().filter_map(|v| pos.get(v).copied()).collect(); if p.windows(2).any(|w| w[0] >= w[1]) { return Err((format!("{}-order", K::NAME), format!("a replica showed {s:?}, the final order is {:?}", K::seq(&finals[0])))); } }
        Ok((merges, deltas))
    });
    h.rng = Rng::new(h.rng.u64());
    match res {
        Ok(Ok((m, d))) => { h.case(&trace, m > 0 && log.ops.len() > 1); if d > 0 { h.count(&format!("{}-with-delta", K::NAME)); } }
        Ok(Err((k, w))) => { h.case(&trace, true); h.violation(&k, w, trace) }
        Err(p) => { h.case(&trace, true); let k = if p.contains("local edit") { format!("{}-local", K::NAME) } else { format!("panic-{}", K::NAME) }; h.violation(&k, p, trace) }
    }
}

fn contexts(h: &mut H) {
    let r = &mut h.rng;
    let (n, m) = (1 + r.us(3), 2 + r.us(12));
    let mut cs: Vec<(DotContext, BTreeSet<(u64, u64)>)> = vec![(DotContext::new(), BTreeSet::new()); 3];
    let mut tr = String::new();
    for _ in 0..m {
        let i = r.us(3);
        match r.below(4) {
            0 | 1 => { let d = (1 + r.below(n as u64), 1 + r.below(6)); cs[i].0.add(Dot::new(d.0, d.1)); cs[i].1.insert(d); tr.push_str(&format!(" c{i}.add{d:?}")); }
            // next is only called by the owner of the id (100 + i), whose own dots are contiguous
            2 => { let id = 100 + i as u64; let d = cs[i].0.next(id); let want = cs[i].1.iter().filter(|x| x.0 == id).count() as u64 + 1; tr.push_str(&format!(" c{i}.next({id})")); if d != Dot::new(id, want) { h.violation("context-next", format!("next gave {d:?}, expected counter {want}"), tr.clone()); return; } cs[i].1.insert((id, want)); }
            _ => { let j = r.us(3); if i != j { let o = cs[j].clone(); cs[i].0.merge(&o.0); cs[i].1.extend(o.1); tr.push_str(&format!(" c{i}<-c{j}")); } }
        }
    }
    h.case(&tr, m > 3);
    for i in 0..3 {
        for rep in [1, 2, 3, 100, 101, 102] {
            for c in 1..8 { let g = cs[i].0.has_seen(&Dot::new(rep, c)); if g != cs[i].1.contains(&(rep, c)) { h.violation("context-seen", format!("has_seen({rep},{c}) is {g} on context {i}"), tr.clone()); return; } }
            let mut k = 0; while cs[i].1.contains(&(rep, k + 1)) { k += 1; }
            if cs[i].0.clock().get(rep) != k { h.violation("context-clock", format!("contiguous counter of {rep} is {}, expected {k}", cs[i].0.clock().get(rep)), tr.clone()); return; }
        }
        for j in 0..3 { let e = cs[i].0 == cs[j].0; if e != (cs[i].1 == cs[j].1) { h.violation("context-equality", format!("contexts {i} and {j} of dots {:?} and {:?}: == gives {e}", cs[i].1, cs[j].1), tr.clone()); return; } }
    }
}

fn clock(r: &mut Rng) -> (VClock, [u64; 3]) { let mut c = VClock::new(); let mut v = [0; 3]; for i in 0..3 { if r.bool() { v[i] = r.below(4); for k in 0..v[i] { assert_eq!(c.increment(i as u64), k + 1); } } } (c, v) }
fn dom(a: &[u64; 3], b: &[u64; 3]) -> bool { (0..3).all(|i| a[i] >= b[i]) }
fn clocks(h: &mut H) {
    let (a, x) = clock(&mut h.rng); let (b, y) = clock(&mut h.rng);
    let cs = format!("{x:?} {y:?}"); h.case(&cs, x != y);
    h.check(a.dominates(&b) == dom(&x, &y), "clock-dominates", || format!("dominates = {}", a.dominates(&b)), || cs.clone());
    h.check(a.concurrent(&b) == (!dom(&x, &y) && !dom(&y, &x)), "clock-concurrent", || "concurrent".into(), || cs.clone());
    let mut m = a.clone(); m.merge(&b); let mut m2 = b.clone(); m2.merge(&a);
    h.check((0..3).all(|i| m.get(i as u64) == x[i].max(y[i])) && m == m2, "clock-merge", || format!("{m:?} {m2:?}"), || cs.clone());
    h.check((a == b) == (x == y), "clock-equality", || format!("{a:?} {b:?}"), || cs.clone());
}

fn buffers(h: &mut H) {
    let r = &mut h.rng;
    let cap = 1 + r.us(4); let n = r.us(9);
    let mut b: DeltaBuffer<usize> = DeltaBuffer::new(cap);
    let mut vs: Vec<[u64; 3]> = vec![]; let mut cur = VClock::new(); let mut curv = [0u64; 3];
    let mut tr = format!("cap {cap}");
    for i in 0..n {
        // versions of one replica's successive states: they only grow
        for _ in 0..1 + r.us(2) { let k = r.us(3); cur.increment(k as u64); curv[k] += 1; }
        b.push(cur.clone(), i); vs.push(curv); tr.push_str(&format!(" push{curv:?}"));
    }
    let (q, qv) = clock(r); tr.push_str(&format!(" since{qv:?}"));
    h.case(&tr, n > cap);
    let got = b.deltas_since(&q);
    let need: Vec<usize> = (0..n).filter(|i| !dom(&qv, &vs[*i])).collect();
    let ev = n.saturating_sub(cap);
    h.check(b.len() == n.min(cap) && b.is_empty() == (n == 0) && b.can_serve(&q) == got.is_some(), "buffer-len", || format!("len {}", b.len()), || tr.clone());
    match got {
        Some(g) => { h.check(g == need, "buffer-gap", || format!("deltas_since gave {g:?}, the peer lacks {need:?}"), || tr.clone()); }
        None => { h.check(ev > 0 && !(dom(&qv, &vs[ev - 1]) && qv != vs[ev - 1]), "buffer-refused", || format!("no deltas although every delta the peer lacks ({need:?}) is held"), || tr.clone()); }
    }
}

pub fn c11(h: &mut H) {
    h.rounds("gcounter", 1.5, 4000, history::<KG>);
    h.rounds("pncounter", 1.5, 4000, history::<KP>);
    h.rounds("lww", 1.5, 4000, history::<KL>);
    h.rounds("mvregister", 2.0, 6000, history::<KM>);
    h.rounds("mvregister-equal", 2.0, 6000, history::<KMe>);
    h.rounds("orset-addwins", 3.0, 10000, history::<KA>);
    h.rounds("orset-removewins", 3.0, 10000, history::<KR>);
    h.rounds("ormap", 3.0, 10000, history::<KO>);
    h.rounds("rga", 3.0, 6000, history::<KRga>);
    h.rounds("yata", 3.0, 6000, history::<KY>);
    h.rounds("context", 1.5, 20000, contexts);
    h.rounds("clock", 1.0, 20000, clocks);
    h.rounds("buffer", 1.5, 20000, buffers);
    if h.group("lww-equal-timestamps") {
        let (a, b) = (LWWRegister::new(1u32, 7), LWWRegister::new(2u32, 7));
        let (mut x, mut y) = (a.clone(), b.clone()); x.merge(&b); y.merge(&a);
        h.case("two writes with one timestamp", true);
        h.check(x.get() == y.get(), "lww-equal-timestamps", || format!("a.merge(b) keeps {}, b.merge(a) keeps {}", x.get(), y.get()), || "LWWRegister(1, t=7) and LWWRegister(2, t=7) merged both ways".into());
    }
    if h.group("removewins-two-adds") {
        let mut a: ORSet<u8, RemoveWins> = ORSet::new(1); a.add(0);
        let mut b: ORSet<u8, RemoveWins> = ORSet::new(2); b.merge(&a); b.remove(&0);
        let mut d: ORSet<u8, RemoveWins> = ORSet::new(3); d.add(0);
        let mut x = a.clone(); x.merge(&d); x.merge(&b);
        let mut y = a.clone(); y.merge(&b); y.merge(&d);
        h.case("two concurrent adds and a remove of one of them", true);
        h.check(x.contains(&0) == y.contains(&0), "removewins-two-adds", || format!("(a+d)+b contains it: {}, (a+b)+d contains it: {}", x.contains(&0), y.contains(&0)), || "RemoveWins: a adds 0, b receives a and removes 0, d adds 0".into());
    }
}
