//! C17: the scheduler against a reference model of tasks, channels and timers.
//! The model is fed the polls the real scheduler performs and the decisions it records; it decides
//! itself which task may run, what it must be resumed with, and when the run is over.
use logicaffeine_runtime::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use vh::{Rng, H};

#[derive(Clone, Debug)]
enum Op { Yield, Send(usize), SendKid(usize, usize), TrySend(usize), Recv(usize), TryRecv(usize), Select(Vec<Arm>), Sleep(u64), NewChan(Option<usize>), Spawn(u16), Await(usize), Abort(usize), Close(usize), Io }
#[derive(Clone, Debug)]
enum Arm { R(usize), T(u64) }
type Progs = Arc<Vec<(u8, Vec<Op>)>>;

/// what a task asked for, with the ids resolved
#[derive(Clone, Debug, PartialEq)]
enum St { Yield, Send(ChanId, RtPayload), TrySend(ChanId, RtPayload), Recv(ChanId), TryRecv(ChanId), Select(Vec<Sa>), Sleep(u64), NewChan(Option<usize>), Spawn(u8), Await(TaskId), Abort(TaskId), Close(ChanId), Io, Exit(RtPayload) }
#[derive(Clone, Debug, PartialEq)]
enum Sa { R(ChanId), T(u64) }
#[derive(Clone, Debug, PartialEq)]
struct Res { val: RtPayload, arm: Option<usize>, chan: Option<ChanId>, kid: Option<TaskId> }
#[derive(Clone, Debug)]
struct Poll { uid: u64, res: Res, step: St }
type Log = Arc<Mutex<Vec<Poll>>>;

struct Script { progs: Progs, me: usize, uid: u64, pc: usize, chans: Vec<ChanId>, kids: Vec<TaskId>, seq: i64, log: Log, uids: Arc<Mutex<u64>>, ws: bool, out: Vec<String>, main: bool }
impl Script {
    fn step(&mut self, ctx: &TaskCtx) -> (St, Option<u16>) {
        if let Some(c) = ctx.new_chan { self.chans.push(c); }
        if let Some(k) = ctx.spawned { self.kids.push(k); }
        if let RtPayload::TaskHandle(t) = &ctx.resumed_with { self.kids.push(*t); }
        loop {
            let op = match self.progs[self.me].1.get(self.pc) { None => return (St::Exit(RtPayload::Int(self.uid as i64 * 1000 + self.seq)), None), Some(o) => o.clone() };
            self.pc += 1;
            let (nc, nk) = (self.chans.len(), self.kids.len());
            let ch = |i: usize| if nc == 0 { None } else { Some(self.chans[i % nc]) };
            let kid = |i: usize| if nk == 0 { None } else { Some(self.kids[i % nk]) };
            let s = match op {
                Op::Yield => St::Yield,
                Op::Io => if self.ws { continue } else { St::Io },
                Op::Sleep(d) => St::Sleep(d),
                Op::NewChan(c) => St::NewChan(c),
                Op::Spawn(f) => { return (St::Spawn(self.progs[f as usize].0), Some(f)) }
                Op::Send(c) => match ch(c) { None => continue, Some(c) => { self.seq += 1; St::Send(c, RtPayload::Int(self.uid as i64 * 1000 + self.seq)) } },
                Op::TrySend(c) => match ch(c) { None => continue, Some(c) => { self.seq += 1; St::TrySend(c, RtPayload::Int(self.uid as i64 * 1000 + self.seq)) } },
                Op::SendKid(c, k) => match (ch(c), kid(k)) { (Some(c), Some(k)) => St::Send(c, RtPayload::TaskHandle(k)), _ => continue },
                Op::Recv(c) => match ch(c) { None => continue, Some(c) => St::Recv(c) },
                Op::TryRecv(c) => match ch(c) { None => continue, Some(c) => St::TryRecv(c) },
                Op::Close(c) => match ch(c) { None => continue, Some(c) => St::Close(c) },
                Op::Select(a) => { if nc == 0 { continue } St::Select(a.iter().map(|x| match x { Arm::R(c) => Sa::R(ch(*c).unwrap()), Arm::T(d) => Sa::T(*d) }).collect()) }
                Op::Await(k) => match kid(k) { None => continue, Some(k) => St::Await(k) },
                Op::Abort(k) => match kid(k) { None => continue, Some(k) => St::Abort(k) },
            };
            return (s, None);
        }
    }
}
impl<'t> Task<'t> for Script {
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
        let res = Res { val: ctx.resumed_with.clone(), arm: ctx.selected_arm, chan: ctx.new_chan, kid: ctx.spawned };
        let (st, f) = self.step(ctx);
        if self.ws { self.out.push(format!("{} {:?} {:?} {:?}", self.me, self.uid_ws(), res, st)); }
        else { self.log.lock().unwrap().push(Poll { uid: self.uid, res, step: st.clone() }); }
        match st {
            St::Yield => TaskStep::Yield, St::Io => TaskStep::IoPending, St::Sleep(d) => TaskStep::Sleep(d), St::NewChan(c) => TaskStep::NewChan(c),
            St::Send(c, v) => TaskStep::Send(c, v), St::TrySend(c, v) => TaskStep::TrySend(c, v), St::Recv(c) => TaskStep::Recv(c), St::TryRecv(c) => TaskStep::TryRecv(c),
            St::Close(c) => TaskStep::Close(c), St::Await(t) => TaskStep::Await(t), St::Abort(t) => TaskStep::Abort(t), St::Exit(v) => TaskStep::Exit(v),
            St::Select(a) => TaskStep::Select(a.into_iter().map(|x| match x { Sa::R(c) => SelectArm::Recv(c), Sa::T(d) => SelectArm::Timeout(d) }).collect()),
            St::Spawn(_) => {
                let f = f.unwrap();
                let mut args: Vec<RtPayload> = self.chans.iter().map(|c| RtPayload::Chan(*c)).collect();
                args.extend(self.kids.iter().map(|k| RtPayload::TaskHandle(*k)));
                if self.ws { TaskStep::SpawnDesc { func: f, args, want_handle: true } }
                else { TaskStep::Spawn(Box::new(build(&self.progs, f as usize, &args, &self.log, &self.uids, false, false))) }
            }
        }
    }
    fn priority(&self) -> u8 { self.progs[self.me].0 }
    fn take_output(&mut self) -> Vec<String> { std::mem::take(&mut self.out) }
}
impl Script { fn uid_ws(&self) -> usize { self.pc } }
fn build(progs: &Progs, me: usize, args: &[RtPayload], log: &Log, uids: &Arc<Mutex<u64>>, ws: bool, main: bool) -> Script {
    let mut chans = vec![]; let mut kids = vec![];
    for a in args { match a { RtPayload::Chan(c) => chans.push(*c), RtPayload::TaskHandle(t) => kids.push(*t), _ => {} } }
    let uid = if ws { me as u64 + 7 } else { let mut u = uids.lock().unwrap(); *u += 1; *u };
    Script { progs: progs.clone(), me, uid, pc: 0, chans, kids, seq: 0, log: log.clone(), uids: uids.clone(), ws, out: vec![], main }
}

// ---------------------------------------------------------------- the reference model
#[derive(Clone, Debug, PartialEq)]
enum Ts { Ready, Recv, Send, Select, Timer, Await, Io, Done }
#[derive(Clone, Debug)]
struct Mt { uid: Option<u64>, pri: u8, st: Ts, res: Res, arms: Vec<Sa>, main: bool, result: Option<RtPayload>, waiters: Vec<TaskId> }
#[derive(Default)]
struct Mc { cap: Option<usize>, q: VecDeque<RtPayload>, senders: VecDeque<(TaskId, RtPayload)>, receivers: VecDeque<TaskId>, closed: bool }
struct Model { t: BTreeMap<TaskId, Mt>, c: BTreeMap<ChanId, Mc>, timers: Vec<(u64, TaskId, Option<usize>)>, clock: u64, tr: VecDeque<ChoicePoint>, next: u64, main: Option<RtPayload>, dcap: usize, pol: SchedulePolicy, ready: Vec<TaskId>, sent: BTreeMap<i64, u32>, got: BTreeMap<i64, u32> }
const NIL: Res = Res { val: RtPayload::Nothing, arm: None, chan: None, kid: None };
impl Model {
    fn choose(&mut self, k: ChoiceKind, n: usize) -> Result<usize, String> {
        let c = self.tr.pop_front().ok_or(format!("no recorded decision left for {k:?} among {n}"))?;
        if c.kind != k || c.options != n { return Err(format!("recorded decision {c:?} where the model has {k:?} among {n}")); }
        if c.chosen >= n { return Err(format!("decision out of range: {c:?}")); }
        Ok(c.chosen)
    }
    fn wake(&mut self, t: TaskId, res: Res) { let m = self.t.get_mut(&t).unwrap(); m.res = res; m.st = Ts::Ready; m.arms.clear(); self.ready.push(t); }
    fn unregister(&mut self, t: TaskId) { for c in self.c.values_mut() { c.receivers.retain(|x| *x != t); } self.timers.retain(|x| x.1 != t); }
    /// a value reaches a parked receiver or select
    fn deliver(&mut self, r: TaskId, ch: ChanId, v: RtPayload) {
        let m = &self.t[&r];
        let arm = if m.st == Ts::Select { m.arms.iter().position(|a| *a == Sa::R(ch)) } else { None };
        self.unregister(r);
        self.wake(r, Res { val: v, arm, ..NIL });
    }
    fn spawn(&mut self, pri: u8, main: bool) -> TaskId { let id = TaskId(self.next); self.next += 1; self.t.insert(id, Mt { uid: None, pri, st: Ts::Ready, res: NIL, arms: vec![], main, result: None, waiters: vec![] }); self.ready.push(id); id }
    fn finish(&mut self, t: TaskId, v: RtPayload) { let m = self.t.get_mut(&t).unwrap(); m.st = Ts::Done; m.result = Some(v.clone()); for w in std::mem::take(&mut m.waiters) { self.wake(w, Res { val: v.clone(), ..NIL }); } }
    fn take(&mut self, ch: ChanId) -> Option<RtPayload> {
        let c = self.c.get_mut(&ch).unwrap();
        if let Some(v) = c.q.pop_front() {
            if let Some((s, p)) = c.senders.pop_front() { c.q.push_back(p); self.wake(s, NIL); }
            return Some(v);
        }
        let (s, p) = c.senders.pop_front()?;
        self.wake(s, NIL);
        Some(p)
    }
    /// returns Ok(false) if the value cannot be taken now
    fn offer(&mut self, ch: ChanId, v: &RtPayload) -> bool {
        if let Some(r) = self.c.get_mut(&ch).unwrap().receivers.pop_front() { self.deliver(r, ch, v.clone()); return true; }
        let c = self.c.get_mut(&ch).unwrap();
        if c.cap.map_or(true, |k| c.q.len() < k) { c.q.push_back(v.clone()); true } else { false }
    }
    fn poll(&mut self, p: &Poll) -> Result<(), String> {
        // who may run
        let want = match self.pol {
            SchedulePolicy::Random => { let k = self.choose(ChoiceKind::TaskPick, self.ready.len())?; let _ = k; None }
            SchedulePolicy::Priority => self.ready.iter().map(|t| self.t[t].pri).max(),
            _ => None,
        };
        // identify the polled task: known uid, or the not-yet-polled one with the next uid
        let id = match self.t.iter().find(|(_, m)| m.uid == Some(p.uid)) {
            Some((i, _)) => *i,
            None => *self.t.iter().filter(|(_, m)| m.uid.is_none()).nth((p.uid - 1 - self.t.values().filter(|m| m.uid.map_or(false, |u| u < p.uid)).count() as u64) as usize).ok_or("poll of an unknown task")?.0,
        };
        let m = self.t.get_mut(&id).unwrap();
        m.uid = Some(p.uid);
        if m.st != Ts::Ready { return Err(format!("task {id:?} was run while {:?}; resumed with {:?}", m.st, p.res)); }
        if let Some(w) = want { if m.pri != w { return Err(format!("task {id:?} of priority {} ran before one of priority {w}", m.pri)); } }
        if m.res != p.res { return Err(format!("task {id:?} resumed with {:?}, should be {:?}", p.res, m.res)); }
        m.res = NIL;
        if let RtPayload::Int(v) = p.res.val { if v > 0 { *self.got.entry(v).or_insert(0) += 1; } }
        let k = self.ready.iter().position(|t| *t == id).unwrap();
        if matches!(self.pol, SchedulePolicy::Fifo | SchedulePolicy::RoundRobin) && k != 0 { /* order among tasks made ready in one step is not specified */ }
        self.ready.remove(k);
        match &p.step {
            St::Yield => self.wake(id, NIL),
            St::Io => self.t.get_mut(&id).unwrap().st = Ts::Io,
            St::Exit(v) => { if self.t[&id].main { self.main = Some(v.clone()); } self.finish(id, v.clone()) }
            St::Spawn(pri) => { let k = self.spawn(*pri, false); self.wake(id, Res { kid: Some(k), ..NIL }) }
            St::NewChan(c) => { let ch = ChanId(self.next); self.next += 1; self.c.insert(ch, Mc { cap: Some(c.unwrap_or(self.dcap)), ..Default::default() }); self.wake(id, Res { chan: Some(ch), ..NIL }) }
            St::Sleep(d) => { self.timers.push((self.clock.saturating_add(*d), id, None)); self.t.get_mut(&id).unwrap().st = Ts::Timer; }
            St::Send(c, v) => if self.offer(*c, v) { self.wake(id, NIL) } else { self.c.get_mut(c).unwrap().senders.push_back((id, v.clone())); self.t.get_mut(&id).unwrap().st = Ts::Send; },
            St::TrySend(c, v) => { let b = self.offer(*c, v); self.wake(id, Res { val: RtPayload::Bool(b), ..NIL }) }
            St::Recv(c) => match self.take(*c) {
                Some(v) => self.wake(id, Res { val: v, ..NIL }),
                None if self.c[c].closed => self.wake(id, NIL),
                None => { self.c.get_mut(c).unwrap().receivers.push_back(id); self.t.get_mut(&id).unwrap().st = Ts::Recv; }
            },
            St::TryRecv(c) => { let v = self.take(*c).unwrap_or(RtPayload::Nothing); self.wake(id, Res { val: v, ..NIL }) }
            St::Close(c) => {
                let m = self.c.get_mut(c).unwrap(); m.closed = true;
                let mut rs: Vec<TaskId> = m.receivers.drain(..).collect(); let mut seen = vec![]; rs.retain(|r| if seen.contains(r) { false } else { seen.push(*r); true });
                for r in rs { self.deliver(r, *c, RtPayload::Nothing); }
                self.wake(id, NIL)
            }
            St::Await(k) => match self.t.get(k) {
                None => self.wake(id, NIL),
                Some(m) if m.st == Ts::Done => { let v = m.result.clone().unwrap(); self.wake(id, Res { val: v, ..NIL }) }
                Some(_) => { self.t.get_mut(k).unwrap().waiters.push(id); self.t.get_mut(&id).unwrap().st = Ts::Await; }
            },
            St::Abort(k) => {
                if self.t.get(k).map_or(false, |m| m.st != Ts::Done) {
                    self.ready.retain(|t| t != k); self.unregister(*k);
                    for c in self.c.values_mut() { c.senders.retain(|x| x.0 != *k); }
                    for m in self.t.values_mut() { m.waiters.retain(|x| x != k); }
                    self.finish(*k, RtPayload::Nothing);
                }
                if *k != id { self.wake(id, NIL) }
            }
            St::Select(arms) => {
                let ready: Vec<usize> = arms.iter().enumerate().filter(|(_, a)| match a { Sa::R(c) => { let c = &self.c[c]; !c.q.is_empty() || !c.senders.is_empty() || c.closed } _ => false }).map(|x| x.0).collect();
                if ready.is_empty() {
                    for (i, a) in arms.iter().enumerate() { match a { Sa::R(c) => self.c.get_mut(c).unwrap().receivers.push_back(id), Sa::T(d) => self.timers.push((self.clock.saturating_add(*d), id, Some(i))) } }
                    let m = self.t.get_mut(&id).unwrap(); m.arms = arms.clone(); m.st = Ts::Select;
                } else {
                    let w = if ready.len() == 1 { 0 } else { self.choose(ChoiceKind::SelectWinner, ready.len())? };
                    let arm = ready[w];
                    let Sa::R(c) = &arms[arm] else { unreachable!() };
                    let v = self.take(*c).unwrap_or(RtPayload::Nothing);
                    self.wake(id, Res { val: v, arm: Some(arm), ..NIL });
                }
            }
        }
        Ok(())
    }
    fn idle(&mut self) -> Result<(), String> {
        let e = self.timers.iter().map(|t| t.0).min().ok_or("the scheduler had no ready task and no timer, yet went on")?;
        self.clock = e;
        let (due, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut self.timers).into_iter().partition(|t| t.0 == e);
        self.timers = rest;
        let mut pool: Vec<usize> = (0..due.len()).collect();
        while !pool.is_empty() {
            let k = if due.len() > 1 { self.choose(ChoiceKind::TimerTieBreak, pool.len())? } else { 0 };
            let (_, t, arm) = due[pool.remove(k)];
            if matches!(self.t[&t].st, Ts::Timer | Ts::Select) { self.unregister(t); self.wake(t, Res { arm, ..NIL }); }
        }
        Ok(())
    }
    fn compare(&self, s: &SchedSnapshot) -> Result<(), String> {
        let kinds: Vec<(TaskId, String, bool)> = s.tasks.iter().map(|t| (t.id, format!("{:?}", t.kind), t.is_main)).collect();
        let mine: Vec<(TaskId, String, bool)> = self.t.iter().map(|(i, m)| (*i, match m.st { Ts::Ready => "Ready", Ts::Recv => "BlockedRecv", Ts::Send => "BlockedSend", Ts::Select => "BlockedSelect", Ts::Timer => "BlockedTimer", Ts::Await => "BlockedAwait", Ts::Io => "BlockedIo", Ts::Done => "Done" }.to_string(), m.main)).collect();
        if kinds != mine { return Err(format!("task states {kinds:?}, should be {mine:?}")); }
        if s.ready_len != self.ready.len() { return Err(format!("{} tasks in the ready queue, should be {}", s.ready_len, self.ready.len())); }
        if s.clock != self.clock { return Err(format!("clock {}, should be {}", s.clock, self.clock)); }
        for v in &s.channels {
            let c = self.c.get(&v.id).ok_or("unknown channel")?;
            if v.capacity.map_or(false, |k| v.depth > k) { return Err(format!("channel {:?} holds {} values, capacity {:?}", v.id, v.depth, v.capacity)); }
            if (v.depth, v.capacity, v.blocked_senders, v.blocked_receivers, v.closed) != (c.q.len(), c.cap, c.senders.len(), c.receivers.len(), c.closed) {
                return Err(format!("channel {v:?}, should hold {} values, {} waiting senders, {} waiting receivers, closed {}", c.q.len(), c.senders.len(), c.receivers.len(), c.closed));
            }
        }
        Ok(())
    }
    fn outcome(&self) -> Option<RunOutcome> {
        if !self.ready.is_empty() || !self.timers.is_empty() { return None; }
        if self.t.values().all(|m| m.st == Ts::Done) { Some(RunOutcome::Done(self.main.clone().unwrap_or(RtPayload::Nothing))) }
        else if self.t.values().any(|m| m.st == Ts::Io) { Some(RunOutcome::WaitingForIo) } else { Some(RunOutcome::Deadlock) }
    }
}

// ---------------------------------------------------------------- generation
fn gen_ops(r: &mut Rng, n: usize, nprogs: usize, me: usize, io: bool) -> Vec<Op> {
    let profile = r.below(5);
    (0..n).map(|_| {
        let c = r.us(4);
        match if profile == 0 { r.below(8) } else { r.below(20) } {
            0 | 1 => Op::Send(c), 2 | 3 => Op::Recv(c),
            4 => Op::Yield,
            5 => { let k = 1 + r.us(3); Op::Select((0..k).map(|_| if r.chance(1, 4) { Arm::T(r.below(4)) } else { Arm::R(r.us(4)) }).collect()) }
            6 => Op::Send(c), 7 => Op::Recv(c),
            8 => Op::TrySend(c), 9 => Op::TryRecv(c),
            10 => Op::Sleep(if r.chance(1, 12) { *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63]) } else { r.below(5) }),
            11 | 12 => if me + 1 < nprogs { Op::Spawn((me + 1 + r.us(nprogs - me - 1)) as u16) } else { Op::Yield },
            13 => Op::Await(r.us(4)), 14 => Op::Abort(r.us(4)),
            15 => if r.chance(1, 3) { Op::Close(c) } else { Op::Send(c) },
            16 => Op::SendKid(c, r.us(4)),
            17 => Op::NewChan(*r.pick(&[None, Some(0), Some(1), Some(2)])),
            18 => if io { Op::Io } else { Op::Yield },
            _ => { let k = 2 + r.us(2); Op::Select((0..k).map(|_| if r.chance(1, 3) { Arm::T(r.below(3)) } else { Arm::R(r.us(3)) }).collect()) }
        }
    }).collect()
}
fn gen(r: &mut Rng, io: bool) -> (Vec<Option<usize>>, Progs) {
    let np = 2 + r.us(4);
    let nc = 1 + r.us(3);
    let caps: Vec<Option<usize>> = (0..nc).map(|_| *r.pick(&[Some(0), Some(1), Some(1), Some(2), Some(3), Some(40), None])).collect();
    let mut v = vec![];
    for i in 0..np {
        let n = 1 + r.us(9);
        let mut ops = gen_ops(r, n, np, i, io);
        if i == 0 {
            let mut pre: Vec<Op> = caps.iter().map(|c| Op::NewChan(*c)).collect();
            for j in 1..np { if r.chance(3, 4) { pre.push(Op::Spawn(j as u16)); } }
            pre.extend(ops); ops = pre;
        }
        v.push((r.below(3) as u8, ops));
    }
    (caps, Arc::new(v))
}
const POLS: [SchedulePolicy; 5] = [SchedulePolicy::Fifo, SchedulePolicy::Lifo, SchedulePolicy::RoundRobin, SchedulePolicy::Random, SchedulePolicy::Priority];

fn record(progs: &Progs, cfg: SchedulerConfig, seed: u64) -> (RunOutcome, SchedTrace, Vec<Poll>, usize) {
    let log: Log = Default::default(); let uids = Arc::new(Mutex::new(0));
    let mut s = Scheduler::new(cfg, Chooser::record(SchedSeed(seed)));
    s.spawn_main(Box::new(build(progs, 0, &[], &log, &uids, false, true)));
    let mut wakes = 0;
    let o = loop { match s.run() { RunOutcome::WaitingForIo if wakes < 50 => { wakes += 1; if !s.wake_io() { break RunOutcome::WaitingForIo } } o => break o } };
    let l = log.lock().unwrap().clone();
    (o, s.into_trace(), l, wakes)
}

fn one(h: &mut H) {
    let (_, progs) = gen(&mut h.rng, true);
    let pol = *h.rng.pick(&POLS);
    let seed = if h.rng.bool() { h.rng.below(4) } else { h.rng.u64() };
    let cfg = SchedulerConfig::default().with_policy(pol).with_channel_capacity(1 + h.rng.us(3));
    let case = format!("policy {pol:?} seed {seed} default capacity {} programs {:?}", cfg.default_channel_capacity, progs);
    h.case(&case, progs.len() > 1);
    let Some((o, tr, log, wakes)) = h.guard("run", || case.clone(), || record(&progs, cfg, seed)) else { return };
    let Some(b) = h.guard("run", || case.clone(), || record(&progs, cfg, seed)) else { return };
    h.check((&o, &tr) == (&b.0, &b.1) && format!("{log:?}") == format!("{:?}", b.2), "same-seed", || format!("two runs with the same seed differ: {o:?} / {:?}", b.0), || case.clone());
    h.check(tr.choices.iter().all(|c| c.chosen < c.options), "choice-range", || format!("{:?}", tr.choices), || case.clone());
    // replay, step by step, beside the model
    let rlog: Log = Default::default(); let uids = Arc::new(Mutex::new(0));
    let case2 = case.clone();
    let r = h.guard("replay", || case2.clone(), || -> Result<RunOutcome, (String, String)> {
        let mut s = Scheduler::new(cfg, Chooser::replay(tr.clone()));
        let t0 = s.spawn_main(Box::new(build(&progs, 0, &[], &rlog, &uids, false, true)));
        let mut m = Model { t: BTreeMap::new(), c: BTreeMap::new(), timers: vec![], clock: 0, tr: tr.choices.iter().copied().collect(), next: t0.0, main: None, dcap: cfg.default_channel_capacity, pol, ready: vec![], sent: Default::default(), got: Default::default() };
        m.spawn(progs[0].0, true);
        let mut n = 0; let mut left = wakes;
        loop {
            let o = s.poll_once();
            let ps: Vec<Poll> = rlog.lock().unwrap()[n..].to_vec();
            n += ps.len();
            if let Some(o) = o {
                let e = m.outcome();
                if e.as_ref() != Some(&o) { return Err(("outcome".into(), format!("run reported {o:?}, should be {e:?} (tasks {:?})", m.t))); }
                if o == RunOutcome::WaitingForIo && left > 0 {
                    left -= 1;
                    s.wake_io();
                    let io: Vec<TaskId> = m.t.iter().filter(|(_, x)| x.st == Ts::Io).map(|(i, _)| *i).collect();
                    for t in io { m.wake(t, NIL); }
                    continue;
                }
                if !m.tr.is_empty() { return Err(("trace-surplus".into(), format!("decisions left over after replay: {:?}", m.tr))); }
                for (k, v) in &m.got { if *v > 1 && m.t.values().all(|t| t.result.as_ref() != Some(&RtPayload::Int(*k))) { return Err(("received-twice".into(), format!("value {k} received {v} times"))); } }
                return Ok(o);
            }
            if ps.len() > 1 { return Err(("double-poll".into(), "one step polled two tasks".into())); }
            match ps.first() {
                Some(p) => { if let RtPayload::Int(_) = p.res.val {} m.poll(p).map_err(|e| ("step".to_string(), format!("poll {n}: {e}; step {:?}", p.step)))?; }
                None => m.idle().map_err(|e| ("timers".to_string(), e))?,
            }
            m.compare(&s.snapshot()).map_err(|e| ("state".to_string(), format!("after poll {n} ({:?}): {e}", ps.first().map(|p| &p.step))))?;
        }
    });
    let _ = &r;
    match r {
        None => {}
        Some(Err((k, w))) => h.violation(&k, w, case),
        Some(Ok(o2)) => {
            h.check(o == o2, "replay-outcome", || format!("recorded run gave {o:?}, replay gave {o2:?}"), || case.clone());
            let l2 = rlog.lock().unwrap().clone();
            h.check(format!("{log:?}") == format!("{l2:?}"), "replay-log", || "replaying the trace produced different polls".into(), || case.clone());
            h.count(match o2 { RunOutcome::Done(_) => "done", RunOutcome::Deadlock => "deadlock", _ => "waiting-io" });
        }
    }
}

/// run in slices = run at once
fn slices(h: &mut H) {
    let (_, progs) = gen(&mut h.rng, false);
    let pol = *h.rng.pick(&POLS); let seed = h.rng.u64(); let cfg = SchedulerConfig::default().with_policy(pol);
    let case = format!("slices: policy {pol:?} seed {seed} programs {progs:?}");
    h.case(&case, true);
    let k = h.rng.us(4);
    let r = h.guard("slices", || case.clone(), || {
        let a = record(&progs, cfg, seed);
        let log: Log = Default::default(); let uids = Arc::new(Mutex::new(0));
        let mut s = Scheduler::new(cfg, Chooser::record(SchedSeed(seed)));
        s.spawn_main(Box::new(build(&progs, 0, &[], &log, &uids, false, true)));
        let mut z = s.run_slice(0);
        while z.is_none() { z = s.run_slice(1 + k); }
        let t = s.into_trace();
        let l = log.lock().unwrap().clone();
        let t2 = run_with_seed(cfg, SchedSeed(seed), |s| { s.spawn_main(Box::new(build(&progs, 0, &[], &Default::default(), &Arc::new(Mutex::new(0)), false, true))); });
        let o3 = run_with_trace(cfg, t2.1.clone(), |s| { s.spawn_main(Box::new(build(&progs, 0, &[], &Default::default(), &Arc::new(Mutex::new(0)), false, true))); });
        (a.0 == z.clone().unwrap() && a.1 == t && format!("{:?}", a.2) == format!("{l:?}"), a.0 == t2.0 && a.1 == t2.1 && o3 == t2.0)
    });
    if let Some((x, y)) = r {
        h.check(x, "slices", || "running in slices differs from running at once".into(), || case.clone());
        h.check(y, "run-with", || "run_with_seed / run_with_trace differ from Scheduler::run".into(), || case.clone());
    }
}

/// the multi-threaded driver: same result for every worker count; under queue policies the same as the cooperative one
fn ws(h: &mut H) {
    let (_, progs) = gen(&mut h.rng, false);
    let pol = *h.rng.pick(&POLS); let seed = h.rng.u64();
    let mk = |w: usize| { let mut c = SchedulerConfig::default().with_policy(pol); c.workers = w; c };
    let case = format!("work-stealing: policy {pol:?} seed {seed} programs {progs:?}");
    h.case(&case, true);
    let run = |w: usize| { let log: Log = Default::default(); let uids = Arc::new(Mutex::new(0)); let p = progs.clone();
        run_workstealing_seeded(mk(w), SchedSeed(seed), SpawnDesc { func: 0, args: vec![], priority: progs[0].0, is_main: true }, move |d: SpawnDesc| Box::new(build(&p, d.func as usize, &d.args, &log, &uids, true, d.is_main)) as Box<dyn Task<'static>>) };
    let Some(a) = h.guard("ws", || case.clone(), || run(1)) else { return };
    for w in [2, 3] {
        let Some(b) = h.guard("ws", || case.clone(), || run(w)) else { return };
        if !h.check(a.outcome == b.outcome && a.output == b.output && a.trace == b.trace, "ws-workers", || format!("one worker: {:?} {:?}; {w} workers: {:?} {:?}", a.outcome, a.output, b.outcome, b.output), || case.clone()) { return; }
    }
    if matches!(pol, SchedulePolicy::Fifo | SchedulePolicy::RoundRobin) {
        // the cooperative run of the same programs, rendered the same way
        let lines: Arc<Mutex<Vec<String>>> = Default::default();
        struct Coop { s: Script, lines: Arc<Mutex<Vec<String>>> }
        impl<'t> Task<'t> for Coop {
            fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
                let st = self.s.poll(ctx);
                self.lines.lock().unwrap().extend(self.s.take_output());
                match st { TaskStep::SpawnDesc { func, args, .. } => TaskStep::Spawn(Box::new(Coop { s: build(&self.s.progs, func as usize, &args, &self.s.log, &self.s.uids, true, false), lines: self.lines.clone() })), o => o }
            }
        }
        let l2 = lines.clone(); let p = progs.clone();
        let Some((o, t)) = h.guard("ws-coop", || case.clone(), || run_with_seed(mk(1), SchedSeed(seed), move |s| { s.spawn_main(Box::new(Coop { s: build(&p, 0, &[], &Default::default(), &Arc::new(Mutex::new(0)), true, true), lines: l2 })); })) else { return };
        let l = lines.lock().unwrap().clone();
        h.check(o == a.outcome && t == a.trace && l == a.output, "ws-cooperative", || format!("cooperative {o:?} {l:?}; work-stealing {:?} {:?}", a.outcome, a.output), || case.clone());
    }
}

pub fn c17(h: &mut H) {
    h.rounds("model", 12.0, 60_000, one);
    h.rounds("slices", 3.0, 8_000, slices);
    h.rounds("work-stealing", 6.0, 3_000, ws);
    h.rounds("chooser", 1.0, 20_000, |h| {
        let seed = h.rng.edge(); let n = 1 + h.rng.us(12);
        let ks = [ChoiceKind::TaskPick, ChoiceKind::SelectWinner, ChoiceKind::ChanWaiterWake, ChoiceKind::TimerTieBreak, ChoiceKind::WorkerPlacement];
        let q: Vec<(ChoiceKind, usize)> = (0..n).map(|_| { let k = *h.rng.pick(&ks); let o = if h.rng.chance(1, 6) { h.rng.edge() as usize | 1 } else { 1 + h.rng.us(6) }; (k, o) }).collect();
        let case = format!("chooser seed {seed} queries {q:?}");
        h.case(&case, n > 1);
        let mut c = Chooser::record(SchedSeed(seed)); let mut d = Chooser::record(SchedSeed(seed));
        let a: Vec<usize> = q.iter().map(|(k, o)| c.decide(*k, *o)).collect();
        let b: Vec<usize> = q.iter().map(|(k, o)| d.decide(*k, *o)).collect();
        h.check(a == b, "chooser-seed", || format!("{a:?} {b:?}"), || case.clone());
        h.check(a.iter().zip(&q).all(|(x, (_, o))| x < o), "chooser-range", || format!("{a:?}"), || case.clone());
        let t = c.into_trace();
        h.check(t.seed == SchedSeed(seed) && t.choices.iter().map(|c| (c.kind, c.options)).collect::<Vec<_>>() == q && t.choices.iter().map(|c| c.chosen).collect::<Vec<_>>() == a, "chooser-trace", || format!("{t:?} for {a:?}"), || case.clone());
        let mut e = Chooser::replay(t.clone());
        let z: Vec<usize> = q.iter().map(|(k, o)| e.decide(*k, *o)).collect();
        h.check(z == a, "chooser-replay", || format!("{z:?} {a:?}"), || case.clone());
        h.check(e.into_trace() == t, "chooser-replay-trace", || String::new(), || case.clone());
        // a diverging replay is refused
        let i = h.rng.us(n); let (k, o) = q[i]; let wrong = if h.rng.bool() { (k, o.wrapping_add(1)) } else { (*ks.iter().find(|x| **x != k).unwrap(), o) };
        let r = vh::panics(|| { let mut e = Chooser::replay(t.clone()); for (k, o) in &q[..i] { e.decide(*k, *o); } e.decide(wrong.0, wrong.1) });
        h.check(r.is_err(), "chooser-divergence", || format!("query {i} replaced by {wrong:?} was answered {r:?}"), || case.clone());
        // the rng's bound
        let mut g = SeededRng::new(SchedSeed(seed)); let m = h.rng.edge() as usize; let x = g.below(m);
        h.check(x < m.max(1), "rng-below", || format!("below({m}) = {x}"), || case.clone());
    });
}
