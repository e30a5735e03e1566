//#SUBST tbody: Option<Box<dyn Task<'t> + 't>> =>> Option<TaskBody>
//#SUBST slott: struct TaskSlot<'t> =>> struct TaskSlot
//#SUBST schedt: struct Scheduler<'t> =>> struct Scheduler
//#SUBST tmap: HashMap<TaskId, TaskSlot<'t>> =>> TaskMap
//#SUBST cmap: HashMap<ChanId, Chan> =>> ChanMap
//#SUBST rmap: HashMap<TaskId, AwaitResult> =>> ResultMap
//#SUBST amap: HashMap<TaskId, Vec<TaskId>> =>> AwaiterMap
//#SUBST cmut: self.chans.get_mut(&ch).unwrap() =>> chan_mut(&mut self.chans, ch)
//#SUBST cmutr: self.chans.get_mut(ch).unwrap() =>> chan_mut(&mut self.chans, *ch)
//#SUBST cref: self.chans[&ch] =>> chan_at(&self.chans, ch)
//#SUBST crefr: self.chans[ch] =>> chan_at(&self.chans, *ch)
//#SUBST tmut: self.tasks.get_mut(&tid).unwrap() =>> task_mut(&mut self.tasks, tid)
//#SUBST tmutr: self.tasks.get_mut(&rid).unwrap() =>> task_mut(&mut self.tasks, rid)
//#SUBST tpri0: self.tasks[&self.ready[0]] =>> task_at(&self.tasks, self.ready[0])
//#SUBST tprii: self.tasks[&self.ready[i]] =>> task_at(&self.tasks, self.ready[i])
//#SUBST waiters: for chan in self.chans.values_mut() { chan.blocked_receivers.retain(|t| *t != rid); } =>> drop_waiter(&mut self.chans, rid);
//#SUBST dtimers: self.timers.retain(|t| t.tid != rid); =>> drop_timers(&mut self.timers, rid);
//#SUBST armx: arms.iter().position(|a| matches!(a, SelectArm::Recv(c) if *c == ch)).expect("delivering channel must be one of the select arms") =>> arm_of(&arms, ch).unwrap()
//#SUBST armz: arms.iter().position(|a| matches!(a, SelectArm::Recv(c) if *c == ch)).unwrap_or(0) =>> or_zero(arm_of(&arms, ch))
//#SUBST unre: unreachable!("ready arms are recv arms") =>> vstd::pervasive::unreached()
//#SUBST pch: Chan(crate::channel::ChanId) =>> Chan(ChanId)
//#SUBST pth: TaskHandle(crate::task::TaskId) =>> TaskHandle(TaskId)
//#SUBST cput: self.chans.insert(id, Chan::new(capacity)); =>> chan_put(&mut self.chans, id, Chan::new(capacity));
//#SUBST stof: self.tasks.get(&tid).map(|s| &s.state) =>> state_of(&self.tasks, tid)
//#SUBST satadd: self.clock.saturating_add(*d) =>> sat_add(self.clock, *d)
//#RAW
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
global size_of usize == 8;
// ---- the decision choke point ----
#[derive(Clone, Copy, PartialEq, Eq)]
//#ITEM crates/logicaffeine_runtime/src/seed.rs :: struct SchedSeed
//#ITEM crates/logicaffeine_runtime/src/seed.rs :: struct SeededRng
//#RAW
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//#ITEM crates/logicaffeine_runtime/src/seed.rs :: enum ChoiceKind
//#RAW
#[derive(Clone, Copy)]
//#ITEM crates/logicaffeine_runtime/src/seed.rs :: struct ChoicePoint
//#ITEM crates/logicaffeine_runtime/src/seed.rs :: struct SchedTrace
//#ITEM crates/logicaffeine_runtime/src/seed.rs :: enum Chooser
//#RAW
// stands for panic!/assert!: reaching it is only allowed where a refusal is due
#[verifier::external_body]
fn refuse(Ghost(due): Ghost<bool>) requires due ensures false { panic!() }
pub assume_specification<'a, T>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) where T: Copy
    ensures o is Some <==> r is Some, o is Some ==> r->0 == *o->0;
pub assume_specification<T, A>[ VecDeque::<T, A>::is_empty ](d: &VecDeque<T, A>) -> (r: bool) where A: std::alloc::Allocator
    ensures r == (d@.len() == 0);
trait OrRefuse<T> { fn or_refuse(self, due: Ghost<bool>) -> T; }
impl<T> OrRefuse<T> for Option<T> {
    fn or_refuse(self, due: Ghost<bool>) -> (r: T) ensures self == Some(r) { match self { Some(x) => x, None => { refuse(Ghost(true)); vstd::pervasive::unreached() } } }
}
spec fn in_range(c: ChoicePoint) -> bool { c.chosen < c.options || c.chosen == 0 }
spec fn chooser_ok(c: Chooser) -> bool {
    match c { Chooser::Record { rng, seed, choices } => forall|i: int| 0 <= i < choices@.len() ==> in_range(#[trigger] choices@[i]), Chooser::Replay { trace, pos } => forall|i: int| 0 <= i < trace.choices@.len() ==> in_range(#[trigger] trace.choices@[i]) }
}
impl SeededRng {
//#FN crates/logicaffeine_runtime/src/seed.rs :: impl SeededRng :: fn new
fn new(seed: SchedSeed) -> /*@ (r: @*/ Self /*@ ) ensures r.state == seed.0 @*/ {
    SeededRng { state: seed.0 }
}
//#FN crates/logicaffeine_runtime/src/seed.rs :: impl SeededRng :: fn next_u64
fn next_u64(&mut self) -> u64 /*@ ensures final(self).state == (if old(self).state + 0x9E37_79B9_7F4A_7C15 > u64::MAX { old(self).state + 0x9E37_79B9_7F4A_7C15 - u64::MAX - 1 } else { old(self).state + 0x9E37_79B9_7F4A_7C15 }) @*/ {
    self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
//#FN crates/logicaffeine_runtime/src/seed.rs :: impl SeededRng :: fn below
fn below(&mut self, n: usize) -> /*@ (r: @*/ usize /*@ ) ensures r < n || r == 0 @*/ {
    if n <= 1 {
        return 0;
    }
    (self.next_u64() % n as u64) as usize
}
//#RAW
}
impl Chooser {
//#FN crates/logicaffeine_runtime/src/seed.rs :: impl Chooser :: fn record
fn record(seed: SchedSeed) -> /*@ (r: @*/ Self /*@ ) ensures chooser_ok(r), r is Record, r->choices@.len() == 0, r->seed == seed @*/ {
    Chooser::Record {
        rng: SeededRng::new(seed),
        seed,
        choices: Vec::new(),
    }
}
//#FN crates/logicaffeine_runtime/src/seed.rs :: impl Chooser :: fn replay
fn replay(trace: SchedTrace) -> /*@ (r: @*/ Self /*@ ) ensures r is Replay, r->trace == trace, r->pos == 0 @*/ {
    Chooser::Replay { trace, pos: 0 }
}
//#FN crates/logicaffeine_runtime/src/seed.rs :: impl Chooser :: fn decide | loud
fn decide(&mut self, kind: ChoiceKind, options: usize) -> /*@ (r: @*/ usize /*@ )
    requires (*old(self)) is Replay ==> (*old(self))->pos < usize::MAX
    ensures
        // recording appends exactly this decision; replaying returns the next recorded one
        (*old(self)) is Record ==> ((*final(self)) is Record && (*final(self))->choices@ == (*old(self))->choices@.push(ChoicePoint { kind, options, chosen: r }) && (*final(self))->seed == (*old(self))->seed && (r < options || r == 0)),
        (*old(self)) is Replay ==> ((*final(self)) is Replay && (*final(self))->trace == (*old(self))->trace && (*final(self))->pos == (*old(self))->pos + 1 && (*old(self))->pos < (*old(self))->trace.choices@.len()
            && (*old(self))->trace.choices@[(*old(self))->pos as int] == (ChoicePoint { kind, options, chosen: r })),
        chooser_ok(*old(self)) ==> chooser_ok(*final(self)) && (r < options || r == 0), @*/ {
    match self {
        Chooser::Record { rng, choices, .. } => {
            let chosen = rng.below(options);
            choices.push(ChoicePoint { kind, options, chosen });
            chosen
        }
        Chooser::Replay { trace, pos } => {
            let cp = trace.choices.get(*pos).copied().or_refuse( /*@ Ghost(true) @*/ );
            if cp.kind != kind { refuse( /*@ Ghost(cp.kind != kind) @*/ ) ; };
            if cp.options != options { refuse( /*@ Ghost(cp.options != options) @*/ ) ; };
            *pos += 1;
            cp.chosen
        }
    }
}
//#FN crates/logicaffeine_runtime/src/seed.rs :: impl Chooser :: fn into_trace
fn into_trace(self) -> /*@ (r: @*/ SchedTrace /*@ ) ensures self is Record ==> r.choices@ == self->choices@ && r.seed == self->seed, self is Replay ==> r == self->trace @*/ {
    match self {
        Chooser::Record { seed, choices, .. } => SchedTrace { seed, choices },
        Chooser::Replay { trace, .. } => trace,
    }
}
//#RAW
}
// ---- channels ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//#ITEM crates/logicaffeine_runtime/src/task.rs :: struct TaskId
//#RAW
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//#ITEM crates/logicaffeine_runtime/src/channel.rs :: struct ChanId
//#ITEM crates/logicaffeine_runtime/src/payload.rs :: enum RtPayload | pch, pth
//#ITEM crates/logicaffeine_runtime/src/channel.rs :: struct Chan
//#ITEM crates/logicaffeine_runtime/src/task.rs :: enum SelectArm
//#RAW
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//#ITEM crates/logicaffeine_runtime/src/config.rs :: enum SchedulePolicy
//#RAW
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//#ITEM crates/logicaffeine_runtime/src/config.rs :: enum ClockMode
//#ITEM crates/logicaffeine_runtime/src/config.rs :: struct SchedulerConfig
//#ITEM crates/logicaffeine_runtime/src/scheduler.rs :: enum TaskState
//#ITEM crates/logicaffeine_runtime/src/scheduler.rs :: struct TimerEntry
//#RAW
// opaque stand-ins for the parts no contract here looks into: task bodies and the await tables
#[verifier::external_body] struct TaskBody { x: u8 }
#[verifier::external_body] struct ResultMap { x: u8 }
#[verifier::external_body] struct AwaiterMap { x: u8 }
// std HashMap from ids to channels / slots (trusted specification of get_mut and indexing)
#[verifier::external_body] struct ChanMap { m: std::collections::HashMap<u64, Chan> }
impl ChanMap { uninterp spec fn view(&self) -> Map<ChanId, Chan>; }
#[verifier::external_body] struct TaskMap { m: std::collections::HashMap<u64, TaskSlot> }
impl TaskMap { uninterp spec fn view(&self) -> Map<TaskId, TaskSlot>; }
//#ITEM crates/logicaffeine_runtime/src/scheduler.rs :: struct TaskSlot | tbody, slott
//#ITEM crates/logicaffeine_runtime/src/scheduler.rs :: struct Scheduler | tmap, cmap, rmap, amap, schedt
//#RAW
#[verifier::external_body]
fn chan_mut(m: &mut ChanMap, k: ChanId) -> (r: &mut Chan) requires old(m)@.dom().contains(k) ensures *r == old(m)@[k], final(m)@ == old(m)@.insert(k, *final(r)) { m.m.get_mut(&k.0).unwrap() }
#[verifier::external_body]
fn chan_at(m: &ChanMap, k: ChanId) -> (r: &Chan) requires m@.dom().contains(k) ensures *r == m@[k] { &m.m[&k.0] }
#[verifier::external_body]
fn task_mut(m: &mut TaskMap, k: TaskId) -> (r: &mut TaskSlot) requires old(m)@.dom().contains(k) ensures *r == old(m)@[k], final(m)@ == old(m)@.insert(k, *final(r)) { m.m.get_mut(&k.0).unwrap() }
#[verifier::external_body]
fn task_at(m: &TaskMap, k: TaskId) -> (r: &TaskSlot) requires m@.dom().contains(k) ensures *r == m@[k] { &m.m[&k.0] }
#[verifier::external_body]
fn sat_add(a: u64, b: u64) -> (r: u64) ensures r == (if a + b > u64::MAX { u64::MAX as int } else { a + b }) { a.saturating_add(b) }
// std: values_mut + retain (trusted specification)
#[verifier::external_body]
fn drop_waiter(m: &mut ChanMap, rid: TaskId)
    ensures final(m)@.dom() == old(m)@.dom(), forall|c: ChanId| old(m)@.dom().contains(c) ==> same_but_waiters(#[trigger] final(m)@[c], old(m)@[c], rid)
{ for c in m.m.values_mut() { c.blocked_receivers.retain(|t| t.0 != rid.0); } }
#[verifier::external_body]
fn drop_timers(t: &mut Vec<TimerEntry>, rid: TaskId) { t.retain(|t| t.tid.0 != rid.0); }
spec fn same_but_waiters(n: Chan, o: Chan, rid: TaskId) -> bool {
    &&& n.capacity == o.capacity && n.queue@ == o.queue@ && n.blocked_senders@ == o.blocked_senders@ && n.closed == o.closed
    &&& n.blocked_receivers@ == o.blocked_receivers@.filter(|t: TaskId| t != rid)
    &&& n.blocked_receivers@.len() <= o.blocked_receivers@.len()
    &&& others_wait(n, o, rid)
    &&& forall|i: int| 0 <= i < n.blocked_receivers@.len() ==> (#[trigger] n.blocked_receivers@[i]) != rid && o.blocked_receivers@.contains(n.blocked_receivers@[i])
}
// the first arm that receives from ch
fn arm_of(arms: &Vec<SelectArm>, ch: ChanId) -> (r: Option<usize>)
    ensures match r { Some(i) => i < arms@.len() && arms@[i as int] == SelectArm::Recv(ch), None => !has_arm(arms@, ch) }
{
    let mut i: usize = 0;
    while i < arms.len() invariant i <= arms@.len(), forall|j: int| 0 <= j < i ==> #[trigger] arms@[j] != SelectArm::Recv(ch) decreases arms@.len() - i
    { if let SelectArm::Recv(c) = &arms[i] { if c.0 == ch.0 { return Some(i); } } i += 1; }
    None
}
fn or_zero(o: Option<usize>) -> (r: usize) ensures r == (if o is Some { o->0 } else { 0 }) { match o { Some(x) => x, None => 0 } }
spec fn has_arm(arms: Seq<SelectArm>, ch: ChanId) -> bool { exists|i: int| 0 <= i < arms.len() && #[trigger] arms[i] == SelectArm::Recv(ch) }
// what is in the pipe: the buffered values, then those of the parked senders, in send order
spec fn content(c: Chan) -> Seq<RtPayload> { c.queue@ + c.blocked_senders@.map_values(|p: (TaskId, RtPayload)| p.1) }
spec fn chan_ok(c: Chan) -> bool {
    &&& c.capacity is Some ==> c.queue@.len() <= c.capacity->0
    &&& c.blocked_senders@.len() > 0 ==> c.capacity is Some && c.queue@.len() >= c.capacity->0
    &&& c.blocked_receivers@.len() > 0 ==> c.queue@.len() == 0 && c.blocked_senders@.len() == 0
}
spec fn known(s: Scheduler, c: ChanId) -> bool {
    &&& forall|i: int| 0 <= i < s.chans@[c].blocked_senders@.len() ==> s.tasks@.dom().contains((#[trigger] s.chans@[c].blocked_senders@[i]).0)
    &&& forall|i: int| 0 <= i < s.chans@[c].blocked_receivers@.len() ==> s.tasks@.dom().contains(#[trigger] s.chans@[c].blocked_receivers@[i]) && (s.tasks@[s.chans@[c].blocked_receivers@[i]].select_arms is Some ==> has_arm(s.tasks@[s.chans@[c].blocked_receivers@[i]].select_arms->0@, c))
}
spec fn sched_ok(s: Scheduler) -> bool { forall|c: ChanId| s.chans@.dom().contains(c) ==> chan_ok(#[trigger] s.chans@[c]) && known(s, c) }
// a task that is being run: registered, waiting nowhere
spec fn idle(s: Scheduler, tid: TaskId, c: ChanId) -> bool { (forall|i: int| 0 <= i < s.chans@[c].blocked_senders@.len() ==> (#[trigger] s.chans@[c].blocked_senders@[i]).0 != tid) && (forall|i: int| 0 <= i < s.chans@[c].blocked_receivers@.len() ==> #[trigger] s.chans@[c].blocked_receivers@[i] != tid) }
spec fn running(s: Scheduler, tid: TaskId) -> bool { s.tasks@.dom().contains(tid) && s.tasks@[tid].select_arms is None && forall|c: ChanId| #[trigger] s.chans@.dom().contains(c) ==> idle(s, tid, c) }
// the other channels keep their contents
spec fn others_kept(n: Scheduler, o: Scheduler, ch: ChanId) -> bool {
    n.chans@.dom() =~= o.chans@.dom() && forall|c: ChanId| o.chans@.dom().contains(c) && c != ch ==> kept(#[trigger] n.chans@[c], o.chans@[c])
}
spec fn kept(n: Chan, o: Chan) -> bool { n.queue@ == o.queue@ && n.blocked_senders@ == o.blocked_senders@ && n.capacity == o.capacity && n.closed == o.closed }
spec fn arms_kept(n: Scheduler, o: Scheduler) -> bool { n.tasks@.dom() =~= o.tasks@.dom() && forall|t: TaskId| (#[trigger] n.tasks@[t]).select_arms == o.tasks@[t].select_arms }
spec fn all_known(s: Scheduler) -> bool { forall|c: ChanId| #[trigger] s.chans@.dom().contains(c) ==> known(s, c) }
spec fn tail_of<A>(n: Seq<A>, o: Seq<A>) -> bool { n == o || (o.len() > 0 && n == o.drop_first()) }
spec fn rest_ok(s: Scheduler, ch: ChanId) -> bool { forall|c: ChanId| c != ch && s.chans@.dom().contains(c) ==> chan_ok(#[trigger] s.chans@[c]) }
spec fn quiet(n: Scheduler, o: Scheduler) -> bool { n.config == o.config && n.chooser == o.chooser && n.clock == o.clock && n.next_id == o.next_id && n.main_result == o.main_result && n.results == o.results && n.awaiters == o.awaiters }
impl Chan {
//#FN crates/logicaffeine_runtime/src/channel.rs :: impl Chan :: fn new
fn new(capacity: Option<usize>) -> /*@ (r: @*/ Self /*@ ) ensures chan_ok(r), r.capacity == capacity, content(r).len() == 0, !r.closed, r.blocked_receivers@.len() == 0 @*/ {
    Chan {
        capacity,
        queue: VecDeque::new(),
        blocked_senders: VecDeque::new(),
        blocked_receivers: VecDeque::new(),
        closed: false,
    }
}
//#FN crates/logicaffeine_runtime/src/channel.rs :: impl Chan :: fn has_room
fn has_room(&self) -> /*@ (r: @*/ bool /*@ ) ensures r <==> (self.capacity is Some ==> self.queue@.len() < self.capacity->0) @*/ {
    match self.capacity {
        None => true,
        Some(cap) => self.queue.len() < cap,
    }
}
//#FN crates/logicaffeine_runtime/src/channel.rs :: impl Chan :: fn can_recv
fn can_recv(&self) -> /*@ (r: @*/ bool /*@ ) ensures r <==> content(*self).len() > 0 || self.closed @*/ {
    !self.queue.is_empty() || !self.blocked_senders.is_empty() || self.closed
}
//#RAW
}
impl Scheduler {
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn mark_ready | tmut
fn mark_ready(&mut self, tid: TaskId, value: RtPayload)
    /*@ requires old(self).tasks@.dom().contains(tid)
    ensures
        quiet(*final(self), *old(self)), final(self).chans == old(self).chans, final(self).timers == old(self).timers, final(self).ready@ == old(self).ready@.push(tid),
        final(self).tasks@.dom() =~= old(self).tasks@.dom(), final(self).tasks@[tid].resume == value, final(self).tasks@[tid].state is Ready, final(self).tasks@[tid].select_arms == old(self).tasks@[tid].select_arms,
        forall|t: TaskId| t != tid ==> #[trigger] final(self).tasks@[t] == old(self).tasks@[t], arms_kept(*final(self), *old(self)),
        sched_ok(*old(self)) ==> sched_ok(*final(self)), @*/ {
    let slot = task_mut(&mut self.tasks, tid);
    slot.resume = value;
    slot.state = TaskState::Ready;
    self.ready.push(tid);
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn cancel_select_registrations | waiters, dtimers
fn cancel_select_registrations(&mut self, rid: TaskId)
    /*@ ensures
        quiet(*final(self), *old(self)), final(self).tasks == old(self).tasks, final(self).ready == old(self).ready,
        final(self).chans@.dom() == old(self).chans@.dom(),
        forall|c: ChanId| old(self).chans@.dom().contains(c) ==> same_but_waiters(#[trigger] final(self).chans@[c], old(self).chans@[c], rid),
        sched_ok(*old(self)) ==> sched_ok(*final(self)), @*/ {
    drop_waiter(&mut self.chans, rid);
    drop_timers(&mut self.timers, rid);
    /*@ proof { lem_dropped(*self, *old(self), rid); } @*/
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn deliver_to_receiver | tmutr, armx
fn deliver_to_receiver(&mut self, rid: TaskId, ch: ChanId, value: RtPayload)
    /*@ requires
        sched_ok(*old(self)), old(self).tasks@.dom().contains(rid), old(self).chans@.dom().contains(ch),
        old(self).tasks@[rid].select_arms is Some ==> has_arm(old(self).tasks@[rid].select_arms->0@, ch),
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), kept(final(self).chans@[ch], old(self).chans@[ch]),
        final(self).ready@ == old(self).ready@.push(rid),
        final(self).tasks@.dom() =~= old(self).tasks@.dom(), final(self).tasks@[rid].resume == value, final(self).tasks@[rid].state is Ready, final(self).tasks@[rid].select_arms is None,
        // a select is told which of its arms won: one that receives from this channel
        old(self).tasks@[rid].select_arms is Some ==> final(self).tasks@[rid].selected_arm is Some && final(self).tasks@[rid].selected_arm->0 < old(self).tasks@[rid].select_arms->0@.len() && old(self).tasks@[rid].select_arms->0@[final(self).tasks@[rid].selected_arm->0 as int] == SelectArm::Recv(ch),
        forall|t: TaskId| t != rid ==> #[trigger] final(self).tasks@[t] == old(self).tasks@[t],
        forall|c: ChanId| old(self).chans@.dom().contains(c) ==> fewer(#[trigger] final(self).chans@[c], old(self).chans@[c]), @*/ {
    let select_arms = task_mut(&mut self.tasks, rid).select_arms.take();
    if let Some(arms) = select_arms {
        let arm_idx = arm_of(&arms, ch).unwrap();
        {
            let slot = task_mut(&mut self.tasks, rid);
            slot.resume = value;
            slot.selected_arm = Some(arm_idx);
            slot.state = TaskState::Ready;
        }
        self.ready.push(rid);
        self.cancel_select_registrations(rid);
    } else {
        self.mark_ready(rid, value);
    }
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn refill_from_blocked_sender | cmut
fn refill_from_blocked_sender(&mut self, ch: ChanId)
    /*@ requires
        old(self).chans@.dom().contains(ch), all_known(*old(self)), rest_ok(*old(self), ch),
        // one value has just been taken from a channel in order
        ({ let c = old(self).chans@[ch]; (c.capacity is Some ==> c.queue@.len() <= c.capacity->0) && (c.blocked_senders@.len() > 0 ==> c.capacity is Some && c.queue@.len() + 1 >= c.capacity->0) && c.blocked_receivers@.len() == 0 }),
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), final(self).timers == old(self).timers,
        content(final(self).chans@[ch]) =~= content(old(self).chans@[ch]), final(self).chans@[ch].closed == old(self).chans@[ch].closed, final(self).chans@[ch].capacity == old(self).chans@[ch].capacity,
        final(self).tasks@.dom() =~= old(self).tasks@.dom(),
        forall|t: TaskId| (forall|i: int| 0 <= i < old(self).chans@[ch].blocked_senders@.len() ==> (#[trigger] old(self).chans@[ch].blocked_senders@[i]).0 != t) ==> #[trigger] final(self).tasks@[t] == old(self).tasks@[t], @*/ {
    let take = {
        let chan = chan_mut(&mut self.chans, ch);
        if chan.has_room() {
            chan.blocked_senders.pop_front()
        } else {
            None
        }
    };
    /*@ proof { lem_known(*self, *old(self), ch); assert(known(*old(self), ch)); } @*/
    if let Some((sid, payload)) = take {
        /*@ let ghost c0 = old(self).chans@[ch]; proof { assert(c0.blocked_senders@[0] == (sid, payload)); } @*/
        chan_mut(&mut self.chans, ch).queue.push_back(payload);
        /*@ proof { lem_refill(c0.queue@, c0.blocked_senders@); lem_known(*self, *old(self), ch); } @*/
        self.mark_ready(sid, RtPayload::Nothing);
    }
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn do_send | cmut, cref, tmut
fn do_send(&mut self, tid: TaskId, ch: ChanId, payload: RtPayload)
    /*@ requires sched_ok(*old(self)), old(self).chans@.dom().contains(ch), running(*old(self), tid)
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), final(self).tasks@.dom() =~= old(self).tasks@.dom(),
        // no receiver waits: the value joins the end of the pipe
        old(self).chans@[ch].blocked_receivers@.len() == 0 ==> content(final(self).chans@[ch]) =~= content(old(self).chans@[ch]).push(payload),
        // otherwise the pipe was empty and the longest-waiting receiver gets the value
        old(self).chans@[ch].blocked_receivers@.len() > 0 ==> content(old(self).chans@[ch]).len() == 0 && content(final(self).chans@[ch]).len() == 0 && final(self).tasks@[old(self).chans@[ch].blocked_receivers@[0]].resume == payload && final(self).tasks@[old(self).chans@[ch].blocked_receivers@[0]].state is Ready, @*/ {
    let waiting_receiver = chan_mut(&mut self.chans, ch).blocked_receivers.pop_front();
    /*@ proof { lem_popped(*self, *old(self), ch); } @*/
    if let Some(rid) = waiting_receiver {
        self.deliver_to_receiver(rid, ch, payload);
        self.mark_ready(tid, RtPayload::Nothing);
        return;
    }
    if chan_at(&self.chans, ch).has_room() {
        chan_mut(&mut self.chans, ch).queue.push_back(payload);
        self.mark_ready(tid, RtPayload::Nothing);
    } else {
        chan_mut(&mut self.chans, ch).blocked_senders.push_back((tid, payload));
        task_mut(&mut self.tasks, tid).state = TaskState::BlockedSend;
    }
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn do_try_send | cmut, cref
fn do_try_send(&mut self, tid: TaskId, ch: ChanId, payload: RtPayload)
    /*@ requires sched_ok(*old(self)), old(self).chans@.dom().contains(ch), running(*old(self), tid)
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), final(self).tasks@.dom() =~= old(self).tasks@.dom(),
        // told "true" and the value is in the pipe or with a receiver, or told "false" and nothing changed
        final(self).tasks@[tid].resume == RtPayload::Bool(old(self).chans@[ch].blocked_receivers@.len() > 0 || old(self).chans@[ch].capacity is None || old(self).chans@[ch].queue@.len() < old(self).chans@[ch].capacity->0),
        old(self).chans@[ch].blocked_receivers@.len() == 0 ==> content(final(self).chans@[ch]) =~= (if final(self).tasks@[tid].resume == RtPayload::Bool(true) { content(old(self).chans@[ch]).push(payload) } else { content(old(self).chans@[ch]) }),
        old(self).chans@[ch].blocked_receivers@.len() > 0 ==> content(final(self).chans@[ch]).len() == 0 && final(self).tasks@[old(self).chans@[ch].blocked_receivers@[0]].resume == payload && final(self).tasks@[old(self).chans@[ch].blocked_receivers@[0]].state is Ready, @*/ {
    let waiting_receiver = chan_mut(&mut self.chans, ch).blocked_receivers.pop_front();
    /*@ proof { lem_popped(*self, *old(self), ch); assert(known(*old(self), ch)); assert(idle(*old(self), tid, ch)); } @*/
    if let Some(rid) = waiting_receiver {
        /*@ proof { assert(rid == old(self).chans@[ch].blocked_receivers@[0]); } @*/
        self.deliver_to_receiver(rid, ch, payload);
        self.mark_ready(tid, RtPayload::Bool(true));
        return;
    }
    if chan_at(&self.chans, ch).has_room() {
        chan_mut(&mut self.chans, ch).queue.push_back(payload);
        /*@ proof { lem_known(*self, *old(self), ch); } @*/
        self.mark_ready(tid, RtPayload::Bool(true));
    } else {
        self.mark_ready(tid, RtPayload::Bool(false));
    }
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn do_recv | cmut, cref, tmut
fn do_recv(&mut self, tid: TaskId, ch: ChanId)
    /*@ requires sched_ok(*old(self)), old(self).chans@.dom().contains(ch), running(*old(self), tid)
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), final(self).tasks@.dom() =~= old(self).tasks@.dom(), final(self).chans@[ch].closed == old(self).chans@[ch].closed,
        // the oldest value in the pipe is delivered and nothing else leaves it
        content(old(self).chans@[ch]).len() > 0 ==> final(self).tasks@[tid].resume == content(old(self).chans@[ch])[0] && final(self).tasks@[tid].state is Ready && content(final(self).chans@[ch]) =~= content(old(self).chans@[ch]).drop_first(),
        content(old(self).chans@[ch]).len() == 0 ==> content(final(self).chans@[ch]).len() == 0,
        content(old(self).chans@[ch]).len() == 0 && old(self).chans@[ch].closed ==> final(self).tasks@[tid].resume is Nothing && final(self).tasks@[tid].state is Ready,
        // an empty open pipe parks the receiver behind those already waiting
        content(old(self).chans@[ch]).len() == 0 && !old(self).chans@[ch].closed ==> final(self).tasks@[tid].state is BlockedRecv && final(self).chans@[ch].blocked_receivers@ == old(self).chans@[ch].blocked_receivers@.push(tid), @*/ {
    /*@ let ghost c0 = old(self).chans@[ch]; proof { assert(chan_ok(c0)); assert(known(*self, ch)); assert(idle(*old(self), tid, ch)); } @*/
    let from_queue = chan_mut(&mut self.chans, ch).queue.pop_front();
    /*@ proof { lem_known(*self, *old(self), ch); } @*/
    if let Some(v) = from_queue {
        /*@ proof { lem_first(c0.queue@, c0.blocked_senders@); } let ghost s1 = *self; @*/
        self.mark_ready(tid, v);
        /*@ proof { lem_known(*self, s1, ch); } @*/
        self.refill_from_blocked_sender(ch);
        return;
    }
    let from_sender = chan_mut(&mut self.chans, ch).blocked_senders.pop_front();
    /*@ proof { lem_known(*self, *old(self), ch); } @*/
    if let Some((sid, payload)) = from_sender {
        /*@ proof { lem_sender(c0.queue@, c0.blocked_senders@); assert(c0.blocked_senders@[0] == (sid, payload)); } @*/
        self.mark_ready(tid, payload);
        self.mark_ready(sid, RtPayload::Nothing);
        return;
    }
    /*@ proof { lem_empty(c0.queue@, c0.blocked_senders@); } @*/
    if chan_at(&self.chans, ch).closed {
        self.mark_ready(tid, RtPayload::Nothing);
        return;
    }
    chan_mut(&mut self.chans, ch).blocked_receivers.push_back(tid);
    task_mut(&mut self.tasks, tid).state = TaskState::BlockedRecv;
    /*@ proof { lem_pushed(*self, *old(self), ch, tid); } @*/
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn do_try_recv | cmut
fn do_try_recv(&mut self, tid: TaskId, ch: ChanId)
    /*@ requires sched_ok(*old(self)), old(self).chans@.dom().contains(ch), running(*old(self), tid)
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), final(self).tasks@.dom() =~= old(self).tasks@.dom(), final(self).tasks@[tid].state is Ready,
        content(old(self).chans@[ch]).len() > 0 ==> final(self).tasks@[tid].resume == content(old(self).chans@[ch])[0] && content(final(self).chans@[ch]) =~= content(old(self).chans@[ch]).drop_first(),
        content(old(self).chans@[ch]).len() == 0 ==> content(final(self).chans@[ch]).len() == 0 && final(self).tasks@[tid].resume is Nothing, @*/ {
    /*@ let ghost c0 = old(self).chans@[ch]; proof { assert(chan_ok(c0)); assert(known(*self, ch)); assert(idle(*old(self), tid, ch)); } @*/
    let from_queue = chan_mut(&mut self.chans, ch).queue.pop_front();
    /*@ proof { lem_known(*self, *old(self), ch); } @*/
    if let Some(v) = from_queue {
        /*@ proof { lem_first(c0.queue@, c0.blocked_senders@); } let ghost s1 = *self; @*/
        self.mark_ready(tid, v);
        /*@ proof { lem_known(*self, s1, ch); } @*/
        self.refill_from_blocked_sender(ch);
        return;
    }
    let from_sender = chan_mut(&mut self.chans, ch).blocked_senders.pop_front();
    /*@ proof { lem_known(*self, *old(self), ch); } @*/
    if let Some((sid, payload)) = from_sender {
        /*@ proof { lem_sender(c0.queue@, c0.blocked_senders@); assert(c0.blocked_senders@[0] == (sid, payload)); } @*/
        self.mark_ready(tid, payload);
        self.mark_ready(sid, RtPayload::Nothing);
        return;
    }
    /*@ proof { lem_empty(c0.queue@, c0.blocked_senders@); } @*/
    self.mark_ready(tid, RtPayload::Nothing);
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn take_one | cmut
fn take_one(&mut self, ch: ChanId) -> /*@ (r: @*/ RtPayload /*@ )
    requires sched_ok(*old(self)), old(self).chans@.dom().contains(ch)
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), final(self).tasks@.dom() =~= old(self).tasks@.dom(),
        content(old(self).chans@[ch]).len() > 0 ==> r == content(old(self).chans@[ch])[0] && content(final(self).chans@[ch]) =~= content(old(self).chans@[ch]).drop_first(),
        content(old(self).chans@[ch]).len() == 0 ==> content(final(self).chans@[ch]).len() == 0 && r is Nothing, @*/ {
    /*@ let ghost c0 = old(self).chans@[ch]; proof { assert(chan_ok(c0)); assert(known(*self, ch)); } @*/
    if let Some(v) = chan_mut(&mut self.chans, ch).queue.pop_front() {
        /*@ proof { lem_first(c0.queue@, c0.blocked_senders@); lem_known(*self, *old(self), ch); } @*/
        self.refill_from_blocked_sender(ch);
        return v;
    }
    if let Some((sid, payload)) = chan_mut(&mut self.chans, ch).blocked_senders.pop_front() {
        /*@ proof { lem_sender(c0.queue@, c0.blocked_senders@); lem_known(*self, *old(self), ch); assert(c0.blocked_senders@[0] == (sid, payload)); } @*/
        self.mark_ready(sid, RtPayload::Nothing);
        return payload;
    }
    /*@ proof { lem_empty(c0.queue@, c0.blocked_senders@); lem_known(*self, *old(self), ch); } @*/
    RtPayload::Nothing
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn wake_closed_receiver | tmutr, armz
fn wake_closed_receiver(&mut self, rid: TaskId, ch: ChanId)
    /*@ requires
        sched_ok(*old(self)), old(self).tasks@.dom().contains(rid), old(self).chans@.dom().contains(ch),
        old(self).tasks@[rid].select_arms is Some ==> has_arm(old(self).tasks@[rid].select_arms->0@, ch),
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), kept(final(self).chans@[ch], old(self).chans@[ch]),
        final(self).tasks@.dom() =~= old(self).tasks@.dom(), final(self).tasks@[rid].resume is Nothing, final(self).tasks@[rid].state is Ready, final(self).tasks@[rid].select_arms is None,
        old(self).tasks@[rid].select_arms is Some ==> final(self).tasks@[rid].selected_arm is Some && final(self).tasks@[rid].selected_arm->0 < old(self).tasks@[rid].select_arms->0@.len() && old(self).tasks@[rid].select_arms->0@[final(self).tasks@[rid].selected_arm->0 as int] == SelectArm::Recv(ch),
        forall|t: TaskId| t != rid ==> #[trigger] final(self).tasks@[t] == old(self).tasks@[t],
        fewer(final(self).chans@[ch], old(self).chans@[ch]), others_wait(final(self).chans@[ch], old(self).chans@[ch], rid), @*/ {
    let select_arms = task_mut(&mut self.tasks, rid).select_arms.take();
    if let Some(arms) = select_arms {
        let arm_idx = or_zero(arm_of(&arms, ch));
        {
            let slot = task_mut(&mut self.tasks, rid);
            slot.resume = RtPayload::Nothing;
            slot.selected_arm = Some(arm_idx);
            slot.state = TaskState::Ready;
        }
        self.ready.push(rid);
        self.cancel_select_registrations(rid);
    } else {
        self.mark_ready(rid, RtPayload::Nothing);
    }
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn do_close | whilelet, cmut
fn do_close(&mut self, ch: ChanId)
    /*@ requires sched_ok(*old(self)), old(self).chans@.dom().contains(ch)
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), others_kept(*final(self), *old(self), ch), final(self).tasks@.dom() =~= old(self).tasks@.dom(),
        // what was sent stays receivable, every waiting receiver is released with the closed value
        final(self).chans@[ch].closed, content(final(self).chans@[ch]) == content(old(self).chans@[ch]), final(self).chans@[ch].blocked_receivers@.len() == 0,
        forall|i: int| 0 <= i < old(self).chans@[ch].blocked_receivers@.len() ==> released(*final(self), #[trigger] old(self).chans@[ch].blocked_receivers@[i]), @*/ {
    chan_mut(&mut self.chans, ch).closed = true;
    /*@ proof { lem_known(*self, *old(self), ch); assert(chan_ok(old(self).chans@[ch])); assert(sched_ok(*self)); } @*/
    loop
        /*@ invariant
            sched_ok(*self), old(self).chans@.dom().contains(ch), quiet(*self, *old(self)), others_kept(*self, *old(self), ch), self.tasks@.dom() =~= old(self).tasks@.dom(),
            self.chans@[ch].closed, content(self.chans@[ch]) == content(old(self).chans@[ch]),
            forall|i: int| 0 <= i < old(self).chans@[ch].blocked_receivers@.len() ==> released(*self, #[trigger] old(self).chans@[ch].blocked_receivers@[i]) || self.chans@[ch].blocked_receivers@.contains(old(self).chans@[ch].blocked_receivers@[i]),
        ensures self.chans@[ch].blocked_receivers@.len() == 0,
        decreases self.chans@[ch].blocked_receivers@.len() @*/
    {
        /*@ let ghost s0 = *self; proof { assert(known(*self, ch)); } @*/
        let Some(rid) = chan_mut(&mut self.chans, ch).blocked_receivers.pop_front() else {
            /*@ proof { lem_popped(*self, s0, ch); assert(self.chans@[ch].blocked_receivers@ == s0.chans@[ch].blocked_receivers@); } @*/
            break;
        };
        /*@ let ghost s1 = *self; proof { lem_popped(*self, s0, ch); assert(rid == s0.chans@[ch].blocked_receivers@[0]); } @*/
        self.wake_closed_receiver(rid, ch);
        /*@ proof {
            let olds = old(self).chans@[ch].blocked_receivers@; let w0 = s0.chans@[ch].blocked_receivers@; let w1 = s1.chans@[ch].blocked_receivers@;
            assert forall|i: int| 0 <= i < olds.len() implies released(*self, #[trigger] olds[i]) || self.chans@[ch].blocked_receivers@.contains(olds[i]) by {
                let x = olds[i];
                if x != rid { if released(s0, x) { assert(self.tasks@[x] == s0.tasks@[x]); } else { let j = choose|j: int| 0 <= j < w0.len() && w0[j] == x; assert(j > 0); assert(w1[j - 1] == x); assert(w1.contains(x)); } }
            }
        } @*/
    }
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn fire_timer | stof, tmut
fn fire_timer(&mut self, tid: TaskId, arm: Option<usize>)
    /*@ requires sched_ok(*old(self)), old(self).tasks@.dom().contains(tid)
    ensures
        sched_ok(*final(self)), quiet(*final(self), *old(self)), final(self).tasks@.dom() =~= old(self).tasks@.dom(),
        final(self).chans@.dom() == old(self).chans@.dom(), forall|c: ChanId| old(self).chans@.dom().contains(c) ==> kept(#[trigger] final(self).chans@[c], old(self).chans@[c]),
        // a timer wakes only a task that still waits for one
        !(old(self).tasks@[tid].state is BlockedTimer || old(self).tasks@[tid].state is BlockedSelect) ==> *final(self) == *old(self),
        old(self).tasks@[tid].state is BlockedTimer || old(self).tasks@[tid].state is BlockedSelect ==> final(self).tasks@[tid].resume is Nothing && final(self).tasks@[tid].state is Ready && final(self).ready@ == old(self).ready@.push(tid) && (arm is Some ==> final(self).tasks@[tid].selected_arm == arm && final(self).tasks@[tid].select_arms is None), @*/ {
    let still_blocked = matches!(
        state_of(&self.tasks, tid),
        Some(TaskState::BlockedTimer) | Some(TaskState::BlockedSelect)
    );
    if !still_blocked {
        return;
    }
    match arm {
        Some(arm_idx) => {
            let had = task_mut(&mut self.tasks, tid).select_arms.take();
            {
                let slot = task_mut(&mut self.tasks, tid);
                slot.selected_arm = Some(arm_idx);
                slot.resume = RtPayload::Nothing;
                slot.state = TaskState::Ready;
            }
            self.ready.push(tid);
            if had.is_some() {
                self.cancel_select_registrations(tid);
            }
        }
        None => self.mark_ready(tid, RtPayload::Nothing),
    }
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn bump
fn bump(&mut self) -> /*@ (r: @*/ u64 /*@ ) requires old(self).next_id < u64::MAX ensures r == old(self).next_id, *final(self) == (Scheduler { next_id: (r + 1) as u64, ..*old(self) }) @*/ {
    let v = self.next_id;
    self.next_id += 1;
    v
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn new_chan | cput
fn new_chan(&mut self, capacity: Option<usize>) -> /*@ (r: @*/ ChanId /*@ )
    requires old(self).next_id < u64::MAX, sched_ok(*old(self)), forall|c: ChanId| old(self).chans@.dom().contains(c) ==> (#[trigger] c.0) < old(self).next_id
    ensures sched_ok(*final(self)), !old(self).chans@.dom().contains(r), final(self).chans@ == old(self).chans@.insert(r, final(self).chans@[r]), content(final(self).chans@[r]).len() == 0, final(self).chans@[r].capacity == capacity, !final(self).chans@[r].closed,
        forall|c: ChanId| final(self).chans@.dom().contains(c) ==> (#[trigger] c.0) < final(self).next_id, @*/ {
    let id = ChanId(self.bump());
    chan_put(&mut self.chans, id, Chan::new(capacity));
    /*@ proof { assert(!old(self).chans@.dom().contains(id)) by { if old(self).chans@.dom().contains(id) { assert(id.0 < old(self).next_id); } }
        assert forall|c: ChanId| self.chans@.dom().contains(c) implies chan_ok(#[trigger] self.chans@[c]) && known(*self, c) by { if c != id { assert(chan_ok(old(self).chans@[c]) && known(*old(self), c)); assert(self.chans@[c] == old(self).chans@[c]); } } } @*/
    id
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn pick_ready | forwhile, tpri0, tprii
fn pick_ready(&mut self) -> /*@ (r: @*/ Option<TaskId> /*@ )
    requires
        chooser_ok(old(self).chooser), old(self).chooser is Replay ==> old(self).chooser->pos < usize::MAX,
        forall|i: int| 0 <= i < old(self).ready@.len() ==> old(self).tasks@.dom().contains(#[trigger] old(self).ready@[i]),
    ensures
        chooser_ok(final(self).chooser), final(self).tasks == old(self).tasks, final(self).chans == old(self).chans, final(self).timers == old(self).timers, final(self).config == old(self).config,
        r is None <==> old(self).ready@.len() == 0, r is None ==> *final(self) == *old(self),
        r is Some ==> exists|k: int| 0 <= k < old(self).ready@.len() && r->0 == old(self).ready@[k] && final(self).ready@ == #[trigger] old(self).ready@.remove(k) && picks(*old(self), *final(self), k), @*/ {
    if self.ready.is_empty() {
        return None;
    }
    let idx = match self.config.policy {
        SchedulePolicy::Fifo | SchedulePolicy::RoundRobin => 0,
        SchedulePolicy::Lifo => self.ready.len() - 1,
        SchedulePolicy::Random => self.chooser.decide(ChoiceKind::TaskPick, self.ready.len()),
        SchedulePolicy::Priority => {
            let mut best = 0usize;
            let mut best_pri = task_at(&self.tasks, self.ready[0]).priority;
            let mut i__i = 1;
            let i__e = self.ready.len();
            while i__i < i__e
                /*@ invariant
                    *self == *old(self), self.config.policy is Priority, 1 <= i__i <= i__e, i__e == self.ready@.len(), best < i__i, best_pri == pri(*self, best as int),
                    forall|j: int| 0 <= j < self.ready@.len() ==> self.tasks@.dom().contains(#[trigger] self.ready@[j]),
                    forall|j: int| 0 <= j < i__i ==> #[trigger] pri(*self, j) <= best_pri,
                    forall|j: int| 0 <= j < best ==> #[trigger] pri(*self, j) < best_pri,
                decreases i__e - i__i @*/
            {
                let i = i__i;
                i__i += 1;
                let p = task_at(&self.tasks, self.ready[i]).priority;
                /*@ assert(p == pri(*self, i as int)); @*/
                if p > best_pri {
                    best_pri = p;
                    best = i;
                }
            }
            best
        }
    };
    /*@ proof { assert(picks(*old(self), *self, idx as int)); assert(old(self).ready@.remove(idx as int).len() >= 0); } @*/
    Some(self.ready.remove(idx))
}
//#FN crates/logicaffeine_runtime/src/scheduler.rs :: impl<'t> Scheduler<'t> :: fn do_select | enumfilter, forwhile, iterloop, tmut, cmutr, crefr, unre, satadd
/*@ #[verifier::loop_isolation(false)] @*/
fn do_select(&mut self, tid: TaskId, arms: Vec<SelectArm>)
    /*@ requires
        sched_ok(*old(self)), running(*old(self), tid), chooser_ok(old(self).chooser), old(self).chooser is Replay ==> old(self).chooser->pos < usize::MAX,
        forall|i: int| 0 <= i < arms@.len() && (#[trigger] arms@[i]) is Recv ==> old(self).chans@.dom().contains(arms@[i]->Recv_0),
    ensures
        sched_ok(*final(self)), chooser_ok(final(self).chooser), final(self).tasks@.dom() =~= old(self).tasks@.dom(), final(self).chans@.dom() =~= old(self).chans@.dom(),
        // some arm can go now: exactly one of those wins, delivers its channel's oldest value, and no other channel changes
        (exists|i: int| 0 <= i < arms@.len() && can_go(*old(self), #[trigger] arms@[i])) ==> ({
            let w = final(self).tasks@[tid].selected_arm;
            &&& w is Some && w->0 < arms@.len() && can_go(*old(self), arms@[w->0 as int]) && final(self).tasks@[tid].state is Ready
            &&& ({ let ch = arms@[w->0 as int]->Recv_0; let c0 = content(old(self).chans@[ch]);
                others_kept(*final(self), *old(self), ch) && (c0.len() > 0 ==> final(self).tasks@[tid].resume == c0[0] && content(final(self).chans@[ch]) =~= c0.drop_first()) && (c0.len() == 0 ==> final(self).tasks@[tid].resume is Nothing && content(final(self).chans@[ch]).len() == 0) })
        }),
        // otherwise the task is parked on every arm, keeps its arm list, and no channel loses or gains a value
        (forall|i: int| 0 <= i < arms@.len() ==> !can_go(*old(self), #[trigger] arms@[i])) ==> ({
            &&& final(self).tasks@[tid].state is BlockedSelect && final(self).tasks@[tid].select_arms == Some(arms)
            &&& forall|c: ChanId| old(self).chans@.dom().contains(c) ==> kept(#[trigger] final(self).chans@[c], old(self).chans@[c])
            &&& forall|i: int| 0 <= i < arms@.len() && (#[trigger] arms@[i]) is Recv ==> final(self).chans@[arms@[i]->Recv_0].blocked_receivers@.contains(tid)
        }), @*/ {
    let ready_arms: Vec<usize> = {
        let mut fm__r /*@ : Vec<usize> @*/ = Vec::new();
        let mut i: usize = 0;
        while i < arms.len()
            /*@ invariant
                i <= arms@.len(), forall|k: int| 0 <= k < fm__r@.len() ==> (#[trigger] fm__r@[k]) < arms@.len() && can_go(*self, arms@[fm__r@[k] as int]),
                fm__r@.len() == 0 ==> forall|k: int| 0 <= k < i ==> !can_go(*self, #[trigger] arms@[k]),
            decreases arms@.len() - i @*/
        {
            let a = &arms[i];
            if let Some(fm__x) = match a {
                SelectArm::Recv(ch) if chan_at(&self.chans, *ch).can_recv() => Some(i),
                _ => None,
            } {
                fm__r.push(fm__x);
            }
            i += 1;
        }
        fm__r
    };
    if !ready_arms.is_empty() {
        /*@ proof { assert(can_go(*self, arms@[ready_arms@[0] as int])); } @*/
        let w = if ready_arms.len() == 1 {
            0
        } else {
            self.chooser.decide(ChoiceKind::SelectWinner, ready_arms.len())
        };
        /*@ let ghost s1 = *self; proof { assert(sched_ok(*self)) by { assert forall|c: ChanId| self.chans@.dom().contains(c) implies chan_ok(#[trigger] self.chans@[c]) && known(*self, c) by { assert(known(*old(self), c)); } } } @*/
        let arm_idx = ready_arms[w];
        /*@ proof { assert(can_go(*old(self), arms@[arm_idx as int])); } @*/
        let ch = match &arms[arm_idx] {
            SelectArm::Recv(ch) => *ch,
            SelectArm::Timeout(_) => vstd::pervasive::unreached(),
        };
        let v = self.take_one(ch);
        /*@ let ghost s2 = *self; @*/
        {
            let slot = task_mut(&mut self.tasks, tid);
            slot.resume = v;
            slot.selected_arm = Some(arm_idx);
            slot.state = TaskState::Ready;
        }
        self.ready.push(tid);
        /*@ proof { lem_same(*self, s2); } @*/
    } else {
        let mut i__i = 0;
        let i__e = arms.len();
        while i__i < i__e
            /*@ invariant
                i__i <= i__e, i__e == arms@.len(), self.tasks == old(self).tasks, self.chooser == old(self).chooser, self.chans@.dom() =~= old(self).chans@.dom(),
                forall|c: ChanId| old(self).chans@.dom().contains(c) ==> parked(#[trigger] self.chans@[c], old(self).chans@[c], tid, arms@, c),
                forall|k: int| 0 <= k < i__i && (#[trigger] arms@[k]) is Recv ==> self.chans@[arms@[k]->Recv_0].blocked_receivers@.contains(tid),
            decreases i__e - i__i @*/
        {
            let i = i__i;
            i__i += 1;
            let a = &arms[i];
            /*@ let ghost s0 = *self; @*/
            match a {
                SelectArm::Recv(ch) => {
                    chan_mut(&mut self.chans, *ch).blocked_receivers.push_back(tid);
                    /*@ proof { lem_park(*self, s0, *old(self), tid, arms@, *ch, i as int); } @*/
                }
                SelectArm::Timeout(d) => {
                    self.timers.push(TimerEntry { fire_at: sat_add(self.clock, *d), tid, arm: Some(i) });
                }
            }
        }
        /*@ let ghost s1 = *self; @*/
        let slot = task_mut(&mut self.tasks, tid);
        slot.select_arms = Some(arms);
        slot.state = TaskState::BlockedSelect;
        /*@ proof { lem_parked(*self, s1, *old(self), tid, arms@); } @*/
    }
}
//#RAW
}
spec fn fewer(n: Chan, o: Chan) -> bool { n.blocked_receivers@.len() <= o.blocked_receivers@.len() }
proof fn lem_dropped(n: Scheduler, o: Scheduler, rid: TaskId)
    requires n.tasks == o.tasks, n.chans@.dom() == o.chans@.dom(), forall|c: ChanId| o.chans@.dom().contains(c) ==> same_but_waiters(#[trigger] n.chans@[c], o.chans@[c], rid)
    ensures sched_ok(o) ==> sched_ok(n)
{
    if sched_ok(o) {
        assert forall|c: ChanId| n.chans@.dom().contains(c) implies chan_ok(#[trigger] n.chans@[c]) && known(n, c) by {
            assert(same_but_waiters(n.chans@[c], o.chans@[c], rid)); assert(chan_ok(o.chans@[c]) && known(o, c));
            assert forall|i: int| 0 <= i < n.chans@[c].blocked_receivers@.len() implies n.tasks@.dom().contains(#[trigger] n.chans@[c].blocked_receivers@[i]) && (n.tasks@[n.chans@[c].blocked_receivers@[i]].select_arms is Some ==> has_arm(n.tasks@[n.chans@[c].blocked_receivers@[i]].select_arms->0@, c)) by {
                let x = n.chans@[c].blocked_receivers@[i]; let j = choose|j: int| 0 <= j < o.chans@[c].blocked_receivers@.len() && o.chans@[c].blocked_receivers@[j] == x; assert(o.chans@[c].blocked_receivers@[j] == x);
            }
        }
    }
}
proof fn lem_popped(n: Scheduler, o: Scheduler, ch: ChanId)
    requires
        sched_ok(o), n.tasks == o.tasks, o.chans@.dom().contains(ch), n.chans@ =~= o.chans@.insert(ch, n.chans@[ch]), kept(n.chans@[ch], o.chans@[ch]),
        n.chans@[ch].blocked_receivers@ == (if o.chans@[ch].blocked_receivers@.len() > 0 { o.chans@[ch].blocked_receivers@.drop_first() } else { o.chans@[ch].blocked_receivers@ }),
    ensures sched_ok(n)
{
    assert forall|c: ChanId| n.chans@.dom().contains(c) implies chan_ok(#[trigger] n.chans@[c]) && known(n, c) by {
        assert(chan_ok(o.chans@[c]) && known(o, c));
        if c == ch {
            assert forall|i: int| 0 <= i < n.chans@[c].blocked_receivers@.len() implies n.tasks@.dom().contains(#[trigger] n.chans@[c].blocked_receivers@[i]) && (n.tasks@[n.chans@[c].blocked_receivers@[i]].select_arms is Some ==> has_arm(n.tasks@[n.chans@[c].blocked_receivers@[i]].select_arms->0@, c)) by { assert(n.chans@[c].blocked_receivers@[i] == o.chans@[c].blocked_receivers@[i + 1]); }
            assert forall|i: int| 0 <= i < n.chans@[c].blocked_senders@.len() implies n.tasks@.dom().contains((#[trigger] n.chans@[c].blocked_senders@[i]).0) by { assert(o.tasks@.dom().contains(o.chans@[c].blocked_senders@[i].0)); }
        } else { assert(n.chans@[c] == o.chans@[c]); }
    }
}
spec fn can_go(s: Scheduler, a: SelectArm) -> bool { a is Recv && s.chans@.dom().contains(a->Recv_0) && (content(s.chans@[a->Recv_0]).len() > 0 || s.chans@[a->Recv_0].closed) }
spec fn pri(s: Scheduler, i: int) -> u8 { s.tasks@[s.ready@[i]].priority }
// the discipline: oldest first, newest first, the recorded random pick, or the first of the highest priority
spec fn picks(o: Scheduler, n: Scheduler, k: int) -> bool {
    match o.config.policy {
        SchedulePolicy::Fifo | SchedulePolicy::RoundRobin => k == 0 && n.chooser == o.chooser,
        SchedulePolicy::Lifo => k == o.ready@.len() - 1 && n.chooser == o.chooser,
        SchedulePolicy::Random => match o.chooser {
            Chooser::Record { rng, seed, choices } => n.chooser is Record && n.chooser->choices@ == choices@.push(ChoicePoint { kind: ChoiceKind::TaskPick, options: o.ready@.len() as usize, chosen: k as usize }),
            Chooser::Replay { trace, pos } => pos < trace.choices@.len() && trace.choices@[pos as int].chosen == k && n.chooser is Replay && n.chooser->pos == pos + 1,
        },
        SchedulePolicy::Priority => n.chooser == o.chooser && (forall|j: int| 0 <= j < o.ready@.len() ==> #[trigger] pri(o, j) <= pri(o, k)) && (forall|j: int| 0 <= j < k ==> #[trigger] pri(o, j) < pri(o, k)),
    }
}
spec fn parked(n: Chan, o: Chan, tid: TaskId, arms: Seq<SelectArm>, c: ChanId) -> bool {
    &&& kept(n, o)
    &&& n.blocked_receivers@.len() >= o.blocked_receivers@.len()
    &&& forall|i: int| 0 <= i < o.blocked_receivers@.len() ==> #[trigger] n.blocked_receivers@[i] == o.blocked_receivers@[i]
    &&& forall|i: int| o.blocked_receivers@.len() <= i < n.blocked_receivers@.len() ==> #[trigger] n.blocked_receivers@[i] == tid && has_arm(arms, c)
    &&& n.blocked_receivers@.len() > o.blocked_receivers@.len() ==> has_arm(arms, c)
}
spec fn others_wait(n: Chan, o: Chan, rid: TaskId) -> bool { forall|x: TaskId| x != rid && o.blocked_receivers@.contains(x) ==> #[trigger] n.blocked_receivers@.contains(x) }
spec fn released(s: Scheduler, t: TaskId) -> bool { s.tasks@[t].state is Ready && s.tasks@[t].resume is Nothing }
#[verifier::external_body]
fn chan_put(m: &mut ChanMap, k: ChanId, c: Chan) ensures final(m)@ == old(m)@.insert(k, c) { m.m.insert(k.0, c); }
#[verifier::external_body]
fn state_of(m: &TaskMap, k: TaskId) -> (r: Option<&TaskState>) ensures r is Some <==> m@.dom().contains(k), r is Some ==> *r->0 == m@[k].state { m.m.get(&k.0).map(|s| &s.state) }
proof fn lem_park(n: Scheduler, s0: Scheduler, o: Scheduler, tid: TaskId, arms: Seq<SelectArm>, ch: ChanId, i: int)
    requires
        0 <= i < arms.len(), arms[i] == SelectArm::Recv(ch), o.chans@.dom().contains(ch), s0.chans@.dom() =~= o.chans@.dom(), n.chans@ == s0.chans@.insert(ch, n.chans@[ch]), kept(n.chans@[ch], s0.chans@[ch]), n.chans@[ch].blocked_receivers@ == s0.chans@[ch].blocked_receivers@.push(tid),
        forall|c: ChanId| o.chans@.dom().contains(c) ==> parked(#[trigger] s0.chans@[c], o.chans@[c], tid, arms, c),
        forall|k: int| 0 <= k < i && (#[trigger] arms[k]) is Recv ==> s0.chans@[arms[k]->Recv_0].blocked_receivers@.contains(tid),
    ensures
        forall|c: ChanId| o.chans@.dom().contains(c) ==> parked(#[trigger] n.chans@[c], o.chans@[c], tid, arms, c),
        forall|k: int| 0 <= k < i + 1 && (#[trigger] arms[k]) is Recv ==> n.chans@[arms[k]->Recv_0].blocked_receivers@.contains(tid),
{
    assert(has_arm(arms, ch));
    assert(parked(s0.chans@[ch], o.chans@[ch], tid, arms, ch));
    assert forall|c: ChanId| o.chans@.dom().contains(c) implies parked(#[trigger] n.chans@[c], o.chans@[c], tid, arms, c) by { assert(parked(s0.chans@[c], o.chans@[c], tid, arms, c)); }
    let w = n.chans@[ch].blocked_receivers@; assert(w[w.len() - 1] == tid); assert(w.contains(tid));
    assert forall|k: int| 0 <= k < i + 1 && (#[trigger] arms[k]) is Recv implies n.chans@[arms[k]->Recv_0].blocked_receivers@.contains(tid) by { let c = arms[k]->Recv_0; if c != ch { assert(k < i); assert(s0.chans@[c].blocked_receivers@.contains(tid)); } }
}
proof fn lem_parked(n: Scheduler, s1: Scheduler, o: Scheduler, tid: TaskId, arms: Seq<SelectArm>)
    requires
        sched_ok(o), running(o, tid), n.chans == s1.chans, s1.tasks == o.tasks, s1.chans@.dom() =~= o.chans@.dom(), n.tasks@ == o.tasks@.insert(tid, n.tasks@[tid]), n.tasks@[tid].select_arms is Some, n.tasks@[tid].select_arms->0@ == arms,
        forall|c: ChanId| o.chans@.dom().contains(c) ==> parked(#[trigger] s1.chans@[c], o.chans@[c], tid, arms, c),
        forall|i: int| 0 <= i < arms.len() ==> !can_go(o, #[trigger] arms[i]),
        forall|i: int| 0 <= i < arms.len() && (#[trigger] arms[i]) is Recv ==> o.chans@.dom().contains(arms[i]->Recv_0),
    ensures sched_ok(n), forall|c: ChanId| o.chans@.dom().contains(c) ==> kept(#[trigger] n.chans@[c], o.chans@[c])
{
    assert forall|c: ChanId| n.chans@.dom().contains(c) implies chan_ok(#[trigger] n.chans@[c]) && known(n, c) by {
        let x = n.chans@[c]; let y = o.chans@[c];
        assert(parked(s1.chans@[c], y, tid, arms, c)); assert(chan_ok(y) && known(o, c)); assert(idle(o, tid, c));
        if has_arm(arms, c) { let i = choose|i: int| 0 <= i < arms.len() && #[trigger] arms[i] == SelectArm::Recv(c); assert(!can_go(o, arms[i])); assert(content(y).len() == 0); }
        assert forall|i: int| 0 <= i < x.blocked_receivers@.len() implies n.tasks@.dom().contains(#[trigger] x.blocked_receivers@[i]) && (n.tasks@[x.blocked_receivers@[i]].select_arms is Some ==> has_arm(n.tasks@[x.blocked_receivers@[i]].select_arms->0@, c)) by {
            if i < y.blocked_receivers@.len() { assert(x.blocked_receivers@[i] == y.blocked_receivers@[i]); assert(y.blocked_receivers@[i] != tid); } else { assert(x.blocked_receivers@[i] == tid); }
        }
        assert forall|i: int| 0 <= i < x.blocked_senders@.len() implies n.tasks@.dom().contains((#[trigger] x.blocked_senders@[i]).0) by { assert(o.tasks@.dom().contains(y.blocked_senders@[i].0)); }
    }
    assert forall|c: ChanId| o.chans@.dom().contains(c) implies kept(#[trigger] n.chans@[c], o.chans@[c]) by { assert(parked(s1.chans@[c], o.chans@[c], tid, arms, c)); }
}
proof fn lem_same(n: Scheduler, o: Scheduler)
    requires n.chans == o.chans, arms_kept(n, o), sched_ok(o)
    ensures sched_ok(n)
{ assert forall|c: ChanId| n.chans@.dom().contains(c) implies chan_ok(#[trigger] n.chans@[c]) && known(n, c) by { assert(chan_ok(o.chans@[c]) && known(o, c)); } }
// popping from the front of a list keeps every listed task known
proof fn lem_known(n: Scheduler, o: Scheduler, ch: ChanId)
    requires
        all_known(o) || sched_ok(o), arms_kept(n, o), o.chans@.dom().contains(ch), n.chans@ =~= o.chans@.insert(ch, n.chans@[ch]),
        tail_of(n.chans@[ch].blocked_senders@, o.chans@[ch].blocked_senders@), tail_of(n.chans@[ch].blocked_receivers@, o.chans@[ch].blocked_receivers@),
    ensures all_known(n), rest_ok(o, ch) || sched_ok(o) ==> rest_ok(n, ch), (rest_ok(o, ch) || sched_ok(o)) && chan_ok(n.chans@[ch]) ==> sched_ok(n), n.chans@.dom() =~= o.chans@.dom(),
{
    if sched_ok(o) { assert forall|c: ChanId| #[trigger] o.chans@.dom().contains(c) implies known(o, c) by { assert(chan_ok(o.chans@[c]) && known(o, c)); } assert(rest_ok(o, ch)); }
    assert forall|c: ChanId| #[trigger] n.chans@.dom().contains(c) implies known(n, c) by {
        assert(o.chans@.dom().contains(c)); assert(known(o, c));
        if c == ch {
            let x = n.chans@[c]; let y = o.chans@[c];
            assert forall|i: int| 0 <= i < x.blocked_receivers@.len() implies n.tasks@.dom().contains(#[trigger] x.blocked_receivers@[i]) && (n.tasks@[x.blocked_receivers@[i]].select_arms is Some ==> has_arm(n.tasks@[x.blocked_receivers@[i]].select_arms->0@, c)) by { let j = if x.blocked_receivers@ == y.blocked_receivers@ { i } else { i + 1 }; assert(x.blocked_receivers@[i] == y.blocked_receivers@[j]); }
            assert forall|i: int| 0 <= i < x.blocked_senders@.len() implies n.tasks@.dom().contains((#[trigger] x.blocked_senders@[i]).0) by { let j = if x.blocked_senders@ == y.blocked_senders@ { i } else { i + 1 }; assert(x.blocked_senders@[i] == y.blocked_senders@[j]); }
        } else { assert(n.chans@[c] == o.chans@[c]); }
    }
    if rest_ok(o, ch) { assert forall|c: ChanId| c != ch && n.chans@.dom().contains(c) implies chan_ok(#[trigger] n.chans@[c]) by { assert(n.chans@[c] == o.chans@[c]); assert(chan_ok(o.chans@[c])); } }
}
proof fn lem_pushed(n: Scheduler, o: Scheduler, ch: ChanId, tid: TaskId)
    requires
        sched_ok(o), running(o, tid), arms_kept(n, o), o.chans@.dom().contains(ch), n.chans@ =~= o.chans@.insert(ch, n.chans@[ch]), chan_ok(n.chans@[ch]),
        n.chans@[ch].blocked_senders@ == o.chans@[ch].blocked_senders@, n.chans@[ch].blocked_receivers@ == o.chans@[ch].blocked_receivers@.push(tid),
    ensures sched_ok(n), n.chans@.dom() =~= o.chans@.dom()
{
    assert forall|c: ChanId| n.chans@.dom().contains(c) implies chan_ok(#[trigger] n.chans@[c]) && known(n, c) by {
        assert(chan_ok(o.chans@[c]) && known(o, c));
        if c == ch {
            let x = n.chans@[c]; let y = o.chans@[c];
            assert forall|i: int| 0 <= i < x.blocked_receivers@.len() implies n.tasks@.dom().contains(#[trigger] x.blocked_receivers@[i]) && (n.tasks@[x.blocked_receivers@[i]].select_arms is Some ==> has_arm(n.tasks@[x.blocked_receivers@[i]].select_arms->0@, c)) by { if i < y.blocked_receivers@.len() { assert(x.blocked_receivers@[i] == y.blocked_receivers@[i]); } else { assert(x.blocked_receivers@[i] == tid); } }
            assert forall|i: int| 0 <= i < x.blocked_senders@.len() implies n.tasks@.dom().contains((#[trigger] x.blocked_senders@[i]).0) by { assert(x.blocked_senders@[i] == y.blocked_senders@[i]); }
        } else { assert(n.chans@[c] == o.chans@[c]); }
    }
}
spec fn sent(b: Seq<(TaskId, RtPayload)>) -> Seq<RtPayload> { b.map_values(|p: (TaskId, RtPayload)| p.1) }
proof fn lem_refill(q: Seq<RtPayload>, b: Seq<(TaskId, RtPayload)>)
    requires b.len() > 0
    ensures q.push(b[0].1) + b.drop_first().map_values(|p: (TaskId, RtPayload)| p.1) =~= q + b.map_values(|p: (TaskId, RtPayload)| p.1)
{ }
proof fn lem_first(q: Seq<RtPayload>, b: Seq<(TaskId, RtPayload)>)
    requires q.len() > 0
    ensures (q + b.map_values(|p: (TaskId, RtPayload)| p.1))[0] == q[0], (q + b.map_values(|p: (TaskId, RtPayload)| p.1)).len() > 0, q.drop_first() + b.map_values(|p: (TaskId, RtPayload)| p.1) =~= (q + b.map_values(|p: (TaskId, RtPayload)| p.1)).drop_first()
{ }
proof fn lem_sender(q: Seq<RtPayload>, b: Seq<(TaskId, RtPayload)>)
    requires q.len() == 0, b.len() > 0
    ensures (q + b.map_values(|p: (TaskId, RtPayload)| p.1))[0] == b[0].1, (q + b.map_values(|p: (TaskId, RtPayload)| p.1)).len() > 0, q + b.drop_first().map_values(|p: (TaskId, RtPayload)| p.1) =~= (q + b.map_values(|p: (TaskId, RtPayload)| p.1)).drop_first()
{ }
proof fn lem_empty(q: Seq<RtPayload>, b: Seq<(TaskId, RtPayload)>)
    requires q.len() == 0, b.len() == 0
    ensures (q + b.map_values(|p: (TaskId, RtPayload)| p.1)).len() == 0
{ }
// a run recorded by `decide` and replayed by `decide`: the i-th replayed decision is the i-th recorded one
spec fn replayed(t: Seq<ChoicePoint>, from: int, got: Seq<ChoicePoint>) -> bool { from + got.len() <= t.len() && got =~= t.subrange(from, from + got.len()) }
proof fn lem_replay_step(t: Seq<ChoicePoint>, got: Seq<ChoicePoint>, next: ChoicePoint)
    requires replayed(t, 0, got), got.len() < t.len(), t[got.len() as int] == next
    ensures replayed(t, 0, got.push(next))
{ }
fn main() {}
} // verus!
