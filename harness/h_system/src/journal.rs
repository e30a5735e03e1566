//! C15: journaled values over an in-memory file system that can stop a write at any byte.
use async_trait::async_trait;
use logicaffeine_data::crdt::Merge;
use logicaffeine_system::distributed::Distributed;
use logicaffeine_system::fs::{DirEntry, NativeVfs, Vfs, VfsError, VfsResult};
use logicaffeine_system::storage::Persistent;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use vh::{Rng, H};

/// A replicated value made of a growing map and a last-writer register.
#[derive(Clone, Default, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Val {
    ids: BTreeMap<u32, String>,
    top: (u64, Vec<u8>),
}

impl Merge for Val {
    fn merge(&mut self, other: &Self) {
        for (k, v) in &other.ids {
            self.ids.insert(*k, v.clone());
        }
        if other.top.0 > self.top.0 {
            self.top = other.top.clone();
        }
    }
}

#[derive(Clone, Debug)]
enum Edit {
    Add(u32, String),
    Set(u64, Vec<u8>),
}

impl Edit {
    fn apply(&self, v: &mut Val) {
        match self {
            Edit::Add(k, s) => {
                v.ids.insert(*k, s.clone());
            }
            Edit::Set(t, b) => v.top = (*t, b.clone()),
        }
    }
    fn random(r: &mut Rng, n: u32) -> Edit {
        if r.chance(2, 3) {
            let len = r.us(6);
            Edit::Add(n, (0..len).map(|_| *r.pick(&['a', 'é', '\0', 'z'])).collect())
        } else {
            let len = r.us(9);
            Edit::Set(n as u64, r.bytes(len))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// The call writes this many bytes of an append (a replacement: nothing) and fails.
    Fail(usize),
    /// The call writes this many bytes of an append (a replacement: all or nothing) and never returns.
    Stop(usize, bool),
}

#[derive(Default)]
pub struct Disk {
    files: BTreeMap<String, Vec<u8>>,
    fault: Option<Fault>,
    /// Calls that wait to be resumed between their steps.
    waits: Option<Rng>,
}

#[derive(Clone, Default)]
pub struct Mem(Arc<Mutex<Disk>>);

struct Yield(usize);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        Poll::Pending
    }
}

impl Mem {
    fn wait(&self) -> Yield {
        let mut d = self.0.lock().unwrap();
        Yield(d.waits.as_mut().map_or(0, |r| r.us(3)))
    }
    fn file(&self, p: &str) -> Option<Vec<u8>> {
        self.0.lock().unwrap().files.get(p).cloned()
    }
    fn put(&self, p: &str, b: Vec<u8>) {
        self.0.lock().unwrap().files.insert(p.to_string(), b);
    }
    fn fault(&self, f: Option<Fault>) {
        self.0.lock().unwrap().fault = f;
    }
    fn take_fault(&self) -> Option<Fault> {
        self.0.lock().unwrap().fault.take()
    }
    fn waits(&self, r: Option<Rng>) {
        self.0.lock().unwrap().waits = r;
    }
}

fn io(what: &str) -> VfsError {
    VfsError::IoError(std::io::Error::new(std::io::ErrorKind::Other, what.to_string()))
}

#[async_trait]
impl Vfs for Mem {
    async fn read(&self, path: &str) -> VfsResult<Vec<u8>> {
        self.wait().await;
        self.file(path).ok_or_else(|| VfsError::NotFound(path.into()))
    }
    async fn read_to_string(&self, path: &str) -> VfsResult<String> {
        String::from_utf8(self.read(path).await?).map_err(|_| io("not text"))
    }
    async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
        self.wait().await;
        match self.take_fault() {
            None => self.put(path, contents.to_vec()),
            Some(Fault::Fail(_)) => return Err(io("no space")),
            Some(Fault::Stop(_, all)) => {
                if all {
                    self.put(path, contents.to_vec());
                }
                std::future::pending::<()>().await;
            }
        }
        self.wait().await;
        Ok(())
    }
    async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
        self.wait().await;
        let fault = self.take_fault();
        let n = match fault {
            None => contents.len(),
            Some(Fault::Fail(n)) | Some(Fault::Stop(n, _)) => n.min(contents.len()),
        };
        let pieces: Vec<usize> = {
            let mut d = self.0.lock().unwrap();
            match d.waits.as_mut() {
                Some(r) => vec![r.us(n + 1), n],
                None => vec![n],
            }
        };
        let mut from = 0;
        for to in pieces {
            self.0.lock().unwrap().files.entry(path.to_string()).or_default().extend_from_slice(&contents[from..to]);
            from = to;
            self.wait().await;
        }
        match fault {
            None => Ok(()),
            Some(Fault::Fail(_)) => Err(io("no space")),
            Some(Fault::Stop(..)) => std::future::pending().await,
        }
    }
    async fn exists(&self, path: &str) -> VfsResult<bool> {
        Ok(self.file(path).is_some())
    }
    async fn remove(&self, path: &str) -> VfsResult<()> {
        self.0.lock().unwrap().files.remove(path).map(|_| ()).ok_or_else(|| VfsError::NotFound(path.into()))
    }
    async fn create_dir_all(&self, _: &str) -> VfsResult<()> {
        Ok(())
    }
    async fn rename(&self, from: &str, to: &str) -> VfsResult<()> {
        self.wait().await;
        let b = self.file(from).ok_or_else(|| VfsError::NotFound(from.into()))?;
        let mut d = self.0.lock().unwrap();
        d.files.remove(from);
        d.files.insert(to.to_string(), b);
        Ok(())
    }
    async fn list_dir(&self, _: &str) -> VfsResult<Vec<DirEntry>> {
        Ok(Vec::new())
    }
}

/// The two journaled values under one interface.
enum Sub {
    P(Persistent<Val>),
    D(Distributed<Val>),
}

impl Sub {
    async fn mount(dist: bool, vfs: Arc<dyn Vfs + Send + Sync>, path: &str) -> VfsResult<Sub> {
        Ok(if dist {
            Sub::D(Distributed::mount(vfs, path, None).await?)
        } else {
            Sub::P(Persistent::mount(vfs, path).await?)
        })
    }
    async fn get(&self) -> Val {
        match self {
            Sub::P(p) => p.get().await,
            Sub::D(d) => d.get().await,
        }
    }
    async fn mutate(&self, e: Edit) -> VfsResult<()> {
        match self {
            Sub::P(p) => p.mutate(move |v| e.apply(v)).await,
            Sub::D(d) => d.mutate(move |v| e.apply(v)).await,
        }
    }
    async fn compact(&self) -> VfsResult<()> {
        match self {
            Sub::P(p) => p.compact().await,
            Sub::D(d) => d.compact().await,
        }
    }
    async fn maybe_compact(&self, n: u64) -> VfsResult<bool> {
        match self {
            Sub::P(p) => p.maybe_compact(n).await,
            Sub::D(d) => d.compact().await.map(|_| true),
        }
    }
}

/// Runs a future; `None` when it stopped making progress (a crashed call).
fn run<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..200 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}

fn mount(h: &mut H, dist: bool, mem: &Mem, case: &str) -> Option<Result<(Sub, Val), String>> {
    let c = case.to_string();
    h.guard("mount", || c.clone(), || {
        run(async {
            let s = Sub::mount(dist, Arc::new(mem.clone()), "j.lsf").await.map_err(|e| e.to_string())?;
            let v = s.get().await;
            Ok((s, v))
        })
        .unwrap_or_else(|| Err("mount never returned".into()))
    })
}

fn short(v: &Val) -> String {
    format!("ids {:?} top {:?}", v.ids.keys().collect::<Vec<_>>(), v.top)
}

/// One random history with crashes, failed calls, compactions and remounts.
fn history(h: &mut H) {
    let dist = h.rng.bool();
    let mem = Mem::default();
    let mut log = format!("{} ", if dist { "Distributed" } else { "Persistent" });
    let Some(Ok((mut sub, mut ram))) = mount(h, dist, &mem, &log) else {
        h.violation("mount-empty", "mounting an absent journal fails", log);
        return;
    };
    // Every state the journal may come back with, the last acknowledged one first.
    let mut cands = vec![ram.clone()];
    let steps = 3 + h.rng.us(14);
    let (mut crashes, mut n) = (0, 0);
    for _ in 0..steps {
        let k = h.rng.us(12);
        let mut crashed = false;
        match k {
            0..=5 | 10 | 11 => {
                n += 1;
                let e = Edit::random(&mut h.rng, n);
                let cut = h.rng.us(60);
                let fault = match k {
                    10 => Some(Fault::Fail(cut)),
                    11 => Some(Fault::Stop(cut, h.rng.bool())),
                    _ => None,
                };
                log += &format!("mutate {e:?} {fault:?}; ");
                mem.fault(fault);
                e.apply(&mut ram);
                cands.push(ram.clone());
                match run(sub.mutate(e)) {
                    Some(Ok(())) => {
                        cands = vec![ram.clone()];
                        if fault.is_some() {
                            h.violation("failure-acknowledged", "a mutation was acknowledged though its write failed", log.clone());
                            return;
                        }
                    }
                    Some(Err(e)) => {
                        if fault.is_none() {
                            h.violation("mutate-fails", format!("a mutation without a fault fails: {e}"), log.clone());
                            return;
                        }
                    }
                    None => crashed = true,
                }
            }
            6 | 7 => {
                let fault = match h.rng.us(4) {
                    0 => Some(Fault::Fail(0)),
                    1 => Some(Fault::Stop(0, h.rng.bool())),
                    _ => None,
                };
                let threshold = h.rng.us(4) as u64;
                let maybe = h.rng.bool();
                log += &format!("compact(maybe {maybe} {threshold}) {fault:?}; ");
                mem.fault(fault);
                cands.push(ram.clone());
                let r = if maybe { run(sub.maybe_compact(threshold)) } else { run(sub.compact()).map(|r| r.map(|_| true)) };
                match r {
                    Some(Ok(true)) => cands = vec![ram.clone()],
                    Some(_) => {}
                    None => crashed = true,
                }
            }
            _ => crashed = true,
        }
        mem.fault(None);
        if crashed {
            crashes += 1;
            drop(sub);
            log += "crash+mount; ";
            match mount(h, dist, &mem, &log) {
                Some(Ok((s, v))) => {
                    if !h.check(cands.contains(&v), "recovered-state", || format!("the recovered state is neither the acknowledged one nor a later one: got {} want one of {:?}", short(&v), cands.iter().map(short).collect::<Vec<_>>()), || log.clone()) {
                        return;
                    }
                    sub = s;
                    ram = v.clone();
                    cands = vec![v];
                }
                Some(Err(e)) => {
                    h.violation("mount-after-crash", format!("mounting after a crash fails: {e}"), log);
                    return;
                }
                None => return,
            }
        } else {
            let v = run(sub.get());
            if !h.check(v.as_ref() == Some(&ram), "state", || format!("the value differs from the mutations applied: {:?}", v.as_ref().map(short)), || log.clone()) {
                return;
            }
        }
    }
    h.case(&log, crashes > 0 && n > 0);
}

/// A journal cut at every byte, and every byte of it changed.
fn every_byte(h: &mut H) {
    let dist = h.rng.bool();
    let mem = Mem::default();
    let mut states = vec![(0usize, Val::default())];
    let Some(Ok((sub, mut ram))) = mount(h, dist, &mem, "empty") else { return };
    let mut log = format!("{} ", if dist { "Distributed" } else { "Persistent" });
    let n = 1 + h.rng.us(4) as u32;
    let snap = h.rng.chance(1, 3);
    for i in 1..=n {
        let e = Edit::random(&mut h.rng, i);
        log += &format!("{e:?}; ");
        e.apply(&mut ram);
        if !matches!(run(sub.mutate(e)), Some(Ok(()))) {
            h.violation("mutate-fails", "a mutation without a fault fails", log);
            return;
        }
        if snap && i == 1 {
            log += "compact; ";
            let _ = run(sub.compact());
            states.clear();
            states.push((0, Val::default()));
        }
        states.push((mem.file("j.lsf").map_or(0, |f| f.len()), ram.clone()));
    }
    drop(sub);
    let full = mem.file("j.lsf").unwrap_or_default();
    h.case(&log, true);
    for cut in 0..=full.len() {
        let m = Mem::default();
        m.put("j.lsf", full[..cut].to_vec());
        let want = &states.iter().rev().find(|(l, _)| *l <= cut).unwrap().1;
        let case = format!("{log} cut to {cut} of {} bytes", full.len());
        h.tick();
        let (s, v) = match mount(h, dist, &m, &case) {
            Some(Ok(x)) => x,
            Some(Err(e)) => {
                h.violation("mount-torn", format!("a journal whose last write was cut short cannot be mounted: {e}"), case);
                return;
            }
            None => return,
        };
        if !h.check(&v == want, "torn-state", || format!("got {} want {}", short(&v), short(want)), || case.clone()) {
            return;
        }
        // Updates after the recovery survive further remounts.
        let mut now = v;
        for j in 0..2u32 {
            let e = Edit::random(&mut h.rng, 100 + j);
            e.apply(&mut now);
            if !matches!(run(s.mutate(e)), Some(Ok(()))) {
                h.violation("mutate-fails", "a mutation after recovery fails", case);
                return;
            }
        }
        drop(s);
        match mount(h, dist, &m, &case) {
            Some(Ok((_, v))) => {
                if !h.check(v == now, "after-recovery", || format!("updates made after the recovery are lost: got {} want {}", short(&v), short(&now)), || case.clone()) {
                    return;
                }
            }
            Some(Err(e)) => {
                h.violation("after-recovery", format!("the journal cannot be mounted after updates following a recovery: {e}"), case);
                return;
            }
            None => return,
        }
    }
    for at in 0..full.len() {
        let x = 1 + h.rng.us(255) as u8;
        let mut bad = full.clone();
        bad[at] ^= x;
        let m = Mem::default();
        m.put("j.lsf", bad);
        let case = format!("{log} byte {at} of {} changed by {x:#x}", full.len());
        h.tick();
        match mount(h, dist, &m, &case) {
            Some(Ok((_, v))) => {
                h.violation("damage-accepted", format!("a damaged journal mounts as {}", short(&v)), case);
                return;
            }
            Some(Err(_)) => {}
            None => return,
        }
    }
}

/// Mutations, compactions and reads that overlap, possibly stopped midway.
fn overlapping(h: &mut H) {
    let dist = h.rng.bool();
    let mem = Mem::default();
    let Some(Ok((sub, _))) = mount(h, dist, &mem, "empty") else { return };
    let seed = h.rng.u64();
    mem.waits(Some(Rng::new(seed)));
    let k = 2 + h.rng.us(4);
    let sub = Arc::new(sub);
    let acked: Arc<Mutex<Vec<u32>>> = Arc::default();
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = Result<(), String>>>>>> = Vec::new();
    let mut log = format!("{} overlapping:", if dist { "Distributed" } else { "Persistent" });
    let (mut muts, mut comps) = (0, 0);
    for i in 0..k {
        let s = sub.clone();
        if h.rng.chance(2, 3) {
            let count = 1 + h.rng.us(2) as u32;
            let a = acked.clone();
            log += &format!(" mutate x{count}");
            muts += 1;
            futs.push(Some(Box::pin(async move {
                for j in 0..count {
                    let id = i as u32 * 10 + j;
                    s.mutate(Edit::Add(id, "v".repeat(id as usize % 5))).await.map_err(|e| e.to_string())?;
                    a.lock().unwrap().push(id);
                }
                Ok(())
            })));
        } else {
            log += " compact";
            comps += 1;
            futs.push(Some(Box::pin(async move { s.compact().await.map_err(|e| e.to_string()) })));
        }
    }
    let stop = if h.rng.bool() { h.rng.us(60) } else { usize::MAX };
    log += &format!(" seed {seed} stop {stop} polls");
    h.case(&log, muts > 0 && comps > 0);
    let mut cx = Context::from_waker(Waker::noop());
    let mut polls = 0;
    while futs.iter().any(|f| f.is_some()) && polls < stop {
        let live: Vec<usize> = (0..futs.len()).filter(|i| futs[*i].is_some()).collect();
        let i = *h.rng.pick(&live);
        log += &format!(" {i}");
        polls += 1;
        if polls > 5000 {
            h.violation("overlap-stuck", "overlapping calls never finish", log);
            return;
        }
        if let Poll::Ready(r) = futs[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            futs[i] = None;
            if let Err(e) = r {
                h.violation("overlap-error", format!("a call fails without a fault: {e}"), log);
                return;
            }
        }
    }
    let finished = futs.iter().all(|f| f.is_none());
    mem.waits(None);
    // A stopped run is a crash: nothing that was under way continues.
    let disk = Mem::default();
    disk.put("j.lsf", mem.file("j.lsf").unwrap_or_default());
    let ram = if finished { run(sub.get()) } else { None };
    drop(futs);
    match mount(h, dist, &disk, &log) {
        Some(Ok((_, v))) => {
            let lost: Vec<u32> = acked.lock().unwrap().iter().copied().filter(|i| !v.ids.contains_key(i)).collect();
            if !h.check(lost.is_empty(), "overlap-lost", || format!("acknowledged updates {lost:?} are missing after a remount"), || log.clone()) {
                return;
            }
            if let Some(ram) = ram {
                h.check(v == ram, "overlap-state", || format!("remounted {} live {}", short(&v), short(&ram)), || log.clone());
            }
        }
        Some(Err(e)) => h.violation("overlap-mount", format!("the journal cannot be mounted: {e}"), log),
        None => {}
    }
}

/// Enough mutations for the automatic compaction, cut at the end.
fn automatic(h: &mut H) {
    let mem = Mem::default();
    let Some(Ok((sub, _))) = mount(h, true, &mem, "empty") else { return };
    let n = 990 + h.rng.us(30) as u64;
    let fault_at = h.rng.range(995, 1005) as u64;
    let mut acked = 0;
    let mut log = format!("{n} mutations of a Distributed value");
    for i in 1..=n {
        if i == fault_at && h.rng.bool() {
            log += &format!(", stopped at {i}");
            mem.fault(Some(Fault::Stop(h.rng.us(30), h.rng.bool())));
        }
        match run(sub.mutate(Edit::Set(i, vec![i as u8]))) {
            Some(Ok(())) => acked = i,
            Some(Err(e)) => {
                h.violation("mutate-fails", format!("a mutation fails: {e}"), log);
                return;
            }
            None => break,
        }
    }
    mem.fault(None);
    drop(sub);
    h.case(&log, true);
    match mount(h, true, &mem, &log) {
        Some(Ok((_, v))) => {
            h.check(v.top.0 == acked || v.top.0 == acked + 1, "auto-compact", || format!("acknowledged {acked}, recovered {}", v.top.0), || log.clone());
        }
        Some(Err(e)) => h.violation("auto-compact", format!("cannot mount: {e}"), log),
        None => {}
    }
}

/// The real file system: cut files, other files next to the journal, two journals at once.
fn native(h: &mut H, rt: &logicaffeine_system::tokio::runtime::Runtime, dir: &std::path::Path) {
    let root = dir.join(format!("n{}", h.rng.u64()));
    std::fs::create_dir_all(&root).unwrap();
    let dist = h.rng.bool();
    let vfs: Arc<dyn Vfs + Send + Sync> = Arc::new(NativeVfs::new(&root));
    let stem = *h.rng.pick(&["j", "d/j", "j.x"]);
    let (a, b) = (format!("{stem}.a"), format!("{stem}.b"));
    let others = [format!("{stem}.tmp"), format!("{stem}.bak")];
    let mut log = format!("{} on disk, {a} and {b}: ", if dist { "Distributed" } else { "Persistent" });
    let edits: Vec<Edit> = (1..=4u32).map(|i| Edit::random(&mut h.rng, i)).collect();
    let frac = h.rng.us(1000);
    let r: Result<(), (String, String)> = rt.block_on(async {
        let bad = |k: &str, e: String| (k.to_string(), e);
        for o in &others {
            vfs.write(o, o.as_bytes()).await.map_err(|e| bad("native-io", e.to_string()))?;
        }
        let x = Sub::mount(dist, vfs.clone(), &a).await.map_err(|e| bad("native-mount", e.to_string()))?;
        let y = Sub::mount(dist, vfs.clone(), &b).await.map_err(|e| bad("native-mount", e.to_string()))?;
        let (mut wx, mut wy) = (Val::default(), Val::default());
        for (i, e) in edits.iter().enumerate() {
            let (s, w) = if i % 2 == 0 { (&x, &mut wx) } else { (&y, &mut wy) };
            s.mutate(e.clone()).await.map_err(|e| bad("native-mutate", e.to_string()))?;
            e.apply(w);
            if i == 1 {
                let (p, q) = logicaffeine_system::tokio::join!(x.compact(), y.compact());
                p.and(q).map_err(|e| bad("native-compact", format!("compacting two journals at once: {e}")))?;
            }
        }
        for o in &others {
            let got = vfs.read(o).await.map_err(|e| bad("native-clobber", format!("{o} disappeared: {e}")))?;
            if got != o.as_bytes() {
                return Err(bad("native-clobber", format!("compaction changed the unrelated file {o}")));
            }
        }
        drop((x, y));
        for (p, w) in [(&a, &wx), (&b, &wy)] {
            let s = Sub::mount(dist, vfs.clone(), p).await.map_err(|e| bad("native-mount", format!("{p}: {e}")))?;
            let g = s.get().await;
            if &g != w {
                return Err(bad("native-state", format!("{p}: got {} want {}", short(&g), short(w))));
            }
        }
        // Cut the last entry of a.
        let before = std::fs::read(root.join(&a)).unwrap();
        let s = Sub::mount(dist, vfs.clone(), &a).await.map_err(|e| bad("native-mount", e.to_string()))?;
        s.mutate(Edit::Add(50, "fifty".into())).await.map_err(|e| bad("native-mutate", e.to_string()))?;
        drop(s);
        let after = std::fs::read(root.join(&a)).unwrap();
        let cut = before.len() + (after.len() - before.len()) * frac / 1000;
        std::fs::write(root.join(&a), &after[..cut]).unwrap();
        let s = Sub::mount(dist, vfs.clone(), &a).await.map_err(|e| bad("native-torn", e.to_string()))?;
        if s.get().await != wx {
            return Err(bad("native-torn", "a cut entry changed the state".into()));
        }
        s.mutate(Edit::Add(51, "later".into())).await.map_err(|e| bad("native-mutate", e.to_string()))?;
        Edit::Add(51, "later".into()).apply(&mut wx);
        drop(s);
        let s = Sub::mount(dist, vfs.clone(), &a).await.map_err(|e| bad("native-after", e.to_string()))?;
        if s.get().await != wx {
            return Err(bad("native-after", "an update after the recovery is lost".into()));
        }
        // Only what was asked for is left behind.
        let parent = root.join(&a).parent().unwrap().to_path_buf();
        for e in std::fs::read_dir(parent).unwrap() {
            let name = e.unwrap().file_name().into_string().unwrap();
            if ![&a, &b, &others[0], &others[1]].iter().any(|k| k.rsplit('/').next() == Some(&name)) && name != "d" {
                return Err(bad("native-leftover", format!("{name} is left behind")));
            }
        }
        Ok(())
    });
    log += &format!("{edits:?} cut {frac}/1000");
    h.case(&log, true);
    if let Err((k, e)) = r {
        h.violation(&k, e, log);
    }
    let _ = std::fs::remove_dir_all(&root);
}

pub fn c15(h: &mut H) {
    // Mounting a Distributed value starts its network node, which needs a runtime to live on.
    let rt = logicaffeine_system::tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let _on = rt.enter();
    rt.block_on(async {
        let _ = Distributed::<Val>::mount(Arc::new(Mem::default()), "warm-up", None).await;
    });
    h.rounds("histories with crashes and failed writes", 4.0, 20_000, history);
    h.rounds("journal cut or changed at every byte", 6.0, 400, every_byte);
    h.rounds("overlapping mutations and compactions", 4.0, 20_000, overlapping);
    h.rounds("automatic compaction", 3.0, 20, automatic);
    let dir = std::env::temp_dir().join(format!("vh-c15-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    h.rounds("journals on disk", 5.0, 30, |h| native(h, &rt, &dir));
    let _ = std::fs::remove_dir_all(&dir);
}
