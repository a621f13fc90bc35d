//! C07 executable contract: the three single-flight caches driven through
//! histories of overlapping lookups, compared with an independent account.
use ruby_fast_lsp::single_flight::{
    BlockingBoundedSingleFlightCache as Blocking, BoundedSingleFlightCache as Bounded, SingleFlightCache as Plain, SingleFlightSnapshot,
};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};
use vcommon::{Rng, Run};

#[derive(Debug, PartialEq)]
struct Val {
    key: u8,
    serial: u64,
    weight: u64,
}
#[derive(Clone, Debug)]
enum Out {
    Ok(u64), // weight
    Err,
    Panic,
}
type Res = Result<Arc<Val>, String>;

// ------------------------------------------------------------ the account
#[derive(Clone, Debug)]
struct Entry {
    generation: u64,
    serial: u64,
    weight: Option<u64>, // None: in flight
}
#[derive(Default)]
struct Model {
    entries: BTreeMap<u8, Entry>,
    generation: u64,
    lookups: u64,
    hits: u64,
    joined: u64,
    misses: u64,
    failures: u64,
    evictions: u64,
    bounds: Option<(usize, u64)>,
}
impl Model {
    /// true: this lookup produces
    fn lookup(&mut self, key: u8, serial: u64) -> bool {
        self.lookups += 1;
        match self.entries.get(&key) {
            Some(e) if e.weight.is_some() => self.hits += 1,
            Some(_) => self.joined += 1,
            None => {
                self.misses += 1;
                self.generation += 1;
                self.entries.insert(key, Entry { generation: self.generation, serial, weight: None });
                return true;
            }
        }
        false
    }
    fn finish(&mut self, key: u8, out: &Out) {
        match out {
            Out::Ok(w) => {
                self.entries.get_mut(&key).unwrap().weight = Some(*w);
                if let Some((n, total)) = self.bounds {
                    loop {
                        let done: Vec<(u64, u8, u64)> = self.entries.iter().filter_map(|(k, e)| e.weight.map(|w| (e.generation, *k, w))).collect();
                        if done.len() <= n && done.iter().map(|d| d.2).sum::<u64>() <= total {
                            break;
                        }
                        let oldest = done.iter().min().unwrap().1;
                        self.entries.remove(&oldest);
                        self.evictions += 1;
                    }
                }
            }
            _ => {
                self.failures += 1;
                self.entries.remove(&key);
            }
        }
    }
    fn weight(&self) -> u64 {
        self.entries.values().filter_map(|e| e.weight).sum()
    }
    fn compare(&self, s: &SingleFlightSnapshot, len: usize, contains: impl Fn(u8) -> Option<bool>, weight: Option<u64>) -> Result<(), String> {
        let got = (s.entries, len, s.lookups, s.hits, s.joined_flights, s.misses, s.producers, s.failures, s.evictions);
        let want = (self.entries.len(), self.entries.len(), self.lookups, self.hits, self.joined, self.misses, self.misses, self.failures, self.evictions);
        if got != want {
            return Err(format!("(entries, len, lookups, hits, joined, misses, producers, failures, evictions) is {got:?}, expected {want:?}"));
        }
        for k in 0..KEYS {
            if let Some(c) = contains(k) {
                if c != self.entries.contains_key(&k) {
                    return Err(format!("key {k} retained: {c}, expected {}", self.entries.contains_key(&k)));
                }
            }
        }
        if let Some(w) = weight {
            if w != self.weight() {
                return Err(format!("retained weight {w}, expected {}", self.weight()));
            }
        }
        Ok(())
    }
}
const KEYS: u8 = 6;

#[derive(Clone, Debug)]
enum Op {
    Look(u8),
    Finish(u8, Out),
    Drop(usize), // drop one waiting consumer (async caches)
}
fn plan(rng: &mut Rng, n: usize, unit: u64) -> Vec<Op> {
    let mut v = vec![];
    let heavy = rng.chance(1, 3);
    for _ in 0..n {
        let k = rng.below(KEYS as usize) as u8;
        v.push(match rng.below(10) {
            0..=4 => Op::Look(k),
            5..=8 => Op::Finish(
                k,
                match rng.below(8) {
                    0 => Out::Err,
                    1 => Out::Panic,
                    _ => Out::Ok(unit * if heavy { rng.below(40) as u64 } else { 1 + rng.below(4) as u64 }),
                },
            ),
            _ => Op::Drop(rng.below(8)),
        });
    }
    v
}

// ------------------------------------------------------------ async caches
#[derive(Clone)]
enum Async {
    Plain(Plain<u8, Val>),
    Bounded(Bounded<u8, Val>),
}
impl Async {
    async fn get<F, Fut>(&self, k: u8, f: F) -> Res
    where
        F: FnOnce() -> Fut + Send + 'static,
        Fut: Future<Output = Result<Val, String>> + Send + 'static,
    {
        match self {
            Async::Plain(c) => c.get_or_try_init(k, f).await,
            Async::Bounded(c) => c.get_or_try_init(k, f).await,
        }
    }
    fn compare(&self, m: &Model) -> Result<(), String> {
        match self {
            Async::Plain(c) => {
                if c.is_empty() != m.entries.is_empty() {
                    return Err("is_empty is wrong".into());
                }
                m.compare(&c.snapshot(), c.len(), |_| None, None)
            }
            Async::Bounded(c) => {
                if c.is_empty() != m.entries.is_empty() {
                    return Err("is_empty is wrong".into());
                }
                m.compare(&c.snapshot(), c.len(), |k| Some(c.contains_key(&k)), Some(c.retained_weight()))
            }
        }
    }
}
fn make_async(kind: usize, n: usize, w: u64) -> (Async, Option<(usize, u64)>) {
    match kind {
        0 => (Async::Plain(Plain::default()), None),
        1 => (Async::Bounded(Bounded::ephemeral(|v: &Val| v.weight)), Some((0, 0))),
        _ => (Async::Bounded(Bounded::new(n, w, |v: &Val| v.weight)), Some((n, w))),
    }
}
async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}
struct Waiter {
    key: u8,
    serial: u64,
    task: tokio::task::JoinHandle<Res>,
}
/// result of the flight `serial` of `key`
fn judge(r: &Res, key: u8, serial: u64, out: &Out) -> Result<(), String> {
    match (out, r) {
        (Out::Ok(w), Ok(v)) if v.key == key && v.serial == serial && v.weight == *w => Ok(()),
        (Out::Err, Err(e)) if *e == format!("failed {key} {serial}") => Ok(()),
        (Out::Panic, Err(e)) if e.starts_with("single-flight producer task failed") => Ok(()),
        _ => Err(format!("lookup of key {key} (production {serial} ended {out:?}) answered {r:?}")),
    }
}
fn async_history(kind: usize, n: usize, w: u64, ops: &[Op]) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        let (cache, bounds) = make_async(kind, n, w);
        let mut m = Model { bounds, ..Default::default() };
        let mut serial = 0u64;
        let runs = Arc::new(Mutex::new(BTreeMap::<u64, u8>::new())); // productions that really started
        let mut gates: BTreeMap<u8, tokio::sync::oneshot::Sender<Out>> = BTreeMap::new();
        let mut waiters: Vec<Waiter> = vec![];
        let mut values: BTreeMap<u64, Arc<Val>> = BTreeMap::new();
        for op in ops {
            match op {
                Op::Look(k) => {
                    let k = *k;
                    serial += 1;
                    let s = serial;
                    let (tx, rx) = tokio::sync::oneshot::channel::<Out>();
                    let (c, rs) = (cache.clone(), runs.clone());
                    let task = tokio::spawn(async move {
                        c.get(k, move || {
                            rs.lock().unwrap().insert(s, k);
                            async move {
                                match rx.await {
                                    Ok(Out::Ok(weight)) => Ok(Val { key: k, serial: s, weight }),
                                    Ok(Out::Err) => Err(format!("failed {k} {s}")),
                                    _ => panic!("producer panics"),
                                }
                            }
                        })
                        .await
                    });
                    let owner = m.lookup(k, s);
                    settle().await;
                    if runs.lock().unwrap().contains_key(&s) != owner {
                        return Err(format!("after {op:?}: a production of key {k} started: {}, expected {owner}", !owner));
                    }
                    if owner {
                        gates.insert(k, tx);
                    }
                    let e = m.entries[&k].clone();
                    if e.weight.is_some() {
                        if !task.is_finished() {
                            return Err(format!("lookup of the finished key {k} does not answer"));
                        }
                        let r = task.await.map_err(|e| e.to_string())?;
                        judge(&r, k, e.serial, &Out::Ok(e.weight.unwrap()))?;
                        if !Arc::ptr_eq(&r.unwrap(), &values[&e.serial]) {
                            return Err(format!("lookup of key {k} got another object than the one produced"));
                        }
                    } else {
                        if task.is_finished() {
                            return Err(format!("lookup of key {k} answered before its production ended"));
                        }
                        waiters.push(Waiter { key: k, serial: e.serial, task });
                    }
                }
                Op::Finish(k, out) => {
                    let Some(tx) = gates.remove(k) else { continue };
                    let s = m.entries[k].serial;
                    tx.send(out.clone()).map_err(|_| format!("the production of key {k} was abandoned"))?;
                    m.finish(*k, out);
                    settle().await;
                    for i in (0..waiters.len()).rev() {
                        if waiters[i].key == *k && waiters[i].serial == s {
                            let x = waiters.swap_remove(i);
                            if !x.task.is_finished() {
                                return Err(format!("a waiter of key {k} was never woken"));
                            }
                            let r = x.task.await.map_err(|e| format!("waiter died: {e}"))?;
                            judge(&r, *k, s, out)?;
                            if let Ok(v) = r {
                                let first = values.entry(s).or_insert_with(|| v.clone());
                                if !Arc::ptr_eq(&v, first) {
                                    return Err(format!("waiters of key {k} got different objects"));
                                }
                            }
                        }
                    }
                    // a finished flight nobody waited for: learn its object from the cache
                    if let Some(e) = m.entries.get(k).cloned() {
                        if !values.contains_key(&s) && e.weight.is_some() {
                            m.lookup(*k, 0);
                            let r = cache.get(*k, || async { Err("no second production".to_string()) }).await;
                            judge(&r, *k, s, out)?;
                            values.insert(s, r.unwrap());
                        }
                    }
                }
                Op::Drop(i) => {
                    if waiters.is_empty() {
                        continue;
                    }
                    let j = i % waiters.len();
                    let x = waiters.swap_remove(j);
                    x.task.abort();
                    let _ = x.task.await;
                    settle().await;
                }
            }
            cache.compare(&m).map_err(|e| format!("after {op:?}: {e}"))?;
        }
        Ok(())
    })
}

/// A lookup made the moment a failure is reported must not be answered with that failure.
struct Probe {
    on_wake: Mutex<Option<Box<dyn FnOnce() + Send>>>,
}
impl Wake for Probe {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let f = self.on_wake.lock().unwrap().take();
        if let Some(f) = f {
            f()
        }
    }
}
fn failure_not_served(kind: usize, panics: usize) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let (cache, _) = make_async(kind, 3, 100);
    let verdict: Arc<Mutex<Option<Res>>> = Arc::new(Mutex::new(None));
    let _g = rt.enter();
    let (c, v, h) = (cache.clone(), verdict.clone(), rt.handle().clone());
    let probe = Arc::new(Probe { on_wake: Mutex::new(None) });
    *probe.on_wake.lock().unwrap() = Some(Box::new(move || {
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let _g = h.enter();
            let mut f: Pin<Box<dyn Future<Output = Res>>> = Box::pin(async move { c.get(1, || async { Ok(Val { key: 1, serial: 2, weight: 1 }) }).await });
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                *v.lock().unwrap() = Some(r);
            }
            let _ = tx.send(());
        });
        let _ = rx.recv_timeout(Duration::from_millis(150)); // a lock held across the wake-up: no verdict
    }));
    let waker = Waker::from(probe.clone());
    let c = cache.clone();
    let mut f: Pin<Box<dyn Future<Output = Res>>> = Box::pin(async move {
        c.get(1, move || async move {
            tokio::task::yield_now().await;
            if panics == 1 {
                panic!("producer panics")
            }
            Err("first failure".to_string())
        })
        .await
    });
    if f.as_mut().poll(&mut Context::from_waker(&waker)).is_ready() {
        return Err("answered before the production ended".into());
    }
    rt.block_on(settle());
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(Err(_)) => {}
        other => return Err(format!("the failed lookup answered {other:?}")),
    }
    if let Some(Err(e)) = verdict.lock().unwrap().as_ref() {
        return Err(format!("a lookup made after the failure was reported was answered with it: {e}"));
    }
    rt.block_on(settle());
    let r = rt.block_on(cache.get(1, || async { Ok(Val { key: 1, serial: 3, weight: 1 }) }));
    match r {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("a later lookup is still answered with {e}")),
    }
}
/// a producer that panics before it returns its future
fn panicking_closure(kind: usize) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let (cache, _) = make_async(kind, 3, 100);
    rt.block_on(async {
        let c = cache.clone();
        let a = tokio::spawn(async move {
            c.get(1, || {
                if true {
                    panic!("no future")
                };
                async { Err("unreachable".to_string()) }
            })
            .await
        });
        let _ = a.await;
        settle().await;
        match tokio::time::timeout(Duration::from_secs(5), cache.get(1, || async { Ok(Val { key: 1, serial: 3, weight: 1 }) })).await {
            Ok(Ok(_)) => Ok(()),
            Ok(Err(e)) => Err(format!("a later lookup is answered with {e}")),
            Err(_) => Err("after a producer panicked, a later lookup of the key hangs".into()),
        }
    })
}

// ------------------------------------------------------------ blocking cache
type B = Blocking<u8, Val, String>;
enum Ev {
    Entered(u64),
    Done(u64, Result<Res, String>),
}
fn blocking_history(n: usize, w: u64, ops: &[Op]) -> Result<(), String> {
    let cache: B = Blocking::new(n, w, |v: &Val| v.weight);
    let mut m = Model { bounds: Some((n, w)), ..Default::default() };
    let (etx, erx): (Sender<Ev>, Receiver<Ev>) = channel();
    let mut serial = 0u64;
    let mut gates: BTreeMap<u8, Sender<Out>> = BTreeMap::new();
    let mut waiting: Vec<(u8, u64, u64, bool)> = vec![]; // key, flight, lookup serial, owner
    let mut values: BTreeMap<u64, Arc<Val>> = BTreeMap::new();
    let wait = Duration::from_secs(20);
    for op in ops {
        match op {
            Op::Look(k) => {
                let k = *k;
                serial += 1;
                let s = serial;
                let (tx, rx) = channel::<Out>();
                let (c, e) = (cache.clone(), etx.clone());
                let before = cache.snapshot();
                std::thread::spawn(move || {
                    let e2 = e.clone();
                    let r = vcommon::catches(|| {
                        c.get_or_try_init(k, move || {
                            let _ = e2.send(Ev::Entered(s));
                            match rx.recv() {
                                Ok(Out::Ok(weight)) => Ok(Val { key: k, serial: s, weight }),
                                Ok(Out::Err) => Err(format!("failed {k} {s}")),
                                _ => panic!("producer panics"),
                            }
                        })
                    });
                    let _ = e.send(Ev::Done(s, r));
                });
                let owner = m.lookup(k, s);
                let e = m.entries[&k].clone();
                if owner {
                    match erx.recv_timeout(wait) {
                        Ok(Ev::Entered(x)) if x == s => {}
                        Ok(Ev::Done(_, r)) => return Err(format!("first lookup of key {k} answered {r:?} without a production")),
                        _ => return Err(format!("first lookup of key {k} started no production")),
                    }
                    gates.insert(k, tx);
                    waiting.push((k, s, s, true));
                } else if let Some(weight) = e.weight {
                    match erx.recv_timeout(wait) {
                        Ok(Ev::Done(x, Ok(r))) if x == s => {
                            judge(&r, k, e.serial, &Out::Ok(weight))?;
                            if !Arc::ptr_eq(&r.unwrap(), &values[&e.serial]) {
                                return Err(format!("lookup of key {k} got another object than the one produced"));
                            }
                        }
                        Ok(Ev::Entered(_)) => return Err(format!("a second production of the finished key {k} started")),
                        _ => return Err(format!("lookup of the finished key {k} does not answer")),
                    }
                } else {
                    // joins a flight: seen in the counters, must not start a production
                    let t = Instant::now();
                    loop {
                        let now = cache.snapshot();
                        if now.joined_flights + now.hits + now.misses > before.joined_flights + before.hits + before.misses {
                            break;
                        }
                        if t.elapsed() > wait {
                            return Err(format!("lookup of key {k} in flight is not counted"));
                        }
                        std::thread::yield_now();
                    }
                    match erx.recv_timeout(Duration::from_millis(1)) {
                        Ok(Ev::Entered(_)) => return Err(format!("a second production of key {k} started while one is in flight")),
                        Ok(Ev::Done(_, r)) => return Err(format!("lookup of key {k} answered {r:?} before its production ended")),
                        Err(_) => {}
                    }
                    waiting.push((k, e.serial, s, false));
                }
            }
            Op::Finish(k, out) => {
                let Some(tx) = gates.remove(k) else { continue };
                let flight = m.entries[k].serial;
                tx.send(out.clone()).map_err(|_| format!("the production of key {k} was abandoned"))?;
                m.finish(*k, out);
                let mut left = waiting.iter().filter(|x| x.1 == flight).count();
                while left > 0 {
                    match erx.recv_timeout(wait) {
                        Ok(Ev::Done(s, r)) => {
                            let Some(p) = waiting.iter().position(|x| x.2 == s && x.1 == flight) else {
                                return Err(format!("a lookup of another key answered {r:?}"));
                            };
                            let x = waiting.swap_remove(p);
                            left -= 1;
                            match (out, r) {
                                (Out::Panic, Err(msg)) => {
                                    if x.3 && msg != "producer panics" {
                                        return Err(format!("the producer's panic became {msg:?}"));
                                    }
                                }
                                (_, Err(msg)) => return Err(format!("lookup of key {k} panicked: {msg}")),
                                (_, Ok(r)) => {
                                    judge(&r, *k, flight, out)?;
                                    if let Ok(v) = r {
                                        let first = values.entry(flight).or_insert_with(|| v.clone());
                                        if !Arc::ptr_eq(&v, first) {
                                            return Err(format!("waiters of key {k} got different objects"));
                                        }
                                    }
                                }
                            }
                        }
                        Ok(Ev::Entered(_)) => return Err(format!("a second production of key {k} started")),
                        Err(_) => return Err(format!("a waiter of key {k} was never woken")),
                    }
                }
            }
            Op::Drop(_) => continue,
        }
        m.compare(&cache.snapshot(), cache.len(), |k| Some(cache.contains_key(&k)), Some(cache.retained_weight())).map_err(|e| format!("after {op:?}: {e}"))?;
        if cache.is_empty() != m.entries.is_empty() {
            return Err("is_empty is wrong".into());
        }
    }
    Ok(())
}
/// joiners that retry the moment they are told of a failure
fn blocking_retry(rounds: usize) -> Result<(), String> {
    for _ in 0..rounds {
        let cache: B = Blocking::new(2, 10, |v: &Val| v.weight);
        let started = Arc::new(AtomicUsize::new(0));
        let joiners: Vec<_> = (0..3)
            .map(|_| {
                let (c, s) = (cache.clone(), started.clone());
                std::thread::spawn(move || {
                    let first = c.get_or_try_init(1, || {
                        let n = s.fetch_add(1, Ordering::SeqCst);
                        let t = Instant::now();
                        while c.snapshot().lookups < 3 && t.elapsed() < Duration::from_secs(5) {
                            std::thread::yield_now();
                        }
                        Err(format!("failure {n}"))
                    });
                    let Err(first) = first else { return Ok(()) };
                    let again = c.get_or_try_init(1, || Ok(Val { key: 1, serial: 9, weight: 1 }));
                    match again {
                        Ok(_) => Ok(()),
                        // joining a later production that fails as well is right; being told of the same failure again is not
                        Err(e) if e != first => Ok(()),
                        Err(e) => Err(format!("a lookup made after the failure was reported was answered with it: {e}")),
                    }
                })
            })
            .collect();
        for j in joiners {
            j.join().map_err(|_| "lookup panicked".to_string())??;
        }
    }
    Ok(())
}

fn main() {
    let mut run = Run::start();
    run.rule("Histories of overlapping lookups over six keys, productions ending in a value of any weight, an error or a panic, and abandoned waiters, on the plain, ephemeral, bounded and blocking caches; after every step results, retained keys, retained weight and every counter are compared with an independent account. Distinct: cache kind, limits and history. Non-trivial: some production ended.");
    let mut rng = run.rng.clone();
    for kind in 0..3 {
        for panics in 0..2 {
            run.case("a failed production is never served to a later lookup", &("served", kind, panics), true, || format!("cache {kind} panics {panics}"), || failure_not_served(kind, panics));
        }
        run.case("a panicking producer does not poison its key", &("closure", kind), true, || format!("cache {kind}"), || panicking_closure(kind));
    }
    let rounds = run.scale(60, 2000);
    run.case("a failed production is never served to a later lookup", &"retry", true, || "blocking cache, three threads".into(), || blocking_retry(rounds));
    for i in 0..run.scale(9000, 200_000) {
        if run.stop() {
            break;
        }
        let kind = i % 3;
        let n = if rng.chance(1, 4) { 100 } else { rng.range(1, 4) };
        // weights of every magnitude
        let unit = *rng.pick(&[1u64, 1, 1, 255, 1 << 16, 1 << 32, (1 << 40) + 1]);
        let w = unit * if rng.chance(1, 4) { 10_000 } else { rng.range(1, 60) as u64 };
        let len = rng.range(4, 60);
        let ops = plan(&mut rng, len, unit);
        run.case(
            "histories of an asynchronous single-flight cache",
            &(kind, n, w, format!("{ops:?}")),
            ops.iter().any(|o| matches!(o, Op::Finish(..))),
            || format!("cache {} max_entries {n} max_weight {w} history {ops:?}", ["plain", "ephemeral", "bounded"][kind]),
            || async_history(kind, n, w, &ops),
        );
    }
    for _ in 0..run.scale(1200, 30_000) {
        if run.stop() {
            break;
        }
        let n = if rng.chance(1, 4) { 100 } else { rng.range(1, 4) };
        // weights of every magnitude
        let unit = *rng.pick(&[1u64, 1, 1, 255, 1 << 16, 1 << 32, (1 << 40) + 1]);
        let w = unit * if rng.chance(1, 4) { 10_000 } else { rng.range(1, 60) as u64 };
        let len = rng.range(4, 50);
        let ops = plan(&mut rng, len, unit);
        run.case(
            "histories of the blocking single-flight cache",
            &(n, w, format!("{ops:?}")),
            ops.iter().any(|o| matches!(o, Op::Finish(..))),
            || format!("blocking cache max_entries {n} max_weight {w} history {ops:?}"),
            || blocking_history(n, w, &ops),
        );
    }
    run.finish()
}
