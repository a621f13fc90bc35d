//! C05 executable contract: the resource governor driven through every kind of
//! interleaving, compared after every step with an independent account.
use ruby_fast_lsp::indexing_resources::{IndexingResourceGovernor, IndexingResourcePolicy, IndexingResourcePriority as P, IndexingWorkSpec};
use std::path::PathBuf;
use tokio_util::sync::CancellationToken;
use vcommon::exec::{Gate, Task};
use vcommon::{catches, Rng, Run};

#[derive(Clone, Debug, PartialEq)]
enum St {
    New,
    Waiting,
    Running,
    Done,
}
struct Job {
    id: u64, // arrival
    root: Option<usize>,
    req: P,
    cpu: usize,
    mem: usize,
    io: usize,
    par: bool,
    st: St,
    cancelled: bool,
    token: Option<CancellationToken>,
    gate: Gate<u32>,
    task: Task<anyhow_result::R>,
}
mod anyhow_result {
    pub type R = Result<u32, String>;
}

fn root(i: usize) -> PathBuf {
    PathBuf::from(["/w/a", "/w/b", "/w/a/nested", "/w/\u{e9}"][i])
}

struct Model {
    lanes: usize,
    tasks: usize,
    mem: usize,
    io: usize,
    active: Option<usize>,
    nav: bool,
    burst: usize,
    completed: u64,
    cancelled_before: u64,
    cancelled_after: u64,
    arrivals: u64,
}

fn prio(j: &Job, m: &Model) -> P {
    if m.active.is_some() && j.root == m.active {
        P::ActiveDocument
    } else {
        j.req
    }
}
fn used(jobs: &[Job]) -> (usize, usize, usize, usize) {
    jobs.iter().filter(|j| j.st == St::Running).fold((0, 0, 0, 0), |a, j| (a.0 + 1, a.1 + j.cpu, a.2 + j.mem, a.3 + j.io))
}
fn fits(j: &Job, m: &Model, jobs: &[Job]) -> bool {
    let u = used(jobs);
    !(j.par && m.nav && j.root != m.active) && u.0 < m.tasks && u.1 + j.cpu <= m.lanes && u.2 + j.mem <= m.mem && u.3 + j.io <= m.io
}
/// the job whose turn it is
fn winner(m: &Model, jobs: &[Job]) -> Option<usize> {
    let w: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].st == St::Waiting && fits(&jobs[i], m, jobs)).collect();
    if m.burst >= 1 {
        if let Some(&i) = w.iter().filter(|&&i| prio(&jobs[i], m) == P::Background).min_by_key(|&&i| jobs[i].id) {
            return Some(i);
        }
    }
    w.into_iter().min_by_key(|&i| (prio(&jobs[i], m), jobs[i].id))
}

fn check(g: &IndexingResourceGovernor, m: &Model, jobs: &[Job]) -> Result<(), String> {
    let s = g.snapshot();
    let u = used(jobs);
    let waiting = jobs.iter().filter(|j| j.st == St::Waiting).count();
    let e = (s.active_tasks, s.active_cpu_lanes, s.active_transient_memory_bytes, s.active_io_slots, s.queued_tasks);
    if e != (u.0, u.1, u.2, u.3, waiting) {
        return Err(format!("reported in use (tasks, lanes, memory, io, queued) {e:?}, really {:?}", (u.0, u.1, u.2, u.3, waiting)));
    }
    if u.0 > m.tasks || u.1 > m.lanes || u.2 > m.mem || u.3 > m.io {
        return Err(format!("budget exceeded: {u:?}"));
    }
    if (s.completed_tasks, s.cancelled_before_start, s.cancelled_after_start, s.panicked_tasks) != (m.completed, m.cancelled_before, m.cancelled_after, 0) {
        return Err(format!("counters (completed, cancelled before, after) {:?} expected {:?}", (s.completed_tasks, s.cancelled_before_start, s.cancelled_after_start), (m.completed, m.cancelled_before, m.cancelled_after)));
    }
    if s.peak_active_cpu_lanes > m.lanes || s.peak_active_transient_memory_bytes > m.mem || s.peak_active_io_slots > m.io || s.peak_active_tasks > m.tasks {
        return Err("peak above the limit".into());
    }
    if s.active_project != m.active.map(root) || s.active_project_navigation_pending != m.nav {
        return Err(format!("active project {:?} pending {}", s.active_project, s.active_project_navigation_pending));
    }
    if !jobs.iter().any(|j| j.st == St::Waiting && j.task.woken()) {
        if let Some(w) = winner(m, jobs) {
            return Err(format!("job {} fits and is next, but nobody will ever look again: it is left asleep", jobs[w].id));
        }
    }
    Ok(())
}

fn poll_job(i: usize, m: &mut Model, jobs: &mut [Job]) -> Result<(), String> {
    let was = jobs[i].st.clone();
    if was == St::New {
        jobs[i].id = m.arrivals;
        m.arrivals += 1;
        jobs[i].st = St::Waiting;
    }
    let out = if jobs[i].st == St::Waiting {
        let expect_cancel = jobs[i].cancelled;
        let w = winner(m, jobs);
        let r = jobs[i].task.poll();
        if expect_cancel {
            match &r {
                Some(Err(_)) => {}
                _ => return Err(format!("cancelled waiting job {} was not refused ({r:?})", jobs[i].id)),
            }
            jobs[i].st = St::Done;
            m.cancelled_before += 1;
            if jobs[i].gate.entered() {
                return Err("cancelled work ran".into());
            }
            return Ok(());
        }
        let started = jobs[i].gate.entered();
        if started != (w == Some(i)) {
            return Err(format!("job {} started={started}, but the turn was {:?}", jobs[i].id, w.map(|k| jobs[k].id)));
        }
        if started {
            let bg = (0..jobs.len()).any(|k| k != i && jobs[k].st == St::Waiting && prio(&jobs[k], m) == P::Background && fits(&jobs[k], m, jobs));
            if prio(&jobs[i], m) == P::Background || !bg {
                m.burst = 0;
            } else {
                m.burst += 1;
            }
            jobs[i].st = St::Running;
        } else if r.is_some() {
            return Err(format!("job {} ended without running: {r:?}", jobs[i].id));
        }
        r
    } else {
        jobs[i].task.poll()
    };
    if let Some(r) = out {
        if jobs[i].st != St::Running {
            return Err("a job ended that never ran".into());
        }
        if r != Ok(jobs[i].id as u32) {
            return Err(format!("wrong result {r:?}"));
        }
        jobs[i].st = St::Done;
        m.completed += 1;
    }
    Ok(())
}

fn history(seed: u64, steps: usize, log: &mut Vec<String>) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let (lanes, tasks, mem, io) = (r.range(1, 4), r.range(1, 3), r.range(1, 8), r.range(1, 3));
    let g = IndexingResourceGovernor::new(IndexingResourcePolicy::with_limits(lanes, tasks, mem, io));
    let mut m = Model { lanes, tasks, mem, io, active: None, nav: false, burst: 0, completed: 0, cancelled_before: 0, cancelled_after: 0, arrivals: 0 };
    log.push(format!("limits lanes={lanes} tasks={tasks} mem={mem} io={io}"));
    let mut jobs: Vec<Job> = vec![];
    let mut reservations = vec![];
    let prios = [P::ActiveDocument, P::OpenDocument, P::Background];
    for _ in 0..steps {
        let woken: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].st != St::Done && jobs[i].st != St::New && jobs[i].task.woken()).collect();
        let op = r.below(20);
        match op {
            0..=4 => {
                let rt = if r.chance(1, 5) { None } else { Some(r.below(4)) };
                let req = *r.pick(&prios);
                let (cpu, me, i) = (r.range(1, lanes), r.range(1, mem), r.range(0, io));
                let par = rt.is_some() && r.chance(1, 3);
                let mut spec = IndexingWorkSpec::new(rt.map(root), req, cpu, me, i);
                if par {
                    spec = spec.as_project_parallel();
                }
                let token = if r.chance(1, 2) { Some(CancellationToken::new()) } else { None };
                let gate: Gate<u32> = Gate::new();
                let (g2, gate2, tok2) = (g.clone(), gate.clone(), token.clone());
                let task = Task::new(async move { g2.run_async_with_resources("job", spec, tok2, gate2).await.map_err(|e| e.to_string()) });
                jobs.push(Job { id: 0, root: rt, req, cpu, mem: me, io: i, par, st: St::New, cancelled: false, token, gate, task });
                let k = jobs.len() - 1;
                if r.chance(1, 8) {
                    jobs[k].cancelled = jobs[k].token.is_some();
                    if let Some(t) = &jobs[k].token {
                        t.cancel();
                    }
                }
                log.push(format!("submit #{} root={rt:?} {req:?} cpu={cpu} mem={me} io={i} parallel={par} token={} cancelled={}", m.arrivals, jobs[k].token.is_some(), jobs[k].cancelled));
                poll_job(k, &mut m, &mut jobs)?;
            }
            5..=12 if !woken.is_empty() => {
                let i = *r.pick(&woken);
                log.push(format!("poll #{}", jobs[i].id));
                poll_job(i, &mut m, &mut jobs)?;
            }
            13 | 14 => {
                // let one running job finish
                let run: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].st == St::Running).collect();
                if let Some(&i) = run.get(r.below(run.len().max(1))) {
                    log.push(format!("finish #{}", jobs[i].id));
                    jobs[i].gate.open(jobs[i].id as u32);
                    poll_job(i, &mut m, &mut jobs)?;
                }
            }
            15 => {
                // drop a future where it stands
                let live: Vec<usize> = (0..jobs.len()).filter(|&i| matches!(jobs[i].st, St::Running | St::Waiting)).collect();
                if let Some(&i) = live.get(r.below(live.len().max(1))) {
                    log.push(format!("drop #{} ({:?})", jobs[i].id, jobs[i].st));
                    if jobs[i].st == St::Running {
                        m.cancelled_after += 1;
                    }
                    jobs[i].task.abort();
                    jobs[i].st = St::Done;
                }
            }
            16 => {
                let live: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].st == St::Waiting && jobs[i].token.is_some()).collect();
                if let Some(&i) = live.get(r.below(live.len().max(1))) {
                    log.push(format!("cancel #{}", jobs[i].id));
                    jobs[i].cancelled = true;
                    jobs[i].token.as_ref().unwrap().cancel();
                    if !jobs[i].task.woken() {
                        return Err("a cancelled waiter is not woken".into());
                    }
                }
            }
            17 => {
                let (p, n) = (r.below(4), r.chance(1, 2));
                log.push(format!("prioritize {p} pending={n}"));
                g.prioritize_active_project_with_navigation_pending(&root(p), n);
                m.active = Some(p);
                m.nav = n;
            }
            18 => {
                let p = r.below(4);
                let n = r.chance(1, 2);
                log.push(format!("mark {p} pending={n}"));
                if n {
                    g.mark_project_navigation_pending_if_active(&root(p));
                } else {
                    g.mark_project_navigation_complete_if_active(&root(p));
                }
                if m.active == Some(p) {
                    m.nav = n;
                }
            }
            19 => {
                if r.chance(1, 2) || reservations.is_empty() {
                    let p = r.below(4);
                    log.push(format!("reserve {p}"));
                    reservations.push((p, g.project_navigation_reservation(root(p))));
                } else {
                    let k = r.below(reservations.len());
                    let (p, x) = reservations.swap_remove(k);
                    log.push(format!("drop reservation {p}"));
                    drop(x);
                    if m.active == Some(p) {
                        m.nav = false;
                    }
                }
            }
            _ => {}
        }
        check(&g, &m, &jobs)?;
        jobs.retain(|j| j.st != St::Done);
    }
    // everything ends: nothing stays reserved
    for _ in 0..10_000 {
        let woken: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].st != St::Done && jobs[i].task.woken()).collect();
        if let Some(&i) = woken.first() {
            poll_job(i, &mut m, &mut jobs)?;
        } else if let Some(i) = (0..jobs.len()).find(|&i| jobs[i].st == St::Running) {
            jobs[i].gate.open(jobs[i].id as u32);
            poll_job(i, &mut m, &mut jobs)?;
        } else if m.nav {
            g.mark_project_navigation_complete_if_active(&root(m.active.unwrap()));
            m.nav = false;
        } else {
            break;
        }
        check(&g, &m, &jobs)?;
    }
    if jobs.iter().any(|j| j.st != St::Done) {
        return Err("work is left waiting after everything else finished".into());
    }
    let s = g.snapshot();
    if (s.active_tasks, s.active_cpu_lanes, s.active_transient_memory_bytes, s.active_io_slots, s.queued_tasks) != (0, 0, 0, 0, 0) {
        return Err(format!("resources still in use after all work ended: {s:?}"));
    }
    Ok(())
}

fn main() {
    let mut run = Run::start();
    run.rule("a history counts as distinct by its step log, non-trivial if at least two jobs were submitted");
    let n = run.scale(6_000, 150_000);
    for k in 0..n {
        if run.stop() {
            break;
        }
        let seed = run.seed.wrapping_mul(1_000_003).wrapping_add(k as u64);
        let steps = 6 + (k % 8) * 12;
        let mut log = vec![];
        let res = catches(|| history(seed, steps, &mut log)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        let jobs = log.iter().filter(|l| l.starts_with("submit")).count();
        run.case("C05 governor account, limits, turn order and wake-ups", &log, jobs >= 2, || log.join("; "), || res);
    }
    // work that can never fit is refused at once
    for k in 0..run.scale(200, 2000) {
        let mut r = Rng::new(k as u64 ^ 0x55);
        let (lanes, mem, io) = (r.range(1, 4), r.range(1, 8), r.range(1, 3));
        let (mut c, mut me, mut i) = (r.range(1, lanes), r.range(1, mem), r.range(0, io));
        let over = r.below(4);
        match over {
            0 => c = lanes + 1,
            1 => me = if r.chance(1, 2) { usize::MAX } else { mem + 1 },
            2 => i = io + 1,
            _ => {}
        }
        run.case("C05 impossible work is refused at once", &(lanes, mem, io, c, me, i), true, || format!("limits {lanes},{mem},{io} request {c},{me},{i}"), || {
            let g = IndexingResourceGovernor::new(IndexingResourcePolicy::with_limits(lanes, 1, mem, io));
            let g2 = g.clone();
            let res = catches(move || {
                let mut t = Task::new(async move { g2.run_async_with_resources("x", IndexingWorkSpec::new(None, P::Background, c, me, i), None, async { 1 }).await.is_ok() });
                t.poll()
            });
            match (over < 3, res) {
                (true, Err(_)) => {}
                (true, Ok(Some(false))) => {}
                (false, Ok(Some(true))) => {}
                (o, x) => return Err(format!("impossible={o} outcome={x:?}")),
            }
            if g.snapshot().queued_tasks != 0 {
                return Err("left in the queue".into());
            }
            Ok(())
        });
    }
    // blocking workers: real threads, panicking tasks return what they took
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    for k in 0..run.scale(12, 100) {
        let seed = run.seed ^ (k as u64) << 8;
        run.case("C05 blocking and parallel work returns what it took", &seed, true, || format!("seed {seed}"), || {
            use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
            use std::sync::Arc;
            let mut r = Rng::new(seed);
            let (lanes, tasks, mem, io) = (r.range(1, 4), r.range(1, 3), r.range(2, 8), r.range(1, 3));
            let g = IndexingResourceGovernor::new(IndexingResourcePolicy::with_limits(lanes, tasks, mem, io));
            let live = Arc::new([AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)]);
            let bad = Arc::new(AtomicUsize::new(0));
            let mut want_panic = 0;
            let mut hs = vec![];
            for _ in 0..24 {
                let kind = r.below(4);
                let boom = r.chance(1, 6);
                want_panic += boom as u64;
                let cpu = match kind {
                    1 => lanes,
                    2 => r.range(1, g.policy().cooperative_parallel_cpu_lanes()),
                    3 if lanes > 1 => r.range(1, lanes - 1),
                    _ => r.range(1, lanes),
                };
                let kind = if kind == 3 && lanes == 1 { 0 } else { kind };
                let (me, i) = (r.range(1, mem), r.range(0, io));
                let spec = IndexingWorkSpec::new(Some(root(r.below(4))), *r.pick(&[P::ActiveDocument, P::OpenDocument, P::Background]), cpu, me, i);
                let (g, live, bad) = (g.clone(), live.clone(), bad.clone());
                hs.push(rt.spawn(async move {
                    let body = move || {
                        let a = [live[0].fetch_add(1, SeqCst) + 1, live[1].fetch_add(cpu, SeqCst) + cpu, live[2].fetch_add(me, SeqCst) + me, live[3].fetch_add(i, SeqCst) + i];
                        if a[0] > tasks || a[1] > lanes || a[2] > mem || a[3] > io {
                            bad.fetch_add(1, SeqCst);
                        }
                        std::thread::yield_now();
                        live[0].fetch_sub(1, SeqCst);
                        live[1].fetch_sub(cpu, SeqCst);
                        live[2].fetch_sub(me, SeqCst);
                        live[3].fetch_sub(i, SeqCst);
                        if boom {
                            panic!("planned");
                        }
                        7u32
                    };
                    let r = match kind {
                        0 => g.run_with_resources("j", spec, None, body).await,
                        1 => g.run_parallel_with_resources("j", spec, None, body).await,
                        2 => g.run_cooperative_parallel_with_resources("j", spec, None, body).await,
                        _ => g.run_partitioned_parallel_with_resources("j", spec, None, body).await,
                    };
                    match (boom, r) {
                        (true, Err(_)) => true,
                        (false, Ok(7)) => true,
                        _ => false,
                    }
                }));
            }
            let ok = rt.block_on(async {
                let mut ok = true;
                for h in hs {
                    match tokio::time::timeout(std::time::Duration::from_secs(60), h).await {
                        Ok(Ok(x)) => ok &= x,
                        _ => return None,
                    }
                }
                Some(ok)
            });
            match ok {
                None => return Err("work did not finish within 60 s".into()),
                Some(false) => return Err("wrong outcome of a job".into()),
                _ => {}
            }
            if bad.load(SeqCst) > 0 {
                return Err("work ran beyond the limits".into());
            }
            let s = g.snapshot();
            if (s.active_tasks, s.active_cpu_lanes, s.active_transient_memory_bytes, s.active_io_slots, s.queued_tasks) != (0, 0, 0, 0, 0) {
                return Err(format!("still in use: {s:?}"));
            }
            if (s.completed_tasks, s.panicked_tasks) != (24 - want_panic, want_panic) {
                return Err(format!("counters {s:?}, planned panics {want_panic}"));
            }
            Ok(())
        });
    }
    run.finish()
}
