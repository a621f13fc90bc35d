//! C06 executable contract: the indexing scheduler driven through random
//! interleavings, compared after every step with an independent account.
use ruby_fast_lsp::indexing_scheduler::{IndexingAdmission, IndexingPermit, IndexingPriority as P, IndexingScheduler};
use std::path::PathBuf;
use tokio_util::sync::CancellationToken;
use vcommon::exec::Task;
use vcommon::{catches, Rng, Run};

struct Job {
    id: u64,
    root: usize,
    req: P,
    cancelled: bool,
    token: CancellationToken,
    idle: Option<IndexingAdmission>, // registered, nobody waits yet
    task: Option<Task<Option<IndexingPermit>>>,
    permit: Option<IndexingPermit>,
}
fn root(i: usize) -> PathBuf {
    PathBuf::from(["/w/a", "/w/b", "/w/a/nested", "/w/\u{e9}", "/w/z"][i])
}
struct Model {
    limit: usize,
    active: Option<usize>,
    burst: usize,
    arrivals: u64,
}
fn queued(j: &Job) -> bool {
    j.idle.is_some() || j.task.is_some()
}
fn prio(j: &Job, m: &Model) -> P {
    if m.active == Some(j.root) {
        P::ActiveDocument
    } else {
        j.req
    }
}
fn free(j: &Job, jobs: &[Job]) -> bool {
    !jobs.iter().any(|k| k.permit.is_some() && k.root == j.root)
}
fn winner(m: &Model, jobs: &[Job]) -> Option<usize> {
    if jobs.iter().filter(|j| j.permit.is_some()).count() >= m.limit {
        return None;
    }
    let w: Vec<usize> = (0..jobs.len()).filter(|&i| queued(&jobs[i]) && free(&jobs[i], jobs)).collect();
    if m.burst >= 1 {
        if let Some(&i) = w.iter().filter(|&&i| prio(&jobs[i], m) == P::Background).min_by_key(|&&i| jobs[i].id) {
            return Some(i);
        }
    }
    w.into_iter().min_by_key(|&i| (prio(&jobs[i], m), jobs[i].id))
}
fn check(s: &IndexingScheduler, m: &Model, jobs: &[Job]) -> Result<(), String> {
    let sn = s.snapshot();
    let running = jobs.iter().filter(|j| j.permit.is_some()).count();
    let q = jobs.iter().filter(|j| queued(j)).count();
    if (sn.active, sn.queued, sn.concurrency_limit) != (running, q, m.limit) {
        return Err(format!("reported (active, queued, limit) {:?}, really {:?}", (sn.active, sn.queued, sn.concurrency_limit), (running, q, m.limit)));
    }
    if running > m.limit {
        return Err("more jobs run than the limit".into());
    }
    for r in 0..5 {
        if jobs.iter().filter(|j| j.permit.is_some() && j.root == r).count() > 1 {
            return Err(format!("two jobs of project {r} run at once"));
        }
    }
    if sn.active_project != m.active.map(root) {
        return Err("wrong active project".into());
    }
    // a waiter whose turn it is must be awake
    if let Some(w) = winner(m, jobs) {
        if let Some(t) = &jobs[w].task {
            if !t.woken() {
                return Err(format!("it is job {}'s turn, but it is left asleep", jobs[w].id));
            }
        }
    }
    Ok(())
}
fn poll(i: usize, m: &mut Model, jobs: &mut [Job]) -> Result<(), String> {
    let w = winner(m, jobs);
    let bg = (0..jobs.len()).any(|k| queued(&jobs[k]) && free(&jobs[k], jobs) && prio(&jobs[k], m) == P::Background);
    let p = prio(&jobs[i], m);
    let r = jobs[i].task.as_mut().unwrap().poll();
    match r {
        None => {
            if jobs[i].cancelled {
                return Err(format!("cancelled job {} keeps waiting", jobs[i].id));
            }
            if w == Some(i) {
                return Err(format!("job {} did not start in its turn", jobs[i].id));
            }
        }
        Some(None) => {
            jobs[i].task = None;
            if !jobs[i].cancelled {
                return Err(format!("job {} was refused without being cancelled", jobs[i].id));
            }
        }
        Some(Some(permit)) => {
            jobs[i].task = None;
            jobs[i].permit = Some(permit);
            if jobs[i].cancelled {
                return Err(format!("cancelled job {} runs", jobs[i].id));
            }
            if w != Some(i) {
                return Err(format!("job {} started although it was the turn of {:?}", jobs[i].id, w.map(|k| jobs[k].id)));
            }
            if p == P::Background || !bg {
                m.burst = 0;
            } else {
                m.burst += 1;
            }
        }
    }
    Ok(())
}
fn history(seed: u64, steps: usize, log: &mut Vec<String>) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let limit = r.range(1, 3);
    let s = IndexingScheduler::new(limit);
    let mut m = Model { limit, active: None, burst: 0, arrivals: 0 };
    log.push(format!("limit={limit}"));
    let mut jobs: Vec<Job> = vec![];
    let prios = [P::ActiveDocument, P::OpenDocument, P::Background];
    for _ in 0..steps {
        let woken: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].task.as_ref().map(|t| t.woken()).unwrap_or(false)).collect();
        match r.below(20) {
            0..=4 => {
                let (rt, req) = (r.below(5), *r.pick(&prios));
                let token = CancellationToken::new();
                let cancelled = r.chance(1, 10);
                if cancelled {
                    token.cancel();
                }
                log.push(format!("register #{} root={rt} {req:?} cancelled={cancelled}", m.arrivals));
                let a = s.register_cancellable(root(rt), req, token.clone());
                jobs.push(Job { id: m.arrivals, root: rt, req, cancelled, token, idle: Some(a), task: None, permit: None });
                m.arrivals += 1;
                if r.chance(2, 3) {
                    let k = jobs.len() - 1;
                    let a = jobs[k].idle.take().unwrap();
                    jobs[k].task = Some(Task::new(a.wait()));
                    log.push("wait+poll".into());
                    poll(k, &mut m, &mut jobs)?;
                }
            }
            5 | 6 => {
                let idle: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].idle.is_some()).collect();
                if let Some(&i) = idle.get(r.below(idle.len().max(1))) {
                    log.push(format!("wait #{}", jobs[i].id));
                    let a = jobs[i].idle.take().unwrap();
                    jobs[i].task = Some(Task::new(a.wait()));
                }
            }
            7..=12 if !woken.is_empty() => {
                let i = *r.pick(&woken);
                log.push(format!("poll #{}", jobs[i].id));
                poll(i, &mut m, &mut jobs)?;
            }
            13..=15 => {
                let run: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].permit.is_some()).collect();
                if let Some(&i) = run.get(r.below(run.len().max(1))) {
                    log.push(format!("finish #{}", jobs[i].id));
                    jobs[i].permit = None;
                }
            }
            16 => {
                let live: Vec<usize> = (0..jobs.len()).filter(|&i| queued(&jobs[i])).collect();
                if let Some(&i) = live.get(r.below(live.len().max(1))) {
                    log.push(format!("drop waiter #{}", jobs[i].id));
                    jobs[i].idle = None;
                    jobs[i].task = None;
                }
            }
            17 => {
                let live: Vec<usize> = (0..jobs.len()).filter(|&i| queued(&jobs[i])).collect();
                if let Some(&i) = live.get(r.below(live.len().max(1))) {
                    log.push(format!("cancel #{}", jobs[i].id));
                    jobs[i].cancelled = true;
                    jobs[i].token.cancel();
                    if let Some(t) = &jobs[i].task {
                        if !t.woken() {
                            return Err("a cancelled waiter is not woken".into());
                        }
                    }
                }
            }
            18 | 19 => {
                let p = r.below(5);
                log.push(format!("prioritize {p}"));
                s.prioritize_active_project(&root(p));
                m.active = Some(p);
            }
            _ => {}
        }
        check(&s, &m, &jobs)?;
        jobs.retain(|j| queued(j) || j.permit.is_some());
    }
    for _ in 0..10_000 {
        if let Some(i) = (0..jobs.len()).find(|&i| jobs[i].idle.is_some()) {
            let a = jobs[i].idle.take().unwrap();
            jobs[i].task = Some(Task::new(a.wait()));
        }
        if let Some(i) = (0..jobs.len()).find(|&i| jobs[i].task.as_ref().map(|t| t.woken()).unwrap_or(false)) {
            poll(i, &mut m, &mut jobs)?;
        } else if let Some(i) = (0..jobs.len()).find(|&i| jobs[i].permit.is_some()) {
            jobs[i].permit = None;
        } else {
            break;
        }
        check(&s, &m, &jobs)?;
    }
    if jobs.iter().any(queued) {
        return Err("jobs are left waiting after all others finished".into());
    }
    let sn = s.snapshot();
    if (sn.active, sn.queued) != (0, 0) {
        return Err(format!("not empty at the end: {sn:?}"));
    }
    Ok(())
}
fn main() {
    let mut run = Run::start();
    run.rule("a history counts as distinct by its step log, non-trivial if at least two jobs were registered");
    for k in 0..run.scale(15_000, 400_000) {
        if run.stop() {
            break;
        }
        let seed = run.seed.wrapping_mul(1_000_003).wrapping_add(k as u64);
        let steps = 6 + (k % 8) * 12;
        let mut log = vec![];
        let res = catches(|| history(seed, steps, &mut log)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        let jobs = log.iter().filter(|l| l.starts_with("register")).count();
        run.case("C06 limits, turn order, fairness, cancellation and wake-ups of the scheduler", &log, jobs >= 2, || log.join("; "), || res);
    }
    // real threads: at most `limit` jobs and one per project at any moment
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    for k in 0..run.scale(30, 300) {
        let seed = run.seed ^ ((k as u64) << 9);
        run.case("C06 limits under real threads", &seed, true, || format!("seed {seed}"), || {
            use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
            use std::sync::Arc;
            let mut r = Rng::new(seed);
            let limit = r.range(1, 3);
            let s = IndexingScheduler::new(limit);
            let live: Arc<Vec<AtomicUsize>> = Arc::new((0..6).map(|_| AtomicUsize::new(0)).collect());
            let bad = Arc::new(AtomicUsize::new(0));
            let mut hs = vec![];
            for _ in 0..40 {
                let (p, q, cancel) = (r.below(5), *r.pick(&[P::ActiveDocument, P::OpenDocument, P::Background]), r.chance(1, 6));
                let (s, live, bad) = (s.clone(), live.clone(), bad.clone());
                hs.push(rt.spawn(async move {
                    let tok = CancellationToken::new();
                    let a = s.register_cancellable(root(p), q, tok.clone());
                    if cancel {
                        tok.cancel();
                    }
                    if p == 2 {
                        s.prioritize_active_project(&root(p));
                    }
                    let Some(permit) = a.wait().await else { return cancel };
                    if live[5].fetch_add(1, SeqCst) + 1 > limit || live[p].fetch_add(1, SeqCst) + 1 > 1 {
                        bad.fetch_add(1, SeqCst);
                    }
                    tokio::task::yield_now().await;
                    live[p].fetch_sub(1, SeqCst);
                    live[5].fetch_sub(1, SeqCst);
                    drop(permit);
                    !cancel
                }));
            }
            let ok = rt.block_on(async {
                let mut ok = true;
                for h in hs {
                    match tokio::time::timeout(std::time::Duration::from_secs(60), h).await {
                        Ok(Ok(x)) => ok &= x,
                        _ => return None,
                    }
                }
                Some(ok)
            });
            match ok {
                None => return Err("a job never got its turn".into()),
                Some(false) => return Err("cancelled job ran or other job was refused".into()),
                _ => {}
            }
            if bad.load(SeqCst) != 0 {
                return Err("limit or one-per-project broken".into());
            }
            let sn = s.snapshot();
            if (sn.active, sn.queued) != (0, 0) {
                return Err(format!("{sn:?}"));
            }
            Ok(())
        });
    }
    run.finish()
}
