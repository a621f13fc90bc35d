//! C04 on the compiled code: the same contract as contracts/C04.vrs, run on call
//! histories (every history up to a small length over an abstract alphabet, then
//! seeded long ones).
use ruby_fast_lsp::indexing_status::{IndexingPhase as P, IndexingRun, ProjectIndexingSnapshot, ProjectIndexingStatus};
use std::path::PathBuf;
use vcommon::{catches, Run};

const PHASES: [P; 14] = [
    P::Discovered, P::Queued, P::ResolvingRuntime, P::DiscoveringInputs, P::IndexingCore, P::IndexingProject,
    P::ProjectNavigationReady, P::IndexingDependencies, P::ResolvingSemantics, P::DependencyNavigationReady,
    P::PublishingDiagnostics, P::Ready, P::Failed, P::Cancelled,
];
fn rk(p: P) -> u8 {
    let i = PHASES.iter().position(|x| *x == p).unwrap() as u8;
    i.min(12)
}
fn terminal(p: P) -> bool {
    matches!(p, P::Ready | P::Failed | P::Cancelled)
}

#[derive(Debug, Clone, Hash)]
enum Op {
    Begin,
    BeginGeneration,
    /// generation is relative: 0 current, 1 previous, 2 next
    Transition(u8, u8, Option<u64>, Option<u64>),
    Fail(u8, String),
    Cancel(u8),
    CancelCurrent,
}

/// The abstract state of the contract.
#[derive(Clone, Debug, PartialEq)]
struct M {
    generation: u64,
    sequence: u64,
    phase: P,
    completed: Option<u64>,
    total: Option<u64>,
    failure: Option<String>,
    pnr: bool,
    dnr: bool,
}

fn shows(m: &M, s: &ProjectIndexingSnapshot) -> Result<(), String> {
    let got = M {
        generation: s.generation,
        sequence: s.sequence,
        phase: s.phase,
        completed: s.completed,
        total: s.total,
        failure: s.failure.clone(),
        pnr: s.project_navigation_ready_ms.is_some(),
        dnr: s.dependency_navigation_ready_ms.is_some(),
    };
    if &got != m {
        return Err(format!("snapshot {got:?}, contract says {m:?}"));
    }
    if s.root != PathBuf::from("/w/p") {
        return Err("root changed".into());
    }
    Ok(())
}

fn run_history(ops: &[Op]) -> Result<(), String> {
    let st = ProjectIndexingStatus::new(PathBuf::from("/w/p"));
    let mut m = M { generation: 0, sequence: 0, phase: P::Discovered, completed: None, total: None, failure: None, pnr: false, dnr: false };
    let mut runs: Vec<(IndexingRun, bool)> = vec![]; // (run, expected cancelled)
    let mut current: Option<usize> = None; // index in runs of the current generation, when known
    let mut final_elapsed: Option<u64> = None;
    let mut times: (Option<u64>, Option<u64>) = (None, None);
    for (k, op) in ops.iter().enumerate() {
        let at = |e: String| format!("step {k} {op:?}: {e}");
        let gen_of = |r: u8, m: &M| match r {
            0 => m.generation,
            1 => m.generation.wrapping_sub(1),
            _ => m.generation + 1,
        };
        let mut accepted = false;
        match op {
            Op::Begin | Op::BeginGeneration => {
                if let Some(c) = current {
                    runs[c].1 = true;
                }
                m = M { generation: m.generation + 1, sequence: m.sequence + 1, phase: P::Queued, completed: None, total: None, failure: None, pnr: false, dnr: false };
                final_elapsed = None;
                times = (None, None);
                if let Op::Begin = op {
                    let r = st.begin_run();
                    if r.generation() != m.generation {
                        return Err(at(format!("run has generation {}", r.generation())));
                    }
                    runs.push((r, false));
                    current = Some(runs.len() - 1);
                } else {
                    let s = st.begin_generation();
                    shows(&m, &s).map_err(at)?;
                    current = None;
                }
            }
            Op::Transition(g, p, c, t) => {
                let p = PHASES[*p as usize];
                let gen = gen_of(*g, &m);
                let bad_args = c.is_some() != t.is_some()
                    || matches!((c, t), (Some(c), Some(t)) if c > t)
                    || matches!(p, P::Discovered | P::Queued);
                let ok = gen == m.generation && !terminal(m.phase);
                let bad_order = ok
                    && (rk(p) < rk(m.phase)
                        || (p == m.phase && matches!((m.completed, c), (Some(a), Some(b)) if *b < a))
                        || (p == m.phase && matches!((m.total, t), (Some(a), Some(b)) if *b != a)));
                let r = catches(|| st.transition(gen, p, *c, *t));
                if bad_args || bad_order {
                    // a contract breach by the caller must not be accepted
                    match r {
                        Err(_) | Ok(None) => {}
                        Ok(Some(s)) => return Err(at(format!("moved backwards or inconsistent progress was accepted: {s:?}"))),
                    }
                } else {
                    let r = r.map_err(|e| at(format!("legal update panicked: {e}")))?;
                    if r.is_some() != ok {
                        return Err(at(format!("accepted={} but expected {ok}", r.is_some())));
                    }
                    if let Some(s) = r {
                        m.sequence += 1;
                        m.phase = p;
                        m.completed = *c;
                        m.total = *t;
                        m.failure = None;
                        m.pnr |= p == P::ProjectNavigationReady;
                        m.dnr |= p == P::DependencyNavigationReady;
                        shows(&m, &s).map_err(at)?;
                        if p == P::Ready {
                            final_elapsed = Some(s.elapsed_ms);
                        }
                        if p == P::ProjectNavigationReady {
                            times.0 = s.project_navigation_ready_ms;
                        }
                        if p == P::DependencyNavigationReady {
                            times.1 = s.dependency_navigation_ready_ms;
                        }
                        accepted = true;
                    }
                }
            }
            Op::Fail(g, why) => {
                let gen = gen_of(*g, &m);
                let ok = gen == m.generation && !terminal(m.phase);
                let r = catches(|| st.fail(gen, why.clone()));
                if why.trim().is_empty() {
                    if let Ok(Some(s)) = r {
                        return Err(at(format!("failure without a reason accepted: {s:?}")));
                    }
                } else {
                    let r = r.map_err(|e| at(format!("panicked: {e}")))?;
                    if r.is_some() != ok {
                        return Err(at(format!("accepted={} but expected {ok}", r.is_some())));
                    }
                    if let Some(s) = r {
                        m.sequence += 1;
                        m.phase = P::Failed;
                        m.completed = None;
                        m.total = None;
                        m.failure = Some(why.clone());
                        shows(&m, &s).map_err(at)?;
                        final_elapsed = Some(s.elapsed_ms);
                        accepted = true;
                    }
                }
            }
            Op::Cancel(_) | Op::CancelCurrent => {
                let gen = match op {
                    Op::Cancel(g) => gen_of(*g, &m),
                    _ => m.generation,
                };
                let ok = gen == m.generation && !terminal(m.phase);
                let r = match op {
                    Op::CancelCurrent => st.cancel_current(),
                    _ => st.cancel(gen),
                };
                if r.is_some() != ok {
                    return Err(at(format!("accepted={} but expected {ok}", r.is_some())));
                }
                if let Some(s) = r {
                    m.sequence += 1;
                    m.phase = P::Cancelled;
                    m.completed = None;
                    m.total = None;
                    m.failure = None;
                    if let Some(c) = current {
                        runs[c].1 = true;
                    }
                    shows(&m, &s).map_err(at)?;
                    final_elapsed = Some(s.elapsed_ms);
                    accepted = true;
                }
            }
        }
        let _ = accepted;
        let s = st.snapshot();
        shows(&m, &s).map_err(at)?;
        if let Some(f) = final_elapsed {
            if s.elapsed_ms != f {
                return Err(at(format!("elapsed time of a finished run moved from {f} to {}", s.elapsed_ms)));
            }
        }
        if (times.0.is_some() && times.0 != s.project_navigation_ready_ms) || (times.1.is_some() && times.1 != s.dependency_navigation_ready_ms) {
            return Err(at("a readiness time changed after it was announced".into()));
        }
        if s.is_ready() != (m.phase == P::Ready) {
            return Err(at("is_ready disagrees with the phase".into()));
        }
        for (r, c) in &runs {
            if r.is_cancelled() != *c || r.cancellation().is_cancelled() != *c {
                return Err(at(format!("run {} cancelled={} expected {c}", r.generation(), r.is_cancelled())));
            }
            let cur = r.generation() == m.generation && !terminal(m.phase) && !*c;
            if st.is_current_run(r) != cur {
                return Err(at(format!("run {} is_current={} expected {cur}", r.generation(), !cur)));
            }
        }
    }
    Ok(())
}

fn main() {
    let mut run = Run::start();
    run.rule("Histories of begin/transition/fail/cancel with current, older and newer generations; every history up to length 4 over a 12-letter alphabet, then seeded histories of length up to 40; non-trivial: at least one accepted update after a begin.");
    let o = "history refines the status contract (begin_run, transition, fail, cancel, cancel_current, is_current_run, snapshot)";
    // phase queries
    for (i, p) in PHASES.iter().enumerate() {
        let p = *p;
        run.case("phase queries", &i, true, || format!("{p:?}"), || {
            if p.project_navigation_pending() != (i < 6) || p.dependency_navigation_pending() != (i < 9) {
                return Err("navigation-pending predicate wrong".into());
            }
            Ok(())
        });
    }
    let alpha: Vec<Op> = vec![
        Op::Begin,
        Op::Transition(0, 5, None, None),
        Op::Transition(0, 5, Some(1), Some(2)),
        Op::Transition(0, 5, Some(2), Some(2)),
        Op::Transition(1, 6, None, None),
        Op::Transition(0, 6, None, None),
        Op::Transition(0, 9, None, None),
        Op::Transition(0, 11, None, None),
        Op::Fail(0, "boom".into()),
        Op::Fail(1, "late".into()),
        Op::Cancel(0),
        Op::Cancel(1),
    ];
    let n = alpha.len();
    let depth = run.scale(4, 5);
    let mut total = 1usize;
    for d in 1..=depth {
        total *= n;
        for code in 0..total {
            let mut c = code;
            let mut h = vec![];
            for _ in 0..d {
                h.push(alpha[c % n].clone());
                c /= n;
            }
            let nt = matches!(h[0], Op::Begin) && d > 1;
            let hh = h.clone();
            run.case(o, &h, nt, || format!("{hh:?}"), || run_history(&h));
            if run.stop() {
                run.finish();
            }
        }
    }
    for _ in 0..run.scale(20_000, 400_000) {
        let len = run.rng.range(1, 40);
        let mut h = vec![];
        let mut bias = 2usize;
        for _ in 0..len {
            let r = run.rng.below(100);
            let g = *run.rng.pick(&[0u8, 0, 0, 0, 0, 0, 1, 2]);
            h.push(if r < 12 {
                bias = 2;
                if run.rng.chance(1, 5) { Op::BeginGeneration } else { Op::Begin }
            } else if r < 85 {
                let p = if run.rng.chance(1, 8) { run.rng.below(12) } else { (bias + *run.rng.pick(&[0usize, 0, 0, 1, 1, 2])).min(11) };
                if p < 11 { bias = p }
                let (c, t) = match run.rng.below(6) {
                    0 | 1 => (None, None),
                    2 => (Some(run.rng.below(6) as u64), None),
                    3 => (Some(run.rng.below(12) as u64), Some(9)),
                    _ => (Some(run.rng.below(6) as u64), Some(*run.rng.pick(&[5u64, 5, 9, u64::MAX]))),
                };
                Op::Transition(g, p as u8, c, t)
            } else if r < 90 {
                Op::Fail(g, run.rng.pick(&["x", "boom\n", " ", ""]).to_string())
            } else if r < 95 {
                Op::Cancel(g)
            } else {
                Op::CancelCurrent
            });
        }
        let hh = h.clone();
        run.case(o, &h, true, || format!("{hh:?}"), || run_history(&h));
        if run.stop() {
            break;
        }
    }
    run.finish()
}
