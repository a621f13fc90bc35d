// C04: indexing status only moves forward and ignores stale runs.
use vstd::prelude::*;
verus! {

//@enum src/indexing_status.rs :: IndexingPhase ; derive Clone, Copy, PartialEq, Eq, Structural

// ---- stand-ins for dependency types (contracts assumed, see evidence) ----
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
impl PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { _p: u8 }
impl Instant {
    #[verifier::external_body]
    fn now() -> Instant { unimplemented!() }
}
/// A cancellation token is identified by a ghost id; the set of cancelled ids is ghost state.
#[verifier::external_body]
pub struct CancellationToken { _p: u8 }
impl CancellationToken {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    fn clone(&self) -> (r: CancellationToken) ensures r.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
fn vp_token_new(Ghost(c): Ghost<Set<int>>) -> (r: CancellationToken) ensures !c.contains(r.id()) { unimplemented!() }
#[verifier::external_body]
fn vp_token_is_cancelled(t: &CancellationToken, Ghost(c): Ghost<Set<int>>) -> (r: bool) ensures r == c.contains(t.id()) { unimplemented!() }
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
#[verifier::external_body]
fn vp_blank(s: &String) -> (r: bool) ensures r == blank(s@) { s.trim().is_empty() }
uninterp spec fn blank(s: Seq<char>) -> bool;
#[verifier::external_body]
fn vp_clone_failure(s: &Option<String>) -> (r: Option<String>)
    ensures r.is_some() == s.is_some(), s.is_some() ==> r->0@ == s->0@ { s.clone() }
#[verifier::external_body]
fn elapsed_ms(state: &ProjectIndexingState) -> u64 { unimplemented!() }

//@struct src/indexing_status.rs :: ProjectIndexingSnapshot
//@struct src/indexing_status.rs :: IndexingRun
//@struct src/indexing_status.rs :: ProjectIndexingState
//@struct src/indexing_status.rs :: ProjectIndexingStatus ; subst state: Mutex<$t> ==> state: $t, pub cancelled: Ghost<Set<int>>

// ---- specification ----
spec fn rk(p: IndexingPhase) -> int {
    match p {
        IndexingPhase::Discovered => 0, IndexingPhase::Queued => 1, IndexingPhase::ResolvingRuntime => 2,
        IndexingPhase::DiscoveringInputs => 3, IndexingPhase::IndexingCore => 4, IndexingPhase::IndexingProject => 5,
        IndexingPhase::ProjectNavigationReady => 6, IndexingPhase::IndexingDependencies => 7,
        IndexingPhase::ResolvingSemantics => 8, IndexingPhase::DependencyNavigationReady => 9,
        IndexingPhase::PublishingDiagnostics => 10, IndexingPhase::Ready => 11,
        IndexingPhase::Failed => 12, IndexingPhase::Cancelled => 12,
    }
}
spec fn terminal(p: IndexingPhase) -> bool { p == IndexingPhase::Ready || p == IndexingPhase::Failed || p == IndexingPhase::Cancelled }

impl ProjectIndexingStatus {
    /// Representation invariant: holds after `new` and is kept by every operation.
    spec fn inv(&self) -> bool {
        let s = self.state;
        &&& s.completed.is_some() == s.total.is_some()
        &&& (s.completed.is_some() ==> s.completed->0 <= s.total->0)
        &&& (s.failure.is_some() ==> s.phase == IndexingPhase::Failed)
        &&& s.generation <= s.sequence
        &&& (s.phase == IndexingPhase::Discovered ==> s.generation == 0)
        &&& (s.generation > 0 ==> rk(s.phase) >= 1)
        &&& (s.started_at.is_some() <==> s.generation > 0)
        &&& (s.project_navigation_ready_ms.is_some() ==> rk(s.phase) >= 6)
        &&& (s.dependency_navigation_ready_ms.is_some() ==> rk(s.phase) >= 9)
        &&& (s.phase == IndexingPhase::ProjectNavigationReady ==> s.project_navigation_ready_ms.is_some())
        &&& (s.phase == IndexingPhase::DependencyNavigationReady ==> s.dependency_navigation_ready_ms.is_some())
    }
    spec fn same(&self, o: &ProjectIndexingStatus) -> bool { *self == *o }
    /// What a reader is told.
    spec fn shows(&self, r: ProjectIndexingSnapshot) -> bool {
        let s = self.state;
        &&& r.root == self.root && r.generation == s.generation && r.sequence == s.sequence && r.phase == s.phase
        &&& r.completed == s.completed && r.total == s.total
        &&& r.project_navigation_ready_ms == s.project_navigation_ready_ms
        &&& r.dependency_navigation_ready_ms == s.dependency_navigation_ready_ms
        &&& r.failure.is_some() == s.failure.is_some() && (s.failure.is_some() ==> r.failure->0@ == s.failure->0@)
        &&& (s.completed_elapsed_ms.is_some() ==> r.elapsed_ms == s.completed_elapsed_ms->0)
    }
    spec fn accepts(&self, g: u64) -> bool { g == self.state.generation && !terminal(self.state.phase) }
}

impl IndexingPhase {
//@fn src/indexing_status.rs :: IndexingPhase::rank
//@ ret r
//@ spec
    ensures r as int == rk(self)
//@end
//@fn src/indexing_status.rs :: IndexingPhase::is_terminal
//@ ret r
//@ spec
    ensures r == terminal(self)
//@end
//@fn src/indexing_status.rs :: IndexingPhase::project_navigation_pending
//@ ret r
//@ spec
    ensures r == (rk(self) < 6)
//@end
//@fn src/indexing_status.rs :: IndexingPhase::dependency_navigation_pending
//@ ret r
//@ spec
    ensures r == (rk(self) < 9)
//@end
}

//@rules lock
//@ let mut state = self.state.lock(); ==>
//@ let state = self.state.lock(); ==>
//@ state.cancellation.cancel(); ==> vp_text!("proof { self.cancelled@ = self.cancelled@.insert(self.state.cancellation.id()); }");
//@ self.state.lock() ==> self.state
//@ &mut state ==> &mut self.state
//@ &state ==> &self.state
//@ state.$f:i ==> self.state.$f
//@ CancellationToken::new() ==> vp_token_new(vp_text!("Ghost(self.cancelled@)"))
//@ $x:e.checked_add($n).expect("") ==> (match $x.checked_add($n) { Some(v) => v, None => vp_abort() })
//@ assert!($c) ==> if !($c) { vp_abort() }
//@ failure.trim().is_empty() ==> vp_blank(&failure)
//@end

impl ProjectIndexingStatus {
//@fn src/indexing_status.rs :: ProjectIndexingStatus::new
//@ ret r
//@ rewrite? Mutex::new($b) ==> $b, cancelled: Ghost(Set::empty())
//@ rewrite? CancellationToken::new() ==> vp_token_new(Ghost(Set::empty()))
//@ spec
    ensures r.inv(), r.state.generation == 0, r.state.sequence == 0, r.state.phase == IndexingPhase::Discovered,
        r.root == root, !r.cancelled@.contains(r.state.cancellation.id())
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::begin_run
//@ sig fn begin_run(&mut self) -> (r: IndexingRun)
//@ use lock
//@ spec
    requires old(self).inv()
    ensures final(self).inv(),
        final(self).state.generation == old(self).state.generation + 1,
        final(self).state.sequence == old(self).state.sequence + 1,
        final(self).state.phase == IndexingPhase::Queued,
        final(self).state.completed.is_none(), final(self).state.failure.is_none(),
        final(self).state.project_navigation_ready_ms.is_none(), final(self).state.dependency_navigation_ready_ms.is_none(),
        final(self).state.completed_elapsed_ms.is_none(),
        final(self).root == old(self).root,
        r.generation == final(self).state.generation,
        // the previous run is cancelled, the new one is not
        final(self).cancelled@ == old(self).cancelled@.insert(old(self).state.cancellation.id()),
        r.cancellation.id() == final(self).state.cancellation.id(),
        !final(self).cancelled@.contains(r.cancellation.id()),
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::begin_generation
//@ sig fn begin_generation(&mut self) -> (r: ProjectIndexingSnapshot)
//@ spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).shows(r),
        r.generation == old(self).state.generation + 1, r.sequence == old(self).state.sequence + 1, r.phase == IndexingPhase::Queued
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::transition
//@ sig fn transition(&mut self, generation: u64, phase: IndexingPhase, completed: Option<u64>, total: Option<u64>) -> (r: Option<ProjectIndexingSnapshot>)
//@ use lock
//@ spec
    requires old(self).inv()
    ensures final(self).inv(),
        // refused exactly when stale or finished, and then nothing changes
        r.is_some() <==> old(self).accepts(generation),
        r.is_none() ==> *final(self) == *old(self),
        r.is_some() ==> {
            let a = old(self).state; let b = final(self).state;
            &&& final(self).shows(r->0)
            &&& b.generation == a.generation && b.sequence == a.sequence + 1
            &&& b.phase == phase && b.completed == completed && b.total == total && b.failure.is_none()
            // monotone phase, monotone progress, stable denominator
            &&& rk(a.phase) <= rk(b.phase) && rk(b.phase) >= 2
            &&& (a.phase == b.phase && a.completed.is_some() && completed.is_some() ==> a.completed->0 <= completed->0)
            &&& (a.phase == b.phase && a.total.is_some() && total.is_some() ==> a.total->0 == total->0)
            &&& (phase != IndexingPhase::ProjectNavigationReady ==> b.project_navigation_ready_ms == a.project_navigation_ready_ms)
            &&& (phase != IndexingPhase::DependencyNavigationReady ==> b.dependency_navigation_ready_ms == a.dependency_navigation_ready_ms)
            &&& (phase == IndexingPhase::Ready ==> b.completed_elapsed_ms.is_some())
            &&& (phase != IndexingPhase::Ready ==> b.completed_elapsed_ms == a.completed_elapsed_ms)
            &&& b.started_at == a.started_at && b.cancellation == a.cancellation
        },
        final(self).cancelled@ == old(self).cancelled@, final(self).root == old(self).root,
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::fail
//@ sig fn fail(&mut self, generation: u64, failure: String) -> (r: Option<ProjectIndexingSnapshot>)
//@ use lock
//@ spec
    requires old(self).inv()
    ensures final(self).inv(),
        r.is_some() <==> old(self).accepts(generation),
        r.is_none() ==> *final(self) == *old(self),
        r.is_some() ==> {
            let a = old(self).state; let b = final(self).state;
            &&& final(self).shows(r->0)
            &&& b.generation == a.generation && b.sequence == a.sequence + 1
            &&& b.phase == IndexingPhase::Failed && b.failure.is_some() && b.failure->0@ == failure@ && !blank(failure@)
            &&& b.completed_elapsed_ms.is_some()
            &&& b.project_navigation_ready_ms == a.project_navigation_ready_ms && b.dependency_navigation_ready_ms == a.dependency_navigation_ready_ms
            &&& b.started_at == a.started_at && b.cancellation == a.cancellation
        },
        final(self).cancelled@ == old(self).cancelled@, final(self).root == old(self).root,
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::cancel
//@ sig fn cancel(&mut self, generation: u64) -> (r: Option<ProjectIndexingSnapshot>)
//@ use lock
//@ spec
    requires old(self).inv()
    ensures final(self).inv(),
        r.is_some() <==> old(self).accepts(generation),
        r.is_none() ==> *final(self) == *old(self),
        r.is_some() ==> {
            let a = old(self).state; let b = final(self).state;
            &&& final(self).shows(r->0)
            &&& b.generation == a.generation && b.sequence == a.sequence + 1
            &&& b.phase == IndexingPhase::Cancelled && b.failure.is_none() && b.completed_elapsed_ms.is_some()
            &&& b.project_navigation_ready_ms == a.project_navigation_ready_ms && b.dependency_navigation_ready_ms == a.dependency_navigation_ready_ms
            &&& b.cancellation == a.cancellation && b.started_at == a.started_at
            &&& final(self).cancelled@ == old(self).cancelled@.insert(a.cancellation.id())
        },
        final(self).root == old(self).root,
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::cancel_current
//@ sig fn cancel_current(&mut self) -> (r: Option<ProjectIndexingSnapshot>)
//@ use lock
//@ spec
    requires old(self).inv()
    ensures final(self).inv(),
        r.is_some() <==> !terminal(old(self).state.phase),
        r.is_none() ==> *final(self) == *old(self),
        r.is_some() ==> final(self).state.phase == IndexingPhase::Cancelled && final(self).shows(r->0)
            && final(self).state.sequence == old(self).state.sequence + 1 && final(self).state.generation == old(self).state.generation
            && final(self).cancelled@ == old(self).cancelled@.insert(old(self).state.cancellation.id()),
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::is_current_run
//@ ret r
//@ use lock
//@ rewrite? run.cancellation.is_cancelled() ==> vp_token_is_cancelled(&run.cancellation, vp_text!("Ghost(self.cancelled@)"))
//@ spec
    ensures r == (self.accepts(run.generation) && !self.cancelled@.contains(run.cancellation.id()))
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::snapshot
//@ ret r
//@ use lock
//@ spec
    ensures self.shows(r)
//@end

//@fn src/indexing_status.rs :: ProjectIndexingStatus::snapshot_locked
//@ ret r
//@ rewrite? state.failure.clone() ==> vp_clone_failure(&state.failure)
//@ spec
    requires *state == self.state
    ensures self.shows(r)
//@end
}

// ---- the property over histories: lemmas over the contracts ----
/// Any operation relates the state before and after by `step`; `step` is
/// reflexive and transitive for the ordering a user relies on.
spec fn le(a: ProjectIndexingState, b: ProjectIndexingState) -> bool {
    &&& a.generation <= b.generation && a.sequence <= b.sequence
    &&& (a.generation == b.generation ==> rk(a.phase) <= rk(b.phase))
    &&& (a.generation == b.generation && terminal(a.phase) ==> b.phase == a.phase)
    &&& (a.sequence == b.sequence ==> a.generation == b.generation && a.phase == b.phase && a.completed == b.completed && a.total == b.total)
}
proof fn c04_history_order_is_transitive(a: ProjectIndexingState, b: ProjectIndexingState, c: ProjectIndexingState)
    requires le(a, b), le(b, c)
    ensures le(a, c)
{}

/// One arbitrary operation on the real methods keeps the invariant and the order.
fn c04_any_operation(st: &mut ProjectIndexingStatus, op: u8, g: u64, phase: IndexingPhase, completed: Option<u64>, total: Option<u64>, failure: String)
    requires old(st).inv()
    ensures final(st).inv(), le(old(st).state, final(st).state)
{
    if op == 0 { let _ = st.begin_run(); }
    else if op == 1 { let _ = st.begin_generation(); }
    else if op == 2 { let _ = st.transition(g, phase, completed, total); }
    else if op == 3 { let _ = st.fail(g, failure); }
    else if op == 4 { let _ = st.cancel(g); }
    else if op == 5 { let _ = st.cancel_current(); }
    else { let _ = st.snapshot(); }
}
}
fn main() {}
