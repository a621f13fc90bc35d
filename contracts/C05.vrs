// C05: resource budgets of the indexing governor.
use vstd::prelude::*;
verus! {
// ---- stand-ins for dependency types (contracts assumed, see evidence) ----
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
pub type Path = PathBuf;
impl PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn vp_path_lt(a: Option<&Path>, b: Option<&Path>) -> bool { unimplemented!() }
/// Path equality is the abstract equality of the opaque path.
#[verifier::external_body]
fn vp_path_eq(a: Option<&Path>, b: Option<&Path>) -> (r: bool)
    ensures r == (a.is_some() == b.is_some() && (a.is_some() ==> *a->0 == *b->0)) { unimplemented!() }
fn vp_opt_ref(o: &Option<PathBuf>) -> (r: Option<&Path>)
    ensures r.is_some() == o.is_some(), r.is_some() ==> *r->0 == o->0
{ match o { Some(p) => Some(p), None => None } }
fn vp_opt_clone(o: &Option<PathBuf>) -> (r: Option<PathBuf>) ensures r == *o
{ match o { Some(p) => Some(p.clone()), None => None } }
fn vp_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
/// A failing validation of the caller's request aborts the call.
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
/// An internal `assert!` of the code: proved never to fire.
fn vp_check(c: bool) requires c {}
#[verifier::external_body]
pub struct CancellationToken { _p: u8 }
/// `was`: cancelled before the call began; cancellation is permanent.
#[verifier::external_body]
fn vp_is_cancelled(c: &Option<CancellationToken>, Ghost(was): Ghost<bool>) -> (r: bool) ensures c.is_none() ==> !r, was ==> r { unimplemented!() }
pub struct AtomicU64 { pub v: u64 }
#[verifier::external_body]
fn vp_fetch_add(a: &mut AtomicU64) -> (r: u64)
    ensures r == old(a).v, old(a).v < u64::MAX ==> final(a).v == old(a).v + 1 { unimplemented!() }
pub struct VpError;
#[verifier::external_body]
fn vp_panicking() -> bool { unimplemented!() }

//@const src/indexing_resources.rs :: MAX_PRIORITY_ADMISSIONS_WHILE_BACKGROUND_WAITS
//@enum src/indexing_resources.rs :: IndexingResourcePriority ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct src/indexing_resources.rs :: IndexingResourcePolicy ; derive Clone, Copy
//@struct src/indexing_resources.rs :: IndexingWorkSpec
//@struct src/indexing_resources.rs :: QueuedWork
//@struct src/indexing_resources.rs :: IndexingResourceSnapshot
//@struct src/indexing_resources.rs :: AdmissionState ; add leases: Ghost<Seq<IndexingWorkSpec>>
//@struct src/indexing_resources.rs :: IndexingResourceState ; drop cpu_pool ; subst admission: Mutex<$t> ==> admission: $t ; subst changed: Notify ==> changed: VpNotify
//@struct src/indexing_resources.rs :: IndexingResourceGovernor ; subst Arc<$t> ==> $t
//@struct src/indexing_resources.rs :: QueuedTaskRegistration ; drop state
//@struct src/indexing_resources.rs :: ActiveResourceLease ; drop state
//@struct src/indexing_resources.rs :: ProjectNavigationReservation ; drop state

/// tokio::sync::Notify: ghost set of tickets whose owner sleeps, i.e. will not look at the state before the next notification.
pub struct VpNotify { pub asleep: Ghost<Set<int>> }
impl VpNotify {
    /// wakes every waiter registered so far (a `notified()` future counts from its creation)
    fn notify_waiters(&mut self) ensures final(self).asleep@ == Set::<int>::empty()
    { self.asleep = Ghost(Set::<int>::empty()); }
}
struct VpNotified;
fn vp_notified() -> VpNotified { VpNotified }

// ---- specification ----
spec fn rank(p: IndexingResourcePriority) -> int {
    match p { IndexingResourcePriority::ActiveDocument => 0, IndexingResourcePriority::OpenDocument => 1, IndexingResourcePriority::Background => 2 }
}
spec fn sum_cpu(s: Seq<IndexingWorkSpec>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_cpu(s.drop_last()) + s.last().cpu_lanes } }
spec fn sum_mem(s: Seq<IndexingWorkSpec>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_mem(s.drop_last()) + s.last().transient_memory_bytes } }
spec fn sum_io(s: Seq<IndexingWorkSpec>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_io(s.drop_last()) + s.last().io_slots } }
proof fn sums_push(s: Seq<IndexingWorkSpec>, x: IndexingWorkSpec)
    ensures sum_cpu(s.push(x)) == sum_cpu(s) + x.cpu_lanes, sum_mem(s.push(x)) == sum_mem(s) + x.transient_memory_bytes, sum_io(s.push(x)) == sum_io(s) + x.io_slots
{ assert(s.push(x).drop_last() =~= s); }
proof fn sums_remove(s: Seq<IndexingWorkSpec>, i: int)
    requires 0 <= i < s.len()
    ensures sum_cpu(s.remove(i)) == sum_cpu(s) - s[i].cpu_lanes, sum_mem(s.remove(i)) == sum_mem(s) - s[i].transient_memory_bytes, sum_io(s.remove(i)) == sum_io(s) - s[i].io_slots
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else {
        sums_remove(s.drop_last(), i);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}
proof fn sums_nonneg(s: Seq<IndexingWorkSpec>)
    ensures sum_cpu(s) >= 0, sum_mem(s) >= 0, sum_io(s) >= 0 decreases s.len()
{ if s.len() > 0 { sums_nonneg(s.drop_last()); } }

spec fn is_work(s: IndexingWorkSpec) -> bool { s.cpu_lanes > 0 && s.transient_memory_bytes > 0 }
spec fn is_policy(p: IndexingResourcePolicy) -> bool { p.cpu_lanes > 0 && p.top_level_tasks > 0 && p.transient_memory_limit_bytes > 0 && p.io_slots > 0 }
/// what the reported figures mean: exactly the running work
spec fn accounts(a: AdmissionState) -> bool {
    &&& a.active_tasks == a.leases@.len()
    &&& a.active_cpu_lanes == sum_cpu(a.leases@)
    &&& a.active_transient_memory_bytes == sum_mem(a.leases@)
    &&& a.active_io_slots == sum_io(a.leases@)
}
spec fn within(a: AdmissionState, p: IndexingResourcePolicy) -> bool {
    &&& a.active_tasks <= p.top_level_tasks && a.active_cpu_lanes <= p.cpu_lanes
    &&& a.active_transient_memory_bytes <= p.transient_memory_limit_bytes && a.active_io_slots <= p.io_slots
    &&& a.active_tasks <= a.peak_active_tasks <= p.top_level_tasks && a.active_cpu_lanes <= a.peak_active_cpu_lanes <= p.cpu_lanes
    &&& a.active_transient_memory_bytes <= a.peak_active_transient_memory_bytes <= p.transient_memory_limit_bytes
    &&& a.active_io_slots <= a.peak_active_io_slots <= p.io_slots
}
spec fn could_fit(s: IndexingWorkSpec, p: IndexingResourcePolicy) -> bool {
    s.cpu_lanes <= p.cpu_lanes && s.transient_memory_bytes <= p.transient_memory_limit_bytes && s.io_slots <= p.io_slots
}
spec fn held_back(s: IndexingWorkSpec, a: AdmissionState) -> bool {
    s.project_parallel && a.active_project_navigation_pending && a.active_project != s.project_root
}
spec fn fits(s: IndexingWorkSpec, a: AdmissionState, p: IndexingResourcePolicy) -> bool {
    &&& !held_back(s, a)
    &&& a.active_tasks < p.top_level_tasks && a.active_cpu_lanes + s.cpu_lanes <= p.cpu_lanes
    &&& a.active_transient_memory_bytes + s.transient_memory_bytes <= p.transient_memory_limit_bytes
    &&& a.active_io_slots + s.io_slots <= p.io_slots
}
spec fn prio_of(s: IndexingWorkSpec, active: Option<PathBuf>) -> IndexingResourcePriority {
    if active.is_some() && s.project_root == active { IndexingResourcePriority::ActiveDocument } else { s.requested_priority }
}
spec fn fit_at(a: AdmissionState, p: IndexingResourcePolicy, i: int) -> bool { 0 <= i < a.queued@.len() && fits(a.queued@[i].spec, a, p) }
spec fn bg_at(a: AdmissionState, p: IndexingResourcePolicy, i: int) -> bool { fit_at(a, p, i) && a.queued@[i].priority == IndexingResourcePriority::Background }
spec fn before(x: QueuedWork, y: QueuedWork) -> bool {
    rank(x.priority) < rank(y.priority) || (x.priority == y.priority && x.insertion_order <= y.insertion_order)
}
/// whose turn it is: priority, then arrival, among those that fit; after one
/// priority admission past waiting background work, the oldest background work
spec fn turn(a: AdmissionState, p: IndexingResourcePolicy, i: int) -> bool {
    &&& fit_at(a, p, i)
    &&& if a.priority_admissions_while_background_waits >= 1 && (exists|j: int| bg_at(a, p, j)) {
            a.queued@[i].priority == IndexingResourcePriority::Background && forall|j: int| bg_at(a, p, j) ==> a.queued@[i].insertion_order <= (#[trigger] a.queued@[j]).insertion_order
        } else {
            forall|j: int| fit_at(a, p, j) ==> before(a.queued@[i], #[trigger] a.queued@[j])
        }
}
spec fn tickets(q: Seq<QueuedWork>, next: int) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).id == q[i].insertion_order && q[i].id < next
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).id != (#[trigger] q[j]).id
}
spec fn has_ticket(q: Seq<QueuedWork>, id: u64) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).id == id }
impl IndexingResourceState {
    /// Representation invariant, true whenever the lock is free.
    spec fn inv(&self) -> bool {
        let a = self.admission; let p = self.policy;
        &&& is_policy(p) && accounts(a) && within(a, p) && tickets(a.queued@, self.next_id.v as int)
        &&& a.priority_admissions_while_background_waits <= 1
        &&& forall|i: int| 0 <= i < a.leases@.len() ==> is_work(#[trigger] a.leases@[i])
        &&& forall|i: int| 0 <= i < a.queued@.len() ==> is_work((#[trigger] a.queued@[i]).spec) && could_fit(a.queued@[i].spec, p)
        // queued work always carries the priority its project deserves now
        &&& forall|i: int| 0 <= i < a.queued@.len() ==> (#[trigger] a.queued@[i]).priority == prio_of(a.queued@[i].spec, a.active_project)
        // nobody whose turn it is has been left asleep
        &&& nobody_forgotten(*self)
    }
}
#[verifier::opaque]
spec fn nobody_forgotten(s: IndexingResourceState) -> bool {
    forall|i: int| turn(s.admission, s.policy, i) ==> !s.changed.asleep@.contains((#[trigger] s.admission.queued@[i]).id as int)
}
proof fn all_awake(s: IndexingResourceState) requires s.changed.asleep@ == Set::<int>::empty() ensures nobody_forgotten(s) { reveal(nobody_forgotten); }
spec fn same_turn_inputs(a: AdmissionState, b: AdmissionState) -> bool {
    &&& a.queued@ == b.queued@ && a.active_tasks == b.active_tasks && a.active_cpu_lanes == b.active_cpu_lanes
    &&& a.active_transient_memory_bytes == b.active_transient_memory_bytes && a.active_io_slots == b.active_io_slots
    &&& a.active_project == b.active_project && a.active_project_navigation_pending == b.active_project_navigation_pending
    &&& a.priority_admissions_while_background_waits == b.priority_admissions_while_background_waits
}
proof fn nothing_changed(a: IndexingResourceState, b: IndexingResourceState)
    requires nobody_forgotten(a), a.policy == b.policy, same_turn_inputs(a.admission, b.admission), a.changed.asleep@ == b.changed.asleep@
    ensures nobody_forgotten(b)
{
    reveal(nobody_forgotten);
    assert forall|i: int| turn(b.admission, b.policy, i) implies !b.changed.asleep@.contains((#[trigger] b.admission.queued@[i]).id as int) by { same_turns(a.admission, b.admission, b.policy, i); assert(turn(a.admission, a.policy, i)); assert(a.admission.queued@[i] == b.admission.queued@[i]); }
}
/// one may go to sleep when it is not one's turn
proof fn may_sleep(a: IndexingResourceState, b: IndexingResourceState, id: int)
    requires nobody_forgotten(a), a.policy == b.policy, a.admission == b.admission, b.changed.asleep@ == a.changed.asleep@.insert(id),
        forall|i: int| turn(a.admission, a.policy, i) ==> (#[trigger] a.admission.queued@[i]).id != id
    ensures nobody_forgotten(b)
{ reveal(nobody_forgotten); }
proof fn one_turn(a: AdmissionState, p: IndexingResourcePolicy, i: int, j: int, next: int)
    requires turn(a, p, i), turn(a, p, j), tickets(a.queued@, next)
    ensures i == j
{
    let (x, y) = (a.queued@[i], a.queued@[j]);
    if a.priority_admissions_while_background_waits >= 1 && (exists|j: int| bg_at(a, p, j)) {
        assert(bg_at(a, p, i) && bg_at(a, p, j));
        assert(x.insertion_order <= y.insertion_order && y.insertion_order <= x.insertion_order);
    } else { assert(before(x, y) && before(y, x)); }
    assert(x.id == y.id);
    if i < j { assert(a.queued@[i].id != a.queued@[j].id); } else if j < i { assert(a.queued@[j].id != a.queued@[i].id); }
}
/// Entries of other waiters survive (their priority may be re-derived).
spec fn kept(q: Seq<QueuedWork>, r: Seq<QueuedWork>, but: int) -> bool {
    forall|i: int| 0 <= i < q.len() && q[i].id != but ==> exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).id == (#[trigger] q[i]).id && r[j].spec == q[i].spec && r[j].insertion_order == q[i].insertion_order
}
/// What other threads may do between two of our critical sections (each
/// operation below guarantees it): the invariant holds, our own queue entry,
/// our leases and our being awake are ours alone.
spec fn others(a: IndexingResourceState, b: IndexingResourceState, id: int, mine: Option<IndexingWorkSpec>) -> bool {
    &&& b.inv() && b.policy == a.policy && b.next_id.v >= a.next_id.v
    &&& (mine.is_some() ==> exists|j: int| 0 <= j < b.admission.queued@.len() && (#[trigger] b.admission.queued@[j]).id == id && b.admission.queued@[j].spec == mine->0)
    &&& (mine.is_none() ==> forall|j: int| 0 <= j < b.admission.queued@.len() ==> (#[trigger] b.admission.queued@[j]).id != id)
    &&& (!a.changed.asleep@.contains(id) ==> !b.changed.asleep@.contains(id))
}
/// `mutex.lock()`: the state as the other threads left it.
#[verifier::external_body]
fn vp_lock(s: &mut IndexingResourceState, Ghost(id): Ghost<int>, Ghost(mine): Ghost<Option<IndexingWorkSpec>>)
    requires old(s).inv(), mine.is_some() ==> exists|j: int| 0 <= j < old(s).admission.queued@.len() && (#[trigger] old(s).admission.queued@[j]).id == id && old(s).admission.queued@[j].spec == mine->0,
        mine.is_none() ==> forall|j: int| 0 <= j < old(s).admission.queued@.len() ==> (#[trigger] old(s).admission.queued@[j]).id != id,
        id < old(s).next_id.v
    ensures others(*old(s), *final(s), id, mine)
{ unimplemented!() }
/// `.await` of the notification: other threads run; we come back awake.
#[verifier::external_body]
fn vp_await(s: &mut IndexingResourceState, n: VpNotified, Ghost(id): Ghost<int>, Ghost(mine): Ghost<IndexingWorkSpec>)
    requires old(s).inv()
    ensures others(*old(s), *final(s), id, Some(mine)), !final(s).changed.asleep@.contains(id)
{ unimplemented!() }
/// `select!` of cancellation and notification; true: cancelled.
#[verifier::external_body]
fn vp_await_or_cancel(s: &mut IndexingResourceState, n: VpNotified, c: &Option<CancellationToken>, Ghost(id): Ghost<int>, Ghost(mine): Ghost<IndexingWorkSpec>) -> (r: bool)
    requires old(s).inv()
    ensures others(*old(s), *final(s), id, Some(mine)), !r ==> !final(s).changed.asleep@.contains(id), c.is_none() ==> !r
{ unimplemented!() }

struct VpKey<'a> { rank: u8, order: u64, path: Option<&'a Path> }
spec fn key_lt(a: VpKey, b: VpKey) -> bool { a.rank < b.rank || (a.rank == b.rank && a.order < b.order) }
/// derived `Ord` of a tuple: lexicographic
fn vp_key_lt(a: VpKey, b: VpKey) -> (r: bool) ensures key_lt(a, b) ==> r, key_lt(b, a) ==> !r
{ if a.rank < b.rank { true } else if b.rank < a.rank { false } else if a.order < b.order { true } else if b.order < a.order { false } else { vp_path_lt(a.path, b.path) } }
fn vp_rank(p: IndexingResourcePriority) -> (r: u8) ensures r == rank(p)
{ match p { IndexingResourcePriority::ActiveDocument => 0, IndexingResourcePriority::OpenDocument => 1, IndexingResourcePriority::Background => 2 } }
fn vp_key2<'a>(o: u64, p: Option<&'a Path>) -> (r: VpKey<'a>) ensures r.rank == 0, r.order == o { VpKey { rank: 0, order: o, path: p } }
fn vp_key3<'a>(q: IndexingResourcePriority, o: u64, p: Option<&'a Path>) -> (r: VpKey<'a>) ensures r.rank == rank(q), r.order == o { VpKey { rank: vp_rank(q), order: o, path: p } }

/// `Vec::swap_remove` at the admission site: only the entry whose turn it is leaves the queue to run.
fn vp_take_turn(a: &mut AdmissionState, i: usize, Ghost(p): Ghost<IndexingResourcePolicy>) -> (r: QueuedWork)
    requires turn(*old(a), p, i as int)
    ensures r == old(a).queued@[i as int], final(a).queued@ == old(a).queued@.update(i as int, old(a).queued@.last()).drop_last(), *final(a) == (AdmissionState { queued: final(a).queued, ..*old(a) })
{ a.queued.swap_remove(i) }
proof fn swap_removed(q: Seq<QueuedWork>, i: int, next: int)
    requires 0 <= i < q.len(), tickets(q, next)
    ensures ({ let r = q.update(i, q.last()).drop_last();
        tickets(r, next) && kept(q, r, q[i].id as int) && !has_ticket(r, q[i].id) && (forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == (if j == i { q.last() } else { q[j] })) })
{
    let r = q.update(i, q.last()).drop_last();
    assert forall|k: int| 0 <= k < q.len() && q[k].id != q[i].id implies exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).id == (#[trigger] q[k]).id && r[j].spec == q[k].spec && r[j].insertion_order == q[k].insertion_order by {
        if k == q.len() - 1 { assert(r[i] == q[k]); } else { assert(r[k] == q[k]); }
    }
}

#[verifier::external_body]
fn vp_take(v: &mut Vec<QueuedWork>, k: usize) -> (r: QueuedWork) requires k < old(v)@.len() ensures r == old(v)@[k as int], final(v)@ == old(v)@ { unimplemented!() }
fn vp_put(v: &mut Vec<QueuedWork>, k: usize, q: QueuedWork) requires k < old(v)@.len() ensures final(v)@ == old(v)@.update(k as int, q) { v.set(k, q); }
proof fn same_turns(a: AdmissionState, b: AdmissionState, p: IndexingResourcePolicy, i: int)
    requires turn(b, p, i), same_turn_inputs(a, b)
    ensures turn(a, p, i)
{
    assert forall|j: int| bg_at(a, p, j) == bg_at(b, p, j) by {}
    assert forall|j: int| fit_at(a, p, j) == fit_at(b, p, j) by {}
}
/// an arrival can take the turn itself, but gives it to nobody else
proof fn pushed_turn(a: AdmissionState, b: AdmissionState, p: IndexingResourcePolicy, i: int)
    requires turn(b, p, i), b.queued@.len() == a.queued@.len() + 1, b.queued@.drop_last() == a.queued@, i < a.queued@.len(), a == (AdmissionState { queued: a.queued, ..b })
    ensures turn(a, p, i)
{
    assert forall|j: int| 0 <= j < a.queued@.len() implies a.queued@[j] == b.queued@[j] by {}
    assert forall|j: int| bg_at(a, p, j) implies bg_at(b, p, j) by {}
    assert forall|j: int| fit_at(a, p, j) implies fit_at(b, p, j) by {}
    if a.priority_admissions_while_background_waits >= 1 && (exists|j: int| bg_at(b, p, j)) { assert(bg_at(a, p, i)); }
}
//@rules common
//@ assert!($c) ==> if !($c) { vp_abort() }
//@ $x:e.checked_add($y).is_some_and(|total| $c) ==> (match $x.checked_add($y) { Some(total) => $c, None => false })
//@ $x:e.checked_add($y).unwrap_or_else(|| $p) ==> (match $x.checked_add($y) { Some(v) => v, None => vp_abort() })
//@ $x:e.checked_sub($y).unwrap_or_else(|| $p) ==> (match $x.checked_sub($y) { Some(v) => v, None => vp_abort() })
//@ checked_add_usize($a, $b, $m) ==> checked_add_usize($a, $b)
//@ checked_sub_usize($a, $b, $m) ==> checked_sub_usize($a, $b)
//@ checked_add_u64($a, $b, $m) ==> checked_add_u64($a, $b)
//@ $x:e.active_project.as_deref() ==> vp_opt_ref(&$x.active_project)
//@ $x:e.project_root.as_deref() ==> vp_opt_ref(&$x.project_root)
//@ active_project.as_deref() ==> vp_opt_ref(&active_project)
//@ std::thread::panicking() ==> vp_panicking()
//@ $x:e.max($y) ==> vp_max($x, $y)
//@ vp_opt_ref($a:a) == Some($b) ==> vp_path_eq(vp_opt_ref($a), Some($b))
//@ vp_opt_ref($a:a) != Some($b) ==> !vp_path_eq(vp_opt_ref($a), Some($b))
//@ $x:e.iter().enumerate().filter(|(_, $q:i)| $c:a).min_by_key(|(_, $p:i)| $k:a).map(|(index, _)| index) ==> { let mut i__fresh: usize = 0; let mut best__fresh: Option<usize> = None; while i__fresh < $x.len() { let $q = &$x[i__fresh]; if $c { let better = match best__fresh { None => true, Some(j) => vp_key_lt({ let $p = &$x[i__fresh]; $k }, { let $p = &$x[j]; $k }) }; if better { best__fresh = Some(i__fresh); } } i__fresh = i__fresh + 1; } best__fresh }
//@ if let Some((index, _)) = $x:e.iter().enumerate().filter(|(_, $q:i)| $c:a).min_by_key(|(_, $p:i)| $k:a) $b:b ==> let vp_best = { let mut i__fresh: usize = 0; let mut best__fresh: Option<usize> = None; while i__fresh < $x.len() { let $q = &$x[i__fresh]; if $c { let better = match best__fresh { None => true, Some(j) => vp_key_lt({ let $p = &$x[i__fresh]; $k }, { let $p = &$x[j]; $k }) }; if better { best__fresh = Some(i__fresh); } } i__fresh = i__fresh + 1; } best__fresh }; if let Some(index) = vp_best $b
//@ let $v:i = $x:e.iter().any(|$q:i| $c:a); ==> let $v = { let mut i__fresh: usize = 0; let mut any__fresh: bool = false; while i__fresh < $x.len() { let $q = &$x[i__fresh]; if $c { any__fresh = true; } i__fresh = i__fresh + 1; } any__fresh };
//@end

//@fn src/indexing_resources.rs :: checked_add_usize
//@ sig fn checked_add_usize(current: usize, amount: usize) -> (r: usize)
//@ use common
//@ spec
    requires current + amount <= usize::MAX
    ensures r == current + amount
//@end
//@fn src/indexing_resources.rs :: checked_sub_usize
//@ sig fn checked_sub_usize(current: usize, amount: usize) -> (r: usize)
//@ use common
//@ spec
    requires current >= amount
    ensures r == current - amount
//@end
//@fn src/indexing_resources.rs :: checked_add_u64
//@ sig fn checked_add_u64(current: u64, amount: u64) -> (r: u64)
//@ use common
//@ spec
    ensures r == current + amount
//@end

impl IndexingResourcePolicy {
//@fn src/indexing_resources.rs :: IndexingResourcePolicy::with_limits
//@ ret r
//@ use common
//@ spec
    ensures is_policy(r), r.cpu_lanes == cpu_lanes, r.top_level_tasks == top_level_tasks, r.transient_memory_limit_bytes == transient_memory_limit_bytes, r.io_slots == io_slots
//@end
//@fn src/indexing_resources.rs :: IndexingResourcePolicy::cpu_lanes
//@ ret r
//@ spec
    ensures r == self.cpu_lanes
//@end
//@fn src/indexing_resources.rs :: IndexingResourcePolicy::top_level_tasks
//@ ret r
//@ spec
    ensures r == self.top_level_tasks
//@end
//@fn src/indexing_resources.rs :: IndexingResourcePolicy::transient_memory_limit_bytes
//@ ret r
//@ spec
    ensures r == self.transient_memory_limit_bytes
//@end
//@fn src/indexing_resources.rs :: IndexingResourcePolicy::io_slots
//@ ret r
//@ spec
    ensures r == self.io_slots
//@end
//@fn src/indexing_resources.rs :: IndexingResourcePolicy::cooperative_parallel_cpu_lanes
//@ ret r
//@ rewrite? self.cpu_lanes.checked_div(self.top_level_tasks).unwrap_or_else(|| $p).max(1) ==> vp_max(self.cpu_lanes / self.top_level_tasks, 1)
//@ spec
    requires is_policy(self)
    ensures 1 <= r <= self.cpu_lanes, self.cpu_lanes >= self.top_level_tasks ==> r * self.top_level_tasks <= self.cpu_lanes
//@ entry
    proof { let a = self.cpu_lanes as int; let b = self.top_level_tasks as int; assert(a / b <= a && a / b >= 0 && (a / b) * b <= a && (a >= b ==> a / b >= 1)) by (nonlinear_arith) requires a > 0, b > 0; }
//@end
}
impl IndexingWorkSpec {
//@fn src/indexing_resources.rs :: IndexingWorkSpec::new
//@ ret r
//@ use common
//@ spec
    ensures is_work(r), r.project_root == project_root, r.requested_priority == priority, r.cpu_lanes == cpu_lanes, r.transient_memory_bytes == transient_memory_bytes, r.io_slots == io_slots, !r.project_parallel
//@end
//@fn src/indexing_resources.rs :: IndexingWorkSpec::project_root
//@ ret r
//@ use common
//@ spec
    ensures r.is_some() == self.project_root.is_some(), r.is_some() ==> *r->0 == self.project_root->0
//@end
//@fn src/indexing_resources.rs :: IndexingWorkSpec::cpu_lanes
//@ ret r
//@ spec
    ensures r == self.cpu_lanes
//@end
//@fn src/indexing_resources.rs :: IndexingWorkSpec::transient_memory_bytes
//@ ret r
//@ spec
    ensures r == self.transient_memory_bytes
//@end
//@fn src/indexing_resources.rs :: IndexingWorkSpec::io_slots
//@ ret r
//@ spec
    ensures r == self.io_slots
//@end
}

//@fn src/indexing_resources.rs :: effective_priority
//@ ret r
//@ rewrite? spec.project_root() == active_project ==> vp_path_eq(spec.project_root(), active_project)
//@ spec
    ensures active_project.is_some() ==> r == prio_of(*spec, Some(*active_project->0)), active_project.is_none() ==> r == prio_of(*spec, None)
//@end
//@fn src/indexing_resources.rs :: validate_request_fits_policy
//@ ret r
//@ use common
//@ spec
    ensures could_fit(*spec, policy)
//@end
//@fn src/indexing_resources.rs :: project_parallel_blocked_by_active_navigation
//@ ret r
//@ use common
//@ rewrite? vp_opt_ref($a:a) != spec.project_root() ==> !vp_path_eq(vp_opt_ref($a), spec.project_root())
//@ spec
    ensures r == held_back(*spec, *admission)
//@end
//@fn src/indexing_resources.rs :: request_fits_available
//@ ret r
//@ use common
//@ spec
    ensures r == fits(*spec, *admission, policy)
//@end
//@fn src/indexing_resources.rs :: best_admissible_entry_index
//@ ret r
//@ use common
//@ rewrite? (queued.insertion_order, $p) ==> vp_key2(queued.insertion_order, $p)
//@ rewrite? (queued.priority, queued.insertion_order, $p) ==> vp_key3(queued.priority, queued.insertion_order, $p)
//@ spec
    requires exists|next: int| tickets(admission.queued@, next)
    ensures r.is_some() ==> turn(*admission, policy, r->0 as int), r.is_none() ==> forall|j: int| !fit_at(*admission, policy, j)
//@ loop 0
    invariant i_1 <= admission.queued@.len(),
        best_1.is_some() ==> best_1->0 < i_1 && bg_at(*admission, policy, best_1->0 as int) && forall|j: int| j < i_1 && bg_at(*admission, policy, j) ==> admission.queued@[best_1->0 as int].insertion_order <= (#[trigger] admission.queued@[j]).insertion_order,
        best_1.is_none() ==> forall|j: int| j < i_1 ==> !bg_at(*admission, policy, j)
    decreases admission.queued@.len() - i_1
//@ loop 1
    invariant i_1 <= admission.queued@.len(),
        best_1.is_some() ==> best_1->0 < i_1 && fit_at(*admission, policy, best_1->0 as int) && forall|j: int| j < i_1 && fit_at(*admission, policy, j) ==> before(admission.queued@[best_1->0 as int], #[trigger] admission.queued@[j]),
        best_1.is_none() ==> forall|j: int| j < i_1 ==> !fit_at(*admission, policy, j),
    decreases admission.queued@.len() - i_1
//@end

//@fn src/indexing_resources.rs :: reserve_resources
//@ ret r
//@ rewrite? assert!($c) ==> vp_check($c)
//@ use common
//@ spec
    requires fits(*spec, *old(admission), policy), accounts(*old(admission)), within(*old(admission), policy)
    ensures accounts(*final(admission)), within(*final(admission), policy), final(admission).leases@ == old(admission).leases@.push(*spec),
        *final(admission) == (AdmissionState { leases: final(admission).leases, active_tasks: final(admission).active_tasks, active_cpu_lanes: final(admission).active_cpu_lanes,
            active_transient_memory_bytes: final(admission).active_transient_memory_bytes, active_io_slots: final(admission).active_io_slots,
            peak_active_tasks: final(admission).peak_active_tasks, peak_active_cpu_lanes: final(admission).peak_active_cpu_lanes,
            peak_active_transient_memory_bytes: final(admission).peak_active_transient_memory_bytes, peak_active_io_slots: final(admission).peak_active_io_slots, ..*old(admission) })
//@ exit
    proof { sums_push(admission.leases@, *spec); }
    admission.leases = Ghost(admission.leases@.push(*spec));
//@end

//@fn src/indexing_resources.rs :: record_cancelled_before_start
//@ sig fn record_cancelled_before_start(state: &mut IndexingResourceState, Ghost(id): Ghost<int>, Ghost(mine): Ghost<IndexingWorkSpec>)
//@ rewrite? let mut admission = state.admission.lock(); ==> vp_lock(state, Ghost(id), Ghost(Some(mine)));
//@ use common
//@ rewrite? admission. $f:i ==> state.admission.$f
//@ spec
    requires old(state).inv(), id < old(state).next_id.v, exists|j: int| 0 <= j < old(state).admission.queued@.len() && (#[trigger] old(state).admission.queued@[j]).id == id && old(state).admission.queued@[j].spec == mine
    ensures others(*old(state), *final(state), id, Some(mine))
//@ before state.admission.cancelled_before_start =
    let ghost l0 = *state;
//@ exit
    proof { nothing_changed(l0, *state); }
//@end

impl QueuedTaskRegistration {
//@fn src/indexing_resources.rs :: Drop for QueuedTaskRegistration::drop
//@ sig fn drop(&mut self, state: &mut IndexingResourceState, Ghost(mine): Ghost<Option<IndexingWorkSpec>>)
//@ rewrite? let mut admission = self.state.admission.lock(); ==> vp_lock(state, Ghost(self.id as int), Ghost(mine)); vp_text!("let ghost q0 = state.admission.queued@");
//@ rewrite? drop(admission); ==>
//@ rewrite? self.state ==> state
//@ rewrite? if let Some(index) = admission.queued.iter().position(|queued| $c) $b:b ==> let vp_pos = { let mut i__fresh: usize = 0; let mut at__fresh: Option<usize> = None; while i__fresh < admission.queued.len() { let queued = &admission.queued[i__fresh]; if at__fresh.is_none() && $c { at__fresh = Some(i__fresh); } i__fresh = i__fresh + 1; } at__fresh }; if let Some(index) = vp_pos $b
//@ rewrite? admission. $f:i ==> state.admission.$f
//@ spec
    requires old(state).inv(), old(self).id < old(state).next_id.v,
        mine.is_some() ==> exists|j: int| 0 <= j < old(state).admission.queued@.len() && (#[trigger] old(state).admission.queued@[j]).id == old(self).id && old(state).admission.queued@[j].spec == mine->0,
        mine.is_none() ==> !has_ticket(old(state).admission.queued@, old(self).id),
        old(self).admitted ==> mine.is_none()
    ensures final(state).inv(), !has_ticket(final(state).admission.queued@, old(self).id), final(state).policy == old(state).policy
//@ entry
    proof { if mine.is_none() { assert forall|j: int| 0 <= j < state.admission.queued@.len() implies (#[trigger] state.admission.queued@[j]).id != self.id by { if state.admission.queued@[j].id == self.id { assert(has_ticket(state.admission.queued@, self.id)); } } } }
//@ loop 0
    invariant i_1 <= state.admission.queued@.len(), self.id == old(self).id,
        at_1.is_some() ==> at_1->0 < state.admission.queued@.len() && state.admission.queued@[at_1->0 as int].id == self.id,
        at_1.is_none() ==> forall|j: int| 0 <= j < i_1 ==> (#[trigger] state.admission.queued@[j]).id != self.id
    decreases state.admission.queued@.len() - i_1
//@ after state.admission.queued.swap_remove
    proof { swap_removed(q0, index as int, state.next_id.v as int); }
//@ after state.changed.notify_waiters
    proof { all_awake(*state); }
//@ exit
    proof { assert(!has_ticket(state.admission.queued@, self.id)); }
//@end
}

impl ActiveResourceLease {
//@fn src/indexing_resources.rs :: Drop for ActiveResourceLease::drop
//@ sig fn drop(&mut self, state: &mut IndexingResourceState, Ghost(at): Ghost<int>)
//@ rewrite? let mut admission = self.state.admission.lock(); ==>
//@ rewrite? drop(admission); ==>
//@ rewrite? self.state ==> state
//@ use common
//@ rewrite? admission. $f:i ==> state.admission.$f
//@ spec
    // a live lease is one of the running pieces of work
    requires old(state).inv(), 0 <= at < old(state).admission.leases@.len(), old(state).admission.leases@[at] == old(self).spec
    ensures final(state).inv(), final(state).policy == old(state).policy,
        final(state).admission.leases@ == old(state).admission.leases@.remove(at),
        final(state).admission.queued@ == old(state).admission.queued@,
        final(state).admission.completed_tasks + final(state).admission.panicked_tasks + final(state).admission.cancelled_after_start
            == old(state).admission.completed_tasks + old(state).admission.panicked_tasks + old(state).admission.cancelled_after_start + 1,
        final(state).admission.completed_tasks > old(state).admission.completed_tasks ==> old(self).completed,
//@ entry
    proof { sums_remove(state.admission.leases@, at); sums_nonneg(state.admission.leases@.remove(at)); }
    let ghost removed = state.admission.leases@.remove(at);
    proof { assert forall|i: int| 0 <= i < removed.len() implies is_work(#[trigger] removed[i]) by { if i < at { assert(removed[i] == state.admission.leases@[i]); } else { assert(removed[i] == state.admission.leases@[i + 1]); } } }
//@ before state.changed.notify_waiters
    state.admission.leases = Ghost(removed);
//@ exit
    proof { all_awake(*state); }
//@end
}
impl ProjectNavigationReservation {
//@fn src/indexing_resources.rs :: Drop for ProjectNavigationReservation::drop
//@ sig fn drop(&mut self, state: &mut IndexingResourceState)
//@ rewrite? let mut admission = self.state.admission.lock(); ==>
//@ rewrite? self.state ==> state
//@ use common
//@ rewrite? self.project_root.as_path() ==> &self.project_root
//@ rewrite? admission. $f:i ==> state.admission.$f
//@ spec
    requires old(state).inv()
    ensures final(state).inv(), final(state).policy == old(state).policy, final(state).admission.leases@ == old(state).admission.leases@, final(state).admission.queued@ == old(state).admission.queued@,
        final(state).admission.active_project == old(state).admission.active_project,
        final(state).admission.active_project_navigation_pending == (old(state).admission.active_project_navigation_pending && old(state).admission.active_project != Some(old(self).project_root))
//@ exit
    proof { if changed { all_awake(*state); } else { nothing_changed(*old(state), *state); } }
//@end
}

impl IndexingResourceGovernor {
//@fn src/indexing_resources.rs :: IndexingResourceGovernor::new
//@ ret r
//@ rewrite? let cpu_pool = $x; ==>
//@ rewrite? cpu_pool, ==>
//@ rewrite? AtomicU64::new(0) ==> AtomicU64 { v: 0 }
//@ rewrite? Arc::new($b) ==> $b
//@ rewrite? Mutex::new($b) ==> $b
//@ rewrite? Notify::new() ==> VpNotify { asleep: Ghost(Set::empty()) }
//@ rewrite? active_project_navigation_pending: false ==> active_project_navigation_pending: false, leases: Ghost(Seq::empty())
//@ spec
    requires is_policy(policy)
    ensures r.state.inv(), r.state.policy == policy, r.state.admission.leases@.len() == 0, r.state.admission.queued@.len() == 0
//@ exit
    proof { all_awake(__vp_result.state); }
//@end

//@fn src/indexing_resources.rs :: IndexingResourceGovernor::snapshot
//@ ret r
//@ rewrite? let admission = self.state.admission.lock(); ==> let admission = &self.state.admission;
//@ rewrite? admission.active_project.clone() ==> vp_opt_clone(&admission.active_project)
//@ spec
    requires self.state.inv()
    ensures r.cpu_lane_limit == self.state.policy.cpu_lanes, r.top_level_task_limit == self.state.policy.top_level_tasks,
        r.transient_memory_limit_bytes == self.state.policy.transient_memory_limit_bytes, r.io_slot_limit == self.state.policy.io_slots,
        r.queued_tasks == self.state.admission.queued@.len(),
        r.active_tasks == self.state.admission.leases@.len(), r.active_cpu_lanes == sum_cpu(self.state.admission.leases@),
        r.active_transient_memory_bytes == sum_mem(self.state.admission.leases@), r.active_io_slots == sum_io(self.state.admission.leases@),
        r.active_tasks <= r.top_level_task_limit, r.active_cpu_lanes <= r.cpu_lane_limit, r.active_transient_memory_bytes <= r.transient_memory_limit_bytes, r.active_io_slots <= r.io_slot_limit,
        r.peak_active_tasks <= r.top_level_task_limit, r.peak_active_cpu_lanes <= r.cpu_lane_limit, r.peak_active_transient_memory_bytes <= r.transient_memory_limit_bytes, r.peak_active_io_slots <= r.io_slot_limit,
        r.active_project == self.state.admission.active_project, r.active_project_navigation_pending == self.state.admission.active_project_navigation_pending,
        r.completed_tasks == self.state.admission.completed_tasks, r.panicked_tasks == self.state.admission.panicked_tasks,
        r.cancelled_before_start == self.state.admission.cancelled_before_start, r.cancelled_after_start == self.state.admission.cancelled_after_start
//@end

//@fn src/indexing_resources.rs :: IndexingResourceGovernor::prioritize_active_project_with_navigation_pending
//@ sig fn prioritize_active_project_with_navigation_pending(&mut self, project_root: &Path, navigation_pending: bool)
//@ rewrite? let mut admission = self.state.admission.lock(); ==>
//@ rewrite? admission.active_project.clone() ==> vp_opt_clone(&self.state.admission.active_project)
//@ rewrite? project_root.to_path_buf() ==> project_root.clone()
//@ use common
//@ rewrite? for queued in &mut admission.queued { $b:a } ==> let mut k: usize = 0; while k < admission.queued.len() { let mut queued = vp_take(&mut admission.queued, k); $b vp_put(&mut admission.queued, k, queued); k = k + 1; }
//@ rewrite? admission. $f:i ==> self.state.admission.$f
//@ spec
    requires old(self).state.inv()
    ensures final(self).state.inv(), final(self).state.policy == old(self).state.policy,
        final(self).state.admission.leases@ == old(self).state.admission.leases@,
        final(self).state.admission.active_project == Some(*project_root), final(self).state.admission.active_project_navigation_pending == navigation_pending,
        // no work is lost, added or reordered: only priorities follow the active project
        final(self).state.admission.queued@.len() == old(self).state.admission.queued@.len(),
        forall|i: int| 0 <= i < old(self).state.admission.queued@.len() ==> (#[trigger] final(self).state.admission.queued@[i]) == (QueuedWork { priority: prio_of(old(self).state.admission.queued@[i].spec, Some(*project_root)), ..old(self).state.admission.queued@[i] }),
//@ loop 0
    invariant k <= self.state.admission.queued@.len(), self.state.admission.queued@.len() == old(self).state.admission.queued@.len(), old(self).state.inv(),
        active_project == Some(*project_root), self.state.admission.active_project == active_project,
        self.state.admission.active_project_navigation_pending == navigation_pending,
        self.state.policy == old(self).state.policy, self.state.next_id == old(self).state.next_id, self.state.changed == old(self).state.changed,
        self.state.admission == (AdmissionState { queued: self.state.admission.queued, active_project: self.state.admission.active_project, reprioritizations: self.state.admission.reprioritizations, active_project_navigation_pending: navigation_pending, ..old(self).state.admission }),
        forall|i: int| 0 <= i < k ==> (#[trigger] self.state.admission.queued@[i]) == (QueuedWork { priority: prio_of(old(self).state.admission.queued@[i].spec, Some(*project_root)), ..old(self).state.admission.queued@[i] }),
        forall|i: int| k <= i < old(self).state.admission.queued@.len() ==> (#[trigger] self.state.admission.queued@[i]) == old(self).state.admission.queued@[i],
        !changed ==> self.state.admission.active_project == old(self).state.admission.active_project && self.state.admission.active_project_navigation_pending == old(self).state.admission.active_project_navigation_pending
            && forall|i: int| 0 <= i < k ==> (#[trigger] self.state.admission.queued@[i]) == old(self).state.admission.queued@[i],
    decreases self.state.admission.queued@.len() - k
//@ before if changed
    proof {
        assert(tickets(self.state.admission.queued@, self.state.next_id.v as int)) by { assert(tickets(old(self).state.admission.queued@, old(self).state.next_id.v as int)); }
        if !changed { assert(self.state.admission.queued@ =~= old(self).state.admission.queued@); nothing_changed(old(self).state, self.state); }
    }
//@ exit
    proof { if changed { all_awake(self.state); } }
//@end

//@fn src/indexing_resources.rs :: IndexingResourceGovernor::mark_project_navigation_pending_if_active
//@ sig fn mark_project_navigation_pending_if_active(&mut self, project_root: &Path)
//@ rewrite? let mut admission = self.state.admission.lock(); ==>
//@ use common
//@ rewrite? admission. $f:i ==> self.state.admission.$f
//@ spec
    requires old(self).state.inv()
    ensures final(self).state.inv(), final(self).state.admission.leases@ == old(self).state.admission.leases@, final(self).state.admission.queued@ == old(self).state.admission.queued@,
        final(self).state.admission.active_project == old(self).state.admission.active_project,
        final(self).state.admission.active_project_navigation_pending == (old(self).state.admission.active_project_navigation_pending || old(self).state.admission.active_project == Some(*project_root))
//@ exit
    proof { if changed { all_awake(self.state); } else { nothing_changed(old(self).state, self.state); } }
//@end
//@fn src/indexing_resources.rs :: IndexingResourceGovernor::mark_project_navigation_complete_if_active
//@ sig fn mark_project_navigation_complete_if_active(&mut self, project_root: &Path)
//@ rewrite? let mut admission = self.state.admission.lock(); ==>
//@ use common
//@ rewrite? admission. $f:i ==> self.state.admission.$f
//@ spec
    requires old(self).state.inv()
    ensures final(self).state.inv(), final(self).state.admission.leases@ == old(self).state.admission.leases@, final(self).state.admission.queued@ == old(self).state.admission.queued@,
        final(self).state.admission.active_project == old(self).state.admission.active_project,
        final(self).state.admission.active_project_navigation_pending == (old(self).state.admission.active_project_navigation_pending && old(self).state.admission.active_project != Some(*project_root))
//@ exit
    proof { if changed { all_awake(self.state); } else { nothing_changed(old(self).state, self.state); } }
//@end
//@fn src/indexing_resources.rs :: IndexingResourceGovernor::project_parallel_cpu_lanes
//@ ret r
//@ rewrite? let admission = self.state.admission.lock(); ==> let admission = &self.state.admission;
//@ rewrite? self.state.policy.cpu_lanes().saturating_sub(1).max(1) ==> vp_max(self.state.policy.cpu_lanes().saturating_sub(1), 1)
//@ use common
//@ spec
    requires self.state.inv()
    ensures 1 <= r <= self.state.policy.cpu_lanes
//@end

//@fn src/indexing_resources.rs :: IndexingResourceGovernor::acquire
//@ sig fn acquire(&mut self, spec: IndexingWorkSpec, cancellation: Option<CancellationToken>, Ghost(was): Ghost<bool>) -> (r: Result<ActiveResourceLease, VpError>)
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite? cancellation.as_ref().is_some_and(CancellationToken::is_cancelled) ==> vp_is_cancelled(&cancellation, vp_text!("Ghost(was)"))
//@ rewrite? self.state.next_id.fetch_add(1, Ordering::Relaxed) ==> vp_fetch_add(&mut self.state.next_id)
//@ rewrite? assert!(id != u64::MAX) ==> if !(id != u64::MAX) { vp_abort() }
//@ rewrite? let mut admission = self.state.admission.lock(); let priority ==> vp_lock(&mut self.state, vp_text!("Ghost(id as int)"), vp_text!("Ghost(None)")); let priority
//@ rewrite? let mut admission = self.state.admission.lock(); ==> vp_lock(&mut self.state, vp_text!("Ghost(id as int)"), vp_text!("Ghost(Some(the_spec))")); vp_text!("proof { a0 = self.state; }");
//@ rewrite? drop(admission); ==>
//@ rewrite? let changed = self.state.changed.notified(); ==> let changed = vp_notified(); proof_armed!();
//@ rewrite? match cancellation.as_ref() { Some(cancellation) => { tokio::select! { biased; _ = cancellation.cancelled() => { $a:a } _ = changed => {} } } None => changed.await, } ==> if vp_await_or_cancel(&mut self.state, changed, &cancellation, vp_text!("Ghost(id as int)"), vp_text!("Ghost(the_spec)")) { $a }
//@ rewrite? record_cancelled_before_start(&self.state); ==> record_cancelled_before_start(&mut self.state, vp_text!("Ghost(id as int)"), vp_text!("Ghost(the_spec)"));
//@ rewrite? return Err($m:a); ==> { registration.drop(&mut self.state, vp_text!("Ghost(Some(the_spec))")); return Err(VpError); }
//@ rewrite? state: self.state.clone(), ==>
//@ rewrite? admission.queued.swap_remove(winner) ==> vp_take_turn(&mut admission, winner, vp_text!("Ghost(self.state.policy)"))
//@ rewrite? assert!($c) ==> vp_check($c)
//@ use common
//@ rewrite? &mut admission ==> &mut self.state.admission
//@ rewrite? &admission ==> &self.state.admission
//@ rewrite? admission. $f:i ==> self.state.admission.$f
//@ rewrite? proof_armed!(); ==> vp_text!("proof { armed = true; }");
//@ spec
    requires old(self).state.inv(), is_work(spec), was ==> cancellation.is_some()
    ensures final(self).state.inv(), final(self).state.policy == old(self).state.policy,
        // admitted work is what was asked for, and is on the account
        r.is_ok() ==> r->Ok_0.spec == spec && !r->Ok_0.completed && final(self).state.admission.leases@.len() > 0 && final(self).state.admission.leases@.last() == spec
            && final(self).state.changed.asleep@ == Set::<int>::empty(),
        r.is_err() ==> cancellation.is_some(),
        // cancelled work never starts
        was ==> r.is_err()
//@ entry
    let ghost the_spec = spec;
    let ghost mut armed = false;
    let ghost mut b0 = self.state;
    let ghost mut a0 = self.state;
//@ after if !(id != u64::MAX)
    proof { nothing_changed(old(self).state, self.state); assert forall|j: int| 0 <= j < self.state.admission.queued@.len() implies (#[trigger] self.state.admission.queued@[j]).id != id by {} }
//@ before let priority
    proof { b0 = self.state; }
//@ before let mut registration
    self.state.changed.asleep = Ghost(self.state.changed.asleep@.remove(id as int));
    proof {
        let q = self.state.admission.queued@;
        assert(q.drop_last() =~= b0.admission.queued@);
        assert(q[q.len() - 1].id == id);
        assert(nobody_forgotten(self.state)) by {
            reveal(nobody_forgotten);
            assert forall|i: int| turn(self.state.admission, self.state.policy, i) implies !self.state.changed.asleep@.contains((#[trigger] q[i]).id as int) by {
                if i < q.len() - 1 { pushed_turn(b0.admission, self.state.admission, self.state.policy, i); assert(b0.admission.queued@[i] == q[i]); }
            }
        }
    }
//@ loop 0
    invariant self.state.inv(), self.state.policy == old(self).state.policy, id < self.state.next_id.v,
        !self.state.changed.asleep@.contains(id as int), registration.id == id, !registration.admitted,
        exists|j: int| 0 <= j < self.state.admission.queued@.len() && (#[trigger] self.state.admission.queued@[j]).id == id && self.state.admission.queued@[j].spec == the_spec,
//@ loop 1
    invariant i_1 <= self.state.admission.queued@.len(), self.state == a0,
        any_1 ==> exists|j: int| #[trigger] bg_at(self.state.admission, self.state.policy, j),
    decreases self.state.admission.queued@.len() - i_1
//@ loopend 1
    proof { if !(exists|j: int| #[trigger] bg_at(self.state.admission, self.state.policy, j)) { assert(!bg_at(self.state.admission, self.state.policy, i_1 - 1)); } }
//@ after let queued = vp_take_turn
    proof { swap_removed(a0.admission.queued@, winner as int, self.state.next_id.v as int); }
//@ before return Ok
    proof { all_awake(self.state); }
//@ before if vp_await_or_cancel
    // fell through the critical section: about to sleep, with the notification armed before the look
    proof {
        assert(armed);
        assert(self.state == a0);
        armed = false;
        assert forall|i: int| turn(a0.admission, a0.policy, i) implies (#[trigger] a0.admission.queued@[i]).id != id by { }
    }
    self.state.changed.asleep = Ghost(self.state.changed.asleep@.insert(id as int));
    proof { may_sleep(a0, self.state, id as int); }
//@end
}
}
fn main() {}
