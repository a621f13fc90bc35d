// C06: admission order, limits and fairness of the indexing scheduler.
use vstd::prelude::*;
verus! {
// ---- stand-ins for dependency types (contracts assumed, see evidence) ----
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
pub type Path = PathBuf;
impl PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn vp_path_lt(a: &Path, b: &Path) -> bool { unimplemented!() }
/// Path equality is the abstract equality of the opaque path.
#[verifier::external_body]
fn vp_path_eq(a: Option<&Path>, b: Option<&Path>) -> (r: bool)
    ensures r == (a.is_some() == b.is_some() && (a.is_some() ==> *a->0 == *b->0)) { unimplemented!() }
fn vp_opt_ref(o: &Option<PathBuf>) -> (r: Option<&Path>)
    ensures r.is_some() == o.is_some(), r.is_some() ==> *r->0 == o->0
{ match o { Some(p) => Some(p), None => None } }
fn vp_opt_clone(o: &Option<PathBuf>) -> (r: Option<PathBuf>) ensures r == *o
{ match o { Some(p) => Some(p.clone()), None => None } }
/// BTreeSet<PathBuf>
#[verifier::external_body]
pub struct VpPathSet { _p: u8 }
impl VpPathSet {
    pub uninterp spec fn view(&self) -> Set<PathBuf>;
    #[verifier::external_body]
    fn new() -> (r: VpPathSet) ensures r@ == Set::<PathBuf>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, p: &Path) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, p: PathBuf) -> (r: bool) ensures r == !old(self)@.contains(p), final(self)@ == old(self)@.insert(p) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, p: &Path) -> (r: bool) ensures r == old(self)@.contains(*p), final(self)@ == old(self)@.remove(*p) { unimplemented!() }
}
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
/// An internal `assert!` of the code: proved never to fire.
fn vp_check(c: bool) requires c {}
#[verifier::external_body]
pub struct CancellationToken { _p: u8 }
/// `was`: cancelled before the call began; cancellation is permanent.
#[verifier::external_body]
fn vp_is_cancelled(c: &CancellationToken, Ghost(was): Ghost<bool>) -> (r: bool) ensures was ==> r { unimplemented!() }
pub struct AtomicU64 { pub v: u64 }
#[verifier::external_body]
fn vp_fetch_add(a: &mut AtomicU64) -> (r: u64)
    ensures r == old(a).v, old(a).v < u64::MAX ==> final(a).v == old(a).v + 1 { unimplemented!() }

//@const src/indexing_scheduler.rs :: MAX_PRIORITY_ADMISSIONS_WHILE_BACKGROUND_WAITS
//@enum src/indexing_scheduler.rs :: IndexingPriority ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct src/indexing_scheduler.rs :: QueueEntry
//@struct src/indexing_scheduler.rs :: SchedulerState ; subst BTreeSet<PathBuf> ==> VpPathSet
//@struct src/indexing_scheduler.rs :: SchedulerInner ; subst state: Mutex<$t> ==> state: $t ; subst changed: Notify ==> changed: VpNotify
//@struct src/indexing_scheduler.rs :: IndexingScheduler ; subst Arc<$t> ==> $t
//@struct src/indexing_scheduler.rs :: IndexingAdmission
//@struct src/indexing_scheduler.rs :: QueueRegistration ; drop inner
//@struct src/indexing_scheduler.rs :: IndexingPermit ; drop inner
//@struct src/indexing_scheduler.rs :: IndexingSchedulerSnapshot

/// tokio::sync::Notify: ghost set of tickets whose owner sleeps, i.e. will not look at the state before the next notification.
pub struct VpNotify { pub asleep: Ghost<Set<int>> }
impl VpNotify {
    /// wakes every waiter registered so far (a `notified()` future counts from its creation)
    fn notify_waiters(&mut self) ensures final(self).asleep@ == Set::<int>::empty()
    { self.asleep = Ghost(Set::<int>::empty()); }
}
struct VpNotified;
fn vp_notified() -> VpNotified { VpNotified }

// ---- specification ----
spec fn rank(p: IndexingPriority) -> int {
    match p { IndexingPriority::ActiveDocument => 0, IndexingPriority::OpenDocument => 1, IndexingPriority::Background => 2 }
}
spec fn prio_of(root: PathBuf, requested: IndexingPriority, active: Option<PathBuf>) -> IndexingPriority {
    if active == Some(root) { IndexingPriority::ActiveDocument } else { requested }
}
spec fn may_start(q: Seq<QueueEntry>, busy: Set<PathBuf>, i: int) -> bool { 0 <= i < q.len() && !busy.contains(q[i].project_root) }
spec fn bg_at(q: Seq<QueueEntry>, busy: Set<PathBuf>, i: int) -> bool { may_start(q, busy, i) && q[i].priority == IndexingPriority::Background }
spec fn before(x: QueueEntry, y: QueueEntry) -> bool {
    rank(x.priority) < rank(y.priority) || (x.priority == y.priority && x.insertion_order <= y.insertion_order)
}
spec fn plain_turn(q: Seq<QueueEntry>, busy: Set<PathBuf>, i: int) -> bool {
    may_start(q, busy, i) && forall|j: int| may_start(q, busy, j) ==> before(q[i], #[trigger] q[j])
}
/// whose turn it is: priority, then arrival, among projects not running; after
/// one priority admission past waiting background work, the oldest background work
spec fn turn(q: Seq<QueueEntry>, busy: Set<PathBuf>, burst: int, i: int) -> bool {
    if burst >= 1 && (exists|j: int| bg_at(q, busy, j)) {
        bg_at(q, busy, i) && forall|j: int| bg_at(q, busy, j) ==> q[i].insertion_order <= (#[trigger] q[j]).insertion_order
    } else { plain_turn(q, busy, i) }
}
spec fn tickets(q: Seq<QueueEntry>, next: int) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).id == q[i].insertion_order && q[i].id < next
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).id != (#[trigger] q[j]).id
}
spec fn has_ticket(q: Seq<QueueEntry>, id: u64) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).id == id }
spec fn turn_in(s: SchedulerInner, i: int) -> bool {
    s.state.active < s.concurrency_limit && turn(s.state.queued@, s.state.active_projects@, s.state.priority_admissions_while_background_waits as int, i)
}
#[verifier::opaque]
spec fn nobody_forgotten(s: SchedulerInner) -> bool {
    forall|i: int| turn_in(s, i) ==> !s.changed.asleep@.contains((#[trigger] s.state.queued@[i]).id as int)
}
impl SchedulerInner {
    /// Representation invariant, true whenever the lock is free.
    spec fn inv(&self) -> bool {
        let s = self.state;
        &&& self.concurrency_limit > 0 && s.active <= self.concurrency_limit
        // one running job per active project
        &&& s.active == s.active_projects@.len()
        &&& tickets(s.queued@, self.next_id.v as int)
        &&& s.priority_admissions_while_background_waits <= 1
        &&& forall|i: int| 0 <= i < s.queued@.len() ==> (#[trigger] s.queued@[i]).priority == prio_of(s.queued@[i].project_root, s.queued@[i].requested_priority, s.active_project)
        // nobody whose turn it is has been left asleep
        &&& nobody_forgotten(*self)
    }
}
proof fn all_awake(s: SchedulerInner) requires s.changed.asleep@ == Set::<int>::empty() ensures nobody_forgotten(s) { reveal(nobody_forgotten); }
proof fn nothing_changed(a: SchedulerInner, b: SchedulerInner)
    requires nobody_forgotten(a), a.concurrency_limit == b.concurrency_limit, a.state.queued@ == b.state.queued@, a.state.active == b.state.active, a.state.active_projects@ == b.state.active_projects@,
        a.state.priority_admissions_while_background_waits == b.state.priority_admissions_while_background_waits, a.changed.asleep@ == b.changed.asleep@
    ensures nobody_forgotten(b)
{ reveal(nobody_forgotten);
  assert forall|i: int| turn_in(b, i) implies !b.changed.asleep@.contains((#[trigger] b.state.queued@[i]).id as int) by { assert(turn_in(a, i)); assert(a.state.queued@[i] == b.state.queued@[i]); } }
proof fn may_sleep(a: SchedulerInner, b: SchedulerInner, id: int)
    requires nobody_forgotten(a), a.concurrency_limit == b.concurrency_limit, a.state == b.state, b.changed.asleep@ == a.changed.asleep@.insert(id),
        forall|i: int| turn_in(a, i) ==> (#[trigger] a.state.queued@[i]).id != id
    ensures nobody_forgotten(b)
{ reveal(nobody_forgotten);
  assert forall|i: int| turn_in(b, i) implies !b.changed.asleep@.contains((#[trigger] b.state.queued@[i]).id as int) by { assert(turn_in(a, i)); assert(a.state.queued@[i] == b.state.queued@[i]); } }
proof fn one_turn(q: Seq<QueueEntry>, busy: Set<PathBuf>, burst: int, i: int, j: int, next: int)
    requires turn(q, busy, burst, i), turn(q, busy, burst, j), tickets(q, next)
    ensures i == j
{
    let (x, y) = (q[i], q[j]);
    if burst >= 1 && (exists|j: int| bg_at(q, busy, j)) {
        assert(bg_at(q, busy, i) && bg_at(q, busy, j));
        assert(x.insertion_order <= y.insertion_order && y.insertion_order <= x.insertion_order);
    } else { assert(before(x, y) && before(y, x)); }
    assert(x.id == y.id);
    if i < j { assert(q[i].id != q[j].id); } else if j < i { assert(q[j].id != q[i].id); }
}
/// What other threads may do between two of our critical sections: the
/// invariant holds, our own queue entry and our being awake are ours alone.
spec fn others(a: SchedulerInner, b: SchedulerInner, id: int, mine: Option<PathBuf>) -> bool {
    &&& b.inv() && b.concurrency_limit == a.concurrency_limit && b.next_id.v >= a.next_id.v
    &&& (mine.is_some() ==> entry_of(b.state.queued@, id, mine->0))
    &&& (mine.is_none() ==> forall|j: int| 0 <= j < b.state.queued@.len() ==> (#[trigger] b.state.queued@[j]).id != id)
    &&& (!a.changed.asleep@.contains(id) ==> !b.changed.asleep@.contains(id))
}
spec fn entry_of(q: Seq<QueueEntry>, id: int, root: PathBuf) -> bool { exists|j: int| 0 <= j < q.len() && (#[trigger] q[j]).id == id && q[j].project_root == root }
#[verifier::external_body]
fn vp_lock(s: &mut SchedulerInner, Ghost(id): Ghost<int>, Ghost(mine): Ghost<Option<PathBuf>>)
    requires old(s).inv(), mine.is_some() ==> entry_of(old(s).state.queued@, id, mine->0), id < old(s).next_id.v,
        mine.is_none() ==> forall|j: int| 0 <= j < old(s).state.queued@.len() ==> (#[trigger] old(s).state.queued@[j]).id != id
    ensures others(*old(s), *final(s), id, mine)
{ unimplemented!() }
/// `select!` of cancellation and notification; true: cancelled.
#[verifier::external_body]
fn vp_await_or_cancel(s: &mut SchedulerInner, n: VpNotified, c: &CancellationToken, Ghost(was): Ghost<bool>, Ghost(id): Ghost<int>, Ghost(mine): Ghost<PathBuf>) -> (r: bool)
    requires old(s).inv()
    ensures others(*old(s), *final(s), id, Some(mine)), !r ==> !final(s).changed.asleep@.contains(id), was ==> r
{ unimplemented!() }

struct VpKey<'a> { rank: u8, order: u64, path: &'a Path }
spec fn key_lt(a: VpKey, b: VpKey) -> bool { a.rank < b.rank || (a.rank == b.rank && a.order < b.order) }
/// derived `Ord` of a tuple: lexicographic
fn vp_key_lt(a: VpKey, b: VpKey) -> (r: bool) ensures key_lt(a, b) ==> r, key_lt(b, a) ==> !r
{ if a.rank < b.rank { true } else if b.rank < a.rank { false } else if a.order < b.order { true } else if b.order < a.order { false } else { vp_path_lt(a.path, b.path) } }
fn vp_rank(p: IndexingPriority) -> (r: u8) ensures r == rank(p)
{ match p { IndexingPriority::ActiveDocument => 0, IndexingPriority::OpenDocument => 1, IndexingPriority::Background => 2 } }
fn vp_key2<'a>(o: u64, p: &'a Path) -> (r: VpKey<'a>) ensures r.rank == 0, r.order == o { VpKey { rank: 0, order: o, path: p } }
fn vp_key3<'a>(q: IndexingPriority, o: u64, p: &'a Path) -> (r: VpKey<'a>) ensures r.rank == rank(q), r.order == o { VpKey { rank: vp_rank(q), order: o, path: p } }

/// `Vec::swap_remove` at the admission site: only the entry whose turn it is leaves the queue to run.
fn vp_take_turn(q: &mut Vec<QueueEntry>, i: usize, Ghost(busy): Ghost<Set<PathBuf>>, Ghost(burst): Ghost<int>) -> (r: QueueEntry)
    requires turn(old(q)@, busy, burst, i as int), i < old(q)@.len()
    ensures r == old(q)@[i as int], final(q)@ == old(q)@.update(i as int, old(q)@.last()).drop_last()
{ q.swap_remove(i) }
proof fn swap_removed(q: Seq<QueueEntry>, i: int, next: int)
    requires 0 <= i < q.len(), tickets(q, next)
    ensures ({ let r = q.update(i, q.last()).drop_last();
        tickets(r, next) && kept(q, r, q[i].id as int) && !has_ticket(r, q[i].id) && (forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == (if j == i { q.last() } else { q[j] })) })
{
    let r = q.update(i, q.last()).drop_last();
    assert forall|k: int| 0 <= k < q.len() && q[k].id != q[i].id implies exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]) == (#[trigger] q[k]) by {
        if k == q.len() - 1 { assert(r[i] == q[k]); } else { assert(r[k] == q[k]); }
    }
}
/// Entries of other waiters survive.
spec fn kept(q: Seq<QueueEntry>, r: Seq<QueueEntry>, but: int) -> bool {
    forall|i: int| 0 <= i < q.len() && q[i].id != but ==> exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]) == (#[trigger] q[i])
}
#[verifier::external_body]
fn vp_take(v: &mut Vec<QueueEntry>, k: usize) -> (r: QueueEntry) requires k < old(v)@.len() ensures r == old(v)@[k as int], final(v)@ == old(v)@ { unimplemented!() }
fn vp_put(v: &mut Vec<QueueEntry>, k: usize, q: QueueEntry) requires k < old(v)@.len() ensures final(v)@ == old(v)@.update(k as int, q) { v.set(k, q); }

//@rules common
//@ $x:e.active_project.as_deref() ==> vp_opt_ref(&$x.active_project)
//@ active_project.as_deref() ==> vp_opt_ref(&active_project)
//@ vp_opt_ref($a:a) != Some($b) ==> !vp_path_eq(vp_opt_ref($a), Some($b))
//@ entry.project_root.as_os_str() ==> &entry.project_root
//@ (entry.insertion_order, $p) ==> vp_key2(entry.insertion_order, $p)
//@ (entry.priority, entry.insertion_order, $p) ==> vp_key3(entry.priority, entry.insertion_order, $p)
//@ $x:e.iter().enumerate().filter(|(_, $q:i)| $c:a).min_by_key(|(_, $p:i)| $k:a).map(|(index, _)| index) ==> { let mut i__fresh: usize = 0; let mut best__fresh: Option<usize> = None; while i__fresh < $x.len() { let $q = &$x[i__fresh]; if $c { let better = match best__fresh { None => true, Some(j) => vp_key_lt({ let $p = &$x[i__fresh]; $k }, { let $p = &$x[j]; $k }) }; if better { best__fresh = Some(i__fresh); } } i__fresh = i__fresh + 1; } best__fresh }
//@ let $v:i = $x:e.iter().any(|$q:i| $c:a); ==> let $v = { let mut i__fresh: usize = 0; let mut any__fresh: bool = false; while i__fresh < $x.len() { let $q = &$x[i__fresh]; if $c { any__fresh = true; } i__fresh = i__fresh + 1; } any__fresh };
//@ if let Some(index) = $x:e.iter().position(|entry| $c) $b:b ==> let vp_pos = { let mut i__fresh: usize = 0; let mut at__fresh: Option<usize> = None; while i__fresh < $x.len() { let entry = &$x[i__fresh]; if at__fresh.is_none() && $c { at__fresh = Some(i__fresh); } i__fresh = i__fresh + 1; } at__fresh }; if let Some(index) = vp_pos $b
//@ $x:e.checked_add($n).expect("") ==> (match $x.checked_add($n) { Some(v) => v, None => vp_abort() })
//@end

//@fn src/indexing_scheduler.rs :: effective_priority
//@ ret r
//@ rewrite? active_project == Some(project_root) ==> vp_path_eq(active_project, Some(project_root))
//@ spec
    ensures active_project.is_some() ==> r == prio_of(*project_root, requested_priority, Some(*active_project->0)), active_project.is_none() ==> r == prio_of(*project_root, requested_priority, None)
//@end
//@fn src/indexing_scheduler.rs :: best_admissible_entry_index
//@ sig fn best_admissible_entry_index(entries: &Vec<QueueEntry>, active_projects: &VpPathSet) -> (r: Option<usize>)
//@ use common
//@ spec
    requires exists|next: int| tickets(entries@, next)
    ensures r.is_some() ==> plain_turn(entries@, active_projects@, r->0 as int), r.is_none() ==> forall|j: int| !may_start(entries@, active_projects@, j)
//@ loop 0
    invariant i_1 <= entries@.len(),
        best_1.is_some() ==> best_1->0 < i_1 && may_start(entries@, active_projects@, best_1->0 as int) && forall|j: int| j < i_1 && may_start(entries@, active_projects@, j) ==> before(entries@[best_1->0 as int], #[trigger] entries@[j]),
        best_1.is_none() ==> forall|j: int| j < i_1 ==> !may_start(entries@, active_projects@, j),
    decreases entries@.len() - i_1
//@end
//@fn src/indexing_scheduler.rs :: best_admissible_entry_index_with_fairness
//@ sig fn best_admissible_entry_index_with_fairness(entries: &Vec<QueueEntry>, active_projects: &VpPathSet, priority_admissions_while_background_waits: usize) -> (r: Option<usize>)
//@ rewrite? if let Some(background) = $x:a.map(|(index, _)| index) $b:b ==> let vp_best = $x.map(|(index, _)| index); if let Some(background) = vp_best $b
//@ use common
//@ spec
    requires exists|next: int| tickets(entries@, next)
    ensures r.is_some() ==> turn(entries@, active_projects@, priority_admissions_while_background_waits as int, r->0 as int) && r->0 < entries@.len(), r.is_none() ==> forall|j: int| !may_start(entries@, active_projects@, j)
//@ loop 0
    invariant i_1 <= entries@.len(),
        best_1.is_some() ==> best_1->0 < i_1 && bg_at(entries@, active_projects@, best_1->0 as int) && forall|j: int| j < i_1 && bg_at(entries@, active_projects@, j) ==> entries@[best_1->0 as int].insertion_order <= (#[trigger] entries@[j]).insertion_order,
        best_1.is_none() ==> forall|j: int| j < i_1 ==> !bg_at(entries@, active_projects@, j)
    decreases entries@.len() - i_1
//@end

impl QueueRegistration {
//@fn src/indexing_scheduler.rs :: Drop for QueueRegistration::drop
//@ sig fn drop(&mut self, inner: &mut SchedulerInner, Ghost(mine): Ghost<Option<PathBuf>>)
//@ rewrite? let mut state = self.inner.state.lock(); ==> vp_lock(inner, Ghost(self.id as int), Ghost(mine)); vp_text!("let ghost q0 = inner.state.queued@");
//@ rewrite? drop(state); ==>
//@ rewrite? self.inner ==> inner
//@ use common
//@ rewrite? state. $f:i ==> inner.state.$f
//@ spec
    requires old(inner).inv(), old(self).id < old(inner).next_id.v,
        mine.is_some() ==> entry_of(old(inner).state.queued@, old(self).id as int, mine->0),
        mine.is_none() ==> !has_ticket(old(inner).state.queued@, old(self).id),
        old(self).admitted ==> mine.is_none()
    ensures final(inner).inv(), !has_ticket(final(inner).state.queued@, old(self).id), final(inner).concurrency_limit == old(inner).concurrency_limit
//@ entry
    proof { if mine.is_none() { assert forall|j: int| 0 <= j < inner.state.queued@.len() implies (#[trigger] inner.state.queued@[j]).id != self.id by { if inner.state.queued@[j].id == self.id { assert(has_ticket(inner.state.queued@, self.id)); } } } }
//@ loop 0
    invariant i_1 <= inner.state.queued@.len(), self.id == old(self).id,
        at_1.is_some() ==> at_1->0 < inner.state.queued@.len() && inner.state.queued@[at_1->0 as int].id == self.id,
        at_1.is_none() ==> forall|j: int| 0 <= j < i_1 ==> (#[trigger] inner.state.queued@[j]).id != self.id
    decreases inner.state.queued@.len() - i_1
//@ after inner.state.queued.swap_remove
    proof { swap_removed(q0, index as int, inner.next_id.v as int); }
//@ after inner.changed.notify_waiters
    proof { all_awake(*inner); }
//@ exit
    proof { assert(!has_ticket(inner.state.queued@, self.id)); }
//@end
}

impl IndexingPermit {
//@fn src/indexing_scheduler.rs :: Drop for IndexingPermit::drop
//@ sig fn drop(&mut self, inner: &mut SchedulerInner)
//@ rewrite? let mut state = self.inner.state.lock(); ==>
//@ rewrite? drop(state); ==>
//@ rewrite? self.inner ==> inner
//@ rewrite? assert!($c) ==> vp_check($c)
//@ rewrite? state. $f:i ==> inner.state.$f
//@ spec
    // a live permit is the registration of its project
    requires old(inner).inv(), old(inner).state.active_projects@.contains(old(self).project_root)
    ensures final(inner).inv(), final(inner).concurrency_limit == old(inner).concurrency_limit, final(inner).state.queued@ == old(inner).state.queued@,
        final(inner).state.active == old(inner).state.active - 1, final(inner).state.active_projects@ == old(inner).state.active_projects@.remove(old(self).project_root)
//@ entry
    proof { vstd::set_lib::lemma_set_empty_equivalency_len(inner.state.active_projects@); }
//@ exit
    proof { all_awake(*inner); }
//@end
}

impl IndexingScheduler {
//@fn src/indexing_scheduler.rs :: IndexingScheduler::new
//@ ret r
//@ rewrite? assert!($c) ==> if !($c) { vp_abort() }
//@ rewrite? AtomicU64::new(0) ==> AtomicU64 { v: 0 }
//@ rewrite? Arc::new($b) ==> $b
//@ rewrite? Mutex::new($b) ==> $b
//@ rewrite? BTreeSet::new() ==> VpPathSet::new()
//@ rewrite? Notify::new() ==> VpNotify { asleep: Ghost(Set::empty()) }
//@ spec
    ensures r.inner.inv(), r.inner.concurrency_limit == concurrency_limit, r.inner.state.active == 0, r.inner.state.queued@.len() == 0
//@ exit
    proof { all_awake(__vp_result.inner); }
//@end
//@fn src/indexing_scheduler.rs :: IndexingScheduler::register_cancellable
//@ sig fn register_cancellable(&mut self, project_root: PathBuf, priority: IndexingPriority, cancellation: CancellationToken) -> (r: IndexingAdmission)
//@ rewrite? self.inner.next_id.fetch_add(1, Ordering::Relaxed) ==> vp_fetch_add(&mut self.inner.next_id)
//@ rewrite? assert!(id != u64::MAX) ==> if !(id != u64::MAX) { vp_abort() }
//@ rewrite? let mut state = self.inner.state.lock(); ==> vp_lock(&mut self.inner, vp_text!("Ghost(id as int)"), vp_text!("Ghost(None)")); proof_b0!();
//@ rewrite? inner: self.inner.clone(), ==>
//@ use common
//@ rewrite? state. $f:i ==> self.inner.state.$f
//@ rewrite? proof_b0!(); ==> vp_text!("proof { b0 = self.inner; }");
//@ spec
    requires old(self).inner.inv()
    ensures final(self).inner.inv(), r.registration.id < final(self).inner.next_id.v, !r.registration.admitted, r.cancellation == cancellation,
        entry_of(final(self).inner.state.queued@, r.registration.id as int, project_root), final(self).inner.concurrency_limit == old(self).inner.concurrency_limit
//@ entry
    let ghost mut b0 = self.inner;
    let ghost the_root = project_root;
//@ after if !(id != u64::MAX)
    proof { nothing_changed(old(self).inner, self.inner); assert forall|j: int| 0 <= j < self.inner.state.queued@.len() implies (#[trigger] self.inner.state.queued@[j]).id != id by {} }
//@ before self.inner.changed.notify_waiters
    proof { let q = self.inner.state.queued@; assert(q.drop_last() =~= b0.state.queued@); assert(q[q.len() - 1].id == id && q[q.len() - 1].project_root == the_root); }
//@ after self.inner.changed.notify_waiters
    proof { all_awake(self.inner); }
//@end
//@fn src/indexing_scheduler.rs :: IndexingScheduler::prioritize_active_project
//@ sig fn prioritize_active_project(&mut self, project_root: &Path)
//@ rewrite? let mut state = self.inner.state.lock(); ==>
//@ rewrite? state.active_project.clone() ==> vp_opt_clone(&self.inner.state.active_project)
//@ rewrite? project_root.to_path_buf() ==> project_root.clone()
//@ use common
//@ rewrite? for entry in &mut state.queued { $b:a } ==> let mut k: usize = 0; while k < state.queued.len() { let mut entry = vp_take(&mut state.queued, k); $b vp_put(&mut state.queued, k, entry); k = k + 1; }
//@ rewrite? state. $f:i ==> self.inner.state.$f
//@ spec
    requires old(self).inner.inv()
    ensures final(self).inner.inv(), final(self).inner.concurrency_limit == old(self).inner.concurrency_limit,
        final(self).inner.state.active == old(self).inner.state.active, final(self).inner.state.active_projects@ == old(self).inner.state.active_projects@,
        final(self).inner.state.active_project == Some(*project_root),
        // no work is lost, added or reordered: only priorities follow the active project
        final(self).inner.state.queued@.len() == old(self).inner.state.queued@.len(),
        forall|i: int| 0 <= i < old(self).inner.state.queued@.len() ==> (#[trigger] final(self).inner.state.queued@[i]) == (QueueEntry { priority: prio_of(old(self).inner.state.queued@[i].project_root, old(self).inner.state.queued@[i].requested_priority, Some(*project_root)), ..old(self).inner.state.queued@[i] }),
//@ loop 0
    invariant k <= self.inner.state.queued@.len(), self.inner.state.queued@.len() == old(self).inner.state.queued@.len(), old(self).inner.inv(),
        active_project == Some(*project_root), self.inner.state.active_project == active_project,
        self.inner.concurrency_limit == old(self).inner.concurrency_limit, self.inner.next_id == old(self).inner.next_id, self.inner.changed == old(self).inner.changed,
        self.inner.state == (SchedulerState { queued: self.inner.state.queued, active_project: self.inner.state.active_project, reprioritizations: self.inner.state.reprioritizations, ..old(self).inner.state }),
        forall|i: int| 0 <= i < k ==> (#[trigger] self.inner.state.queued@[i]) == (QueueEntry { priority: prio_of(old(self).inner.state.queued@[i].project_root, old(self).inner.state.queued@[i].requested_priority, Some(*project_root)), ..old(self).inner.state.queued@[i] }),
        forall|i: int| k <= i < old(self).inner.state.queued@.len() ==> (#[trigger] self.inner.state.queued@[i]) == old(self).inner.state.queued@[i],
        !changed ==> self.inner.state.active_project == old(self).inner.state.active_project
            && forall|i: int| 0 <= i < k ==> (#[trigger] self.inner.state.queued@[i]) == old(self).inner.state.queued@[i],
    decreases self.inner.state.queued@.len() - k
//@ before if changed
    proof {
        assert(tickets(self.inner.state.queued@, self.inner.next_id.v as int)) by { assert(tickets(old(self).inner.state.queued@, old(self).inner.next_id.v as int)); }
        if !changed { assert(self.inner.state.queued@ =~= old(self).inner.state.queued@); nothing_changed(old(self).inner, self.inner); }
    }
//@ exit
    proof { if changed { all_awake(self.inner); } }
//@end
//@fn src/indexing_scheduler.rs :: IndexingScheduler::snapshot
//@ ret r
//@ rewrite? let state = self.inner.state.lock(); ==> let state = &self.inner.state;
//@ rewrite? state.active_project.clone() ==> vp_opt_clone(&state.active_project)
//@ spec
    requires self.inner.inv()
    ensures r.active == self.inner.state.active_projects@.len(), r.active <= r.concurrency_limit, r.queued == self.inner.state.queued@.len(), r.concurrency_limit == self.inner.concurrency_limit, r.active_project == self.inner.state.active_project
//@end
}

impl IndexingAdmission {
//@fn src/indexing_scheduler.rs :: IndexingAdmission::wait
//@ sig fn wait(mut this: IndexingAdmission, inner: &mut SchedulerInner, Ghost(root): Ghost<PathBuf>, Ghost(was): Ghost<bool>) -> (r: Option<IndexingPermit>)
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite? let changed = self.registration.inner.changed.notified(); ==> let changed = vp_notified(); proof_armed!();
//@ rewrite? let mut state = self.registration.inner.state.lock(); ==> vp_lock(inner, vp_text!("Ghost(this.registration.id as int)"), vp_text!("Ghost(Some(root))")); proof_a0!();
//@ rewrite? tokio::select! { biased; _ = self.cancellation.cancelled() => return None, _ = changed => {} } ==> if vp_await_or_cancel(inner, changed, &self.cancellation, vp_text!("Ghost(was)"), vp_text!("Ghost(this.registration.id as int)"), vp_text!("Ghost(root)")) { return None; }
//@ rewrite? self.cancellation.is_cancelled() ==> vp_is_cancelled(&self.cancellation, vp_text!("Ghost(was)"))
//@ rewrite? return None; ==> { this.registration.drop(inner, vp_text!("Ghost(Some(root))")); return None; }
//@ rewrite? state.queued.swap_remove(winner) ==> vp_take_turn(&mut state.queued, winner, vp_text!("Ghost(inner.state.active_projects@)"), vp_text!("Ghost(inner.state.priority_admissions_while_background_waits as int)"))
//@ rewrite? inner: self.registration.inner.clone(), ==>
//@ rewrite? drop(state); ==>
//@ rewrite? self.registration.inner ==> inner
//@ rewrite? self. ==> this.
//@ rewrite? assert!($c) ==> vp_check($c)
//@ use common
//@ rewrite? state. $f:i ==> inner.state.$f
//@ rewrite? proof_armed!(); ==> vp_text!("proof { armed = true; }");
//@ rewrite? proof_a0!(); ==> vp_text!("proof { a0 = *inner; }");
//@ spec
    requires old(inner).inv(), this.registration.id < old(inner).next_id.v, !this.registration.admitted, entry_of(old(inner).state.queued@, this.registration.id as int, root), !old(inner).changed.asleep@.contains(this.registration.id as int)
    ensures final(inner).inv(), final(inner).concurrency_limit == old(inner).concurrency_limit,
        // the permit is for the project that asked, and is its registration
        r.is_some() ==> r->0.project_root == root && final(inner).state.active_projects@.contains(root) && final(inner).changed.asleep@ == Set::<int>::empty(),
        // a cancelled waiter never runs, and whatever happens nothing of it stays queued
        was ==> r.is_none(),
        !has_ticket(final(inner).state.queued@, this.registration.id)
//@ entry
    let ghost mut armed = false;
    let ghost id0 = this.registration.id;
    let ghost mut a0 = *inner;
//@ loop 0
    invariant inner.inv(), inner.concurrency_limit == old(inner).concurrency_limit, this.registration.id < inner.next_id.v, this.registration.id == id0,
        !inner.changed.asleep@.contains(this.registration.id as int), !this.registration.admitted,
        entry_of(inner.state.queued@, this.registration.id as int, root),
//@ loop 1
    invariant i_1 <= inner.state.queued@.len(), *inner == a0,
        any_1 ==> exists|j: int| #[trigger] bg_at(inner.state.queued@, inner.state.active_projects@, j),
    decreases inner.state.queued@.len() - i_1
//@ loopend 1
    proof { if !(exists|j: int| #[trigger] bg_at(inner.state.queued@, inner.state.active_projects@, j)) { assert(!bg_at(inner.state.queued@, inner.state.active_projects@, i_1 - 1)); } }
//@ after let admitted = vp_take_turn
    proof { swap_removed(a0.state.queued@, winner as int, inner.next_id.v as int); }
//@ before return Some
    proof { all_awake(*inner); assert(!has_ticket(inner.state.queued@, this.registration.id)); }
//@ before if vp_await_or_cancel
    // fell through the critical section: about to sleep, with the notification armed before the look
    proof {
        assert(armed);
        assert(*inner == a0);
        armed = false;
        assert forall|i: int| turn_in(a0, i) implies (#[trigger] a0.state.queued@[i]).id != this.registration.id by { }
    }
    inner.changed.asleep = Ghost(inner.changed.asleep@.insert(this.registration.id as int));
    proof { may_sleep(a0, *inner, this.registration.id as int); }
//@end
}
}
fn main() {}
