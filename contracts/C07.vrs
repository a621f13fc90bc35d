// C07 (blocking): BlockingBoundedSingleFlightCache.
use vstd::prelude::*;
verus! {
//@include flight_types.vrs
struct VpCond { asleep: Ghost<bool> }
impl VpCond { fn notify_all(&mut self) ensures !final(self).asleep@ { self.asleep = Ghost(false); } }
//@enum src/single_flight.rs :: BlockingFlightCompletion ; subst BlockingFlightCompletion<V, E> ==> BlockingFlightCompletion ; subst Result<Arc<V>, Arc<E>> ==> Result<V, E>
//@struct src/single_flight.rs :: BlockingFlightState ; subst BlockingFlightState<V, E> ==> BlockingFlightState ; subst Mutex<BlockingFlightCompletion<V, E>> ==> BlockingFlightCompletion ; subst ready: Condvar ==> ready: VpCond
//@struct src/single_flight.rs :: BlockingBoundedFlightEntry ; subst BlockingBoundedFlightEntry<V, E> ==> BlockingBoundedFlightEntry ; subst Arc<BlockingFlightState<V, E>> ==> CellRef
//@struct src/single_flight.rs :: SingleFlightCounters ; subst AtomicU64 ==> u64
//@struct src/single_flight.rs :: BlockingBoundedSingleFlightCache ; subst BlockingBoundedSingleFlightCache<K, V, E> ==> BlockingBoundedSingleFlightCache ; subst Arc<Mutex<HashMap<K, BlockingBoundedFlightEntry<V, E>>>> ==> VpMap ; subst Arc<SingleFlightCounters> ==> SingleFlightCounters ; subst Arc<AtomicU64> ==> u64 ; drop weight ; add world: VpWorld
type Cell = BlockingFlightState;
type Entry = BlockingBoundedFlightEntry;
type Cache = BlockingBoundedSingleFlightCache;
spec fn cell_of(e: Entry) -> CellRef { e.cell }
spec fn gen_of(e: Entry) -> int { e.generation as int }
spec fn bounded() -> bool { true }
spec fn st(c: Cell) -> St { match c.completion { BlockingFlightCompletion::Pending => St::Pending, BlockingFlightCompletion::Completed(r) => St::Done(r), BlockingFlightCompletion::ProducerPanicked => St::Panicked } }
spec fn asleep(c: Cell) -> bool { c.ready.asleep@ }
spec fn max_n(c: Cache) -> int { c.max_entries as int }
spec fn max_w(c: Cache) -> int { c.max_weight as int }
spec fn gen_now(c: Cache) -> int { c.next_generation as int }
//@include flight.vrs

//@include flight_cache.vrs
#[verifier::external_body]
fn vp_unwind(s: &Cache, p: Payload) -> ! requires s.inv() { unimplemented!() }
#[verifier::external_body]
fn vp_cond_wait(s: &mut Cache, c: &CellRef)
    requires old(s).inv(), old(s).world.heap.has(c.id@), asleep(old(s).world.heap.cells()[c.id@]), st(old(s).world.heap.cells()[c.id@]) == St::Pending
    ensures others(*old(s), *final(s), None, 0) { unimplemented!() }
fn vp_fall_asleep(s: &mut Cache, c: &CellRef)
    requires old(s).inv(), old(s).world.heap.has(c.id@), st(old(s).world.heap.cells()[c.id@]) == St::Pending
    ensures others(*old(s), *final(s), None, 0), asleep(final(s).world.heap.cells()[c.id@]), st(final(s).world.heap.cells()[c.id@]) == St::Pending
{
    let mut x = s.world.heap.take(c);
    x.ready.asleep = Ghost(true);
    s.world.heap.put(c, x);
    proof { cells_same(*old(s), *s); }
}
impl BlockingFlightState {
//@fn src/single_flight.rs :: BlockingFlightState::new
//@ ret r
//@ rewrite? Mutex::new($b) ==> $b
//@ rewrite? Condvar::new() ==> VpCond { asleep: Ghost(false) }
//@ spec
    ensures st(r) == St::Pending, !asleep(r)
//@end
//@fn src/single_flight.rs :: BlockingFlightState::is_completed_successfully
//@ ret r
//@ rewrite? &*self.completion.lock() ==> &self.completion
//@ spec
    ensures r == (st(*self) matches St::Done(Ok(_)))
//@end
//@fn src/single_flight.rs :: BlockingFlightState::complete
//@ sig fn complete(&mut self, result: Result<V, E>)
//@ rewrite? let mut completion = self.completion.lock(); ==>
//@ rewrite? *completion ==> self.completion
//@ rewrite? assert!($c) ==> vp_check($c)
//@ spec
    requires st(*old(self)) == St::Pending
    ensures st(*final(self)) == St::Done(result), !asleep(*final(self))
//@end
//@fn src/single_flight.rs :: BlockingFlightState::complete_panicked
//@ sig fn complete_panicked(&mut self)
//@ rewrite? let mut completion = self.completion.lock(); ==>
//@ rewrite? *completion ==> self.completion
//@ rewrite? assert!($c) ==> vp_check($c)
//@ spec
    requires st(*old(self)) == St::Pending
    ensures st(*final(self)) == St::Panicked, !asleep(*final(self))
//@end
}
//@fn src/single_flight.rs :: blocking_completed_weight
//@ sig fn blocking_completed_weight(entries: &VpMap, heap: &VpHeap) -> (r: u64)
//@ rewrite? $x:e.values().filter_map(|entry| match &*entry.cell.completion.lock() { $arms:a }).try_fold(0u64, |total, value| total.checked_add(value)).expect("") ==> { let mut total: u64 = 0; let mut k: usize = 0; while k < $x.len() { let entry = $x.nth(k); let vp_w = match &heap.peek(&entry.cell).completion { $arms }; if let Some(value) = vp_w { match total.checked_add(value) { Some(t) => { total = t; } None => vp_abort() } } k = k + 1; } total }
//@ rewrite? weight(value) ==> vp_weight(value)
//@ spec
    requires forall|i: int| 0 <= i < entries@.len() ==> heap.has(cid(#[trigger] entries@[i]))
    ensures r == wsum(entries@, heap.cells(), entries@.len() as int)
//@ loop 0
    invariant k <= entries@.len(), total == wsum(entries@, heap.cells(), k as int), forall|i: int| 0 <= i < entries@.len() ==> heap.has(cid(#[trigger] entries@[i]))
    decreases entries@.len() - k
//@ before if let Some(value) = vp_w
    proof { assert(heap.has(cid(entries@[k as int]))); }
//@end
impl BlockingBoundedSingleFlightCache {
//@fn src/single_flight.rs :: BlockingBoundedSingleFlightCache::remove_if_owned
//@ sig fn remove_if_owned(&mut self, key: &K, cell: &CellRef)
//@ rewrite? let mut entries = self.entries.lock(); ==>
//@ rewrite? if $x:e.get(key).is_some_and(|current| Arc::ptr_eq(&current.cell, cell)) $b:b ==> if match $x.get(key) { Some(current) => vp_ptr_eq(&current.cell, cell), None => false } $b
//@ rewrite? entries. ==> self.entries.
//@ spec
    requires distinct_keys(old(self).entries@)
    ensures *final(self) == (Cache { entries: final(self).entries, ..*old(self) }),
        // exactly this flight's entry goes, and only it
        (exists|i: int| at_key(old(self).entries@, *key, i) && cid(old(self).entries@[i]) == cell.id@) ==> exists|i: int| #[trigger] at_key(old(self).entries@, *key, i) && cid(old(self).entries@[i]) == cell.id@ && final(self).entries@ == old(self).entries@.remove(i),
        !(exists|i: int| at_key(old(self).entries@, *key, i) && cid(old(self).entries@[i]) == cell.id@) ==> final(self).entries@ == old(self).entries@,
//@ exit
    proof {
        let es = old(self).entries@;
        assert forall|i: int, j: int| at_key(es, *key, i) && at_key(es, *key, j) implies i == j by { if i < j { assert(es[i].0 != es[j].0); } else if j < i { assert(es[j].0 != es[i].0); } }
    }
//@end

//@fn src/single_flight.rs :: BlockingBoundedSingleFlightCache::evict_completed_to_limits
//@ sig fn evict_completed_to_limits(&mut self)
//@ rewrite? let mut entries = self.entries.lock(); ==> vp_once!();
//@ rewrite? blocking_completed_weight(&entries, self.weight.as_ref()) ==> blocking_completed_weight(&self.entries, &self.world.heap)
//@ rewrite? let completed_entries = entries.values().filter(|entry| $c).count(); ==> let completed_entries = { let mut n: usize = 0; let mut k: usize = 0; while k < self.entries.len() { let entry = self.entries.nth(k); if $c { n = n + 1; } k = k + 1; } n };
//@ rewrite? let Some(oldest_key) = entries.iter().filter(|(_, entry)| $c:a).min_by_key(|(_, $e:i)| $k:a).map(|(key, _)| key.clone()) else { break; }; ==> let mut best: Option<usize> = None; let mut k: usize = 0; while k < self.entries.len() { let entry = self.entries.nth(k); if $c { let better = match best { None => true, Some(b) => { let vp_x = { let $e = self.entries.nth(k); $k }; let vp_y = { let $e = self.entries.nth(b); $k }; vp_x < vp_y } }; if better { best = Some(k); } } k = k + 1; } let vp_oldest = match best { Some(b) => Some(self.entries.nth_key(b).clone()), None => None }; proof_best!(); if vp_oldest.is_none() { break; } let oldest_key = vp_oldest.unwrap();
//@ rewrite? entry.cell.is_completed_successfully() ==> self.world.heap.peek(&entry.cell).is_completed_successfully()
//@ rewrite? self.counters.evictions.fetch_add(1, Ordering::Relaxed); ==> vp_count(&mut self.counters.evictions);
//@ rewrite? entries.remove(&oldest_key); ==> self.entries.remove(&oldest_key); proof_removed!();
//@ rewrite? vp_once!(); ==> vp_text!("proof { assert(!locked); locked = true; }");
//@ rewrite? proof_best!(); ==> vp_text!("proof { found_oldest(*self, best); }");
//@ rewrite? proof_removed!(); ==> vp_text!("proof { assert(at_key(es0, es0[best->0 as int].0, best->0 as int)); evicted(old(self).entries@, es0, self.entries@, self.world, self.next_generation as int, best->0 as int); last = es0; }");
//@ spec
    requires wf_entries(old(self).entries@, old(self).world.heap.keys(), old(self).world.heap.next(), old(self).next_generation as int)
    ensures *final(self) == (Cache { entries: final(self).entries, counters: final(self).counters, ..*old(self) }),
        final(self).counters == (SingleFlightCounters { evictions: final(self).counters.evictions, ..old(self).counters }),
        final(self).counters.evictions - old(self).counters.evictions == old(self).entries@.len() - final(self).entries@.len(),
        // within the limits
        final(self).fits(),
        // only finished entries go, oldest first
        eviction(old(self).entries@, final(self).entries@, final(self).world.heap.cells()),
        wf_entries(final(self).entries@, final(self).world.heap.keys(), final(self).world.heap.next(), final(self).next_generation as int),
        // and only as many as needed: before the last one went, the limits were exceeded
        final(self).entries@ == old(self).entries@ || exists|es: Seq<(K, Entry)>, j: int| 0 <= j < es.len() && final(self).entries@ == #[trigger] es.remove(j) && !within(es, final(self).world.heap.cells(), old(self).max_entries as int, old(self).max_weight as int)
//@ entry
    let ghost mut locked = false;
    let ghost mut last = self.entries@;
    proof { assert(eviction(self.entries@, self.entries@, self.world.heap.cells())); }
//@ loop 0
    invariant wf_entries(self.entries@, self.world.heap.keys(), self.world.heap.next(), self.next_generation as int), locked,
        *self == (Cache { entries: self.entries, counters: self.counters, ..*old(self) }),
        self.counters == (SingleFlightCounters { evictions: self.counters.evictions, ..old(self).counters }),
        self.counters.evictions - old(self).counters.evictions == old(self).entries@.len() - self.entries@.len(),
        eviction(old(self).entries@, self.entries@, self.world.heap.cells()),
        self.entries@ == old(self).entries@ || exists|j: int| 0 <= j < last.len() && self.entries@ == #[trigger] last.remove(j) && !within(last, self.world.heap.cells(), old(self).max_entries as int, old(self).max_weight as int)
    ensures self.fits()
    decreases self.entries@.len()
//@ loopstart 0
    let ghost es0 = self.entries@;
    proof { cnt_pos(es0, self.world.heap.cells(), es0.len() as int); }
//@ loop 1
    invariant k <= self.entries@.len(), self.entries@ == es0, n == cnt(es0, self.world.heap.cells(), k as int), n <= k,
        wf_entries(self.entries@, self.world.heap.keys(), self.world.heap.next(), self.next_generation as int)
    decreases self.entries@.len() - k
//@ loopstart 1
    proof { assert(self.world.heap.has(cid(es0[k as int]))); }
//@ loop 2
    invariant k <= self.entries@.len(), self.entries@ == es0,
        wf_entries(self.entries@, self.world.heap.keys(), self.world.heap.next(), self.next_generation as int),
        best.is_some() ==> best->0 < k && done_e(self.world.heap.cells(), es0[best->0 as int]) && forall|j: int| 0 <= j < k && done_e(self.world.heap.cells(), #[trigger] es0[j]) ==> gen_of(es0[best->0 as int].1) <= gen_of(es0[j].1),
        best.is_none() ==> forall|j: int| 0 <= j < k ==> !done_e(self.world.heap.cells(), #[trigger] es0[j])
    decreases self.entries@.len() - k
//@ loopstart 2
    proof { assert(self.world.heap.has(cid(es0[k as int]))); }
//@end

//@fn src/single_flight.rs :: BlockingFlightState::wait
//@ sig fn wait(cache: &mut Cache, cell: &CellRef) -> (r: Result<V, E>)
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ rewrite? let mut completion = self.completion.lock(); ==> vp_env(cache, vp_text!("Ghost(None)"), vp_text!("Ghost(0)"));
//@ rewrite? match &*completion { $m:a } ==> let vp_c = cache.world.heap.take(cell); match &vp_c.completion { $m }
//@ rewrite? self.ready.wait(&mut completion) ==> { vp_fall_asleep(cache, cell); vp_cond_wait(cache, cell); }
//@ rewrite? result.clone().map_err(|error| error.as_ref().clone()) ==> vp_clone_result(result)
//@ rewrite? vp_panic() ==> vp_abort()
//@ spec
    requires old(cache).inv(), old(cache).world.heap.has(cell.id@)
    ensures others(*old(cache), *final(cache), None, 0), st(final(cache).world.heap.cells()[cell.id@]) == St::Done(r)
//@ loop 0
    invariant others(*old(cache), *cache, None, 0), old(cache).world.heap.has(cell.id@)
//@end
//@fn src/single_flight.rs :: BlockingBoundedSingleFlightCache::get_or_try_init
//@ sig fn get_or_try_init(&mut self, key: K) -> (r: Result<V, E>)
//@ rewrite? self.counters.$f:i.fetch_add(1, Ordering::Relaxed); ==> vp_count(&mut self.counters.$f);
//@ rewrite? use std::collections::hash_map::Entry; ==>
//@ rewrite? let mut entries = self.entries.lock(); ==> vp_env(self, vp_text!("Ghost(None)"), vp_text!("Ghost(0)")); vp_world!(g);
//@ rewrite? match entries.entry(key.clone()) { $m:a } ==> match self.entries.find(&key) { $m }
//@ rewrite? Entry::Occupied(entry) ==> Some(vp_at)
//@ rewrite? Entry::Vacant(entry) ==> None
//@ rewrite? entry.get().cell.is_completed_successfully() ==> self.world.heap.peek(&self.entries.nth(vp_at).cell).is_completed_successfully()
//@ rewrite? entry.get() ==> self.entries.nth(vp_at)
//@ rewrite? self.next_generation.fetch_add(1, Ordering::AcqRel).checked_add(1).expect("") ==> (match vp_next(&mut self.next_generation).checked_add(1) { Some(v) => v, None => vp_abort() })
//@ rewrite? Arc::new(BlockingFlightState::new()) ==> self.world.heap.alloc(BlockingFlightState::new(), vp_text!("Ghost(key)"))
//@ rewrite? entry.insert($e); ==> self.entries.add(key.clone(), $e); proof_registered!();
//@ rewrite? let producer_started = Instant::now(); ==>
//@ rewrite? self.counters.record_producer_wall(producer_started.elapsed()); ==>
//@ rewrite? match catch_unwind(AssertUnwindSafe(producer)) { $m:a } ==> let vp_out = vp_produce(self, vp_text!("Ghost(cell.id@)")); proof_ended!(); match vp_out { $m }
//@ rewrite? result.map(Arc::new).map_err(Arc::new) ==> result
//@ rewrite? self.remove_if_owned(&key, &cell); ==> vp_env(self, vp_text!("Ghost(Some(cell.id@))"), vp_text!("Ghost(0)")); vp_world!(g1); self.remove_if_owned(&key, &cell); proof_dropped!();
//@ rewrite? cell.complete($r); ==> vp_env(self, vp_text!("Ghost(Some(cell.id@))"), vp_text!("Ghost(0)")); vp_world!(g2); let mut vp_c = self.world.heap.take(&cell); vp_c.complete($r); self.world.heap.put(&cell, vp_c); proof_completed!();
//@ rewrite? cell.complete_panicked(); ==> vp_env(self, vp_text!("Ghost(Some(cell.id@))"), vp_text!("Ghost(0)")); vp_world!(g2); let mut vp_c = self.world.heap.take(&cell); vp_c.complete_panicked(); self.world.heap.put(&cell, vp_c); proof_completed!();
//@ rewrite? self.evict_completed_to_limits(); ==> vp_env(self, vp_text!("Ghost(None)"), vp_text!("Ghost(debt)")); vp_world!(g3); self.evict_completed_to_limits(); proof_settled!();
//@ rewrite? resume_unwind(payload) ==> vp_unwind(self, payload)
//@ rewrite? let wait_started = Instant::now(); ==>
//@ rewrite? cell.wait() ==> Self::wait(self, &cell)
//@ rewrite? self.counters.record_consumer_wait_wall(wait_started.elapsed()); ==>
//@ rewrite? vp_world!($n:i); ==> vp_text!("let ghost g0 = *self");
//@ rewrite? proof_registered!(); ==> vp_text!("proof { self.world.running = Ghost(self.world.running@.insert(cell.id@)); registered(g0, *self, key, self.entries@.last()); }");
//@ rewrite? proof_ended!(); ==> vp_text!("let ghost g0 = *self; proof { self.world.running = Ghost(self.world.running@.remove(cell.id@)); self.world.ending = Ghost(self.world.ending@.insert(cell.id@)); ended(g0, *self, cell.id@); if vp_out.is_ok() { made = Some(vp_out->Ok_0); } }");
//@ rewrite? proof_dropped!(); ==> vp_text!("proof { dropped(g0, *self, key, cell.id@); }");
//@ rewrite? proof_completed!(); ==> vp_text!("proof { self.world.ending = Ghost(self.world.ending@.remove(cell.id@)); if (st(self.world.heap.cells()[cell.id@]) matches St::Done(Ok(_))) { debt = 1; self.world.owed = Ghost(self.world.owed@ + 1); } completed(g0, *self, cell.id@); }");
//@ rewrite? proof_settled!(); ==> vp_text!("proof { self.world.owed = Ghost(self.world.owed@ - debt); settled(g0, *self, debt); debt = 0; }");
//@ spec
    requires old(self).inv(), old(self).lag() == 0, old(self).lag_producers() == 0
    ensures final(self).inv(), final(self).lag() == 0, final(self).lag_producers() == 0,
        // the answer is the outcome of a production of this very key
        exists|c: int| final(self).world.heap.has(c) && #[trigger] final(self).world.heap.keys()[c] == key && st(final(self).world.heap.cells()[c]) == St::Done(r)
//@ entry
    let ghost mut debt: int = 0;
    let ghost mut made: Option<Result<V, E>> = None;
//@ after let (cell, owns_producer)
    // never a failure of the past
    proof { assert(self.world.heap.has(cell.id@)); assert(self.world.heap.keys()[cell.id@] == key); assert(!(st(self.world.heap.cells()[cell.id@]) matches St::Done(Err(_)))); assert(st(self.world.heap.cells()[cell.id@]) != St::Panicked); }
//@ exit
    proof { assert(debt == 0); assert(made.is_some() ==> __vp_result == made->0); assert(self.world.heap.keys()[cell.id@] == key); }
//@end
}
}
fn main() {}
