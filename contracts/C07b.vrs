// C07 (asynchronous, bounded): BoundedSingleFlightCache.
use vstd::prelude::*;
verus! {
//@include flight_types.vrs
//@include flight_async.vrs
//@struct src/single_flight.rs :: BoundedFlightEntry ; subst BoundedFlightEntry<V> ==> BoundedFlightEntry ; subst FlightCell<V> ==> CellRef
//@struct src/single_flight.rs :: BoundedSingleFlightCache ; subst BoundedSingleFlightCache<K, V> ==> BoundedSingleFlightCache ; subst Arc<Mutex<HashMap<K, BoundedFlightEntry<V>>>> ==> VpMap ; subst Arc<SingleFlightCounters> ==> SingleFlightCounters ; subst Arc<AtomicU64> ==> u64 ; drop weight ; add world: VpWorld
type Entry = BoundedFlightEntry;
type Cache = BoundedSingleFlightCache;
spec fn cell_of(e: Entry) -> CellRef { e.cell }
spec fn gen_of(e: Entry) -> int { e.generation as int }
spec fn bounded() -> bool { true }
spec fn max_n(c: Cache) -> int { c.max_entries as int }
spec fn max_w(c: Cache) -> int { c.max_weight as int }
spec fn gen_now(c: Cache) -> int { c.next_generation as int }
//@include flight.vrs
//@include flight_cache.vrs
//@fn src/single_flight.rs :: completed_weight
//@ sig fn completed_weight(entries: &VpMap, heap: &VpHeap) -> (r: u64)
//@ rewrite? $x:e.values().filter_map(|entry| match entry.cell.get() { $arms:a }).try_fold(0u64, |total, value| total.checked_add(value)).expect("") ==> { let mut total: u64 = 0; let mut k: usize = 0; while k < $x.len() { let entry = $x.nth(k); let vp_w = match heap.peek(&entry.cell).get() { $arms }; if let Some(value) = vp_w { match total.checked_add(value) { Some(t) => { total = t; } None => vp_abort() } } k = k + 1; } total }
//@ rewrite? weight(value) ==> vp_weight(value)
//@ spec
    requires forall|i: int| 0 <= i < entries@.len() ==> heap.has(cid(#[trigger] entries@[i]))
    ensures r == wsum(entries@, heap.cells(), entries@.len() as int)
//@ loop 0
    invariant k <= entries@.len(), total == wsum(entries@, heap.cells(), k as int), forall|i: int| 0 <= i < entries@.len() ==> heap.has(cid(#[trigger] entries@[i]))
    decreases entries@.len() - k
//@ before if let Some(value) = vp_w
    proof { assert(heap.has(cid(entries@[k as int]))); }
//@end
impl BoundedSingleFlightCache {
//@fn src/single_flight.rs :: BoundedSingleFlightCache::evict_completed_to_limits
//@ sig fn evict_completed_to_limits(&mut self)
//@ rewrite? let mut entries = self.entries.lock(); ==> vp_once!();
//@ rewrite? completed_weight(&entries, self.weight.as_ref()) ==> completed_weight(&self.entries, &self.world.heap)
//@ rewrite? let completed_entries = entries.values().filter(|entry| $c).count(); ==> let completed_entries = { let mut n: usize = 0; let mut k: usize = 0; while k < self.entries.len() { let entry = self.entries.nth(k); if $c { n = n + 1; } k = k + 1; } n };
//@ rewrite? let Some(oldest_key) = entries.iter().filter(|(_, entry)| $c:a).min_by_key(|(_, $e:i)| $k:a).map(|(key, _)| key.clone()) else { break; }; ==> let mut best: Option<usize> = None; let mut k: usize = 0; while k < self.entries.len() { let entry = self.entries.nth(k); if $c { let better = match best { None => true, Some(b) => { let vp_x = { let $e = self.entries.nth(k); $k }; let vp_y = { let $e = self.entries.nth(b); $k }; vp_x < vp_y } }; if better { best = Some(k); } } k = k + 1; } let vp_oldest = match best { Some(b) => Some(self.entries.nth_key(b).clone()), None => None }; proof_best!(); if vp_oldest.is_none() { break; } let oldest_key = vp_oldest.unwrap();
//@ rewrite? entry.cell.get() ==> self.world.heap.peek(&entry.cell).get()
//@ rewrite? self.counters.evictions.fetch_add(1, Ordering::Relaxed); ==> vp_count(&mut self.counters.evictions);
//@ rewrite? entries.remove(&oldest_key); ==> self.entries.remove(&oldest_key); proof_removed!();
//@ rewrite? vp_once!(); ==> vp_text!("proof { assert(!locked); locked = true; }");
//@ rewrite? proof_best!(); ==> vp_text!("proof { found_oldest(*self, best); }");
//@ rewrite? proof_removed!(); ==> vp_text!("proof { assert(at_key(es0, es0[best->0 as int].0, best->0 as int)); evicted(old(self).entries@, es0, self.entries@, self.world, self.next_generation as int, best->0 as int); last = es0; }");
//@ spec
    requires wf_entries(old(self).entries@, old(self).world.heap.keys(), old(self).world.heap.next(), old(self).next_generation as int)
    ensures *final(self) == (Cache { entries: final(self).entries, counters: final(self).counters, ..*old(self) }),
        final(self).counters == (SingleFlightCounters { evictions: final(self).counters.evictions, ..old(self).counters }),
        final(self).counters.evictions - old(self).counters.evictions == old(self).entries@.len() - final(self).entries@.len(),
        // within the limits
        final(self).fits(),
        // only finished entries go, oldest first
        eviction(old(self).entries@, final(self).entries@, final(self).world.heap.cells()),
        wf_entries(final(self).entries@, final(self).world.heap.keys(), final(self).world.heap.next(), final(self).next_generation as int),
        // and only as many as needed: before the last one went, the limits were exceeded
        final(self).entries@ == old(self).entries@ || exists|es: Seq<(K, Entry)>, j: int| 0 <= j < es.len() && final(self).entries@ == #[trigger] es.remove(j) && !within(es, final(self).world.heap.cells(), old(self).max_entries as int, old(self).max_weight as int)
//@ entry
    let ghost mut locked = false;
    let ghost mut last = self.entries@;
    proof { assert(eviction(self.entries@, self.entries@, self.world.heap.cells())); }
//@ loop 0
    invariant wf_entries(self.entries@, self.world.heap.keys(), self.world.heap.next(), self.next_generation as int), locked,
        *self == (Cache { entries: self.entries, counters: self.counters, ..*old(self) }),
        self.counters == (SingleFlightCounters { evictions: self.counters.evictions, ..old(self).counters }),
        self.counters.evictions - old(self).counters.evictions == old(self).entries@.len() - self.entries@.len(),
        eviction(old(self).entries@, self.entries@, self.world.heap.cells()),
        self.entries@ == old(self).entries@ || exists|j: int| 0 <= j < last.len() && self.entries@ == #[trigger] last.remove(j) && !within(last, self.world.heap.cells(), old(self).max_entries as int, old(self).max_weight as int)
    ensures self.fits()
    decreases self.entries@.len()
//@ loopstart 0
    let ghost es0 = self.entries@;
    proof { cnt_pos(es0, self.world.heap.cells(), es0.len() as int); }
//@ loop 1
    invariant k <= self.entries@.len(), self.entries@ == es0, n == cnt(es0, self.world.heap.cells(), k as int), n <= k,
        wf_entries(self.entries@, self.world.heap.keys(), self.world.heap.next(), self.next_generation as int)
    decreases self.entries@.len() - k
//@ loopstart 1
    proof { assert(self.world.heap.has(cid(es0[k as int]))); }
//@ loop 2
    invariant k <= self.entries@.len(), self.entries@ == es0,
        wf_entries(self.entries@, self.world.heap.keys(), self.world.heap.next(), self.next_generation as int),
        best.is_some() ==> best->0 < k && done_e(self.world.heap.cells(), es0[best->0 as int]) && forall|j: int| 0 <= j < k && done_e(self.world.heap.cells(), #[trigger] es0[j]) ==> gen_of(es0[best->0 as int].1) <= gen_of(es0[j].1),
        best.is_none() ==> forall|j: int| 0 <= j < k ==> !done_e(self.world.heap.cells(), #[trigger] es0[j])
    decreases self.entries@.len() - k
//@ loopstart 2
    proof { assert(self.world.heap.has(cid(es0[k as int]))); }
//@end

//@include flight_wait.vrs
//@fn src/single_flight.rs :: BoundedSingleFlightCache::get_or_try_init
//@ sig fn get_or_try_init(&mut self, key: K) -> (r: Result<V, E>)
//@ rewrite? use std::collections::hash_map::Entry; ==>
//@ rewrite? let mut entries = self.entries.lock(); ==> vp_env(self, vp_text!("Ghost(None)"), vp_text!("Ghost(0)")); vp_world!();
//@ rewrite? match entries.entry(key.clone()) { $m:a } ==> match self.entries.find(&key) { $m }
//@ rewrite? Entry::Occupied(entry) ==> Some(vp_at)
//@ rewrite? Entry::Vacant(entry) ==> None
//@ rewrite? entry.get().cell.get() ==> self.world.heap.peek(&self.entries.nth(vp_at).cell).get()
//@ rewrite? entry.get() ==> self.entries.nth(vp_at)
//@ rewrite? entry.insert($e).cell.clone() ==> { let vp_e = $e; let vp_r = vp_e.cell.clone(); self.entries.add(key.clone(), vp_e); proof_registered!(); vp_r }
//@ rewrite? self.next_generation.fetch_add(1, Ordering::AcqRel).checked_add(1).expect("") ==> (match vp_next(&mut self.next_generation).checked_add(1) { Some(v) => v, None => vp_abort() })
//@ rewrite? Arc::new(FlightState::new()) ==> self.world.heap.alloc(FlightState::new(), vp_text!("Ghost(key)"))
//@ rewrite? let producer_started = Instant::now(); ==>
//@ rewrite? let producer_task = tokio::spawn(async move { producer().await }); ==>
//@ rewrite? let producer_cell = cell.clone(); ==>
//@ rewrite? let producer_key = key.clone(); ==>
//@ rewrite? let cache = self.clone(); ==>
//@ rewrite? let mut entries = cache.entries.lock(); ==> vp_env(self, vp_text!("Ghost(Some(cell.id@))"), vp_text!("Ghost(0)")); vp_world!();
//@ rewrite? cache.counters.failures ==> self.counters.failures
//@ rewrite? self.counters.$f:i.fetch_add(1, Ordering::Relaxed); ==> vp_count(&mut self.counters.$f);
//@ rewrite? tokio::spawn(async move { $b:a }); ==> $b
//@ rewrite? $c:e.record_producer_wall(producer_started.elapsed()); ==>
//@ rewrite? let result = match producer_task.await { $m:a }; ==> let vp_out = vp_produce(self, vp_text!("Ghost(cell.id@)")); proof_ended!(); let result = match vp_out { $m }; proof_made!();
//@ rewrite? Err(Arc::new(format!($x:a))) ==> Err(vp_task_failed(error))
//@ rewrite? result.map(Arc::new).map_err(Arc::new) ==> result
//@ rewrite? producer_cell.complete($r); ==> vp_env(self, vp_text!("Ghost(Some(cell.id@))"), vp_text!("Ghost(0)")); vp_world!(); let mut vp_c = self.world.heap.take(&cell); vp_c.complete($r); self.world.heap.put(&cell, vp_c); proof_completed!();
//@ rewrite? if entries.get(&producer_key).is_some_and(|current| Arc::ptr_eq($x:a, &producer_cell)) { entries.remove(&producer_key); } ==> if match self.entries.get(&key) { Some(current) => vp_ptr_eq($x, &cell), None => false } { self.entries.remove(&key); } proof_dropped!();
//@ rewrite? cache.evict_completed_to_limits(); ==> vp_env(self, vp_text!("Ghost(None)"), vp_text!("Ghost(debt)")); vp_world!(); self.evict_completed_to_limits(); proof_settled!();
//@ rewrite? proof_settled!(); ==> vp_text!("proof { self.world.owed = Ghost(self.world.owed@ - debt); settled(g0, *self, debt); debt = 0; }");
//@ rewrite? let wait_started = Instant::now(); ==>
//@ rewrite? cell.wait().await ==> Self::wait(self, &cell)
//@ rewrite? self.counters.record_consumer_wait_wall(wait_started.elapsed()); ==>
//@ rewrite? result.map_err(|error| error.as_ref().clone()) ==> result
//@ rewrite? vp_world!(); ==> vp_text!("let ghost g0 = *self");
//@ rewrite? proof_registered!(); ==> vp_text!("proof { self.world.running = Ghost(self.world.running@.insert(self.world.heap.next() - 1)); registered(g0, *self, key, self.entries@.last()); }");
//@ rewrite? proof_ended!(); ==> vp_text!("let ghost g0 = *self; proof { self.world.running = Ghost(self.world.running@.remove(cell.id@)); self.world.ending = Ghost(self.world.ending@.insert(cell.id@)); ended(g0, *self, cell.id@); }");
//@ rewrite? proof_made!(); ==> vp_text!("proof { made = Some(result); if vp_out.is_ok() { assert(result == vp_out->Ok_0); } }");
//@ rewrite? proof_dropped!(); ==> vp_text!("proof { only_one(g0.entries@, key); dropped(g0, *self, key, cell.id@); }");
//@ rewrite? proof_completed!(); ==> vp_text!("proof { self.world.ending = Ghost(self.world.ending@.remove(cell.id@)); if (st(self.world.heap.cells()[cell.id@]) matches St::Done(Ok(_))) { debt = 1; self.world.owed = Ghost(self.world.owed@ + 1); } completed(g0, *self, cell.id@); }");
//@ spec
    requires old(self).inv(), old(self).lag() == 0, old(self).lag_producers() == 0
    ensures final(self).inv(), final(self).lag() == 0, final(self).lag_producers() == 0,
        // the answer is the outcome of a production of this very key
        exists|c: int| final(self).world.heap.has(c) && #[trigger] final(self).world.heap.keys()[c] == key && st(final(self).world.heap.cells()[c]) == St::Done(r)
//@ entry
    let ghost mut debt: int = 0;
    let ghost mut made: Option<Result<V, E>> = None;
//@ after let (cell, owns_producer)
    // never a failure of the past
    proof { assert(self.world.heap.has(cell.id@)); assert(self.world.heap.keys()[cell.id@] == key); assert(!(st(self.world.heap.cells()[cell.id@]) matches St::Done(Err(_)))); }
//@ exit
    proof { assert(debt == 0); assert(made.is_some() ==> __vp_result == made->0); assert(self.world.heap.keys()[cell.id@] == key); }
//@end
}
}
fn main() {}
