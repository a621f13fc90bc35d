// C07 (asynchronous, unbounded): SingleFlightCache.
use vstd::prelude::*;
verus! {
//@include flight_types.vrs
//@include flight_async.vrs
//@struct src/single_flight.rs :: SingleFlightCache ; subst SingleFlightCache<K, V> ==> SingleFlightCache ; subst Arc<Mutex<HashMap<K, FlightCell<V>>>> ==> VpMap ; subst Arc<SingleFlightCounters> ==> SingleFlightCounters ; add world: VpWorld
type Entry = CellRef;
type Cache = SingleFlightCache;
spec fn cell_of(e: Entry) -> CellRef { e }
spec fn gen_of(e: Entry) -> int { 0 }
spec fn bounded() -> bool { false }
spec fn max_n(c: Cache) -> int { 0 }
spec fn max_w(c: Cache) -> int { 0 }
spec fn gen_now(c: Cache) -> int { 0 }
//@include flight.vrs
//@include flight_cache.vrs
impl SingleFlightCache {
//@include flight_wait.vrs
//@fn src/single_flight.rs :: SingleFlightCache::get_or_try_init
//@ sig fn get_or_try_init(&mut self, key: K) -> (r: Result<V, E>)
//@ rewrite? use std::collections::hash_map::Entry; ==>
//@ rewrite? let mut entries = self.entries.lock(); ==> vp_env(self, vp_text!("Ghost(None)"), vp_text!("Ghost(0)")); vp_world!();
//@ rewrite? match entries.entry(key.clone()) { $m:a } ==> match self.entries.find(&key) { $m }
//@ rewrite? Entry::Occupied(entry) ==> Some(vp_at)
//@ rewrite? Entry::Vacant(entry) ==> None
//@ rewrite? entry.get().get() ==> self.world.heap.peek(&self.entries.nth(vp_at)).get()
//@ rewrite? entry.get() ==> self.entries.nth(vp_at)
//@ rewrite? entry.insert($e).clone() ==> { let vp_e = $e; let vp_r = vp_e.clone(); self.entries.add(key.clone(), vp_e); proof_registered!(); vp_r }
//@ rewrite? Arc::new(FlightState::new()) ==> self.world.heap.alloc(FlightState::new(), vp_text!("Ghost(key)"))
//@ rewrite? let producer_started = Instant::now(); ==>
//@ rewrite? let producer_task = tokio::spawn(async move { producer().await }); ==>
//@ rewrite? let producer_cell = cell.clone(); ==>
//@ rewrite? let producer_key = key.clone(); ==>
//@ rewrite? let entries = self.entries.clone(); ==>
//@ rewrite? let counters = self.counters.clone(); ==>
//@ rewrite? let mut entries = entries.lock(); ==> vp_env(self, vp_text!("Ghost(Some(cell.id@))"), vp_text!("Ghost(0)")); vp_world!();
//@ rewrite? self.counters.$f:i.fetch_add(1, Ordering::Relaxed); ==> vp_count(&mut self.counters.$f);
//@ rewrite? counters.failures.fetch_add(1, Ordering::Relaxed); ==> vp_count(&mut self.counters.failures);
//@ rewrite? tokio::spawn(async move { $b:a }); ==> $b
//@ rewrite? $c:e.record_producer_wall(producer_started.elapsed()); ==>
//@ rewrite? let result = match producer_task.await { $m:a }; ==> let vp_out = vp_produce(self, vp_text!("Ghost(cell.id@)")); proof_ended!(); let result = match vp_out { $m }; proof_made!();
//@ rewrite? Err(Arc::new(format!($x:a))) ==> Err(vp_task_failed(error))
//@ rewrite? result.map(Arc::new).map_err(Arc::new) ==> result
//@ rewrite? producer_cell.complete($r); ==> vp_env(self, vp_text!("Ghost(Some(cell.id@))"), vp_text!("Ghost(0)")); vp_world!(); let mut vp_c = self.world.heap.take(&cell); vp_c.complete($r); self.world.heap.put(&cell, vp_c); proof_completed!();
//@ rewrite? if entries.get(&producer_key).is_some_and(|current| Arc::ptr_eq($x:a, &producer_cell)) { entries.remove(&producer_key); } ==> if match self.entries.get(&key) { Some(current) => vp_ptr_eq($x, &cell), None => false } { self.entries.remove(&key); } proof_dropped!();

//@ rewrite? let wait_started = Instant::now(); ==>
//@ rewrite? cell.wait().await ==> Self::wait(self, &cell)
//@ rewrite? self.counters.record_consumer_wait_wall(wait_started.elapsed()); ==>
//@ rewrite? result.map_err(|error| error.as_ref().clone()) ==> result
//@ rewrite? vp_world!(); ==> vp_text!("let ghost g0 = *self");
//@ rewrite? proof_registered!(); ==> vp_text!("proof { self.world.running = Ghost(self.world.running@.insert(self.world.heap.next() - 1)); registered(g0, *self, key, self.entries@.last()); }");
//@ rewrite? proof_ended!(); ==> vp_text!("let ghost g0 = *self; proof { self.world.running = Ghost(self.world.running@.remove(cell.id@)); self.world.ending = Ghost(self.world.ending@.insert(cell.id@)); ended(g0, *self, cell.id@); }");
//@ rewrite? proof_made!(); ==> vp_text!("proof { made = Some(result); if vp_out.is_ok() { assert(result == vp_out->Ok_0); } }");
//@ rewrite? proof_dropped!(); ==> vp_text!("proof { only_one(g0.entries@, key); dropped(g0, *self, key, cell.id@); }");
//@ rewrite? proof_completed!(); ==> vp_text!("proof { self.world.ending = Ghost(self.world.ending@.remove(cell.id@)); if (st(self.world.heap.cells()[cell.id@]) matches St::Done(Ok(_))) { debt = 1; self.world.owed = Ghost(self.world.owed@ + 1); } completed(g0, *self, cell.id@); }");
//@ spec
    requires old(self).inv(), old(self).lag() == 0, old(self).lag_producers() == 0
    ensures final(self).inv(), final(self).lag() == 0, final(self).lag_producers() == 0,
        // the answer is the outcome of a production of this very key
        exists|c: int| final(self).world.heap.has(c) && #[trigger] final(self).world.heap.keys()[c] == key && st(final(self).world.heap.cells()[c]) == St::Done(r)
//@ entry
    let ghost mut debt: int = 0;
    let ghost mut made: Option<Result<V, E>> = None;
//@ after let (cell, owns_producer)
    // never a failure of the past
    proof { assert(self.world.heap.has(cell.id@)); assert(self.world.heap.keys()[cell.id@] == key); assert(!(st(self.world.heap.cells()[cell.id@]) matches St::Done(Err(_)))); }
//@ exit
    proof {  assert(made.is_some() ==> __vp_result == made->0); assert(self.world.heap.keys()[cell.id@] == key); }
//@end
}
}
fn main() {}
