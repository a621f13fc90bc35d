fn vp_fall_asleep(s: &mut Cache, c: &CellRef)
    requires old(s).inv(), old(s).world.heap.has(c.id@), st(old(s).world.heap.cells()[c.id@]) == St::Pending
    ensures others(*old(s), *final(s), None, 0), asleep(final(s).world.heap.cells()[c.id@]), st(final(s).world.heap.cells()[c.id@]) == St::Pending
{
    let mut x = s.world.heap.take(c);
    x.ready.asleep = Ghost(true);
    s.world.heap.put(c, x);
    proof { cells_same(*old(s), *s); }
}
#[verifier::external_body]
fn vp_await(s: &mut Cache, c: &CellRef)
    requires old(s).inv(), old(s).world.heap.has(c.id@), asleep(old(s).world.heap.cells()[c.id@])
    ensures others(*old(s), *final(s), None, 0) { unimplemented!() }
//@fn src/single_flight.rs :: FlightState::wait
//@ sig fn wait(cache: &mut Cache, cell: &CellRef) -> (r: Result<V, E>)
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ rewrite? let ready = self.ready.notified(); ==> proof_armed!();
//@ rewrite? if let Some(result) = self.result.get() $b:b ==> vp_env(cache, vp_text!("Ghost(None)"), vp_text!("Ghost(0)")); let vp_c = cache.world.heap.take(cell); if let Some(result) = vp_c.get() $b
//@ rewrite? ready.await; ==> proof_sleep!(); Self::vp_fall_asleep(cache, cell); Self::vp_await(cache, cell);
//@ rewrite? result.clone() ==> vp_clone_result(result)
//@ rewrite? proof_armed!(); ==> vp_text!("proof { armed = true; }");
//@ rewrite? proof_sleep!(); ==> vp_text!("proof { assert(armed); armed = false; }");
//@ spec
    requires old(cache).inv(), old(cache).world.heap.has(cell.id@)
    ensures others(*old(cache), *final(cache), None, 0), st(final(cache).world.heap.cells()[cell.id@]) == St::Done(r)
//@ entry
    let ghost mut armed = false;
//@ loop 0
    invariant others(*old(cache), *cache, None, 0), old(cache).world.heap.has(cell.id@)
//@end
