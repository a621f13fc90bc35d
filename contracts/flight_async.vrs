// ---- FlightState: OnceCell + Notify ----
struct VpNotify { asleep: Ghost<bool> }
impl VpNotify { fn notify_waiters(&mut self) ensures !final(self).asleep@ { self.asleep = Ghost(false); } }
/// OnceCell::set
fn vp_set(o: &mut Option<Result<V, E>>, r: Result<V, E>) -> (b: bool)
    ensures b == old(o).is_none(), b ==> *final(o) == Some(r), !b ==> *final(o) == *old(o)
{ if o.is_some() { return false; } *o = Some(r); true }
#[verifier::external_body]
fn vp_task_failed(p: Payload) -> E { unimplemented!() }
//@struct src/single_flight.rs :: FlightState ; subst FlightState<V> ==> FlightState ; subst OnceCell<SharedResult<V>> ==> Option<Result<V, E>> ; subst ready: Notify ==> ready: VpNotify
//@struct src/single_flight.rs :: SingleFlightCounters ; subst AtomicU64 ==> u64
type Cell = FlightState;
spec fn st(c: Cell) -> St { match c.result { None => St::Pending, Some(r) => St::Done(r) } }
spec fn asleep(c: Cell) -> bool { c.ready.asleep@ }
impl FlightState {
//@fn src/single_flight.rs :: FlightState::new
//@ ret r
//@ rewrite? OnceCell::new() ==> None
//@ rewrite? Notify::new() ==> VpNotify { asleep: Ghost(false) }
//@ spec
    ensures st(r) == St::Pending, !asleep(r)
//@end
//@fn src/single_flight.rs :: FlightState::get
//@ sig fn get(&self) -> (r: Option<&Result<V, E>>)
//@ rewrite? self.result.get() ==> self.result.as_ref()
//@ spec
    ensures r.is_none() == (st(*self) == St::Pending), r.is_some() ==> st(*self) == St::Done(*r->0)
//@end
//@fn src/single_flight.rs :: FlightState::complete
//@ sig fn complete(&mut self, result: Result<V, E>)
//@ rewrite? self.result.set(result).is_ok() ==> vp_set(&mut self.result, result)
//@ rewrite? assert!($c) ==> vp_check($c)
//@ spec
    requires st(*old(self)) == St::Pending
    ensures st(*final(self)) == St::Done(result), !asleep(*final(self))
//@end
}
