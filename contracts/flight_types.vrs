#[verifier::external_body] pub struct K { _p: u8 }
#[verifier::external_body] pub struct V { _p: u8 }
#[verifier::external_body] pub struct E { _p: u8 }
#[verifier::external_body] pub struct Payload { _p: u8 }
impl K { #[verifier::external_body] fn clone(&self) -> (r: K) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
fn vp_key_eq(a: &K, b: &K) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
/// An internal `assert!` of the code: proved never to fire.
fn vp_check(c: bool) requires c {}
uninterp spec fn weight_of(v: V) -> u64;
#[verifier::external_body]
fn vp_weight(v: &V) -> (r: u64) ensures r == weight_of(*v) { unimplemented!() }
#[verifier::external_body]
fn vp_clone_result(r: &Result<V, E>) -> (o: Result<V, E>) ensures o == *r { unimplemented!() }
fn vp_count(c: &mut u64) ensures *final(c) == *old(c) + 1 { if *c == u64::MAX { vp_abort() } *c = *c + 1; }
fn vp_next(c: &mut u64) -> (r: u64) ensures r == *old(c), *final(c) == *old(c) + 1 { if *c == u64::MAX { vp_abort() } *c = *c + 1; *c - 1 }

