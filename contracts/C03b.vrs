// C03: the method store holds exactly the facts of the last version of every file.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/fqn_id.rs :: FqnId ; derive Clone, Copy, PartialEq, Eq, Structural
/// an interned name
#[derive(Clone, Copy)]
pub struct RubyMethod(u64);
/// what a method fact says besides the fields below (never looked at by the store)
pub struct VpRest(u64);
//@struct crates/ruby-analysis/src/core/method_store.rs :: StoredMethodFact ; drop params, param_facts, parameter_shape_complete, delegate_receiver, visibility, availability, documentation, return_type_label, higher_order ; add rest: VpRest
//@struct crates/ruby-analysis/src/core/method_store.rs :: MethodFactId ; derive Clone, Copy, PartialEq, Eq, Structural
type Fact = StoredMethodFact;
type FactId = MethodFactId;
spec fn fact_id(i: int) -> FactId { MethodFactId(i as u32) }
spec fn fact_file(f: Fact) -> SourceFileId { f.range.file_id }
//@include arena.vrs

//@struct crates/ruby-analysis/src/core/method_store.rs :: MethodStore ; subst HashMap<$k:a, Vec<MethodFactId>> ==> VpMap<$k, Vec<MethodFactId>>
fn vp_u32(x: usize) -> (r: u32) ensures r == x { if x > 0xffff_ffff { vp_abort() } x as u32 }
impl MethodFactId {
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodFactId::from_index
//@ ret r
//@ rewrite? u32::try_from($x:a).expect($m:a) ==> vp_u32($x)
//@ spec
    ensures r.0 == index
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodFactId::index
//@ ret r
//@ spec
    ensures r == self.0
//@end
}
/// clone() yields an equal value
#[verifier::external_body]
fn vp_cloned(x: Option<&StoredMethodFact>) -> (r: Option<StoredMethodFact>) ensures match x { Some(f) => r == Some(*f), None => r is None } { unimplemented!() }
#[verifier::external_body]
fn vp_clone(x: &Option<StoredMethodFact>) -> (r: Option<StoredMethodFact>) ensures r == *x { unimplemented!() }
// ---- the orders ----
spec fn fqn_rank(f: Fact) -> (SourceFileId, u32, u32, FqnId) { (f.range.file_id, f.range.start_byte, f.range.end_byte, f.owner) }
spec fn owner_rank(f: Fact) -> (SourceFileId, u32, u32, FqnId) { (f.range.file_id, f.range.start_byte, f.range.end_byte, f.fqn) }
spec fn file_rank(f: Fact) -> (u32, u32) { (f.range.start_byte, f.range.end_byte) }
spec fn le2(x: (u32, u32), y: (u32, u32)) -> bool { x.0 < y.0 || (x.0 == y.0 && x.1 <= y.1) }
spec fn le4(x: (SourceFileId, u32, u32, FqnId), y: (SourceFileId, u32, u32, FqnId)) -> bool { x.0.0 < y.0.0 || (x.0.0 == y.0.0 && (x.1 < y.1 || (x.1 == y.1 && (x.2 < y.2 || (x.2 == y.2 && x.3.0 <= y.3.0))))) }
spec fn fqn_le() -> spec_fn(Fact, Fact) -> bool { |f: Fact, g: Fact| le4(fqn_rank(f), fqn_rank(g)) }
spec fn owner_le() -> spec_fn(Fact, Fact) -> bool { |f: Fact, g: Fact| le4(owner_rank(f), owner_rank(g)) }
spec fn file_le() -> spec_fn(Fact, Fact) -> bool { |f: Fact, g: Fact| le2(file_rank(f), file_rank(g)) }
spec fn by_fqn() -> spec_fn(Fact) -> Option<FqnId> { |f: Fact| Some(f.fqn) }
spec fn by_owner() -> spec_fn(Fact) -> Option<FqnId> { |f: Fact| Some(f.owner) }
spec fn by_owner_name() -> spec_fn(Fact) -> Option<(FqnId, RubyMethod)> { |f: Fact| match f.method { Some(m) => Some((f.owner, m)), None => None } }
//@fn crates/ruby-analysis/src/core/method_store.rs :: sort_method_ids_by_fqn
//@ rewrite? ids.sort_by_key(|id| $b:b); ==> vp_sort_by_key(ids, |id: &MethodFactId| -> (SourceFileId, u32, u32, FqnId) { vp_clause!("requires slot(facts@, *id) ensures vp_r == fqn_rank(at(facts@, *id))"); $b }, Ghost(|x: FactId| fqn_rank(at(facts.view(), x))), Ghost(|x: (SourceFileId, u32, u32, FqnId), y: (SourceFileId, u32, u32, FqnId)| le4(x, y)));
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires forall|i: int| 0 <= i < old(ids)@.len() ==> slot(facts@, #[trigger] old(ids)@[i])
    ensures perm(old(ids)@, final(ids)@), sorted_ids(facts@, final(ids)@, fqn_le())
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: sort_method_ids_by_owner
//@ rewrite? ids.sort_by_key(|id| $b:b); ==> vp_sort_by_key(ids, |id: &MethodFactId| -> (SourceFileId, u32, u32, FqnId) { vp_clause!("requires slot(facts@, *id) ensures vp_r == owner_rank(at(facts@, *id))"); $b }, Ghost(|x: FactId| owner_rank(at(facts.view(), x))), Ghost(|x: (SourceFileId, u32, u32, FqnId), y: (SourceFileId, u32, u32, FqnId)| le4(x, y)));
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires forall|i: int| 0 <= i < old(ids)@.len() ==> slot(facts@, #[trigger] old(ids)@[i])
    ensures perm(old(ids)@, final(ids)@), sorted_ids(facts@, final(ids)@, owner_le())
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: sort_method_ids_by_file
//@ rewrite? ids.sort_by_key(|id| $b:b); ==> vp_sort_by_key(ids, |id: &MethodFactId| -> (u32, u32) { vp_clause!("requires slot(facts@, *id) ensures vp_r == file_rank(at(facts@, *id))"); $b }, Ghost(|x: FactId| file_rank(at(facts.view(), x))), Ghost(|x: (u32, u32), y: (u32, u32)| le2(x, y)));
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires forall|i: int| 0 <= i < old(ids)@.len() ==> slot(facts@, #[trigger] old(ids)@[i])
    ensures perm(old(ids)@, final(ids)@), sorted_ids(facts@, final(ids)@, file_le())
//@end
spec fn base_ok(s: MethodStore) -> bool { s.facts@.len() <= 0x1_0000_0000 && free_ok(s.facts@, s.free_facts@) }
spec fn indexes_ok(s: MethodStore) -> bool { index_ok(s.facts@, s.facts_by_fqn@, by_fqn()) && index_ok(s.facts@, s.facts_by_owner@, by_owner()) && index_ok(s.facts@, s.facts_by_owner_name@, by_owner_name()) && index_ok(s.facts@, s.facts_by_file@, of_file()) }
/// the store's invariant
spec fn store_ok(s: MethodStore) -> bool { base_ok(s) && indexes_ok(s) && all_sorted(s.facts@, s.facts_by_fqn@, fqn_le()) && all_sorted(s.facts@, s.facts_by_owner@, owner_le()) && all_sorted(s.facts@, s.facts_by_owner_name@, owner_le()) && all_sorted(s.facts@, s.facts_by_file@, file_le()) }
impl MethodStore {
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::insert_fact
//@ ret r
//@ rewrite? $x:e.expect($m:a) ==> $x.unwrap()
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? return id; ==> vp_text!("proof { reused(*old(self), *self, id, fact); }"); return id;
//@ spec
    requires base_ok(*old(self))
    ensures base_ok(*final(self)), added(old(self).facts@, final(self).facts@, r, fact), final(self).facts_by_fqn == old(self).facts_by_fqn && final(self).facts_by_owner == old(self).facts_by_owner && final(self).facts_by_owner_name == old(self).facts_by_owner_name && final(self).facts_by_file == old(self).facts_by_file,
        forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == cnt(old(self).facts@, f) + (if f == fact { 1int } else { 0 })
//@ exit
    proof { cnt_push(old(self).facts@, Some(fact)); }
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::fact
//@ ret r
//@ rewrite? $x:e.and_then(Option::as_ref) ==> (match $x { Some(vp_slot) => vp_slot.as_ref(), None => None })
//@ spec
    ensures match r { Some(f) => stored(self.facts@, id) == Some(*f), None => stored(self.facts@, id) is None }
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::take_fact
//@ ret r
//@ rewrite? $x:e.and_then(Option::take) ==> (match $x { Some(vp_slot) => vp_slot.take(), None => None })
//@ spec
    ensures r == stored(old(self).facts@, id), r is Some ==> dropped(old(self).facts@, final(self).facts@, id), r is None ==> final(self).facts@ == old(self).facts@,
        final(self).free_facts == old(self).free_facts, final(self).facts_by_fqn == old(self).facts_by_fqn && final(self).facts_by_owner == old(self).facts_by_owner && final(self).facts_by_owner_name == old(self).facts_by_owner_name && final(self).facts_by_file == old(self).facts_by_file
//@ exit
    proof { assert(self.facts@ =~= (if stored(old(self).facts@, id) is Some { old(self).facts@.update(id.0 as int, None) } else { old(self).facts@ })); }
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::clone_facts
//@ ret r
//@ rewrite? self.fact(*id).cloned() ==> vp_cloned(self.fact(*id))
//@ rewrite? ids.iter().filter_map(|id| $b:a).collect() ==> vp_filter_map(ids, |id: &MethodFactId| -> Option<StoredMethodFact> { vp_clause!("ensures vp_r == stored(self.facts@, *id)"); $b }, Ghost(|x: FactId| stored(self.facts.view(), x)))
//@ spec
    requires forall|i: int| 0 <= i < ids@.len() ==> slot(self.facts@, #[trigger] ids@[i])
    ensures r@ == facts_at(self.facts@, ids@)
//@ entry
    proof { mapped_all(ids@, |x: FactId| stored(self.facts@, x)); assert(Seq::new(ids@.len(), |i: int| stored(self.facts@, ids@[i])->0) =~= facts_at(self.facts@, ids@)); }
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::facts_for
//@ ret r
//@ rewrite? $x:e.map(|ids| $b:a).unwrap_or_default() ==> (match $x { Some(ids) => { let vp_r = $b; vp_text!("proof { bucket_lists(self.facts@, self.facts_by_fqn@, by_fqn(), fqn_le(), fqn); }"); vp_r } None => { vp_text!("proof { no_bucket(self.facts@, self.facts_by_fqn@, by_fqn(), fqn); }"); Vec::new() } })
//@ spec
    requires store_ok(*self)
    ensures lists(self.facts@, r@, by_fqn(), fqn), in_order(r@, fqn_le())
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::facts_in_file
//@ sig fn facts_in_file(&self, file_id: SourceFileId) -> (r: Vec<StoredMethodFact>)
//@ rewrite? $x:e.map(|ids| $b:a).unwrap_or_default() ==> (match $x { Some(ids) => { let vp_r = $b; vp_text!("proof { bucket_lists(self.facts@, self.facts_by_file@, of_file(), file_le(), file_id); }"); vp_r } None => { vp_text!("proof { no_bucket(self.facts@, self.facts_by_file@, of_file(), file_id); }"); Vec::new() } })
//@ spec
    requires store_ok(*self)
    ensures lists(self.facts@, r@, of_file(), file_id), in_order(r@, file_le())
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::facts_matching_owner_name
//@ ret r
//@ rewrite? $x:e.map(|ids| $b:a).unwrap_or_default() ==> (match $x { Some(ids) => { let vp_r = $b; vp_text!("proof { bucket_lists(self.facts@, self.facts_by_owner_name@, by_owner_name(), owner_le(), (owner, *method)); }"); vp_r } None => { vp_text!("proof { no_bucket(self.facts@, self.facts_by_owner_name@, by_owner_name(), (owner, *method)); }"); Vec::new() } })
//@ spec
    requires store_ok(*self)
    ensures lists(self.facts@, r@, by_owner_name(), (owner, *method)), in_order(r@, owner_le())
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::all_facts
//@ ret r
//@ rewrite? fact.clone() ==> vp_clone(fact)
//@ rewrite? self.facts.iter().filter_map(|fact| $b:a).collect() ==> vp_filter_map(self.facts.as_slice(), |fact: &Option<StoredMethodFact>| -> Option<StoredMethodFact> { vp_clause!("ensures vp_r == *fact"); $b }, Ghost(keep()))
//@ spec
    ensures forall|f: Fact| #[trigger] r@.to_multiset().count(f) == cnt(self.facts@, f)
//@ entry
    proof { assert forall|f: Fact| #[trigger] mapped(self.facts@, keep()).to_multiset().count(f) == cnt(self.facts@, f) by { mapped_counts(self.facts@, f); } }
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::add
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ spec
    requires store_ok(*old(self))
    ensures store_ok(*final(self)), forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == cnt(old(self).facts@, f) + (if f == fact { 1int } else { 0 })
//@ exit
    proof {
         assert(self.facts_by_fqn@ =~= old(self).facts_by_fqn@.insert(fact.fqn, self.facts_by_fqn@[fact.fqn])); assert(self.facts_by_owner@ =~= old(self).facts_by_owner@.insert(fact.owner, self.facts_by_owner@[fact.owner])); assert(self.facts_by_file@ =~= old(self).facts_by_file@.insert(fact.range.file_id, self.facts_by_file@[fact.range.file_id])); if fact.method is Some { let vp_key = (fact.owner, fact.method->0); assert(self.facts_by_owner_name@ =~= old(self).facts_by_owner_name@.insert(vp_key, self.facts_by_owner_name@[vp_key])); }
        put_one(*old(self), *self, id, fact);
    }
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::remove_file
//@ sig fn remove_file(&mut self, file_id: SourceFileId)
//@ rewrite? for stale_id in stale_facts $b:b ==> { let mut vp_j: usize = 0; while vp_j < stale_facts.len() { let stale_id = stale_facts[vp_j]; vp_text!("let ghost vp_o = *self; proof { assert(stale_facts@.skip(vp_j as int)[0] == stale_id); }"); vp_j += 1; $b vp_text!("proof { assert(slot(vp_o.facts@, stale_id)); { let k = at(vp_o.facts@, stale_id).fqn; assert(by_fqn()(at(vp_o.facts@, stale_id)) is Some); assert(vp_o.facts_by_fqn@.contains_key(k)); if self.facts_by_fqn@.contains_key(k) { assert(self.facts_by_fqn@ =~= vp_o.facts_by_fqn@.insert(k, self.facts_by_fqn@[k])); } else { assert(self.facts_by_fqn@ =~= vp_o.facts_by_fqn@.remove(k)); } } { let k = at(vp_o.facts@, stale_id).owner; assert(by_owner()(at(vp_o.facts@, stale_id)) is Some); assert(vp_o.facts_by_owner@.contains_key(k)); if self.facts_by_owner@.contains_key(k) { assert(self.facts_by_owner@ =~= vp_o.facts_by_owner@.insert(k, self.facts_by_owner@[k])); } else { assert(self.facts_by_owner@ =~= vp_o.facts_by_owner@.remove(k)); } } if at(vp_o.facts@, stale_id).method is Some { let k = (at(vp_o.facts@, stale_id).owner, at(vp_o.facts@, stale_id).method->0); assert(by_owner_name()(at(vp_o.facts@, stale_id)) == Some(k)); assert(vp_o.facts_by_owner_name@.contains_key(k)); if self.facts_by_owner_name@.contains_key(k) { assert(self.facts_by_owner_name@ =~= vp_o.facts_by_owner_name@.insert(k, self.facts_by_owner_name@[k])); } else { assert(self.facts_by_owner_name@ =~= vp_o.facts_by_owner_name@.remove(k)); } } removed_one(vp_o, *self, file_id, stale_facts@.skip(vp_j - 1)); assert(stale_facts@.skip(vp_j - 1).skip(1) =~= stale_facts@.skip(vp_j as int)); }"); } }
//@ rewrite? ids.retain(|id| $c:a) ==> vp_retain(ids, |id: &MethodFactId| -> bool { vp_clause!("ensures vp_r == (*id != stale_id)"); $c }, Ghost(other(stale_id)))
//@ spec
    requires store_ok(*old(self))
    ensures store_ok(*final(self)), forall|id: FactId| #[trigger] slot(final(self).facts@, id) ==> fact_file(at(final(self).facts@, id)) != file_id,
        forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == (if fact_file(f) == file_id { 0 } else { cnt(old(self).facts@, f) })
//@ loop 0
    invariant vp_j <= stale_facts@.len(), self.facts@.len() <= 0x1_0000_0000, free_ok(self.facts@, self.free_facts@),
        index_ok(self.facts@, self.facts_by_fqn@, by_fqn()), all_sorted(self.facts@, self.facts_by_fqn@, fqn_le()),
        index_ok(self.facts@, self.facts_by_owner@, by_owner()), all_sorted(self.facts@, self.facts_by_owner@, owner_le()),
        index_ok(self.facts@, self.facts_by_owner_name@, by_owner_name()), all_sorted(self.facts@, self.facts_by_owner_name@, owner_le()),
        index_but(self.facts@, self.facts_by_file@, of_file(), file_id, stale_facts@.skip(vp_j as int)), all_sorted(self.facts@, self.facts_by_file@, file_le()),
        forall|f: Fact| fact_file(f) != file_id ==> #[trigger] cnt(self.facts@, f) == cnt(old(self).facts@, f)
    decreases stale_facts@.len() - vp_j
//@ entry
    proof { none_of(self.facts@, self.facts_by_file@, file_id); before_removal(self.facts@, self.facts_by_file@, file_id, file_le()); }
//@ exit
    proof { assert forall|f: Fact| fact_file(f) == file_id implies #[trigger] cnt(self.facts@, f) == 0 by { cnt_zero(self.facts@, f); } }
//@end
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodStore::replace_file
//@ sig fn replace_file(&mut self, file_id: SourceFileId, facts: Vec<StoredMethodFact>)
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ rewrite? HashSet::new() ==> VpSet::new()
//@ rewrite? ids.shrink_to_fit() ==> vp_shrink(ids)
//@ rewrite? let id = self.insert_fact($f:a); ==> let id = self.insert_fact($f); vp_text!("proof { vp_id = id; }");
//@ rewrite? for fact in facts $b:b ==> vp_text!("let ghost vp_s = *self; proof { assert(facts@.take(0) =~= Seq::empty()); counted(facts@, 0); replacing_starts(vp_s, file_id); }"); { let mut vp_j: usize = 0; while vp_j < facts.len() { let fact = vp_nth(&facts, vp_j); vp_text!("let ghost vp_o = *self; let ghost mut vp_id = fact_id(0); let ghost (vp_t0, vp_t1, vp_t2) = (touched_fqns@, touched_owners@, touched_owner_names@); let ghost vp_f = fact; proof { replacing_base(vp_s, *self, file_id, (touched_fqns@, touched_owners@, touched_owner_names@)); }"); vp_j += 1; $b vp_text!("proof { let fact = vp_f; counted(facts@, vp_j as int);  assert(self.facts_by_fqn@ =~= vp_o.facts_by_fqn@.insert(fact.fqn, self.facts_by_fqn@[fact.fqn])); assert(self.facts_by_owner@ =~= vp_o.facts_by_owner@.insert(fact.owner, self.facts_by_owner@[fact.owner])); assert(self.facts_by_file@ =~= vp_o.facts_by_file@.insert(fact.range.file_id, self.facts_by_file@[fact.range.file_id])); if fact.method is Some { let vp_key = (fact.owner, fact.method->0); assert(self.facts_by_owner_name@ =~= vp_o.facts_by_owner_name@.insert(vp_key, self.facts_by_owner_name@[vp_key])); } replaced_one(vp_s, vp_o, *self, fact, file_id, (vp_t0, vp_t1, vp_t2), (touched_fqns@, touched_owners@, touched_owner_names@), vp_id); }"); } }
//@ rewrite? for fqn in touched_fqns $b:b ==> vp_text!("let ghost vp_m0 = *self; proof { reveal(replacing); }"); { let vp_ts = touched_fqns.vp_into(); vp_text!("proof { sorting_starts(vp_s.facts@, self.facts@, vp_s.facts_by_fqn@, self.facts_by_fqn@, touched_fqns@, vp_ts@, by_fqn(), fqn_le()); }"); let mut vp_k: usize = 0; while vp_k < vp_ts.len() { let fqn = vp_ts[vp_k]; vp_text!("let ghost vp_o = *self"); vp_k += 1; $b vp_text!("proof { if vp_o.facts_by_fqn@.contains_key(fqn) { assert(self.facts_by_fqn@ =~= vp_o.facts_by_fqn@.insert(fqn, self.facts_by_fqn@[fqn])); } sorting_step(self.facts@, vp_o.facts_by_fqn@, self.facts_by_fqn@, vp_ts@, vp_k - 1, by_fqn(), fqn_le()); }"); } vp_text!("proof { sorting_ends(self.facts@, self.facts_by_fqn@, vp_ts@, fqn_le()); }"); }
//@ rewrite? for owner in touched_owners $b:b ==> vp_text!("let ghost vp_m1 = *self"); { let vp_ts = touched_owners.vp_into(); vp_text!("proof { sorting_starts(vp_s.facts@, self.facts@, vp_s.facts_by_owner@, self.facts_by_owner@, touched_owners@, vp_ts@, by_owner(), owner_le()); }"); let mut vp_k: usize = 0; while vp_k < vp_ts.len() { let owner = vp_ts[vp_k]; vp_text!("let ghost vp_o = *self"); vp_k += 1; $b vp_text!("proof { if vp_o.facts_by_owner@.contains_key(owner) { assert(self.facts_by_owner@ =~= vp_o.facts_by_owner@.insert(owner, self.facts_by_owner@[owner])); } sorting_step(self.facts@, vp_o.facts_by_owner@, self.facts_by_owner@, vp_ts@, vp_k - 1, by_owner(), owner_le()); }"); } vp_text!("proof { sorting_ends(self.facts@, self.facts_by_owner@, vp_ts@, owner_le()); }"); }
//@ rewrite? for key in touched_owner_names $b:b ==> vp_text!("let ghost vp_m2 = *self"); { let vp_ts = touched_owner_names.vp_into(); vp_text!("proof { sorting_starts(vp_s.facts@, self.facts@, vp_s.facts_by_owner_name@, self.facts_by_owner_name@, touched_owner_names@, vp_ts@, by_owner_name(), owner_le()); }"); let mut vp_k: usize = 0; while vp_k < vp_ts.len() { let key = vp_ts[vp_k]; vp_text!("let ghost vp_o = *self"); vp_k += 1; $b vp_text!("proof { if vp_o.facts_by_owner_name@.contains_key(key) { assert(self.facts_by_owner_name@ =~= vp_o.facts_by_owner_name@.insert(key, self.facts_by_owner_name@[key])); } sorting_step(self.facts@, vp_o.facts_by_owner_name@, self.facts_by_owner_name@, vp_ts@, vp_k - 1, by_owner_name(), owner_le()); }"); } vp_text!("proof { sorting_ends(self.facts@, self.facts_by_owner_name@, vp_ts@, owner_le()); }"); }
//@ spec
    requires store_ok(*old(self)), forall|i: int| 0 <= i < facts@.len() ==> fact_file(#[trigger] facts@[i]) == file_id
    ensures store_ok(*final(self)), forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == (if fact_file(f) == file_id { facts@.to_multiset().count(f) } else { cnt(old(self).facts@, f) })
//@ loop 0
    invariant vp_j <= facts@.len(), forall|i: int| 0 <= i < facts@.len() ==> fact_file(#[trigger] facts@[i]) == file_id, replacing(vp_s, *self, file_id, (touched_fqns@, touched_owners@, touched_owner_names@)),
        forall|f: Fact| #[trigger] cnt(self.facts@, f) == cnt(vp_s.facts@, f) + facts@.take(vp_j as int).to_multiset().count(f)
    decreases facts@.len() - vp_j
//@ loop 1
    invariant vp_k <= vp_ts@.len(), index_ok(vp_m0.facts@, vp_m0.facts_by_fqn@, by_fqn()), self.facts == vp_m0.facts, self.free_facts == vp_m0.free_facts, self.facts_by_owner == vp_m0.facts_by_owner, self.facts_by_owner_name == vp_m0.facts_by_owner_name, self.facts_by_file == vp_m0.facts_by_file, index_ok(self.facts@, self.facts_by_fqn@, by_fqn()), sorted_but(self.facts@, self.facts_by_fqn@, vp_ts@.skip(vp_k as int), fqn_le())
    decreases vp_ts@.len() - vp_k
//@ loop 2
    invariant vp_k <= vp_ts@.len(), index_ok(vp_m1.facts@, vp_m1.facts_by_owner@, by_owner()), self.facts == vp_m1.facts, self.free_facts == vp_m1.free_facts, self.facts_by_fqn == vp_m1.facts_by_fqn, self.facts_by_owner_name == vp_m1.facts_by_owner_name, self.facts_by_file == vp_m1.facts_by_file, index_ok(self.facts@, self.facts_by_owner@, by_owner()), sorted_but(self.facts@, self.facts_by_owner@, vp_ts@.skip(vp_k as int), owner_le())
    decreases vp_ts@.len() - vp_k
//@ loop 3
    invariant vp_k <= vp_ts@.len(), index_ok(vp_m2.facts@, vp_m2.facts_by_owner_name@, by_owner_name()), self.facts == vp_m2.facts, self.free_facts == vp_m2.free_facts, self.facts_by_fqn == vp_m2.facts_by_fqn, self.facts_by_owner == vp_m2.facts_by_owner, self.facts_by_file == vp_m2.facts_by_file, index_ok(self.facts@, self.facts_by_owner_name@, by_owner_name()), sorted_but(self.facts@, self.facts_by_owner_name@, vp_ts@.skip(vp_k as int), owner_le())
    decreases vp_ts@.len() - vp_k
//@ exit
    proof { assert(facts@.take(facts@.len() as int) =~= facts@); file_placed(vp_s, vp_m0, *self, file_id); from_file(facts@, file_id); }
//@end
}
/// the facts are handed over one by one (moved out of the iterator)
#[verifier::external_body]
fn vp_nth(v: &Vec<StoredMethodFact>, i: usize) -> (r: StoredMethodFact) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
proof fn put_one(o: MethodStore, n: MethodStore, id: FactId, fact: Fact)
    requires store_ok(o), base_ok(n), added(o.facts@, n.facts@, id, fact),
        n.facts_by_fqn@ == o.facts_by_fqn@.insert(fact.fqn, n.facts_by_fqn@[fact.fqn]), perm(ids_at(o.facts_by_fqn@, fact.fqn).push(id), n.facts_by_fqn@[fact.fqn]@), sorted_ids(n.facts@, n.facts_by_fqn@[fact.fqn]@, fqn_le()),
        n.facts_by_owner@ == o.facts_by_owner@.insert(fact.owner, n.facts_by_owner@[fact.owner]), perm(ids_at(o.facts_by_owner@, fact.owner).push(id), n.facts_by_owner@[fact.owner]@), sorted_ids(n.facts@, n.facts_by_owner@[fact.owner]@, owner_le()),
        n.facts_by_file@ == o.facts_by_file@.insert(fact.range.file_id, n.facts_by_file@[fact.range.file_id]), perm(ids_at(o.facts_by_file@, fact.range.file_id).push(id), n.facts_by_file@[fact.range.file_id]@), sorted_ids(n.facts@, n.facts_by_file@[fact.range.file_id]@, file_le()),
        match fact.method { None => n.facts_by_owner_name@ == o.facts_by_owner_name@, Some(m) => ({ let k = (fact.owner, m); n.facts_by_owner_name@ == o.facts_by_owner_name@.insert(k, n.facts_by_owner_name@[k]) && perm(ids_at(o.facts_by_owner_name@, k).push(id), n.facts_by_owner_name@[k]@) && sorted_ids(n.facts@, n.facts_by_owner_name@[k]@, owner_le()) }) }
    ensures store_ok(n)
{
    index_put(o.facts@, n.facts@, id, fact, o.facts_by_fqn@, n.facts_by_fqn@, by_fqn()); sorted_put(o.facts@, n.facts@, id, fact, o.facts_by_fqn@, n.facts_by_fqn@, by_fqn(), fqn_le());
    index_put(o.facts@, n.facts@, id, fact, o.facts_by_owner@, n.facts_by_owner@, by_owner()); sorted_put(o.facts@, n.facts@, id, fact, o.facts_by_owner@, n.facts_by_owner@, by_owner(), owner_le());
    index_put(o.facts@, n.facts@, id, fact, o.facts_by_file@, n.facts_by_file@, of_file()); sorted_put(o.facts@, n.facts@, id, fact, o.facts_by_file@, n.facts_by_file@, of_file(), file_le());
    if fact.method is Some {
        index_put(o.facts@, n.facts@, id, fact, o.facts_by_owner_name@, n.facts_by_owner_name@, by_owner_name()); sorted_put(o.facts@, n.facts@, id, fact, o.facts_by_owner_name@, n.facts_by_owner_name@, by_owner_name(), owner_le());
    } else {
        index_add(o.facts@, n.facts@, id, fact, o.facts_by_owner_name@, n.facts_by_owner_name@, by_owner_name());
        sorted_same(o.facts@, n.facts@, id, fact, o.facts_by_owner_name@, by_owner_name(), owner_le());
    }
}
/// one fact of the removed file was taken out
proof fn removed_one(o: MethodStore, n: MethodStore, file_id: SourceFileId, rest: Seq<FactId>)
    requires rest.len() > 0, o.facts@.len() <= 0x1_0000_0000, free_ok(o.facts@, o.free_facts@),
        index_ok(o.facts@, o.facts_by_fqn@, by_fqn()), all_sorted(o.facts@, o.facts_by_fqn@, fqn_le()), index_dropped(o.facts_by_fqn@, n.facts_by_fqn@, by_fqn()(at(o.facts@, rest[0])), rest[0]),
        index_ok(o.facts@, o.facts_by_owner@, by_owner()), all_sorted(o.facts@, o.facts_by_owner@, owner_le()), index_dropped(o.facts_by_owner@, n.facts_by_owner@, by_owner()(at(o.facts@, rest[0])), rest[0]),
        index_ok(o.facts@, o.facts_by_owner_name@, by_owner_name()), all_sorted(o.facts@, o.facts_by_owner_name@, owner_le()), index_dropped(o.facts_by_owner_name@, n.facts_by_owner_name@, by_owner_name()(at(o.facts@, rest[0])), rest[0]),
        index_but(o.facts@, o.facts_by_file@, of_file(), file_id, rest), all_sorted(o.facts@, o.facts_by_file@, file_le()),
        dropped(o.facts@, n.facts@, rest[0]), n.free_facts@ == o.free_facts@.push(rest[0]), n.facts_by_file == o.facts_by_file
    ensures free_ok(n.facts@, n.free_facts@),
        index_ok(n.facts@, n.facts_by_fqn@, by_fqn()), all_sorted(n.facts@, n.facts_by_fqn@, fqn_le()),
        index_ok(n.facts@, n.facts_by_owner@, by_owner()), all_sorted(n.facts@, n.facts_by_owner@, owner_le()),
        index_ok(n.facts@, n.facts_by_owner_name@, by_owner_name()), all_sorted(n.facts@, n.facts_by_owner_name@, owner_le()),
        index_but(n.facts@, n.facts_by_file@, of_file(), file_id, rest.skip(1)), all_sorted(n.facts@, n.facts_by_file@, file_le()),
        forall|f: Fact| fact_file(f) != file_id ==> #[trigger] cnt(n.facts@, f) == cnt(o.facts@, f)
{
    index_drop(o.facts@, n.facts@, rest[0], o.facts_by_fqn@, n.facts_by_fqn@, by_fqn(), fqn_le());
    index_drop(o.facts@, n.facts@, rest[0], o.facts_by_owner@, n.facts_by_owner@, by_owner(), owner_le());
    index_drop(o.facts@, n.facts@, rest[0], o.facts_by_owner_name@, n.facts_by_owner_name@, by_owner_name(), owner_le());
    but_take(o.facts@, n.facts@, o.facts_by_file@, of_file(), file_id, rest, file_le());
    cnt_set(o.facts@, rest[0].0 as int, None);
    assert(slot(o.facts@, rest[0]) && fact_file(at(o.facts@, rest[0])) == file_id);
    freed(o.facts@, n.facts@, o.free_facts@, rest[0]);
}
/// some of the file's facts were stored again
#[verifier::opaque]
spec fn replacing(s: MethodStore, n: MethodStore, file_id: SourceFileId, t: (Set<FqnId>, Set<FqnId>, Set<(FqnId, RubyMethod)>)) -> bool {
    &&& base_ok(n) && indexes_ok(n) && kept(s.facts@, n.facts@)
    &&& grown(s.facts_by_fqn@, n.facts_by_fqn@, t.0) && grown(s.facts_by_owner@, n.facts_by_owner@, t.1) && grown(s.facts_by_owner_name@, n.facts_by_owner_name@, t.2)
    &&& grown(s.facts_by_file@, n.facts_by_file@, Set::empty().insert(file_id))
}
proof fn replacing_base(s: MethodStore, n: MethodStore, file_id: SourceFileId, t: (Set<FqnId>, Set<FqnId>, Set<(FqnId, RubyMethod)>))
    requires replacing(s, n, file_id, t)
    ensures base_ok(n)
{ reveal(replacing); }
proof fn replacing_starts(s: MethodStore, file_id: SourceFileId)
    requires store_ok(s)
    ensures replacing(s, s, file_id, (Set::empty(), Set::empty(), Set::empty()))
{ reveal(replacing); }
proof fn replaced_one(s: MethodStore, o: MethodStore, n: MethodStore, fact: Fact, file_id: SourceFileId, t: (Set<FqnId>, Set<FqnId>, Set<(FqnId, RubyMethod)>), u: (Set<FqnId>, Set<FqnId>, Set<(FqnId, RubyMethod)>), id: FactId)
    requires replacing(s, o, file_id, t), base_ok(n), fact_file(fact) == file_id, added(o.facts@, n.facts@, id, fact),
        u.0 == t.0.insert(fact.fqn), u.1 == t.1.insert(fact.owner), u.2 == (match fact.method { Some(m) => t.2.insert((fact.owner, m)), None => t.2 }),
        n.facts_by_fqn@ == o.facts_by_fqn@.insert(fact.fqn, n.facts_by_fqn@[fact.fqn]), n.facts_by_fqn@[fact.fqn]@ == ids_at(o.facts_by_fqn@, fact.fqn).push(id),
        n.facts_by_owner@ == o.facts_by_owner@.insert(fact.owner, n.facts_by_owner@[fact.owner]), n.facts_by_owner@[fact.owner]@ == ids_at(o.facts_by_owner@, fact.owner).push(id),
        n.facts_by_file@ == o.facts_by_file@.insert(fact.range.file_id, n.facts_by_file@[fact.range.file_id]), n.facts_by_file@[fact.range.file_id]@ == ids_at(o.facts_by_file@, fact.range.file_id).push(id),
        match fact.method { None => n.facts_by_owner_name@ == o.facts_by_owner_name@, Some(m) => ({ let k = (fact.owner, m); n.facts_by_owner_name@ == o.facts_by_owner_name@.insert(k, n.facts_by_owner_name@[k]) && n.facts_by_owner_name@[k]@ == ids_at(o.facts_by_owner_name@, k).push(id) }) }
    ensures replacing(s, n, file_id, u)
{
    reveal(replacing);
    index_add(o.facts@, n.facts@, id, fact, o.facts_by_fqn@, n.facts_by_fqn@, by_fqn());
    index_add(o.facts@, n.facts@, id, fact, o.facts_by_owner@, n.facts_by_owner@, by_owner());
    index_add(o.facts@, n.facts@, id, fact, o.facts_by_owner_name@, n.facts_by_owner_name@, by_owner_name());
    index_add(o.facts@, n.facts@, id, fact, o.facts_by_file@, n.facts_by_file@, of_file());
    grown_one(s.facts_by_fqn@, o.facts_by_fqn@, n.facts_by_fqn@, t.0, fact.fqn); grown_one(s.facts_by_owner@, o.facts_by_owner@, n.facts_by_owner@, t.1, fact.owner);
    if fact.method is Some { grown_one(s.facts_by_owner_name@, o.facts_by_owner_name@, n.facts_by_owner_name@, t.2, (fact.owner, fact.method->0)); }
    grown_one(s.facts_by_file@, o.facts_by_file@, n.facts_by_file@, Set::empty().insert(file_id), file_id);
    assert(Set::<SourceFileId>::empty().insert(file_id).insert(file_id) =~= Set::<SourceFileId>::empty().insert(file_id));
    assert forall|x: FactId| slot(s.facts@, x) implies #[trigger] slot(n.facts@, x) && at(n.facts@, x) == at(s.facts@, x) by { assert(slot(o.facts@, x)); assert(x != id); }
}
/// the file's own bucket was sorted last
proof fn file_placed(s: MethodStore, m: MethodStore, n: MethodStore, file_id: SourceFileId)
    requires store_ok(s), kept(s.facts@, n.facts@), grown(s.facts_by_file@, m.facts_by_file@, Set::empty().insert(file_id)), base_ok(m), n.facts == m.facts, n.free_facts == m.free_facts, index_ok(m.facts@, m.facts_by_file@, of_file()),
        index_ok(n.facts@, n.facts_by_fqn@, by_fqn()), all_sorted(n.facts@, n.facts_by_fqn@, fqn_le()),
        index_ok(n.facts@, n.facts_by_owner@, by_owner()), all_sorted(n.facts@, n.facts_by_owner@, owner_le()),
        index_ok(n.facts@, n.facts_by_owner_name@, by_owner_name()), all_sorted(n.facts@, n.facts_by_owner_name@, owner_le()),
        if m.facts_by_file@.contains_key(file_id) { n.facts_by_file@ == m.facts_by_file@.insert(file_id, n.facts_by_file@[file_id]) && perm(m.facts_by_file@[file_id]@, n.facts_by_file@[file_id]@) && sorted_ids(n.facts@, n.facts_by_file@[file_id]@, file_le()) } else { n.facts_by_file@ == m.facts_by_file@ }
    ensures store_ok(n)
{
    if m.facts_by_file@.contains_key(file_id) { index_resorted(n.facts@, m.facts_by_file@, n.facts_by_file@, of_file(), file_id); }
    assert forall|k: SourceFileId| #[trigger] n.facts_by_file@.contains_key(k) implies sorted_ids(n.facts@, n.facts_by_file@[k]@, file_le()) by {
        if k != file_id {
            assert(m.facts_by_file@.contains_key(k)); assert(!Set::<SourceFileId>::empty().insert(file_id).contains(k)); let ids = s.facts_by_file@[k]@;
            assert(bucket_ok(s.facts@, ids, k, of_file()));
            assert forall|i: int| 0 <= i < ids.len() implies at(n.facts@, #[trigger] ids[i]) == at(s.facts@, ids[i]) by { assert(slot(s.facts@, ids[i])); assert(slot(n.facts@, ids[i])); }
            sorted_kept(s.facts@, n.facts@, ids, file_le());
        }
    }
}
proof fn reused(o: MethodStore, n: MethodStore, id: FactId, fact: Fact)
    requires base_ok(o), o.free_facts@.len() > 0, id == o.free_facts@.last(), n.free_facts@ == o.free_facts@.drop_last(), n.facts@ == o.facts@.update(id.0 as int, Some(fact))
    ensures base_ok(n), added(o.facts@, n.facts@, id, fact), forall|f: Fact| #[trigger] cnt(n.facts@, f) == cnt(o.facts@, f) + (if f == fact { 1int } else { 0 })
{
    let fr = o.free_facts@; assert(fr[fr.len() - 1] == id);
    cnt_set(o.facts@, id.0 as int, Some(fact));
    assert forall|i: int| 0 <= i < n.free_facts@.len() implies (#[trigger] n.free_facts@[i]).0 < n.facts@.len() && n.facts@[n.free_facts@[i].0 as int] is None by { assert(n.free_facts@[i] == fr[i] && fr[i] != fr[fr.len() - 1]); }
}
}
fn main() {}
