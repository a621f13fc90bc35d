// C03: the symbol store holds exactly the facts of the last version of every file.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/fqn_id.rs :: FqnId ; derive Clone, Copy, PartialEq, Eq, Structural
//@enum crates/ruby-analysis/src/core/symbol_store.rs :: SymbolKind ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/symbol_store.rs :: StoredSymbolFact ; derive Clone, Copy
//@struct crates/ruby-analysis/src/core/symbol_store.rs :: SymbolFactId ; derive Clone, Copy, PartialEq, Eq, Structural
type Fact = StoredSymbolFact;
type FactId = SymbolFactId;
spec fn fact_id(i: int) -> FactId { SymbolFactId(i as u32) }
spec fn fact_file(f: Fact) -> SourceFileId { f.range.file_id }
//@include arena.vrs

//@struct crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore ; subst HashMap<$k, $v:a> ==> VpMap<$k, $v>
fn vp_u32(x: usize) -> (r: u32) ensures r == x { if x > 0xffff_ffff { vp_abort() } x as u32 }
impl SymbolFactId {
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolFactId::from_index
//@ ret r
//@ rewrite? u32::try_from($x:a).expect($m:a) ==> vp_u32($x)
//@ spec
    ensures r.0 == index
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolFactId::index
//@ ret r
//@ spec
    ensures r == self.0
//@end
}
// ---- the two orders ----
uninterp spec fn kind_rank(k: SymbolKind) -> int;
spec fn fqn_rank(f: Fact) -> (SourceFileId, u32, u32, SymbolKind) { (f.range.file_id, f.range.start_byte, f.range.end_byte, f.kind) }
spec fn file_rank(f: Fact) -> (u32, u32, SymbolKind) { (f.range.start_byte, f.range.end_byte, f.kind) }
spec fn le3(x: (u32, u32, SymbolKind), y: (u32, u32, SymbolKind)) -> bool { x.0 < y.0 || (x.0 == y.0 && (x.1 < y.1 || (x.1 == y.1 && kind_rank(x.2) <= kind_rank(y.2)))) }
spec fn le4(x: (SourceFileId, u32, u32, SymbolKind), y: (SourceFileId, u32, u32, SymbolKind)) -> bool { x.0.0 < y.0.0 || (x.0.0 == y.0.0 && le3((x.1, x.2, x.3), (y.1, y.2, y.3))) }
spec fn fqn_le() -> spec_fn(Fact, Fact) -> bool { |f: Fact, g: Fact| le4(fqn_rank(f), fqn_rank(g)) }
spec fn file_le() -> spec_fn(Fact, Fact) -> bool { |f: Fact, g: Fact| le3(file_rank(f), file_rank(g)) }
spec fn by_fqn() -> spec_fn(Fact) -> Option<FqnId> { |f: Fact| Some(f.fqn) }
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: sort_symbol_ids
//@ rewrite? ids.sort_by_key(|id| $b:b); ==> vp_sort_by_key(ids, |id: &SymbolFactId| -> (SourceFileId, u32, u32, SymbolKind) { vp_clause!("requires slot(facts@, *id) ensures vp_r == fqn_rank(at(facts@, *id))"); $b }, Ghost(|x: FactId| fqn_rank(at(facts.view(), x))), Ghost(|x: (SourceFileId, u32, u32, SymbolKind), y: (SourceFileId, u32, u32, SymbolKind)| le4(x, y)));
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires forall|i: int| 0 <= i < old(ids)@.len() ==> slot(facts@, #[trigger] old(ids)@[i])
    ensures perm(old(ids)@, final(ids)@), sorted_ids(facts@, final(ids)@, fqn_le())
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: sort_symbol_ids_by_file
//@ rewrite? ids.sort_by_key(|id| $b:b); ==> vp_sort_by_key(ids, |id: &SymbolFactId| -> (u32, u32, SymbolKind) { vp_clause!("requires slot(facts@, *id) ensures vp_r == file_rank(at(facts@, *id))"); $b }, Ghost(|x: FactId| file_rank(at(facts.view(), x))), Ghost(|x: (u32, u32, SymbolKind), y: (u32, u32, SymbolKind)| le3(x, y)));
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires forall|i: int| 0 <= i < old(ids)@.len() ==> slot(facts@, #[trigger] old(ids)@[i])
    ensures perm(old(ids)@, final(ids)@), sorted_ids(facts@, final(ids)@, file_le())
//@end
spec fn base_ok(s: SymbolStore) -> bool { s.facts@.len() <= 0x1_0000_0000 && free_ok(s.facts@, s.free_facts@) }
spec fn indexes_ok(s: SymbolStore) -> bool { index_ok(s.facts@, s.facts_by_fqn@, by_fqn()) && index_ok(s.facts@, s.facts_by_file@, of_file()) }
/// the store's invariant
spec fn store_ok(s: SymbolStore) -> bool { base_ok(s) && indexes_ok(s) && all_sorted(s.facts@, s.facts_by_fqn@, fqn_le()) && all_sorted(s.facts@, s.facts_by_file@, file_le()) }
impl SymbolStore {
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::insert_fact
//@ ret r
//@ rewrite? $x:e.expect($m:a) ==> $x.unwrap()
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? return id; ==> vp_text!("proof { reused(*old(self), *self, id, fact); }"); return id;
//@ spec
    requires base_ok(*old(self))
    ensures base_ok(*final(self)), added(old(self).facts@, final(self).facts@, r, fact), final(self).facts_by_fqn == old(self).facts_by_fqn, final(self).facts_by_file == old(self).facts_by_file,
        forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == cnt(old(self).facts@, f) + (if f == fact { 1int } else { 0 })
//@ exit
    proof { cnt_push(old(self).facts@, Some(fact)); }
//@end
}
impl SymbolStore {
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::fact
//@ ret r
//@ rewrite? $x:e.and_then(|$i:i| $b:a) ==> (match $x { Some($i) => $b, None => None })
//@ spec
    ensures r == stored(self.facts@, id)
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::take_fact
//@ ret r
//@ rewrite? $x:e.and_then(Option::take) ==> (match $x { Some(vp_slot) => vp_slot.take(), None => None })
//@ spec
    ensures r == stored(old(self).facts@, id), r is Some ==> dropped(old(self).facts@, final(self).facts@, id), r is None ==> final(self).facts@ == old(self).facts@,
        final(self).free_facts == old(self).free_facts, final(self).facts_by_fqn == old(self).facts_by_fqn, final(self).facts_by_file == old(self).facts_by_file
//@ exit
    proof { assert(self.facts@ =~= (if stored(old(self).facts@, id) is Some { old(self).facts@.update(id.0 as int, None) } else { old(self).facts@ })); }
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::clone_facts
//@ ret r
//@ rewrite? ids.iter().filter_map(|id| $b:a).collect() ==> vp_filter_map(ids, |id: &SymbolFactId| -> Option<StoredSymbolFact> { vp_clause!("ensures vp_r == stored(self.facts@, *id)"); $b }, Ghost(|x: FactId| stored(self.facts.view(), x)))
//@ spec
    requires forall|i: int| 0 <= i < ids@.len() ==> slot(self.facts@, #[trigger] ids@[i])
    ensures r@ == facts_at(self.facts@, ids@)
//@ entry
    proof { mapped_all(ids@, |x: FactId| stored(self.facts@, x)); assert(Seq::new(ids@.len(), |i: int| stored(self.facts@, ids@[i])->0) =~= facts_at(self.facts@, ids@)); }
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::facts_for
//@ ret r
//@ rewrite? $x:e.map(|ids| $b:a).unwrap_or_default() ==> (match $x { Some(ids) => { let vp_r = $b; vp_text!("proof { bucket_lists(self.facts@, self.facts_by_fqn@, by_fqn(), fqn_le(), fqn); }"); vp_r } None => { vp_text!("proof { no_bucket(self.facts@, self.facts_by_fqn@, by_fqn(), fqn); }"); Vec::new() } })
//@ spec
    requires store_ok(*self)
    ensures lists(self.facts@, r@, by_fqn(), fqn), in_order(r@, fqn_le())
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::facts_in_file
//@ ret r
//@ rewrite? crate::SourceFileId ==> SourceFileId
//@ rewrite? $x:e.map(|ids| $b:a).unwrap_or_default() ==> (match $x { Some(ids) => { let vp_r = $b; vp_text!("proof { bucket_lists(self.facts@, self.facts_by_file@, of_file(), file_le(), file_id); }"); vp_r } None => { vp_text!("proof { no_bucket(self.facts@, self.facts_by_file@, of_file(), file_id); }"); Vec::new() } })
//@ sig fn facts_in_file(&self, file_id: SourceFileId) -> (r: Vec<StoredSymbolFact>)
//@ spec
    requires store_ok(*self)
    ensures lists(self.facts@, r@, of_file(), file_id), in_order(r@, file_le())
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::all_facts
//@ ret r
//@ rewrite? self.facts.iter().filter_map(|fact| $b:a).collect() ==> vp_filter_map(self.facts.as_slice(), |fact: &Option<StoredSymbolFact>| -> Option<StoredSymbolFact> { vp_clause!("ensures vp_r == *fact"); $b }, Ghost(keep()))
//@ spec
    ensures forall|f: Fact| #[trigger] r@.to_multiset().count(f) == cnt(self.facts@, f)
//@ entry
    proof { assert forall|f: Fact| #[trigger] mapped(self.facts@, keep()).to_multiset().count(f) == cnt(self.facts@, f) by { mapped_counts(self.facts@, f); } }
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::add
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ spec
    requires store_ok(*old(self))
    ensures store_ok(*final(self)), forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == cnt(old(self).facts@, f) + (if f == fact { 1int } else { 0 })
//@ exit
    proof {
        assert(self.facts_by_fqn@ =~= old(self).facts_by_fqn@.insert(fact.fqn, self.facts_by_fqn@[fact.fqn]));
        assert(self.facts_by_file@ =~= old(self).facts_by_file@.insert(fact.range.file_id, self.facts_by_file@[fact.range.file_id]));
        index_put(old(self).facts@, self.facts@, id, fact, old(self).facts_by_fqn@, self.facts_by_fqn@, by_fqn());
        sorted_put(old(self).facts@, self.facts@, id, fact, old(self).facts_by_fqn@, self.facts_by_fqn@, by_fqn(), fqn_le());
        index_put(old(self).facts@, self.facts@, id, fact, old(self).facts_by_file@, self.facts_by_file@, of_file());
        sorted_put(old(self).facts@, self.facts@, id, fact, old(self).facts_by_file@, self.facts_by_file@, of_file(), file_le());
    }
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::remove_file
//@ sig fn remove_file(&mut self, file_id: SourceFileId)
//@ rewrite? for stale_id in stale_ids $b:b ==> { let mut vp_j: usize = 0; while vp_j < stale_ids.len() { let stale_id = stale_ids[vp_j]; vp_text!("let ghost vp_o = *self; proof { assert(stale_ids@.skip(vp_j as int)[0] == stale_id); }"); vp_j += 1; $b vp_text!("proof { let k = at(vp_o.facts@, stale_id).fqn; assert(slot(vp_o.facts@, stale_id) && by_fqn()(at(vp_o.facts@, stale_id)) is Some); assert(vp_o.facts_by_fqn@.contains_key(k)); if self.facts_by_fqn@.contains_key(k) { assert(self.facts_by_fqn@ =~= vp_o.facts_by_fqn@.insert(k, self.facts_by_fqn@[k])); } else { assert(self.facts_by_fqn@ =~= vp_o.facts_by_fqn@.remove(k)); } removed_one(vp_o, *self, file_id, stale_ids@.skip(vp_j - 1)); assert(stale_ids@.skip(vp_j - 1).skip(1) =~= stale_ids@.skip(vp_j as int)); }"); } }
//@ rewrite? ids.retain(|id| $c:a) ==> vp_retain(ids, |id: &SymbolFactId| -> bool { vp_clause!("ensures vp_r == (*id != stale_id)"); $c }, Ghost(other(stale_id)))
//@ spec
    requires store_ok(*old(self))
    ensures store_ok(*final(self)), forall|id: FactId| #[trigger] slot(final(self).facts@, id) ==> at(final(self).facts@, id).range.file_id != file_id,
        forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == (if f.range.file_id == file_id { 0 } else { cnt(old(self).facts@, f) })
//@ loop 0
    invariant vp_j <= stale_ids@.len(), self.facts@.len() <= 0x1_0000_0000, free_ok(self.facts@, self.free_facts@),
        index_ok(self.facts@, self.facts_by_fqn@, by_fqn()), all_sorted(self.facts@, self.facts_by_fqn@, fqn_le()),
        index_but(self.facts@, self.facts_by_file@, of_file(), file_id, stale_ids@.skip(vp_j as int)), all_sorted(self.facts@, self.facts_by_file@, file_le()),
        forall|f: Fact| f.range.file_id != file_id ==> #[trigger] cnt(self.facts@, f) == cnt(old(self).facts@, f)
    decreases stale_ids@.len() - vp_j
//@ entry
    proof { none_of(self.facts@, self.facts_by_file@, file_id); before_removal(self.facts@, self.facts_by_file@, file_id, file_le()); }
//@ exit
    proof { assert forall|f: Fact| f.range.file_id == file_id implies #[trigger] cnt(self.facts@, f) == 0 by { cnt_zero(self.facts@, f); } }
//@end
//@fn crates/ruby-analysis/src/core/symbol_store.rs :: SymbolStore::replace_file
//@ sig fn replace_file(&mut self, file_id: SourceFileId, facts: Vec<StoredSymbolFact>)
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ rewrite? let id = self.insert_fact($f:a); ==> let id = self.insert_fact($f); vp_text!("proof { vp_id = id; }");
//@ rewrite? touched_fqns.iter_mut().find(|(touched, _)| *touched == key) ==> vp_find(&mut touched_fqns, key)
//@ rewrite? ids.shrink_to_fit() ==> vp_shrink(ids)
//@ rewrite? for fact in facts $b:b ==> vp_text!("let ghost vp_s = *self; proof { replacing_starts(vp_s, file_id); assert(facts@.take(0) =~= Seq::empty()); counted(facts@, 0); }"); { let mut vp_j: usize = 0; while vp_j < facts.len() { let fact = facts[vp_j]; vp_text!("let ghost vp_o = *self; let ghost vp_t = touched_fqns@; let ghost mut vp_id = fact_id(0)"); vp_j += 1; $b vp_text!("proof { counted(facts@, vp_j as int); assert(self.facts_by_fqn@ =~= vp_o.facts_by_fqn@.insert(fact.fqn, self.facts_by_fqn@[fact.fqn])); assert(self.facts_by_file@ =~= vp_o.facts_by_file@.insert(file_id, self.facts_by_file@[file_id])); replaced_one(vp_s, vp_o, *self, fact, file_id, vp_t, touched_fqns@, vp_id); }"); } }
//@ rewrite? for (fqn, appended_count) in touched_fqns $b:b ==> vp_text!("let ghost vp_m = *self; proof { placing_starts(vp_s.facts@, self.facts@, vp_s.facts_by_fqn@, self.facts_by_fqn@, touched_fqns@, by_fqn(), file_id, fqn_le()); }"); { let mut vp_k: usize = 0; while vp_k < touched_fqns.len() { let (fqn, appended_count) = touched_fqns[vp_k]; vp_text!("let ghost vp_o = *self; proof { placeable(vp_s.facts@, vp_m.facts@, vp_s.facts_by_fqn@, vp_m.facts_by_fqn@, touched_fqns@, vp_k as int, by_fqn(), file_id, fqn_le()); assert(touched_fqns@[vp_k as int].0 == fqn); }"); vp_k += 1; $b vp_text!("proof { assert(self.facts_by_fqn@ =~= vp_o.facts_by_fqn@.insert(fqn, self.facts_by_fqn@[fqn])); placing_step(self.facts@, vp_m.facts_by_fqn@, vp_o.facts_by_fqn@, self.facts_by_fqn@, touched_fqns@, vp_k - 1, by_fqn(), fqn_le()); }"); } }
//@ rewrite? place_appended_file_facts(ids, appended_count, file_id, |id| $c:b, |appended| sort_symbol_ids(&self.facts, appended),) ==> place_appended_file_facts(ids, appended_count, file_id, |id: SymbolFactId| -> SourceFileId { vp_clause!("requires slot(self.facts@, id) ensures vp_r == at(self.facts@, id).range.file_id"); $c }, vp_sorter(&self.facts), Ghost(|x: FactId| slot(self.facts.view(), x)), Ghost(|x: FactId| at(self.facts.view(), x).range.file_id.0 as int), Ghost(|x: FactId, y: FactId| le4(fqn_rank(at(self.facts.view(), x)), fqn_rank(at(self.facts.view(), y)))))
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires store_ok(*old(self)), forall|i: int| 0 <= i < facts@.len() ==> (#[trigger] facts@[i]).range.file_id == file_id
    ensures store_ok(*final(self)), forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == (if f.range.file_id == file_id { facts@.to_multiset().count(f) } else { cnt(old(self).facts@, f) })
//@ loop 0
    invariant vp_j <= facts@.len(), forall|i: int| 0 <= i < facts@.len() ==> (#[trigger] facts@[i]).range.file_id == file_id, store_ok(vp_s),
        forall|id: FactId| #[trigger] slot(vp_s.facts@, id) ==> fact_file(at(vp_s.facts@, id)) != file_id,
        replacing(vp_s, *self, file_id, touched_fqns@), forall|i: int| 0 <= i < touched_fqns@.len() ==> (#[trigger] touched_fqns@[i]).1 <= vp_j,
        forall|f: Fact| #[trigger] cnt(self.facts@, f) == cnt(vp_s.facts@, f) + facts@.take(vp_j as int).to_multiset().count(f)
    decreases facts@.len() - vp_j
//@ loop 1
    invariant vp_k <= touched_fqns@.len(), store_ok(vp_s), replacing(vp_s, vp_m, file_id, touched_fqns@),
        forall|id: FactId| #[trigger] slot(vp_s.facts@, id) ==> fact_file(at(vp_s.facts@, id)) != file_id,
        self.facts == vp_m.facts, self.free_facts == vp_m.free_facts, self.facts_by_file == vp_m.facts_by_file,
        index_ok(self.facts@, self.facts_by_fqn@, by_fqn()), placing(self.facts@, vp_m.facts_by_fqn@, self.facts_by_fqn@, touched_fqns@, vp_k as int, fqn_le())
    decreases touched_fqns@.len() - vp_k
//@ exit
    proof { placing_ends(self.facts@, vp_m.facts_by_fqn@, self.facts_by_fqn@, touched_fqns@, fqn_le()); assert(facts@.take(facts@.len() as int) =~= facts@); file_placed(vp_s, vp_m, *self, file_id, touched_fqns@); from_file(facts@, file_id); }
//@end
}
/// the closure `|appended| sort_symbol_ids(&self.facts, appended)` (Verus loses a closure's postcondition inside a loop)
fn vp_sorter<'a>(facts: &'a Vec<Option<StoredSymbolFact>>) -> (f: impl FnOnce(&mut [SymbolFactId]) + use<'a>)
    ensures forall|s: &mut [SymbolFactId]| (forall|i: int| 0 <= i < s@.len() ==> slot(facts@, #[trigger] s@[i])) ==> #[trigger] f.requires((s,)),
        forall|s: &mut [SymbolFactId]| #[trigger] f.ensures((s,), ()) ==> perm(s@, final(s)@) && sorted_ids(facts@, final(s)@, fqn_le())
{ |appended: &mut [SymbolFactId]| -> (r: ()) requires forall|i: int| 0 <= i < old(appended)@.len() ==> slot(facts@, #[trigger] old(appended)@[i]) ensures perm(old(appended)@, final(appended)@), sorted_ids(facts@, final(appended)@, fqn_le()) { sort_symbol_ids(facts, appended) } }
/// some of the file's facts were stored again
spec fn replacing(s: SymbolStore, n: SymbolStore, file_id: SourceFileId, t: Seq<(FqnId, usize)>) -> bool {
    &&& base_ok(n) && indexes_ok(n) && kept(s.facts@, n.facts@)
    &&& all_extended(n.facts@, s.facts_by_fqn@, n.facts_by_fqn@, file_id) && touch_ok(t, s.facts_by_fqn@, n.facts_by_fqn@)
    &&& all_extended(n.facts@, s.facts_by_file@, n.facts_by_file@, file_id) && forall|k: SourceFileId| #[trigger] n.facts_by_file@.contains_key(k) && k != file_id ==> s.facts_by_file@.contains_key(k) && n.facts_by_file@[k] == s.facts_by_file@[k]
}
proof fn replaced_one(s: SymbolStore, o: SymbolStore, n: SymbolStore, fact: Fact, file_id: SourceFileId, t: Seq<(FqnId, usize)>, u: Seq<(FqnId, usize)>, id: FactId)
    requires replacing(s, o, file_id, t), base_ok(n), fact.range.file_id == file_id, touch_one(t, u, fact.fqn), added(o.facts@, n.facts@, id, fact),
        n.facts_by_fqn@ == o.facts_by_fqn@.insert(fact.fqn, n.facts_by_fqn@[fact.fqn]), n.facts_by_fqn@[fact.fqn]@ == ids_at(o.facts_by_fqn@, fact.fqn).push(id),
        n.facts_by_file@ == o.facts_by_file@.insert(file_id, n.facts_by_file@[file_id]), n.facts_by_file@[file_id]@ == ids_at(o.facts_by_file@, file_id).push(id)
    ensures replacing(s, n, file_id, u)
{
    extended_one(o.facts@, n.facts@, id, fact, s.facts_by_fqn@, o.facts_by_fqn@, n.facts_by_fqn@, by_fqn(), file_id);
    assert forall|k: FqnId| #[trigger] o.facts_by_fqn@.contains_key(k) implies o.facts_by_fqn@[k]@.len() >= ids_at(s.facts_by_fqn@, k).len() by { assert(extended(o.facts@, ids_at(s.facts_by_fqn@, k), o.facts_by_fqn@[k]@, file_id)); }
    touched_one(t, u, s.facts_by_fqn@, o.facts_by_fqn@, n.facts_by_fqn@, fact.fqn, id, n.facts@, file_id);
    extended_one(o.facts@, n.facts@, id, fact, s.facts_by_file@, o.facts_by_file@, n.facts_by_file@, of_file(), file_id);
    assert forall|x: FactId| slot(s.facts@, x) implies #[trigger] slot(n.facts@, x) && at(n.facts@, x) == at(s.facts@, x) by { assert(slot(o.facts@, x)); assert(x != id); }
}
/// the file's own bucket was sorted last
proof fn file_placed(s: SymbolStore, m: SymbolStore, n: SymbolStore, file_id: SourceFileId, t: Seq<(FqnId, usize)>)
    requires store_ok(s), replacing(s, m, file_id, t), n.facts == m.facts, n.free_facts == m.free_facts, index_ok(n.facts@, n.facts_by_fqn@, by_fqn()), all_sorted(n.facts@, n.facts_by_fqn@, fqn_le()),
        if m.facts_by_file@.contains_key(file_id) { n.facts_by_file@ == m.facts_by_file@.insert(file_id, n.facts_by_file@[file_id]) && perm(m.facts_by_file@[file_id]@, n.facts_by_file@[file_id]@) && sorted_ids(n.facts@, n.facts_by_file@[file_id]@, file_le()) } else { n.facts_by_file@ == m.facts_by_file@ }
    ensures store_ok(n)
{
    if m.facts_by_file@.contains_key(file_id) { index_resorted(n.facts@, m.facts_by_file@, n.facts_by_file@, of_file(), file_id); }
    assert forall|k: SourceFileId| #[trigger] n.facts_by_file@.contains_key(k) implies sorted_ids(n.facts@, n.facts_by_file@[k]@, file_le()) by {
        if k != file_id {
            assert(m.facts_by_file@.contains_key(k)); let ids = s.facts_by_file@[k]@;
            assert(bucket_ok(s.facts@, ids, k, of_file()));
            assert forall|i: int| 0 <= i < ids.len() implies at(n.facts@, #[trigger] ids[i]) == at(s.facts@, ids[i]) by { assert(slot(s.facts@, ids[i])); assert(slot(n.facts@, ids[i])); }
            sorted_kept(s.facts@, n.facts@, ids, file_le());
        }
    }
}
proof fn replacing_starts(s: SymbolStore, file_id: SourceFileId)
    requires store_ok(s)
    ensures replacing(s, s, file_id, Seq::empty())
{
    assert forall|k: FqnId| #[trigger] s.facts_by_fqn@.contains_key(k) implies extended(s.facts@, ids_at(s.facts_by_fqn@, k), s.facts_by_fqn@[k]@, file_id) by { let v = s.facts_by_fqn@[k]@; assert(v.take(v.len() as int) =~= v); }
    assert forall|k: SourceFileId| #[trigger] s.facts_by_file@.contains_key(k) implies extended(s.facts@, ids_at(s.facts_by_file@, k), s.facts_by_file@[k]@, file_id) by { let v = s.facts_by_file@[k]@; assert(v.take(v.len() as int) =~= v); }
}
/// one fact of the removed file was taken out
proof fn removed_one(o: SymbolStore, n: SymbolStore, file_id: SourceFileId, rest: Seq<FactId>)
    requires rest.len() > 0, o.facts@.len() <= 0x1_0000_0000, free_ok(o.facts@, o.free_facts@), index_ok(o.facts@, o.facts_by_fqn@, by_fqn()), all_sorted(o.facts@, o.facts_by_fqn@, fqn_le()),
        index_but(o.facts@, o.facts_by_file@, of_file(), file_id, rest), all_sorted(o.facts@, o.facts_by_file@, file_le()),
        dropped(o.facts@, n.facts@, rest[0]), n.free_facts@ == o.free_facts@.push(rest[0]), n.facts_by_file == o.facts_by_file, index_dropped(o.facts_by_fqn@, n.facts_by_fqn@, Some(at(o.facts@, rest[0]).fqn), rest[0])
    ensures free_ok(n.facts@, n.free_facts@), index_ok(n.facts@, n.facts_by_fqn@, by_fqn()), all_sorted(n.facts@, n.facts_by_fqn@, fqn_le()),
        index_but(n.facts@, n.facts_by_file@, of_file(), file_id, rest.skip(1)), all_sorted(n.facts@, n.facts_by_file@, file_le()),
        forall|f: Fact| f.range.file_id != file_id ==> #[trigger] cnt(n.facts@, f) == cnt(o.facts@, f)
{
    index_drop(o.facts@, n.facts@, rest[0], o.facts_by_fqn@, n.facts_by_fqn@, by_fqn(), fqn_le());
    but_take(o.facts@, n.facts@, o.facts_by_file@, of_file(), file_id, rest, file_le());
    cnt_set(o.facts@, rest[0].0 as int, None);
    assert(slot(o.facts@, rest[0]) && at(o.facts@, rest[0]).range.file_id == file_id);
    freed(o.facts@, n.facts@, o.free_facts@, rest[0]);
}
proof fn reused(o: SymbolStore, n: SymbolStore, id: FactId, fact: Fact)
    requires base_ok(o), o.free_facts@.len() > 0, id == o.free_facts@.last(), n.free_facts@ == o.free_facts@.drop_last(), n.facts@ == o.facts@.update(id.0 as int, Some(fact))
    ensures base_ok(n), added(o.facts@, n.facts@, id, fact), forall|f: Fact| #[trigger] cnt(n.facts@, f) == cnt(o.facts@, f) + (if f == fact { 1int } else { 0 })
{
    let fr = o.free_facts@; assert(fr[fr.len() - 1] == id);
    cnt_set(o.facts@, id.0 as int, Some(fact));
    assert forall|i: int| 0 <= i < n.free_facts@.len() implies (#[trigger] n.free_facts@[i]).0 < n.facts@.len() && n.facts@[n.free_facts@[i].0 as int] is None by { assert(n.free_facts@[i] == fr[i] && fr[i] != fr[fr.len() - 1]); }
}
}
fn main() {}
