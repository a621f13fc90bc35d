// C03: the store of resolved references (facts by target, targets by file).
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/fqn_id.rs :: FqnId ; derive Clone, Copy, PartialEq, Eq, Structural
//@include buckets.vrs
#[verifier::external_body] pub struct MethodReferenceAccess { _p: u8 }
//@struct crates/ruby-analysis/src/core/reference_store.rs :: ReferenceFact
//@struct crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore ; subst HashMap<$k, $v:a> ==> VpMap<$k, $v>
type Facts = Map<FqnId, Vec<ReferenceFact>>;
type Targets = Map<SourceFileId, Vec<FqnId>>;
/// how often a target's list has a fact
spec fn cnt(m: Facts, k: FqnId, x: ReferenceFact) -> nat { count(held(m, k), x) }
/// a file's target list names the target of every fact of the file
spec fn ok(m: Facts, t: Targets) -> bool { forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(m, k, x) > 0 ==> held(t, x.range.file_id).contains(k) }
/// no target is named twice for a file
spec fn distinct(t: Targets) -> bool { forall|f: SourceFileId| (#[trigger] held(t, f)).no_duplicates() }
/// the lists hold the same facts, possibly in another order
spec fn same_facts(m: Facts, n: Facts) -> bool { forall|k: FqnId| perm(held(m, k), #[trigger] held(n, k)) }
/// how often a list of pairs has one
spec fn given(s: Seq<(FqnId, ReferenceFact)>, k: FqnId, x: ReferenceFact) -> nat { count(s, (k, x)) }
/// the facts of these targets, in this order
spec fn listed(m: Facts, ts: Seq<FqnId>, x: ReferenceFact) -> nat decreases ts.len() { if ts.len() == 0 { 0 } else { listed(m, ts.drop_last(), x) + cnt(m, ts.last(), x) } }
proof fn filter_counts<T>(s: Seq<T>, p: spec_fn(T) -> bool, x: T) ensures count(s.filter(p), x) == (if p(x) { count(s, x) } else { 0 }) decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last(); filter_counts(d, p, x); assert(s =~= d.push(s.last())); count_push(d, s.last(), x);
        if p(s.last()) { count_push(d.filter(p), s.last(), x); }
    }
}
spec fn of_file(f: SourceFileId) -> spec_fn(ReferenceFact) -> bool { |x: ReferenceFact| x.range.file_id == f }
spec fn not_of_file(f: SourceFileId) -> spec_fn(ReferenceFact) -> bool { |x: ReferenceFact| x.range.file_id != f }
/// sorting by position: a permutation
#[verifier::external_body]
fn sort_reference_facts(v: &mut Vec<ReferenceFact>) ensures perm(old(v)@, final(v)@) { unimplemented!() }
/// Vec::sort and Vec::dedup: adjacent equals go, and in a sorted list equals are adjacent
pub uninterp spec fn in_order<T>(s: Seq<T>) -> bool;
#[verifier::external_body]
fn vp_sort_ids<T>(v: &mut Vec<T>) ensures in_order(final(v)@), forall|x: T| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x) { unimplemented!() }
#[verifier::external_body]
fn vp_dedup<T>(v: &mut Vec<T>) ensures in_order(old(v)@) ==> final(v)@.no_duplicates(), forall|x: T| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x) { unimplemented!() }
/// a target has a fact with exactly this range
spec fn at(m: Facts, k: FqnId, range: TextRange) -> bool { exists|i: int| 0 <= i < held(m, k).len() && (#[trigger] held(m, k)[i]).range == range }
spec fn by_caller(c: FqnId) -> spec_fn(ReferenceFact) -> bool { |x: ReferenceFact| x.caller == Some(c) }
proof fn vp_push_in<T>(s: Seq<T>, y: T) ensures forall|x: T| #[trigger] s.push(y).contains(x) <==> x == y || s.contains(x)
{ assert forall|x: T| #[trigger] s.push(y).contains(x) <==> x == y || s.contains(x) by { assert(s.push(y)[s.len() as int] == y); if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(y)[i] == x); } } }
proof fn vp_filter_push<T>(s: Seq<T>, x: T, p: spec_fn(T) -> bool) ensures s.push(x).filter(p) =~= (if p(x) { s.filter(p).push(x) } else { s.filter(p) })
{ reveal(Seq::filter); assert(s.push(x).drop_last() =~= s); }
/// the counts an operation leaves are what `ok` speaks about
proof fn same_counts(m: Facts, n: Facts) requires same_facts(m, n) ensures forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(n, k, x) == cnt(m, k, x)
{ assert forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(n, k, x) == cnt(m, k, x) by { perm_in(held(m, k), held(n, k), x); } }
impl ReferenceStore {
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::add
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ spec
    requires ok(old(self).facts@, old(self).targets_by_file@)
    ensures ok(final(self).facts@, final(self).targets_by_file@), forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(final(self).facts@, k, x) == cnt(old(self).facts@, k, x) + (if k == target && x == fact { 1int } else { 0 })
//@ exit
    proof {
        let m = old(self).facts@; let n = self.facts@; let t = old(self).targets_by_file@; let u = self.targets_by_file@;
        assert(held(n, target) =~= held(m, target).push(fact));
        assert forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(n, k, x) == cnt(m, k, x) + (if k == target && x == fact { 1int } else { 0 }) by { count_push(held(m, target), fact, x); }
        let f = fact.range.file_id;
        assert(held(u, f) =~= held(t, f).push(target));
        assert(held(u, f)[held(t, f).len() as int] == target);
        assert forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(n, k, x) > 0 implies held(u, x.range.file_id).contains(k) by {
            if !(k == target && x == fact) { assert(cnt(m, k, x) > 0); let g = x.range.file_id; let i = choose|i: int| 0 <= i < held(t, g).len() && held(t, g)[i] == k; assert(held(u, g)[i] == k); }
        }
    }
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::sort_all
//@ rewrite? $x:e.shrink_to_fit(); ==> vp_shrink($x);
//@ rewrite? $x:e.sort(); ==> vp_sort_ids($x);
//@ rewrite? $x:e.dedup(); ==> vp_dedup($x);
//@ rewrite? for facts in self.facts.values_mut() $b:b ==> vp_text!("let ghost vp_m = self.facts@; let ghost vp_t = self.targets_by_file@;"); { let vp_keys = self.facts.vp_keys(); let mut vp_j: usize = 0; while vp_j < vp_keys.len() { vp_text!("let ghost vp_o = self.facts@; assert(vp_keys@.contains(vp_keys@[vp_j as int]));"); let facts = self.facts.vp_mut(&vp_keys[vp_j]); vp_j += 1; $b vp_text!("proof { assert forall|k: FqnId| perm(held(vp_m, k), #[trigger] held(self.facts@, k)) by { assert(perm(held(vp_m, k), held(vp_o, k))); } }") } }
//@ rewrite? for targets in self.targets_by_file.values_mut() $b:b ==> { let vp_keys = self.targets_by_file.vp_keys(); let mut vp_j: usize = 0; while vp_j < vp_keys.len() { vp_text!("let ghost vp_o = self.targets_by_file@; assert(vp_keys@.contains(vp_keys@[vp_j as int]));"); let targets = self.targets_by_file.vp_mut(&vp_keys[vp_j]); vp_j += 1; $b vp_text!("proof { assert forall|k: SourceFileId, x: FqnId| (#[trigger] held(self.targets_by_file@, k)).contains(x) <==> #[trigger] held(vp_t, k).contains(x) by { assert(held(vp_o, k).contains(x) <==> held(vp_t, k).contains(x)); } }") } vp_text!("proof { assert forall|k: SourceFileId| (#[trigger] held(self.targets_by_file@, k)).no_duplicates() by { if self.targets_by_file@.contains_key(k) { assert(vp_keys@.contains(k)); let i = choose|i: int| 0 <= i < vp_keys@.len() && vp_keys@[i] == k; assert(held(self.targets_by_file@, vp_keys@[i]).no_duplicates()); } } }") }
//@ spec
    requires ok(old(self).facts@, old(self).targets_by_file@)
    ensures ok(final(self).facts@, final(self).targets_by_file@), distinct(final(self).targets_by_file@), same_facts(old(self).facts@, final(self).facts@)
//@ loop 0
    invariant vp_j <= vp_keys@.len(), forall|k: FqnId| #[trigger] vp_keys@.contains(k) ==> self.facts@.contains_key(k), same_facts(vp_m, self.facts@), self.targets_by_file@ == vp_t
    decreases vp_keys@.len() - vp_j
//@ loop 1
    invariant vp_j <= vp_keys@.len(), keys_of(vp_keys@, self.targets_by_file@), same_facts(vp_m, self.facts@), forall|k: SourceFileId, x: FqnId| (#[trigger] held(self.targets_by_file@, k)).contains(x) <==> #[trigger] held(vp_t, k).contains(x), forall|i: int| 0 <= i < vp_j ==> held(self.targets_by_file@, #[trigger] vp_keys@[i]).no_duplicates()
    decreases vp_keys@.len() - vp_j
//@ exit
    proof { same_counts(vp_m, self.facts@); assert forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(self.facts@, k, x) > 0 implies held(self.targets_by_file@, x.range.file_id).contains(k) by { assert(cnt(vp_m, k, x) > 0); assert(held(vp_t, x.range.file_id).contains(k)); } }
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::add_sorted
//@ spec
    requires ok(old(self).facts@, old(self).targets_by_file@)
    ensures ok(final(self).facts@, final(self).targets_by_file@), distinct(final(self).targets_by_file@), forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(final(self).facts@, k, x) == cnt(old(self).facts@, k, x) + (if k == target && x == fact { 1int } else { 0 })
//@ rewrite? self.sort_all(); ==> vp_text!("let ghost vp_m = self.facts@;"); self.sort_all(); vp_text!("proof { same_counts(vp_m, self.facts@); }");
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::facts_for
//@ ret r
//@ rewrite? $x:e.map(Vec::as_slice).unwrap_or(&[]) ==> vp_slice($x)
//@ spec
    ensures r@ == held(self.facts@, target)
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::all_facts
//@ ret r
//@ rewrite? $x:e.values().flat_map(|facts| facts.iter().cloned()).collect() ==> $x.vp_joined()
//@ spec
    ensures exists|o: Seq<FqnId>| #[trigger] keys_of(o, self.facts@) && r@ == joined(self.facts@, o)
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::fact_count
//@ ret r
//@ rewrite? $x:e.values().map(Vec::len).sum() ==> $x.vp_total()
//@ spec
    ensures exists|o: Seq<FqnId>| #[trigger] keys_of(o, self.facts@) && r == joined(self.facts@, o).len()
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::facts_in_file
//@ ret r
//@ rewrite? targets.iter().filter_map(|target| self.facts.get(target)).flat_map(|facts| facts.iter()).filter(|fact| $c:a).cloned().collect() ==> { let mut vp_out: Vec<ReferenceFact> = Vec::new(); let mut vp_j: usize = 0; while vp_j < targets.len() { let target = &targets[vp_j]; vp_text!("let ghost vp_before = vp_out@; proof { assert(targets@.take(vp_j as int + 1).drop_last() =~= targets@.take(vp_j as int)); }"); vp_j += 1; let vp_got = self.facts.get(target); if let Some(facts) = vp_got { vp_text!("proof { assert(facts@.take(0) =~= Seq::<ReferenceFact>::empty()); }"); let mut vp_i: usize = 0; while vp_i < facts.len() { let fact = &facts[vp_i]; vp_text!("proof { assert(facts@.take(vp_i as int + 1) =~= facts@.take(vp_i as int).push(*fact)); assert forall|x: ReferenceFact| #[trigger] count(facts@.take(vp_i as int + 1), x) == count(facts@.take(vp_i as int), x) + (if x == *fact { 1int } else { 0 }) by { count_push(facts@.take(vp_i as int), *fact, x); } assert forall|x: ReferenceFact| #[trigger] count(vp_out@.push(*fact), x) == count(vp_out@, x) + (if x == *fact { 1int } else { 0 }) by { count_push(vp_out@, *fact, x); } }"); vp_i += 1; if $c { vp_out.push(vp_clone(fact)); } } vp_text!("proof { assert(facts@.take(facts@.len() as int) =~= facts@); assert(held(self.facts@, *target) == facts@); }") } else { vp_text!("proof { assert forall|x: ReferenceFact| #[trigger] cnt(self.facts@, *target, x) == 0 by { count_in(Seq::<ReferenceFact>::empty(), x); } }") } } vp_text!("proof { assert(targets@.take(targets@.len() as int) =~= targets@); }"); vp_out }
//@ entry
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert forall|x: ReferenceFact| #[trigger] count(Seq::<ReferenceFact>::empty(), x) == 0 by { count_in(Seq::<ReferenceFact>::empty(), x); } }
//@ spec
    requires ok(self.facts@, self.targets_by_file@)
    ensures forall|x: ReferenceFact| #[trigger] count(r@, x) == (if x.range.file_id == file_id { listed(self.facts@, held(self.targets_by_file@, file_id), x) } else { 0 }), forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(self.facts@, k, x) > 0 && x.range.file_id == file_id ==> held(self.targets_by_file@, file_id).contains(k)
//@ loop 0
    invariant vp_j <= targets@.len(), forall|x: ReferenceFact| #[trigger] count(Seq::<ReferenceFact>::empty(), x) == 0, forall|x: ReferenceFact| #[trigger] count(vp_out@, x) == (if x.range.file_id == file_id { listed(self.facts@, targets@.take(vp_j as int), x) } else { 0 })
    decreases targets@.len() - vp_j
//@ loop 1
    invariant vp_i <= facts@.len(), forall|x: ReferenceFact| #[trigger] count(vp_out@, x) == (if x.range.file_id == file_id { count(vp_before, x) + count(facts@.take(vp_i as int), x) } else { 0 }), forall|x: ReferenceFact| x.range.file_id != file_id ==> #[trigger] count(vp_before, x) == 0
    decreases facts@.len() - vp_i
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::remove_file
//@ rewrite? facts.retain(|fact| $c:a) ==> vp_retain(facts, |fact: &ReferenceFact| -> bool { vp_clause!("ensures vp_r == (fact.range.file_id != file_id)"); $c }, Ghost(not_of_file(file_id)))
//@ rewrite? for target in stale_targets $b:b ==> vp_text!("let ghost vp_m = self.facts@; let ghost vp_t = self.targets_by_file@;"); { let mut vp_j: usize = 0; while vp_j < stale_targets.len() { let target = stale_targets[vp_j]; vp_text!("let ghost vp_o = self.facts@;"); vp_j += 1; $b vp_text!("proof { assert(held(self.facts@, target) =~= held(vp_o, target).filter(not_of_file(file_id))) by { reveal(Seq::filter); } assert forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(self.facts@, k, x) == (if k == target && x.range.file_id == file_id { 0 } else { cnt(vp_o, k, x) }) by { filter_counts(held(vp_o, target), not_of_file(file_id), x); } assert(stale_targets@.take(vp_j as int) =~= stale_targets@.take(vp_j - 1).push(target)); assert forall|k: FqnId| #[trigger] stale_targets@.take(vp_j as int).contains(k) == (k == target || stale_targets@.take(vp_j - 1).contains(k)) by { let a = stale_targets@.take(vp_j - 1); assert(a.push(target)[a.len() as int] == target); if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(a.push(target)[i] == k); } } }") } } vp_text!("proof { assert(stale_targets@.take(stale_targets@.len() as int) =~= stale_targets@); }");
//@ spec
    requires ok(old(self).facts@, old(self).targets_by_file@)
    ensures ok(final(self).facts@, final(self).targets_by_file@), forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(final(self).facts@, k, x) == (if x.range.file_id == file_id { 0 } else { cnt(old(self).facts@, k, x) }), distinct(old(self).targets_by_file@) ==> distinct(final(self).targets_by_file@)
//@ entry
    proof { let t = old(self).targets_by_file@; if distinct(t) { assert forall|f: SourceFileId| (#[trigger] held(t.remove(file_id), f)).no_duplicates() by { if f != file_id { assert(held(t.remove(file_id), f) == held(t, f)); } } } }
//@ loop 0
    invariant vp_j <= stale_targets@.len(), self.targets_by_file@ == vp_t, forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(self.facts@, k, x) == (if stale_targets@.take(vp_j as int).contains(k) && x.range.file_id == file_id { 0 } else { cnt(vp_m, k, x) })
    decreases stale_targets@.len() - vp_j
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::clear
//@ spec
    ensures final(self).facts@ == Map::<FqnId, Vec<ReferenceFact>>::empty(), final(self).targets_by_file@ == Map::<SourceFileId, Vec<FqnId>>::empty()
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::replace_file
//@ sig fn replace_file(&mut self, file_id: SourceFileId, facts: Vec<(FqnId, ReferenceFact)>)
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? for (target, fact) in facts $b:b ==> vp_text!("proof { assert forall|k: FqnId, x: ReferenceFact| #[trigger] given(facts@.take(0), k, x) == 0 by { assert(facts@.take(0) =~= Seq::<(FqnId, ReferenceFact)>::empty()); count_in(facts@.take(0), (k, x)); } }"); { let mut vp_j: usize = 0; while vp_j < facts.len() { let (target, fact) = vp_clone(&facts[vp_j]); vp_text!("proof { assert(facts@.take(vp_j as int + 1) =~= facts@.take(vp_j as int).push((target, fact))); assert forall|k: FqnId, x: ReferenceFact| #[trigger] given(facts@.take(vp_j as int + 1), k, x) == given(facts@.take(vp_j as int), k, x) + (if k == target && x == fact { 1int } else { 0 }) by { count_push(facts@.take(vp_j as int), (target, fact), (k, x)); } }"); vp_j += 1; $b } } vp_text!("proof { assert(facts@.take(facts@.len() as int) =~= facts@); }");
//@ rewrite? self.sort_all(); ==> vp_text!("let ghost vp_m = self.facts@;"); self.sort_all(); vp_text!("proof { same_counts(vp_m, self.facts@); }");
//@ spec
    requires ok(old(self).facts@, old(self).targets_by_file@), forall|i: int| 0 <= i < facts@.len() ==> (#[trigger] facts@[i]).1.range.file_id == file_id
    ensures ok(final(self).facts@, final(self).targets_by_file@), distinct(final(self).targets_by_file@), forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(final(self).facts@, k, x) == (if x.range.file_id == file_id { given(facts@, k, x) } else { cnt(old(self).facts@, k, x) })
//@ loop 0
    invariant vp_j <= facts@.len(), forall|i: int| 0 <= i < facts@.len() ==> (#[trigger] facts@[i]).1.range.file_id == file_id, ok(self.facts@, self.targets_by_file@), forall|k: FqnId, x: ReferenceFact| #[trigger] cnt(self.facts@, k, x) == (if x.range.file_id == file_id { 0 } else { cnt(old(self).facts@, k, x) }) + given(facts@.take(vp_j as int), k, x)
    decreases facts@.len() - vp_j
//@ exit
    proof { assert forall|k: FqnId, x: ReferenceFact| x.range.file_id != file_id implies #[trigger] given(facts@, k, x) == 0 by { count_in(facts@, (k, x)); if given(facts@, k, x) > 0 { let i = choose|i: int| 0 <= i < facts@.len() && facts@[i] == (k, x); assert(facts@[i].1.range.file_id == file_id); } } }
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::targets_for_exact_range
//@ ret r
//@ rewrite? targets.iter().copied().filter(|target| $b:b).collect() ==> { let mut vp_out: Vec<FqnId> = Vec::new(); let mut vp_j: usize = 0; while vp_j < targets.len() { let target = &targets[vp_j]; vp_j += 1; let vp_keep = $b; vp_text!("let ghost vp_b = vp_out@; proof { assert(vp_keep == at(self.facts@, *target, range)); }"); if vp_keep { vp_out.push(*target); } vp_text!("proof { vp_push_in(vp_b, *target); }"); } vp_text!("proof { assert forall|k: FqnId| at(self.facts@, k, range) implies #[trigger] vp_out@.contains(k) by { let i = choose|i: int| 0 <= i < targets@.len() && targets@[i] == k; assert(at(self.facts@, targets@[i], range)); } }"); vp_out }
//@ rewrite? $x:e.is_some_and(|facts| facts.iter().any(|fact| $c:a)) ==> match $x { Some(facts) => { let mut vp_any = false; let mut vp_i: usize = 0; while vp_i < facts.len() { let fact = &facts[vp_i]; vp_i += 1; if $c { vp_any = true; } } vp_any } None => false }
//@ spec
    requires ok(self.facts@, self.targets_by_file@)
    ensures forall|k: FqnId| #[trigger] r@.contains(k) <==> at(self.facts@, k, range)
//@ entry
    proof { assert forall|k: FqnId| #[trigger] at(self.facts@, k, range) implies held(self.targets_by_file@, range.file_id).contains(k) by { let h = held(self.facts@, k); let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).range == range; count_in(h, h[i]); assert(h.contains(h[i])); assert(cnt(self.facts@, k, h[i]) > 0); } }
//@ loop 0
    invariant vp_j <= targets@.len(), forall|k: FqnId| #[trigger] vp_out@.contains(k) ==> at(self.facts@, k, range), forall|i: int| 0 <= i < vp_j && at(self.facts@, #[trigger] targets@[i], range) ==> vp_out@.contains(targets@[i])
    decreases targets@.len() - vp_j
//@ loop 1
    invariant vp_i <= facts@.len(), vp_any == exists|i: int| 0 <= i < vp_i && (#[trigger] facts@[i]).range == range
    decreases facts@.len() - vp_i
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceStore::facts_for_caller
//@ ret r
//@ rewrite? $x:e.values().flat_map(|facts| facts.iter()).filter(|fact| $c:a).cloned().collect() ==> { let vp_all = $x.vp_joined(); let mut vp_out: Vec<ReferenceFact> = Vec::new(); let mut vp_j: usize = 0; while vp_j < vp_all.len() { let fact = &vp_all[vp_j]; vp_text!("proof { assert(vp_all@.take(vp_j as int + 1) =~= vp_all@.take(vp_j as int).push(*fact)); vp_filter_push(vp_all@.take(vp_j as int), *fact, by_caller(caller)); }"); vp_j += 1; if $c { vp_out.push(vp_clone(fact)); } } vp_text!("proof { assert(vp_all@.take(vp_all@.len() as int) =~= vp_all@); }"); vp_out }
//@ spec
    ensures exists|o: Seq<FqnId>| #[trigger] keys_of(o, self.facts@) && r@ == joined(self.facts@, o).filter(by_caller(caller))
//@ entry
    proof { reveal(Seq::filter); }
//@ loop 0
    invariant vp_j <= vp_all@.len(), vp_out@ =~= vp_all@.take(vp_j as int).filter(by_caller(caller))
    decreases vp_all@.len() - vp_j
//@end
}
} // verus!
fn main() {}
