// C03: the stores that keep one list per file (diagnostics, diagnostic candidates).
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
//@include buckets.vrs
//@enum crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticSeverity ; derive Clone, Copy
//@struct crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticFact
#[verifier::external_body] pub struct DiagnosticCandidateKind { _p: u8 }
//@struct crates/ruby-analysis/src/core/diagnostic_candidate_store.rs :: DiagnosticCandidate
//@struct crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore ; subst HashMap<$k, $v:a> ==> VpMap<$k, $v>
//@struct crates/ruby-analysis/src/core/diagnostic_candidate_store.rs :: DiagnosticCandidateStore ; subst HashMap<$k, $v:a> ==> VpMap<$k, $v>
type Facts = Map<SourceFileId, Vec<DiagnosticFact>>;
type Candidates = Map<SourceFileId, Vec<DiagnosticCandidate>>;
/// every list holds facts of its own file
spec fn facts_ok(m: Facts) -> bool { forall|k: SourceFileId, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() ==> (#[trigger] m[k]@[i]).range.file_id == k }
spec fn candidates_ok(m: Candidates) -> bool { forall|k: SourceFileId, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() ==> (#[trigger] m[k]@[i]).range.file_id == k }
/// the other files' lists are as they were
spec fn others<T>(m: Map<SourceFileId, Vec<T>>, n: Map<SourceFileId, Vec<T>>, f: SourceFileId) -> bool { forall|k: SourceFileId| k != f ==> #[trigger] held(n, k) == held(m, k) }
proof fn facts_in_list(s: Seq<DiagnosticFact>, t: Seq<DiagnosticFact>, f: SourceFileId)
    requires perm(s, t), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).range.file_id == f
    ensures forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).range.file_id == f
{ assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).range.file_id == f by { perm_in(s, t, t[i]); assert(t.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; } }
proof fn candidates_in_list(s: Seq<DiagnosticCandidate>, t: Seq<DiagnosticCandidate>, f: SourceFileId)
    requires perm(s, t), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).range.file_id == f
    ensures forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).range.file_id == f
{ assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).range.file_id == f by { perm_in(s, t, t[i]); assert(t.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; } }
/// the whole store lists every fact as often as its file's list does
proof fn facts_whole(m: Facts, o: Seq<SourceFileId>, x: DiagnosticFact)
    requires facts_ok(m), keys_of(o, m) ensures count(joined(m, o), x) == count(held(m, x.range.file_id), x)
{ joined_counts(m, o, |f: DiagnosticFact| f.range.file_id, x); if !o.contains(x.range.file_id) { count_in(Seq::<DiagnosticFact>::empty(), x); } }
proof fn candidates_whole(m: Candidates, o: Seq<SourceFileId>, x: DiagnosticCandidate)
    requires candidates_ok(m), keys_of(o, m) ensures count(joined(m, o), x) == count(held(m, x.range.file_id), x)
{ joined_counts(m, o, |f: DiagnosticCandidate| f.range.file_id, x); if !o.contains(x.range.file_id) { count_in(Seq::<DiagnosticCandidate>::empty(), x); } }
impl DiagnosticStore {
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::sort_file
//@ rewrite? facts.sort_by($c:a); ==> vp_sorted(facts);
//@ spec
    requires facts_ok(old(self).facts_by_file@)
    ensures facts_ok(final(self).facts_by_file@), perm(held(old(self).facts_by_file@, file_id), held(final(self).facts_by_file@, file_id)), others(old(self).facts_by_file@, final(self).facts_by_file@, file_id)
//@ exit
    proof { if old(self).facts_by_file@.contains_key(file_id) { facts_in_list(old(self).facts_by_file@[file_id]@, self.facts_by_file@[file_id]@, file_id); } }
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::add
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ rewrite? self.sort_file($f:a); ==> vp_text!("let ghost vp_m = self.facts_by_file@; proof { assert(held(vp_m, fact.range.file_id) =~= held(old(self).facts_by_file@, fact.range.file_id).push(fact)); }"); self.sort_file($f);
//@ spec
    requires facts_ok(old(self).facts_by_file@)
    ensures facts_ok(final(self).facts_by_file@), perm(held(old(self).facts_by_file@, fact.range.file_id).push(fact), held(final(self).facts_by_file@, fact.range.file_id)), others(old(self).facts_by_file@, final(self).facts_by_file@, fact.range.file_id)
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::facts_in_file
//@ ret r
//@ rewrite? $x:e.cloned().unwrap_or_default() ==> vp_cloned($x)
//@ spec
    ensures r@ == held(self.facts_by_file@, file_id)
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::facts_for_file
//@ ret r
//@ rewrite? $x:e.map(Vec::as_slice).unwrap_or(&[]) ==> vp_slice($x)
//@ spec
    ensures r@ == held(self.facts_by_file@, file_id)
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::all_facts
//@ ret r
//@ rewrite? $x:e.values().flat_map(|facts| facts.iter().cloned()).collect() ==> $x.vp_joined()
//@ spec
    requires facts_ok(self.facts_by_file@)
    ensures forall|x: DiagnosticFact| #[trigger] count(r@, x) == count(held(self.facts_by_file@, x.range.file_id), x)
//@ entry
    proof { assert forall|o: Seq<SourceFileId>, x: DiagnosticFact| keys_of(o, self.facts_by_file@) implies #[trigger] count(joined(self.facts_by_file@, o), x) == count(held(self.facts_by_file@, x.range.file_id), x) by { facts_whole(self.facts_by_file@, o, x); } }
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::file_ids
//@ ret r
//@ rewrite? $x:e.keys().copied().collect() ==> $x.vp_keys()
//@ spec
    ensures keys_of(r@, self.facts_by_file@)
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::fact_count
//@ ret r
//@ rewrite? $x:e.values().map(Vec::len).sum() ==> $x.vp_total()
//@ spec
    ensures exists|o: Seq<SourceFileId>| #[trigger] keys_of(o, self.facts_by_file@) && r == joined(self.facts_by_file@, o).len()
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::remove_file
//@ spec
    requires facts_ok(old(self).facts_by_file@)
    ensures facts_ok(final(self).facts_by_file@), held(final(self).facts_by_file@, file_id) == Seq::<DiagnosticFact>::empty(), others(old(self).facts_by_file@, final(self).facts_by_file@, file_id)
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticStore::replace_file
//@ sig fn replace_file(&mut self, file_id: SourceFileId, facts: Vec<DiagnosticFact>)
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ rewrite? for fact in facts $b:b ==> vp_text!("let ghost vp_s = self.facts_by_file@;"); { let mut vp_j: usize = 0; while vp_j < facts.len() { let fact = vp_clone(&facts[vp_j]); vp_text!("let ghost vp_o = self.facts_by_file@;"); vp_j += 1; $b vp_text!("proof { assert forall|k: SourceFileId| k != file_id implies #[trigger] held(self.facts_by_file@, k) == held(vp_s, k) by { assert(held(vp_o, k) == held(vp_s, k)); } assert(held(self.facts_by_file@, file_id) =~= held(vp_o, file_id).push(fact)); assert(facts@.take(vp_j as int) =~= facts@.take(vp_j - 1).push(fact)); }") } }
//@ spec
    requires facts_ok(old(self).facts_by_file@), forall|i: int| 0 <= i < facts@.len() ==> (#[trigger] facts@[i]).range.file_id == file_id
    ensures facts_ok(final(self).facts_by_file@), perm(facts@, held(final(self).facts_by_file@, file_id)), others(old(self).facts_by_file@, final(self).facts_by_file@, file_id)
//@ loop 0
    invariant vp_j <= facts@.len(), forall|i: int| 0 <= i < facts@.len() ==> (#[trigger] facts@[i]).range.file_id == file_id, facts_ok(self.facts_by_file@), held(self.facts_by_file@, file_id) =~= facts@.take(vp_j as int), others(vp_s, self.facts_by_file@, file_id)
    decreases facts@.len() - vp_j
//@ exit
    proof { assert(facts@.take(facts@.len() as int) =~= facts@); }
//@end
}
impl DiagnosticCandidateStore {
//@fn crates/ruby-analysis/src/core/diagnostic_candidate_store.rs :: DiagnosticCandidateStore::replace_file
//@ sig fn replace_file(&mut self, file_id: SourceFileId, candidates: Vec<DiagnosticCandidate>)
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ rewrite? candidates.sort_by_key($c:a); ==> vp_sorted(candidates);
//@ rewrite? for candidate in candidates $b:b ==> vp_text!("let ghost vp_s = self.candidates_by_file@; let ghost vp_c = candidates@;"); { let mut vp_j: usize = 0; while vp_j < candidates.len() { let candidate = vp_clone(&candidates[vp_j]); vp_text!("let ghost vp_o = self.candidates_by_file@;"); vp_j += 1; $b vp_text!("proof { assert forall|k: SourceFileId| k != file_id implies #[trigger] held(self.candidates_by_file@, k) == held(vp_s, k) by { assert(held(vp_o, k) == held(vp_s, k)); } assert(held(self.candidates_by_file@, file_id) =~= held(vp_o, file_id).push(candidate)); assert(candidates@.take(vp_j as int) =~= candidates@.take(vp_j - 1).push(candidate)); }") } } vp_text!("let ghost vp_m = self.candidates_by_file@; proof { assert(vp_c.take(vp_c.len() as int) =~= vp_c); }");
//@ spec
    requires candidates_ok(old(self).candidates_by_file@), forall|i: int| 0 <= i < candidates@.len() ==> (#[trigger] candidates@[i]).range.file_id == file_id
    ensures candidates_ok(final(self).candidates_by_file@), perm(candidates@, held(final(self).candidates_by_file@, file_id)), others(old(self).candidates_by_file@, final(self).candidates_by_file@, file_id)
//@ loop 0
    invariant vp_j <= candidates@.len(), vp_c == candidates@, forall|i: int| 0 <= i < candidates@.len() ==> (#[trigger] candidates@[i]).range.file_id == file_id, candidates_ok(self.candidates_by_file@), held(self.candidates_by_file@, file_id) =~= candidates@.take(vp_j as int), others(vp_s, self.candidates_by_file@, file_id)
    decreases candidates@.len() - vp_j
//@ exit
    proof { assert forall|k: SourceFileId| k != file_id implies #[trigger] held(self.candidates_by_file@, k) == held(old(self).candidates_by_file@, k) by { assert(held(vp_m, k) == held(old(self).candidates_by_file@, k)); } if vp_m.contains_key(file_id) { candidates_in_list(vp_m[file_id]@, self.candidates_by_file@[file_id]@, file_id); } }
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_candidate_store.rs :: DiagnosticCandidateStore::all_candidates
//@ ret r
//@ rewrite? $x:e.values().flat_map(|candidates| candidates.iter().cloned()).collect() ==> $x.vp_joined()
//@ spec
    requires candidates_ok(self.candidates_by_file@)
    ensures forall|x: DiagnosticCandidate| #[trigger] count(r@, x) == count(held(self.candidates_by_file@, x.range.file_id), x)
//@ entry
    proof { assert forall|o: Seq<SourceFileId>, x: DiagnosticCandidate| keys_of(o, self.candidates_by_file@) implies #[trigger] count(joined(self.candidates_by_file@, o), x) == count(held(self.candidates_by_file@, x.range.file_id), x) by { candidates_whole(self.candidates_by_file@, o, x); } }
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_candidate_store.rs :: DiagnosticCandidateStore::candidates_in_file
//@ ret r
//@ rewrite? $x:e.cloned().unwrap_or_default() ==> vp_cloned($x)
//@ spec
    ensures r@ == held(self.candidates_by_file@, file_id)
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_candidate_store.rs :: DiagnosticCandidateStore::candidate_count
//@ ret r
//@ rewrite? $x:e.values().map(Vec::len).sum() ==> $x.vp_total()
//@ spec
    ensures exists|o: Seq<SourceFileId>| #[trigger] keys_of(o, self.candidates_by_file@) && r == joined(self.candidates_by_file@, o).len()
//@end
//@fn crates/ruby-analysis/src/core/diagnostic_candidate_store.rs :: DiagnosticCandidateStore::file_ids
//@ ret r
//@ rewrite? $x:e.keys().copied().collect() ==> $x.vp_keys()
//@ spec
    ensures keys_of(r@, self.candidates_by_file@)
//@end
}
} // verus!
fn main() {}
