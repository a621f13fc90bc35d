// C03: the store of reference candidates (three lists per file).
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/fqn_id.rs :: FqnId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/fqn_id.rs :: ConstLookupId ; derive Clone, Copy, PartialEq, Eq, Structural
//@include buckets.vrs
#[derive(Clone, Copy)] #[verifier::external_body] pub struct MethodReferenceAccess { _p: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct NamespaceKind { _p: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct RubyMethod { _p: u8 }
#[verifier::external_body] pub struct MethodReferenceDiagnostics { _p: u8 }
//@struct crates/ruby-analysis/src/core/reference_store.rs :: StoredConstantReferenceCandidate
//@struct crates/ruby-analysis/src/core/reference_store.rs :: StoredMethodReferenceCandidate
//@struct crates/ruby-analysis/src/core/reference_store.rs :: StoredResolvedReferenceCandidate
//@struct crates/ruby-analysis/src/core/reference_store.rs :: StoredReferenceCandidate
//@enum crates/ruby-analysis/src/core/reference_store.rs :: StoredReferenceCandidateKind
//@struct crates/ruby-analysis/src/core/reference_store.rs :: ReferenceCandidateStats
//@struct crates/ruby-analysis/src/core/reference_store.rs :: ReferenceCandidateStore ; subst HashMap<$k, $v:a> ==> VpMap<$k, $v>
type Constant = StoredConstantReferenceCandidate;
type Method = StoredMethodReferenceCandidate;
type Resolved = StoredResolvedReferenceCandidate;
/// how often the three lists have a candidate
spec fn among(c: Seq<Constant>, m: Seq<Method>, r: Seq<Resolved>, x: StoredReferenceCandidate) -> nat {
    match x.kind {
        StoredReferenceCandidateKind::Constant { lookup } => count(c, StoredConstantReferenceCandidate { range: x.range, lookup }),
        StoredReferenceCandidateKind::Method { owner, owner_kind, method, is_super, access, caller, call_expression_range, preferred_definition_range, diagnostics } => count(m, StoredMethodReferenceCandidate { range: x.range, owner, owner_kind, method, is_super, access, caller, call_expression_range, preferred_definition_range, diagnostics }),
        StoredReferenceCandidateKind::Resolved { target, caller } => count(r, StoredResolvedReferenceCandidate { range: x.range, target, caller }),
    }
}
/// how often the store has a candidate under a file
spec fn stored(s: ReferenceCandidateStore, f: SourceFileId, x: StoredReferenceCandidate) -> nat
{ among(held(s.constants_by_file@, f), held(s.methods_by_file@, f), held(s.resolved_by_file@, f), x) }
proof fn none_held<T>() ensures forall|x: T| #[trigger] count(Seq::<T>::empty(), x) == 0
{ assert forall|x: T| #[trigger] count(Seq::<T>::empty(), x) == 0 by { count_in(Seq::<T>::empty(), x); } }
proof fn pushed<T>(s: Seq<T>, y: T) ensures forall|x: T| #[trigger] count(s.push(y), x) == count(s, x) + (if x == y { 1int } else { 0 })
{ assert forall|x: T| #[trigger] count(s.push(y), x) == count(s, x) + (if x == y { 1int } else { 0 }) by { count_push(s, y, x); } }
proof fn permuted<T>(s: Seq<T>, t: Seq<T>) requires perm(s, t) ensures forall|x: T| #[trigger] count(t, x) == count(s, x)
{ assert forall|x: T| #[trigger] count(t, x) == count(s, x) by { perm_in(s, t, x); } }
pub uninterp spec fn in_order<T>(s: Seq<T>) -> bool;
#[verifier::external_body]
fn vp_sort_ids<T>(v: &mut Vec<T>) ensures in_order(final(v)@), forall|x: T| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x) { unimplemented!() }
#[verifier::external_body]
fn vp_dedup<T>(v: &mut Vec<T>) ensures in_order(old(v)@) ==> final(v)@.no_duplicates(), forall|x: T| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x) { unimplemented!() }
/// Iterator::chain
#[verifier::external_body]
fn vp_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures forall|x: T| #[trigger] r@.contains(x) <==> a@.contains(x) || b@.contains(x) { unimplemented!() }
impl ReferenceCandidateStore {
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceCandidateStore::replace_file
//@ sig fn replace_file(&mut self, file_id: SourceFileId, candidates: Vec<StoredReferenceCandidate>)
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? $x:e.shrink_to_fit(); ==> vp_shrink(&mut $x);
//@ rewrite? $x:e.sort_by_key($c:a); ==> vp_sorted(&mut $x);
//@ rewrite? let mut constants = Vec::new(); ==> let mut constants: Vec<StoredConstantReferenceCandidate> = Vec::new();
//@ rewrite? let mut methods = Vec::new(); ==> let mut methods: Vec<StoredMethodReferenceCandidate> = Vec::new();
//@ rewrite? let mut resolved = Vec::new(); ==> let mut resolved: Vec<StoredResolvedReferenceCandidate> = Vec::new();
//@ rewrite? for candidate in candidates $b:b ==> vp_text!("let ghost vp_s = *self; proof { none_held::<StoredConstantReferenceCandidate>(); none_held::<StoredMethodReferenceCandidate>(); none_held::<StoredResolvedReferenceCandidate>(); none_held::<StoredReferenceCandidate>(); assert(candidates@.take(0) =~= Seq::<StoredReferenceCandidate>::empty()); }"); { let mut vp_j: usize = 0; while vp_j < candidates.len() { let candidate = vp_clone(&candidates[vp_j]); vp_text!("let ghost vp_x = candidate; let ghost (vp_c, vp_m, vp_r) = (constants@, methods@, resolved@); proof { assert(candidates@.take(vp_j as int + 1) =~= candidates@.take(vp_j as int).push(candidate)); pushed(candidates@.take(vp_j as int), candidate); }"); vp_j += 1; $b vp_text!("proof { if constants@.len() > 0 { pushed(vp_c, constants@.last()); } if methods@.len() > 0 { pushed(vp_m, methods@.last()); } if resolved@.len() > 0 { pushed(vp_r, resolved@.last()); } assert forall|x: StoredReferenceCandidate| #[trigger] among(constants@, methods@, resolved@, x) == count(candidates@.take(vp_j as int), x) by { assert(among(vp_c, vp_m, vp_r, x) == count(candidates@.take(vp_j - 1), x)); } }") } } vp_text!("let ghost (vp_c, vp_m, vp_r) = (constants@, methods@, resolved@); proof { assert(candidates@.take(candidates@.len() as int) =~= candidates@); }");
//@ spec
    requires forall|i: int| 0 <= i < candidates@.len() ==> (#[trigger] candidates@[i]).range.file_id == file_id
    ensures forall|x: StoredReferenceCandidate| #[trigger] stored(*final(self), file_id, x) == count(candidates@, x), forall|f: SourceFileId, x: StoredReferenceCandidate| f != file_id ==> #[trigger] stored(*final(self), f, x) == stored(*old(self), f, x)
//@ loop 0
    invariant vp_j <= candidates@.len(), *self == vp_s, forall|i: int| 0 <= i < candidates@.len() ==> (#[trigger] candidates@[i]).range.file_id == file_id, forall|x: StoredReferenceCandidate| #[trigger] among(constants@, methods@, resolved@, x) == count(candidates@.take(vp_j as int), x)
    decreases candidates@.len() - vp_j
//@ exit
    proof {
        let c = held(self.constants_by_file@, file_id); let m = held(self.methods_by_file@, file_id); let r = held(self.resolved_by_file@, file_id);
        assert(perm(vp_c, c)) by { if vp_c.len() == 0 { assert(vp_c =~= c); } } assert(perm(vp_m, m)) by { if vp_m.len() == 0 { assert(vp_m =~= m); } } assert(perm(vp_r, r)) by { if vp_r.len() == 0 { assert(vp_r =~= r); } }
        permuted(vp_c, c); permuted(vp_m, m); permuted(vp_r, r);
        assert forall|x: StoredReferenceCandidate| #[trigger] stored(*self, file_id, x) == count(candidates@, x) by { assert(among(c, m, r, x) == among(vp_c, vp_m, vp_r, x)); }
    }
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceCandidateStore::candidates_in_file
//@ ret r
//@ rewrite? let mut candidates = Vec::new(); ==> let mut candidates: Vec<StoredReferenceCandidate> = Vec::new(); vp_text!("proof { none_held::<StoredConstantReferenceCandidate>(); none_held::<StoredMethodReferenceCandidate>(); none_held::<StoredResolvedReferenceCandidate>(); none_held::<StoredReferenceCandidate>(); }");
//@ rewrite? diagnostics: candidate.diagnostics.clone() ==> diagnostics: vp_clone(&candidate.diagnostics)
//@ rewrite? candidates.sort_by_key($c:a); ==> vp_text!("let ghost vp_pre = candidates@;"); vp_sorted(&mut candidates); vp_text!("proof { permuted(vp_pre, candidates@); }");
//@ rewrite? candidates.extend(constants.iter().map(|candidate| $c:a)); ==> vp_text!("let ghost vp_b = candidates@; proof { none_held::<StoredConstantReferenceCandidate>(); none_held::<StoredMethodReferenceCandidate>(); none_held::<StoredResolvedReferenceCandidate>(); assert(constants@.take(0) =~= Seq::empty()); }"); { let mut vp_j: usize = 0; while vp_j < constants.len() { let candidate = &constants[vp_j]; vp_text!("proof { assert(constants@.take(vp_j as int + 1) =~= constants@.take(vp_j as int).push(*candidate)); pushed(constants@.take(vp_j as int), *candidate); }"); vp_j += 1; let vp_x = $c; vp_text!("proof { pushed(candidates@, vp_x); }"); candidates.push(vp_x); } } vp_text!("proof { assert(constants@.take(constants@.len() as int) =~= constants@); }");
//@ rewrite? candidates.extend(methods.iter().map(|candidate| $c:a)); ==> vp_text!("let ghost vp_b = candidates@; proof { none_held::<StoredConstantReferenceCandidate>(); none_held::<StoredMethodReferenceCandidate>(); none_held::<StoredResolvedReferenceCandidate>(); assert(methods@.take(0) =~= Seq::empty()); }"); { let mut vp_j: usize = 0; while vp_j < methods.len() { let candidate = &methods[vp_j]; vp_text!("proof { assert(methods@.take(vp_j as int + 1) =~= methods@.take(vp_j as int).push(*candidate)); pushed(methods@.take(vp_j as int), *candidate); }"); vp_j += 1; let vp_x = $c; vp_text!("proof { pushed(candidates@, vp_x); }"); candidates.push(vp_x); } } vp_text!("proof { assert(methods@.take(methods@.len() as int) =~= methods@); }");
//@ rewrite? candidates.extend(resolved.iter().map(|candidate| $c:a)); ==> vp_text!("let ghost vp_b = candidates@; proof { none_held::<StoredConstantReferenceCandidate>(); none_held::<StoredMethodReferenceCandidate>(); none_held::<StoredResolvedReferenceCandidate>(); assert(resolved@.take(0) =~= Seq::empty()); }"); { let mut vp_j: usize = 0; while vp_j < resolved.len() { let candidate = &resolved[vp_j]; vp_text!("proof { assert(resolved@.take(vp_j as int + 1) =~= resolved@.take(vp_j as int).push(*candidate)); pushed(resolved@.take(vp_j as int), *candidate); }"); vp_j += 1; let vp_x = $c; vp_text!("proof { pushed(candidates@, vp_x); }"); candidates.push(vp_x); } } vp_text!("proof { assert(resolved@.take(resolved@.len() as int) =~= resolved@); }");
//@ spec
    ensures forall|x: StoredReferenceCandidate| #[trigger] count(r@, x) == stored(*self, file_id, x)
//@ loop 0
    invariant vp_j <= constants@.len(), forall|x: StoredReferenceCandidate| #[trigger] count(candidates@, x) == count(vp_b, x) + among(constants@.take(vp_j as int), Seq::empty(), Seq::empty(), x)
    decreases constants@.len() - vp_j
//@ loop 1
    invariant vp_j <= methods@.len(), forall|x: StoredReferenceCandidate| #[trigger] count(candidates@, x) == count(vp_b, x) + among(Seq::empty(), methods@.take(vp_j as int), Seq::empty(), x)
    decreases methods@.len() - vp_j
//@ loop 2
    invariant vp_j <= resolved@.len(), forall|x: StoredReferenceCandidate| #[trigger] count(candidates@, x) == count(vp_b, x) + among(Seq::empty(), Seq::empty(), resolved@.take(vp_j as int), x)
    decreases resolved@.len() - vp_j
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceCandidateStore::stats
//@ ret r
//@ rewrite? $x:e.values().map(Vec::len).sum() ==> $x.vp_total()
//@ spec
    ensures exists|o: Seq<SourceFileId>| #[trigger] keys_of(o, self.constants_by_file@) && r.constants == joined(self.constants_by_file@, o).len(), exists|o: Seq<SourceFileId>| #[trigger] keys_of(o, self.methods_by_file@) && r.methods == joined(self.methods_by_file@, o).len(), exists|o: Seq<SourceFileId>| #[trigger] keys_of(o, self.resolved_by_file@) && r.resolved == joined(self.resolved_by_file@, o).len()
//@end
//@fn crates/ruby-analysis/src/core/reference_store.rs :: ReferenceCandidateStore::file_ids
//@ ret r
//@ rewrite? self.constants_by_file.keys().chain($b:e.keys()).chain($c:e.keys()).copied().collect::<Vec<_>>() ==> vp_chain(vp_chain(self.constants_by_file.vp_keys(), $b.vp_keys()), $c.vp_keys())
//@ rewrite? $x:e.sort(); ==> vp_sort_ids(&mut $x);
//@ rewrite? $x:e.dedup(); ==> vp_dedup(&mut $x);
//@ spec
    ensures r@.no_duplicates(), forall|f: SourceFileId| #[trigger] r@.contains(f) <==> self.constants_by_file@.contains_key(f) || self.methods_by_file@.contains_key(f) || self.resolved_by_file@.contains_key(f)
//@end
}
} // verus!
fn main() {}
