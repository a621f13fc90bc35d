// C12: file and name identities, and snapshots of registered sources.
use vstd::prelude::*;
verus! {
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
/// u32::try_from(n).expect(..): a count beyond the identity's width aborts.
fn vp_u32(n: usize) -> (r: u32) ensures r == n { if n > u32::MAX as usize { vp_abort() } n as u32 }
fn vp_next32(n: u32) -> (r: u32) ensures r == n + 1 { if n == u32::MAX { vp_abort() } n + 1 }
fn vp_next64(n: u64) -> (r: u64) ensures r == n + 1 { if n == u64::MAX { vp_abort() } n + 1 }
/// assert_eq! on a caller's obligation: the code aborts when it does not hold.
fn vp_demand(c: bool) ensures c { if !c { vp_abort() } }

// ---- paths: std compares and hashes a path by its components ----
pub struct Part { p: u8 }
#[verifier::external_body] pub struct Path { _p: u8 }
#[verifier::external_body] pub struct PathBuf { _p: u8 }
impl Path {
    pub uninterp spec fn view(&self) -> Seq<Part>;
    /// self.components().collect::<PathBuf>()
    #[verifier::external_body] fn vp_collect(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<Part>;
    #[verifier::external_body] fn vp_collect(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] fn vp_same(&self, o: &PathBuf) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
}
#[verifier::external_body] pub struct VpPaths { _p: u8 }
/// HashMap<PathBuf, SourceFileId> as its mathematical map (assumed)
impl VpPaths {
    pub uninterp spec fn view(&self) -> Map<Seq<Part>, SourceFileId>;
    #[verifier::external_body] fn get(&self, k: &PathBuf) -> (r: Option<&SourceFileId>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: PathBuf, v: SourceFileId) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
}
/// HashMap<SourceFileId, V>
#[verifier::external_body] #[verifier::accept_recursive_types(V)] pub struct VpById<V> { _p: Vec<V> }
impl<V> VpById<V> {
    pub uninterp spec fn view(&self) -> Map<SourceFileId, V>;
    #[verifier::external_body] fn get(&self, k: &SourceFileId) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: SourceFileId, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] fn contains_key(&self, k: &SourceFileId) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
}

//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/engine/file_id_map.rs :: FileIdMap ; subst HashMap<PathBuf, SourceFileId> ==> VpPaths ; subst HashMap<SourceFileId, PathBuf> ==> VpById<PathBuf>
impl FileIdMap {
    /// the two tables are inverse to each other, and every identity handed out is below the next one
    closed spec fn wf(&self) -> bool {
        &&& forall|p: Seq<Part>| #[trigger] self.by_path@.contains_key(p) ==> self.by_id@.contains_key(self.by_path@[p]) && self.by_id@[self.by_path@[p]]@ == p
        &&& forall|i: SourceFileId| #[trigger] self.by_id@.contains_key(i) ==> i.0 < self.next_id && self.by_path@.contains_key(self.by_id@[i]@) && self.by_path@[self.by_id@[i]@] == i
    }
    /// the identity of a path
    closed spec fn id_of(&self, p: Seq<Part>) -> Option<SourceFileId> { if self.by_path@.contains_key(p) { Some(self.by_path@[p]) } else { None } }
    /// the path of an identity
    closed spec fn path_of(&self, i: SourceFileId) -> Option<Seq<Part>> { if self.by_id@.contains_key(i) { Some(self.by_id@[i]@) } else { None } }
    /// one-to-one: the two directions answer each other
    proof fn one_to_one(&self)
        requires self.wf()
        ensures forall|p: Seq<Part>, i: SourceFileId| (#[trigger] self.id_of(p) == Some(i)) == (#[trigger] self.path_of(i) == Some(p)),
            forall|p: Seq<Part>, q: Seq<Part>| #[trigger] self.id_of(p) is Some && self.id_of(p) == #[trigger] self.id_of(q) ==> p == q,
    {}
    /// nothing handed out before is changed
    closed spec fn extends(&self, o: &FileIdMap) -> bool {
        &&& forall|p: Seq<Part>| #[trigger] o.by_path@.contains_key(p) ==> self.by_path@.contains_key(p) && self.by_path@[p] == o.by_path@[p]
        &&& forall|i: SourceFileId| #[trigger] o.by_id@.contains_key(i) ==> self.by_id@.contains_key(i) && self.by_id@[i]@ == o.by_id@[i]@
    }
    proof fn extends_chains(a: &FileIdMap, b: &FileIdMap, c: &FileIdMap) requires b.extends(a), c.extends(b) ensures c.extends(a) {}
    proof fn extends_keeps(&self, o: &FileIdMap)
        requires self.extends(o)
        ensures forall|p: Seq<Part>| o.id_of(p) is Some ==> #[trigger] self.id_of(p) == o.id_of(p), forall|i: SourceFileId| o.path_of(i) is Some ==> #[trigger] self.path_of(i) == o.path_of(i) {}
//@fn crates/ruby-analysis/src/engine/file_id_map.rs :: FileIdMap::get_or_insert
//@ sig fn get_or_insert(&mut self, path: &PathBuf) -> (r: SourceFileId)
//@ rewrite? path.as_ref() ==> path
//@ rewrite? $x:e.checked_add(1).expect($m:a) ==> vp_next32($x)
//@ spec
    requires old(self).wf()
    ensures final(self).wf(),
        final(self).extends(old(self)),
        final(self).id_of(path@) == Some(r),
        final(self).path_of(r) == Some(path@),
        old(self).id_of(path@) is None ==> old(self).path_of(r) is None,
        forall|p: Seq<Part>| p != path@ ==> #[trigger] final(self).id_of(p) == old(self).id_of(p),
//@end
//@fn crates/ruby-analysis/src/engine/file_id_map.rs :: FileIdMap::get
//@ sig fn get(&self, path: &PathBuf) -> (r: Option<SourceFileId>)
//@ rewrite? path.as_ref() ==> path
//@ rewrite? $x:e.copied() ==> match $x { Some(vp_v) => Some(*vp_v), None => None }
//@ spec
    ensures r == self.id_of(path@)
//@end
//@fn crates/ruby-analysis/src/engine/file_id_map.rs :: FileIdMap::path
//@ ret r
//@ rewrite? $x:e.map(PathBuf::as_path) ==> match $x { Some(vp_v) => Some(vp_v.as_path()), None => None }
//@ spec
    ensures match r { Some(p) => self.path_of(id) == Some(p@), None => self.path_of(id) is None }
//@end
//@fn crates/ruby-analysis/src/engine/file_id_map.rs :: FileIdMap::len
//@ ret r
//@ spec
    ensures r == self.by_path@.dom().len()
//@end
//@fn crates/ruby-analysis/src/engine/file_id_map.rs :: FileIdMap::is_empty
//@ ret r
//@ spec
    ensures r == (self.by_path@.dom().len() == 0)
//@end
}
//@fn crates/ruby-analysis/src/engine/file_id_map.rs :: normalize_path
//@ sig fn normalize_path(path: &PathBuf) -> (r: PathBuf)
//@ rewrite? path.components().collect::<PathBuf>() ==> path.vp_collect()
//@ rewrite? path.components().collect() ==> path.vp_collect()
//@ spec
    ensures r@ == path@
//@end

// ---- names ----
#[verifier::external_body] pub struct FullyQualifiedName { _p: u8 }
#[verifier::external_body] pub struct ConstLookup { _p: u8 }
/// IndexSet<T>: insertion-ordered, each value once (assumed of the indexmap crate)
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VpIndexSet<T> { _p: Vec<T> }
spec fn first_at<T>(s: Seq<T>, v: T, i: int) -> bool { 0 <= i < s.len() && s[i] == v }
impl<T> VpIndexSet<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] proof fn distinct(&self) ensures self@.no_duplicates() {}
    #[verifier::external_body] fn insert_full(&mut self, v: T) -> (r: (usize, bool))
        ensures first_at(final(self)@, v, r.0 as int), final(self)@ == (if old(self)@.contains(v) { old(self)@ } else { old(self)@.push(v) }), r.1 == !old(self)@.contains(v) { unimplemented!() }
    #[verifier::external_body] fn get_index_of(&self, v: &T) -> (r: Option<usize>)
        ensures match r { Some(i) => first_at(self@, *v, i as int), None => !self@.contains(*v) } { unimplemented!() }
    #[verifier::external_body] fn get_index(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(v) => i < self@.len() && *v == self@[i as int], None => i >= self@.len() } { unimplemented!() }
}
//@struct crates/ruby-analysis/src/core/fqn_id.rs :: FqnId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/fqn_id.rs :: ConstLookupId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/engine/state.rs :: NameRegistryState ; subst IndexSet<$t> ==> VpIndexSet<$t>
//@struct crates/ruby-analysis/src/engine/state.rs :: NameRegistry ; drop fqn_lookup_count
spec fn named<T>(s: Seq<T>, i: u32) -> Option<T> { if (i as int) < s.len() { Some(s[i as int]) } else { None } }
/// identities handed out earlier keep their value, and two identities never share one
spec fn interned<T>(old: Seq<T>, new: Seq<T>, v: T, i: u32) -> bool {
    &&& named(new, i) == Some(v)
    &&& forall|k: u32| named(old, k) is Some ==> #[trigger] named(new, k) == named(old, k)
    &&& forall|k: u32| #[trigger] named(new, k) == Some(v) ==> k == i
    &&& forall|k: u32| named(old, k) == Some(v) ==> #[trigger] named(old, k) == named(old, i)
}
impl NameRegistry {
//@fn crates/ruby-analysis/src/engine/state.rs :: NameRegistry::intern_fqn
//@ ret r
//@ rewrite? u32::try_from($x).expect($m:a) ==> vp_u32($x)
//@ spec
    ensures interned(old(self).state.fqns@, final(self).state.fqns@, fqn, r.0), final(self).state.const_lookups == old(self).state.const_lookups
//@ exit
    proof { final(self).state.fqns.distinct(); }
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: NameRegistry::fqn_id
//@ ret r
//@ rewrite? self.fqn_lookup_count.fetch_add(1, Ordering::Relaxed); ==>
//@ rewrite? u32::try_from($x).expect($m:a) ==> vp_u32($x)
//@ rewrite? $x:e.map(|$i:i| $b:a) ==> match $x { Some($i) => Some($b), None => None }
//@ spec
    ensures match r { Some(i) => named(self.state.fqns@, i.0) == Some(*fqn), None => forall|k: u32| #[trigger] named(self.state.fqns@, k) != Some(*fqn) }
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: NameRegistry::fqn
//@ ret r
//@ spec
    ensures match r { Some(v) => named(self.state.fqns@, id.0) == Some(*v), None => named(self.state.fqns@, id.0) is None }
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: NameRegistry::intern_const_lookup
//@ ret r
//@ rewrite? u32::try_from($x).expect($m:a) ==> vp_u32($x)
//@ spec
    ensures interned(old(self).state.const_lookups@, final(self).state.const_lookups@, lookup, r.0), final(self).state.fqns == old(self).state.fqns
//@ exit
    proof { final(self).state.const_lookups.distinct(); }
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: NameRegistry::const_lookup
//@ ret r
//@ spec
    ensures match r { Some(v) => named(self.state.const_lookups@, id.0) == Some(*v), None => named(self.state.const_lookups@, id.0) is None }
//@end
}

// ---- registered sources ----
#[verifier::external_body] pub struct SourceLineIndex { _p: u8 }
#[verifier::external_body] pub struct LibraryPackageId { _p: u8 }
#[verifier::external_body] pub struct FileFacts { _p: u8 }
#[verifier::external_body] pub struct SemanticChange { _p: u8 }
#[verifier::external_body] pub struct ResolveMode { _p: u8 }
impl SourceLineIndex {
    uninterp spec fn of(s: Seq<char>) -> SourceLineIndex;
    uninterp spec fn ascii(&self) -> bool;
    #[verifier::external_body] fn new(s: &str) -> (r: SourceLineIndex) ensures r == SourceLineIndex::of(s@) { unimplemented!() }
    #[verifier::external_body] fn is_ascii(&self) -> (r: bool) ensures r == self.ascii() { unimplemented!() }
}
uninterp spec fn hash_of(s: Seq<char>) -> u64;
#[verifier::external_body] fn source_hash(s: &str) -> (r: u64) ensures r == hash_of(s@) { unimplemented!() }
/// `==` of a type whose derived equality is equality of values
#[verifier::external_body] fn vp_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
uninterp spec fn string_of(s: Seq<char>) -> String;
/// a String is determined by its text (assumed; its equality is that of its text)
#[verifier::external_body] proof fn string_is_its_text(s: String) ensures s == string_of(s@) {}
#[verifier::external_body] fn vp_string(s: &str) -> (r: String) ensures r == string_of(s@) { unimplemented!() }
//@enum crates/ruby-analysis/src/core/source_file.rs :: SourceKind ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/engine/state.rs :: SourceFile ; subst crate::core::LibraryPackageId ==> LibraryPackageId
//@struct crates/ruby-analysis/src/engine/state.rs :: SourceFileSnapshot ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/engine/state.rs :: SourceRegistry ; subst HashMap<SourceFileId, SourceFile> ==> VpById<SourceFile>
//@struct crates/ruby-analysis/src/engine/state.rs :: SourceFileInput
//@struct crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine ; drop semantic_revision, names, facts, graph, method_visibility_overrides, execution_contexts, inference_by_file, call_expression_outcomes_by_file, local_read_types_by_file, method_return_equations_dirty, constant_type_equations_dirty, method_return_solution_spans_files, semantic_export_fingerprints, top_level_method_lookup_chain_cache, universal_object_method_lookup_chain_cache, last_resolve_pass ; add committed: Ghost<Seq<SourceFileId>>
type Files = Map<SourceFileId, SourceFile>;
/// what a registration says about a file
spec fn same_text(a: SourceFile, b: SourceFile) -> bool { a.path@ == b.path@ && a.kind == b.kind && a.line_index == b.line_index && a.content_hash == b.content_hash && a.source == b.source && a.library_package == b.library_package }
/// every file is either exactly as it was, or carries a later revision
spec fn advances(o: Files, n: Files) -> bool { forall|i: SourceFileId| #[trigger] o.contains_key(i) ==> n.contains_key(i) && (n[i] == o[i] || n[i].revision > o[i].revision) }
proof fn advances_chains(a: Files, b: Files, c: Files) requires advances(a, b), advances(b, c) ensures advances(a, c) {
    assert forall|i: SourceFileId| #[trigger] a.contains_key(i) implies c.contains_key(i) && (c[i] == a[i] || c[i].revision > a[i].revision) by { assert(b.contains_key(i)); }
}
/// a snapshot that still matches after any number of registrations describes the very same source text
proof fn snapshot_means_unchanged(a: Files, b: Files, i: SourceFileId)
    requires advances(a, b), a.contains_key(i), b[i].revision == a[i].revision
    ensures b[i] == a[i] {}
spec fn snapshot_of(e: &AnalysisEngine, i: SourceFileId) -> SourceFileSnapshot { SourceFileSnapshot { engine_instance_id: e.instance_id, file_id: i, revision: e.sources.files@[i].revision } }
spec fn current(e: &AnalysisEngine, p: Seq<Part>) -> Option<SourceFileSnapshot> {
    match e.sources.ids.id_of(p) { Some(i) => if e.sources.files@.contains_key(i) { Some(snapshot_of(e, i)) } else { None }, None => None }
}
spec fn unchanged(a: &AnalysisEngine, b: &AnalysisEngine) -> bool { a.sources.files@ == b.sources.files@ && a.sources.ids == b.sources.ids && a.next_source_revision == b.next_source_revision && a.instance_id == b.instance_id }
/// registering text `t` for its path gave identity `r`
spec fn registered(a: &AnalysisEngine, b: &AnalysisEngine, t: SourceFile, r: SourceFileId) -> bool {
    &&& b.wf()
    &&& b.sources.ids.extends(&a.sources.ids)
    &&& b.sources.ids.id_of(t.path@) == Some(r)
    &&& b.sources.files@.contains_key(r) && same_text(b.sources.files@[r], t) && b.sources.files@[r].id == r
    &&& advances(a.sources.files@, b.sources.files@)
    &&& forall|i: SourceFileId| i != r ==> b.sources.files@.contains_key(i) == #[trigger] a.sources.files@.contains_key(i) && b.sources.files@[i] == a.sources.files@[i]
    &&& a.sources.files@.contains_key(r) && same_text(a.sources.files@[r], t) ==> b.sources.files@ == a.sources.files@
    &&& b.instance_id == a.instance_id && b.committed == a.committed
}
spec fn described(p: Seq<Part>, text: Seq<char>, kind: SourceKind, pkg: Option<LibraryPackageId>, t: SourceFile) -> bool {
    &&& t.path@ == p && t.kind == kind && t.library_package == pkg && t.line_index == SourceLineIndex::of(text) && t.content_hash == hash_of(text)
    &&& t.source == (if SourceLineIndex::of(text).ascii() { None } else { Some(string_of(text)) })
}
impl AnalysisEngine {
    closed spec fn wf(&self) -> bool {
        &&& self.sources.ids.wf()
        &&& forall|i: SourceFileId| #[trigger] self.sources.files@.contains_key(i) ==> self.sources.files@[i].id == i && self.sources.files@[i].revision <= self.next_source_revision && self.sources.ids.path_of(i) == Some(self.sources.files@[i].path@)
    }
    /// Collecting facts into the stores never touches the source registry (checked by C03's and the engine's types only: assumed).
    #[verifier::external_body]
    fn replace_facts(&mut self, file_id: SourceFileId, facts: FileFacts, mode: ResolveMode) -> (r: SemanticChange)
        ensures unchanged(final(self), old(self)), final(self).committed@ == old(self).committed@.push(file_id) { unimplemented!() }
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::file_id
//@ sig fn file_id(&self, path: &PathBuf) -> (r: Option<SourceFileId>)
//@ spec
    ensures r == self.sources.ids.id_of(path@)
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::file
//@ ret r
//@ spec
    ensures match r { Some(f) => self.sources.files@.contains_key(id) && *f == self.sources.files@[id], None => !self.sources.files@.contains_key(id) }
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::file_content_matches
//@ ret r
//@ rewrite? $x:e.is_some_and(|$i:i| $b:a) ==> match $x { Some($i) => $b, None => false }
//@ spec
    ensures r == (self.sources.files@.contains_key(id) && self.sources.files@[id].content_hash == hash_of(content@))
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::register_indexed_file
//@ sig fn register_indexed_file(&mut self, path: PathBuf, kind: SourceKind, line_index: SourceLineIndex, content_hash: u64, source: Option<String>, library_package: Option<LibraryPackageId>) -> (r: SourceFileId)
//@ rewrite? $x:e.is_some_and(|$i:i| $b:b) ==> match $x { Some($i) => $b, None => false }
//@ rewrite? existing.path == path ==> existing.path.vp_same(&path)
//@ rewrite? existing.$f:i == $f:i ==> vp_eq(&existing.$f, &$f)
//@ rewrite? $x:e.checked_add(1).expect($m:a) ==> vp_next64($x)
//@ rewrite? path.components().collect() ==> path.vp_collect()
//@ spec
    requires old(self).wf()
    ensures registered(old(self), final(self), final(self).sources.files@[r], r),
        ({ let t = final(self).sources.files@[r]; t.path@ == path@ && t.kind == kind && t.line_index == line_index && t.content_hash == content_hash && t.source == source && t.library_package == library_package })
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::register_file
//@ ret r
//@ rewrite? $f:i(&file.content) ==> $f(file.content.as_str())
//@ rewrite? SourceLineIndex::new(&file.content) ==> SourceLineIndex::new(file.content.as_str())
//@ spec
    requires old(self).wf()
    ensures registered(old(self), final(self), final(self).sources.files@[r], r), described(file.path@, file.content@, file.kind, None, final(self).sources.files@[r])
//@ entry
    proof { string_is_its_text(file.content); }
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::register_gem_file
//@ sig fn register_gem_file(&mut self, file: SourceFileInput, package: LibraryPackageId) -> (r: SourceFileId)
//@ rewrite? assert!($c:a); ==> vp_demand($c);
//@ rewrite? $f:i(&file.content) ==> $f(file.content.as_str())
//@ rewrite? SourceLineIndex::new(&file.content) ==> SourceLineIndex::new(file.content.as_str())
//@ spec
    requires old(self).wf()
    ensures file.kind == SourceKind::Gem, registered(old(self), final(self), final(self).sources.files@[r], r), described(file.path@, file.content@, file.kind, Some(package), final(self).sources.files@[r])
//@ entry
    proof { string_is_its_text(file.content); }
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::register_file_borrowed
//@ ret r
//@ rewrite? content.to_string() ==> vp_string(content)
//@ spec
    requires old(self).wf()
    ensures registered(old(self), final(self), final(self).sources.files@[r], r), described(path@, content@, kind, None, final(self).sources.files@[r])
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::source_snapshot_for_path
//@ sig fn source_snapshot_for_path(&self, path: &PathBuf) -> (r: Option<SourceFileSnapshot>)
//@ spec
    ensures r == current(self, path@)
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::register_file_borrowed_if_snapshot
//@ ret r
//@ rewrite? assert!($c:a); ==> vp_demand($c);
//@ rewrite? $x:e.unwrap_or_else(|| $b:b) ==> match $x { Some(vp_v) => vp_v, None => { vp_check(false); vp_abort() } }
//@ spec
    requires old(self).wf()
    ensures match r {
        None => unchanged(final(self), old(self)) && final(self).committed == old(self).committed && current(old(self), path@) != expected_snapshot,
        Some(s) => current(old(self), path@) == expected_snapshot && Some(s) == current(final(self), path@) && s == snapshot_of(final(self), s.file_id)
            && registered(old(self), final(self), final(self).sources.files@[s.file_id], s.file_id) && described(path@, content@, kind, None, final(self).sources.files@[s.file_id]),
    }
//@end
//@fn crates/ruby-analysis/src/engine/state.rs :: AnalysisEngine::replace_facts_if_source_snapshot
//@ ret r
//@ rewrite? assert!($c:a); ==> vp_demand($c);
//@ rewrite? $x:e.map(|$i:i| $b:a) ==> match $x { Some($i) => Some($b), None => None }
//@ spec
    requires old(self).wf()
    ensures unchanged(final(self), old(self)),
        r is Some ==> old(self).sources.files@.contains_key(expected_snapshot.file_id) && expected_snapshot == snapshot_of(old(self), expected_snapshot.file_id) && final(self).committed@ == old(self).committed@.push(expected_snapshot.file_id),
        r is None ==> final(self).committed@ == old(self).committed@ && !(old(self).sources.files@.contains_key(expected_snapshot.file_id) && expected_snapshot == snapshot_of(old(self), expected_snapshot.file_id)),
//@end
}
fn vp_check(c: bool) requires c {}
fn main() {}
}
