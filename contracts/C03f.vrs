// C03: the type store holds exactly the facts of the last version of every file.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
#[verifier::external_body] pub struct FullyQualifiedName { _p: u8 }
#[verifier::external_body] pub struct RubyType { _p: u8 }
//@enum crates/ruby-analysis/src/core/type_store.rs :: TypeProvenance ; derive Clone, Copy, PartialEq, Eq, Structural
//@enum crates/ruby-analysis/src/core/type_store.rs :: TypeSubject
//@struct crates/ruby-analysis/src/core/type_store.rs :: TypeFact
//@struct crates/ruby-analysis/src/core/type_store.rs :: TypeSubjectId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: RubyTypeId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: StoredTypeSubject ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: StoredTypeFact ; derive Clone, Copy
//@struct crates/ruby-analysis/src/core/type_store.rs :: TypeFactId ; derive Clone, Copy, PartialEq, Eq, Structural
type Fact = StoredTypeFact;
type FactId = TypeFactId;
spec fn fact_id(i: int) -> FactId { TypeFactId(i as u32) }
spec fn fact_file(f: Fact) -> SourceFileId { f.range.file_id }
//@include arena.vrs

//@struct crates/ruby-analysis/src/core/type_store.rs :: TypeStore ; subst HashMap<$k, $v:a> ==> VpMap<$k, $v> ; subst IndexSet<$t:a> ==> VpIndexSet<$t>
fn vp_u32(x: usize) -> (r: u32) ensures r == x { if x > 0xffff_ffff { vp_abort() } x as u32 }
impl TypeFactId {
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeFactId::from_index
//@ ret r
//@ rewrite? u32::try_from($x:a).expect($m:a) ==> vp_u32($x)
//@ spec
    ensures r.0 == index
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeFactId::index
//@ ret r
//@ spec
    ensures r == self.0
//@end
}
// ---- subjects and types are kept by number ----
/// IndexSet<T>: insertion-ordered, each value once (assumed of the indexmap crate)
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VpIndexSet<T> { _p: Vec<T> }
spec fn first_at<T>(s: Seq<T>, v: T, i: int) -> bool { 0 <= i < s.len() && s[i] == v }
impl<T> VpIndexSet<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] proof fn distinct(&self) ensures self@.no_duplicates() {}
    #[verifier::external_body] fn insert_full(&mut self, v: T) -> (r: (usize, bool))
        ensures first_at(final(self)@, v, r.0 as int), final(self)@ == (if old(self)@.contains(v) { old(self)@ } else { old(self)@.push(v) }), r.1 == !old(self)@.contains(v) { unimplemented!() }
    #[verifier::external_body] fn get_index_of(&self, v: &T) -> (r: Option<usize>)
        ensures match r { Some(i) => first_at(self@, *v, i as int), None => !self@.contains(*v) } { unimplemented!() }
    #[verifier::external_body] fn get_index(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(v) => i < self@.len() && *v == self@[i as int], None => i >= self@.len() } { unimplemented!() }
}
/// clone() yields an equal value
#[verifier::external_body] fn vp_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// the mark of an expression subject (whatever its value)
pub uninterp spec fn tag() -> u32;
#[verifier::external_body] fn vp_tag() -> (r: u32) ensures r == tag() { unimplemented!() }
/// a capacity limit: the code stops beyond it
fn vp_limit(c: bool) ensures c { if !c { vp_abort() } }
spec fn sid(x: StoredTypeSubject) -> Option<TypeSubjectId> { if x.0 == tag() { None } else { Some(TypeSubjectId(x.0)) } }
impl TypeSubjectId {
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeSubjectId::from_index
//@ ret r
//@ rewrite? u32::try_from($x:a).expect($m:a) ==> vp_u32($x)
//@ spec
    ensures r.0 == index
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeSubjectId::index
//@ ret r
//@ spec
    ensures r == self.0
//@end
}
impl RubyTypeId {
//@fn crates/ruby-analysis/src/core/type_store.rs :: RubyTypeId::from_index
//@ ret r
//@ rewrite? u32::try_from($x:a).expect($m:a) ==> vp_u32($x)
//@ spec
    ensures r.0 == index
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: RubyTypeId::index
//@ ret r
//@ spec
    ensures r == self.0
//@end
}
impl StoredTypeSubject {
//@fn crates/ruby-analysis/src/core/type_store.rs :: StoredTypeSubject::interned
//@ ret r
//@ rewrite? assert!($c:a); ==> vp_limit($c);
//@ rewrite? Self::EXPRESSION_TAG ==> vp_tag()
//@ spec
    ensures r.0 == id.0, id.0 < tag()
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: StoredTypeSubject::expression
//@ ret r
//@ rewrite? Self::EXPRESSION_TAG ==> vp_tag()
//@ spec
    ensures r.0 == tag()
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: StoredTypeSubject::is_expression
//@ ret r
//@ spec
    requires self.0 <= tag()
    ensures r == (self.0 == tag())
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: StoredTypeSubject::interned_id
//@ ret r
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? Self::EXPRESSION_TAG ==> vp_tag()
//@ spec
    requires self.0 <= tag()
    ensures r == sid(self)
//@end
}
/// the subject and type a stored fact's numbers stand for
spec fn valid(s: TypeStore, f: Fact) -> bool { f.subject.0 <= tag() && (f.subject.0 < tag() ==> f.subject.0 < s.subjects@.len()) && f.ruby_type.0 < s.ruby_types@.len() }
spec fn expand(s: TypeStore, f: Fact) -> TypeFact {
    TypeFact { subject: if f.subject.0 == tag() { TypeSubject::Expression(f.range) } else { s.subjects@[f.subject.0 as int] }, ruby_type: s.ruby_types@[f.ruby_type.0 as int], range: f.range, provenance: f.provenance }
}
spec fn names_ok(s: TypeStore) -> bool {
    &&& forall|id: FactId| #[trigger] slot(s.facts@, id) ==> valid(s, at(s.facts@, id))
    &&& forall|i: int| 0 <= i < s.subjects@.len() ==> !((#[trigger] s.subjects@[i]) is Expression)
}
/// numbers given out keep their meaning
spec fn grows(o: TypeStore, n: TypeStore) -> bool {
    &&& o.subjects@.len() <= n.subjects@.len() && forall|i: int| 0 <= i < o.subjects@.len() ==> #[trigger] n.subjects@[i] == o.subjects@[i]
    &&& o.ruby_types@.len() <= n.ruby_types@.len() && forall|i: int| 0 <= i < o.ruby_types@.len() ==> #[trigger] n.ruby_types@[i] == o.ruby_types@[i]
}
spec fn same_rest(o: TypeStore, n: TypeStore) -> bool { n.facts == o.facts && n.free_facts == o.free_facts && n.facts_by_subject == o.facts_by_subject && n.facts_by_file == o.facts_by_file && n.file_owned_indexes_ordered == o.file_owned_indexes_ordered }
/// how often the store has a fact
spec fn means(s: TypeStore, f: Fact, g: TypeFact) -> bool { valid(s, f) && expand(s, f) == g }
spec fn has(s: TypeStore, g: TypeFact) -> nat { if exists|f: Fact| #[trigger] means(s, f, g) { cnt(s.facts@, choose|f: Fact| #[trigger] means(s, f, g)) } else { 0 } }
proof fn one_meaning(s: TypeStore, f: Fact, h: Fact)
    requires names_ok(s), valid(s, f), valid(s, h), expand(s, f) == expand(s, h) ensures f == h
{
    s.subjects.distinct(); s.ruby_types.distinct();
    assert(f.ruby_type.0 == h.ruby_type.0);
    assert(f.subject.0 == h.subject.0);
}
proof fn has_is(s: TypeStore, f: Fact) requires names_ok(s), valid(s, f) ensures has(s, expand(s, f)) == cnt(s.facts@, f)
{ assert(means(s, f, expand(s, f))); let h = choose|h: Fact| #[trigger] means(s, h, expand(s, f)); one_meaning(s, f, h); }
proof fn still_means(o: TypeStore, n: TypeStore, f: Fact) requires valid(o, f), grows(o, n) ensures valid(n, f), expand(n, f) == expand(o, f) {}
proof fn unknown_none(s: TypeStore, f: Fact) requires base_ok(s), !valid(s, f) ensures cnt(s.facts@, f) == 0 { cnt_zero(s.facts@, f); }
/// one more stored fact is one more fact
proof fn has_step(o: TypeStore, n: TypeStore, f: Fact)
    requires base_ok(o), base_ok(n), grows(o, n), valid(n, f), forall|x: Fact| #[trigger] cnt(n.facts@, x) == cnt(o.facts@, x) + (if x == f { 1int } else { 0 })
    ensures forall|g: TypeFact| #[trigger] has(n, g) == has(o, g) + (if g == expand(n, f) { 1int } else { 0 })
{
    assert forall|g: TypeFact| #[trigger] has(n, g) == has(o, g) + (if g == expand(n, f) { 1int } else { 0 }) by {
        if exists|h: Fact| #[trigger] means(n, h, g) {
            let h = choose|h: Fact| #[trigger] means(n, h, g); has_is(n, h);
            if g == expand(n, f) { one_meaning(n, f, h); }
            if valid(o, h) { still_means(o, n, h); has_is(o, h); }
            else {
                unknown_none(o, h);
                if exists|k: Fact| #[trigger] means(o, k, g) { let k = choose|k: Fact| #[trigger] means(o, k, g); still_means(o, n, k); one_meaning(n, h, k); }
            }
        } else {
            if g == expand(n, f) { assert(means(n, f, g)); }
            if exists|k: Fact| #[trigger] means(o, k, g) { let k = choose|k: Fact| #[trigger] means(o, k, g); still_means(o, n, k); assert(means(n, k, g)); }
        }
    }
}
/// dropping the stored facts of a file drops its facts
proof fn has_without(o: TypeStore, n: TypeStore, file_id: SourceFileId)
    requires names_ok(o), names_ok(n), n.subjects == o.subjects, n.ruby_types == o.ruby_types, forall|f: Fact| #[trigger] cnt(n.facts@, f) == (if f.range.file_id == file_id { 0 } else { cnt(o.facts@, f) })
    ensures forall|g: TypeFact| #[trigger] has(n, g) == (if g.range.file_id == file_id { 0 } else { has(o, g) })
{
    assert forall|g: TypeFact| #[trigger] has(n, g) == (if g.range.file_id == file_id { 0 } else { has(o, g) }) by {
        assert forall|f: Fact| #[trigger] means(n, f, g) == means(o, f, g) by {}
        if exists|f: Fact| #[trigger] means(n, f, g) { let h = choose|f: Fact| #[trigger] means(n, f, g); assert(means(o, h, g)); has_is(o, h); has_is(n, h); }
        else if exists|f: Fact| #[trigger] means(o, f, g) { let k = choose|f: Fact| #[trigger] means(o, f, g); assert(means(n, k, g)); }
    }
}
// ---- the two orders ----
/// how the provenances are ranked is not part of the property
uninterp spec fn prov(p: TypeProvenance) -> u8;
#[verifier::external_body] fn provenance_rank(provenance: TypeProvenance) -> (r: u8) ensures r == prov(provenance) { unimplemented!() }
spec fn fqn_rank(f: Fact) -> (SourceFileId, u32, u32, u8) { (f.range.file_id, f.range.start_byte, f.range.end_byte, prov(f.provenance)) }
spec fn file_rank(f: Fact) -> (u32, u32, u8) { (f.range.start_byte, f.range.end_byte, prov(f.provenance)) }
spec fn le3(x: (u32, u32, u8), y: (u32, u32, u8)) -> bool { x.0 < y.0 || (x.0 == y.0 && (x.1 < y.1 || (x.1 == y.1 && x.2 <= y.2))) }
spec fn le4(x: (SourceFileId, u32, u32, u8), y: (SourceFileId, u32, u32, u8)) -> bool { x.0.0 < y.0.0 || (x.0.0 == y.0.0 && le3((x.1, x.2, x.3), (y.1, y.2, y.3))) }
spec fn fqn_le() -> spec_fn(Fact, Fact) -> bool { |f: Fact, g: Fact| le4(fqn_rank(f), fqn_rank(g)) }
spec fn file_le() -> spec_fn(Fact, Fact) -> bool { |f: Fact, g: Fact| le3(file_rank(f), file_rank(g)) }
spec fn by_subject() -> spec_fn(Fact) -> Option<TypeSubjectId> { |f: Fact| sid(f.subject) }
//@fn crates/ruby-analysis/src/core/type_store.rs :: sort_type_ids
//@ rewrite? ids.sort_by_key(|id| $b:b); ==> vp_sort_by_key(ids, |id: &TypeFactId| -> (SourceFileId, u32, u32, u8) { vp_clause!("requires slot(facts@, *id) ensures vp_r == fqn_rank(at(facts@, *id))"); $b }, Ghost(|x: FactId| fqn_rank(at(facts.view(), x))), Ghost(|x: (SourceFileId, u32, u32, u8), y: (SourceFileId, u32, u32, u8)| le4(x, y)));
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires forall|i: int| 0 <= i < old(ids)@.len() ==> slot(facts@, #[trigger] old(ids)@[i])
    ensures perm(old(ids)@, final(ids)@), sorted_ids(facts@, final(ids)@, fqn_le())
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: sort_type_ids_by_file
//@ rewrite? ids.sort_by_key(|id| $b:b); ==> vp_sort_by_key(ids, |id: &TypeFactId| -> (u32, u32, u8) { vp_clause!("requires slot(facts@, *id) ensures vp_r == file_rank(at(facts@, *id))"); $b }, Ghost(|x: FactId| file_rank(at(facts.view(), x))), Ghost(|x: (u32, u32, u8), y: (u32, u32, u8)| le3(x, y)));
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires forall|i: int| 0 <= i < old(ids)@.len() ==> slot(facts@, #[trigger] old(ids)@[i])
    ensures perm(old(ids)@, final(ids)@), sorted_ids(facts@, final(ids)@, file_le())
//@end
spec fn base_ok(s: TypeStore) -> bool { s.facts@.len() <= 0x1_0000_0000 && free_ok(s.facts@, s.free_facts@) && names_ok(s) }
spec fn indexes_ok(s: TypeStore) -> bool { index_ok(s.facts@, s.facts_by_subject@, by_subject()) && index_ok(s.facts@, s.facts_by_file@, of_file()) }
/// the store's invariant
spec fn store_ok(s: TypeStore) -> bool { base_ok(s) && indexes_ok(s) && all_sorted(s.facts@, s.facts_by_subject@, sub_le(s.file_owned_indexes_ordered)) && all_sorted(s.facts@, s.facts_by_file@, own_le(s.file_owned_indexes_ordered)) }
/// after `add` the buckets are in no particular order
spec fn any_le() -> spec_fn(Fact, Fact) -> bool { |f: Fact, g: Fact| true }
spec fn sub_le(o: bool) -> spec_fn(Fact, Fact) -> bool { if o { fqn_le() } else { any_le() } }
spec fn own_le(o: bool) -> spec_fn(Fact, Fact) -> bool { if o { file_le() } else { any_le() } }
spec fn shown(s: TypeStore, l: Seq<Fact>) -> Seq<TypeFact> { l.map_values(|f: Fact| expand(s, f)) }
spec fn expanded(s: TypeStore, id: FactId) -> Option<TypeFact> { if slot(s.facts@, id) { Some(expand(s, at(s.facts@, id))) } else { None } }
/// a list of a file's stored facts names the file's facts
proof fn listing(s: TypeStore, l: Seq<Fact>, file_id: SourceFileId)
    requires base_ok(s), lists(s.facts@, l, of_file(), file_id)
    ensures forall|g: TypeFact| #[trigger] shown(s, l).to_multiset().count(g) == (if g.range.file_id == file_id { has(s, g) } else { 0 })
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < l.len() implies valid(s, #[trigger] l[i]) && l[i].range.file_id == file_id by {
        assert(l.contains(l[i])); assert(l.to_multiset().count(l[i]) > 0); if !valid(s, l[i]) { unknown_none(s, l[i]); }
    }
    assert forall|g: TypeFact| #[trigger] shown(s, l).to_multiset().count(g) == (if g.range.file_id == file_id { has(s, g) } else { 0 }) by {
        let m = shown(s, l);
        if exists|f: Fact| #[trigger] means(s, f, g) {
            let f = choose|f: Fact| #[trigger] means(s, f, g); has_is(s, f); counts_map(s, l, f);
        } else if m.to_multiset().count(g) > 0 {
            assert(m.contains(g)); let i = choose|i: int| 0 <= i < m.len() && m[i] == g; assert(means(s, l[i], g));
        }
    }
}
proof fn counts_map(s: TypeStore, l: Seq<Fact>, f: Fact)
    requires names_ok(s), valid(s, f), forall|i: int| 0 <= i < l.len() ==> valid(s, #[trigger] l[i])
    ensures shown(s, l).to_multiset().count(expand(s, f)) == l.to_multiset().count(f)
    decreases l.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let e = |f: Fact| expand(s, f);
    if l.len() > 0 {
        let p = l.drop_last(); counts_map(s, p, f);
        assert(l =~= p.push(l.last())); assert(shown(s, l) =~= shown(s, p).push(e(l.last())));
        if expand(s, l.last()) == expand(s, f) { one_meaning(s, l.last(), f); }
    } else { assert(shown(s, l) =~= Seq::<TypeFact>::empty()); }
}
impl TypeStore {
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::insert_fact
//@ ret r
//@ rewrite? $x:e.expect($m:a) ==> $x.unwrap()
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? return id; ==> vp_text!("proof { reused(*old(self), *self, id, fact); }"); return id;
//@ spec
    requires base_ok(*old(self)), valid(*old(self), fact)
    ensures base_ok(*final(self)), added(old(self).facts@, final(self).facts@, r, fact), final(self).facts_by_subject == old(self).facts_by_subject, final(self).facts_by_file == old(self).facts_by_file,
        final(self).subjects == old(self).subjects, final(self).ruby_types == old(self).ruby_types, final(self).file_owned_indexes_ordered == old(self).file_owned_indexes_ordered,
        forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == cnt(old(self).facts@, f) + (if f == fact { 1int } else { 0 })
//@ exit
    proof { cnt_push(old(self).facts@, Some(fact)); assert forall|x: FactId| #[trigger] slot(self.facts@, x) implies valid(*self, at(self.facts@, x)) by { if x.0 < old(self).facts@.len() { assert(slot(old(self).facts@, x)); } } }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::fact
//@ ret r
//@ rewrite? $x:e.and_then(Option::as_ref) ==> (match $x { Some(vp_o) => vp_o.as_ref(), None => None })
//@ spec
    ensures match r { Some(f) => slot(self.facts@, id) && *f == at(self.facts@, id), None => !slot(self.facts@, id) }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::take_fact
//@ ret r
//@ rewrite? $x:e.and_then(Option::take) ==> (match $x { Some(vp_slot) => vp_slot.take(), None => None })
//@ spec
    ensures r == stored(old(self).facts@, id), r is Some ==> dropped(old(self).facts@, final(self).facts@, id), r is None ==> final(self).facts@ == old(self).facts@,
        final(self).free_facts == old(self).free_facts, final(self).facts_by_subject == old(self).facts_by_subject, final(self).facts_by_file == old(self).facts_by_file,
        final(self).subjects == old(self).subjects, final(self).ruby_types == old(self).ruby_types, final(self).file_owned_indexes_ordered == old(self).file_owned_indexes_ordered
//@ exit
    proof { assert(self.facts@ =~= (if stored(old(self).facts@, id) is Some { old(self).facts@.update(id.0 as int, None) } else { old(self).facts@ })); }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::store_subject
//@ ret r
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ spec
    requires base_ok(*old(self)), subject is Expression ==> subject->Expression_0 == fact_range
    ensures base_ok(*final(self)), grows(*old(self), *final(self)), same_rest(*old(self), *final(self)), final(self).ruby_types == old(self).ruby_types,
        subject is Expression ==> r.0 == tag(), !(subject is Expression) ==> r.0 < tag() && first_at(final(self).subjects@, subject, r.0 as int)
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::subject_id
//@ ret r
//@ rewrite? $x:e.map(TypeSubjectId::from_index) ==> (match $x { Some(vp_i) => Some(TypeSubjectId::from_index(vp_i)), None => None })
//@ spec
    ensures match r { Some(i) => first_at(self.subjects@, *subject, i.0 as int), None => !self.subjects@.contains(*subject) }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::subject
//@ ret r
//@ rewrite? $x:e.expect($m:a) ==> $x.unwrap()
//@ spec
    requires id.0 < self.subjects@.len()
    ensures *r == self.subjects@[id.0 as int]
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::intern_ruby_type
//@ ret r
//@ spec
    requires base_ok(*old(self))
    ensures base_ok(*final(self)), grows(*old(self), *final(self)), same_rest(*old(self), *final(self)), final(self).subjects == old(self).subjects, first_at(final(self).ruby_types@, ruby_type, r.0 as int)
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::ruby_type
//@ ret r
//@ rewrite? $x:e.expect($m:a) ==> $x.unwrap()
//@ spec
    requires id.0 < self.ruby_types@.len()
    ensures *r == self.ruby_types@[id.0 as int]
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::expand_fact
//@ ret r
//@ rewrite? $x:e.clone() ==> vp_clone($x)
//@ spec
    requires valid(*self, *fact)
    ensures r == expand(*self, *fact)
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::clone_facts
//@ ret r
//@ rewrite? ids.iter().filter_map(|id| $b:a).map(|fact| $c:a).collect() ==> vp_filter_map(ids, |id: &TypeFactId| -> Option<TypeFact> { vp_clause!("requires names_ok(*self) ensures vp_r == expanded(*self, *id)"); match $b { Some(fact) => { vp_text!("assert(slot(self.facts@, *id));"); Some($c) } None => None } }, Ghost(|x: FactId| expanded(*self, x)))
//@ spec
    requires names_ok(*self), forall|i: int| 0 <= i < ids@.len() ==> slot(self.facts@, #[trigger] ids@[i])
    ensures r@ == shown(*self, facts_at(self.facts@, ids@))
//@ entry
    proof { mapped_all(ids@, |x: FactId| expanded(*self, x)); assert(Seq::new(ids@.len(), |i: int| expanded(*self, ids@[i])->0) =~= shown(*self, facts_at(self.facts@, ids@))); }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::facts_in_file
//@ ret r
//@ rewrite? $x:e.map(|ids| $b:a).unwrap_or_default() ==> (match $x { Some(ids) => { vp_text!("proof { bucket_lists(self.facts@, self.facts_by_file@, of_file(), own_le(self.file_owned_indexes_ordered), file_id); }"); let vp_r = $b; vp_text!("proof { listing(*self, facts_at(self.facts@, ids@), file_id); }"); vp_r } None => { vp_text!("proof { no_bucket(self.facts@, self.facts_by_file@, of_file(), file_id); listing(*self, Seq::empty(), file_id); assert(shown(*self, Seq::empty()) =~= Seq::<TypeFact>::empty()); }"); Vec::new() } })
//@ spec
    requires store_ok(*self)
    ensures forall|g: TypeFact| #[trigger] r@.to_multiset().count(g) == (if g.range.file_id == file_id { has(*self, g) } else { 0 })
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::clone_expression_facts
//@ ret r
//@ rewrite? ids.iter().filter_map(|id| $b:a).filter(|fact| $p:a).map(|fact| $c:a).collect() ==> vp_filter_map(ids, |id: &TypeFactId| -> Option<TypeFact> { vp_clause!("requires names_ok(*self) ensures vp_r == expression(*self, *id, range)"); match $b { Some(fact) => { vp_text!("assert(slot(self.facts@, *id));"); if $p { Some($c) } else { None } } None => None } }, Ghost(expr_of(*self, range)))
//@ spec
    requires names_ok(*self), forall|i: int| 0 <= i < ids@.len() ==> slot(self.facts@, #[trigger] ids@[i])
    ensures forall|g: TypeFact| #[trigger] r@.to_multiset().count(g) == (if g.subject == TypeSubject::Expression(range) { shown(*self, facts_at(self.facts@, ids@)).to_multiset().count(g) } else { 0 })
//@ entry
    proof { assert forall|g: TypeFact| #[trigger] mapped(ids@, expr_of(*self, range)).to_multiset().count(g) == (if g.subject == TypeSubject::Expression(range) { shown(*self, facts_at(self.facts@, ids@)).to_multiset().count(g) } else { 0 }) by { expressions(*self, ids@, range, g); } }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::facts_for
//@ ret r
//@ rewrite? $x:e.map(|ids| self.clone_expression_facts($y:a)).unwrap_or_default() ==> (match $x { Some(ids) => { vp_text!("proof { bucket_lists(self.facts@, self.facts_by_file@, of_file(), own_le(self.file_owned_indexes_ordered), range.file_id); }"); let vp_r = self.clone_expression_facts($y); vp_text!("proof { listing(*self, facts_at(self.facts@, ids@), range.file_id); in_their_file(*self, *range); assert forall|g: TypeFact| #[trigger] vp_r@.to_multiset().count(g) == (if g.subject == *subject { has(*self, g) } else { 0 }) by { assert(shown(*self, facts_at(self.facts@, ids@)).to_multiset().count(g) == (if g.range.file_id == range.file_id { has(*self, g) } else { 0 })); } }"); vp_r } None => { vp_text!("proof { no_bucket(self.facts@, self.facts_by_file@, of_file(), range.file_id); listing(*self, Seq::empty(), range.file_id); assert(shown(*self, Seq::empty()) =~= Seq::<TypeFact>::empty()); in_their_file(*self, *range); assert forall|g: TypeFact| #[trigger] Seq::<TypeFact>::empty().to_multiset().count(g) == (if g.subject == *subject { has(*self, g) } else { 0 }) by { assert(shown(*self, Seq::empty()).to_multiset().count(g) == (if g.range.file_id == range.file_id { has(*self, g) } else { 0 })); } }"); Vec::new() } })
//@ rewrite? return Vec::new(); ==> vp_text!("proof { never_seen(*self, *subject); }"); return Vec::new();
//@ rewrite? $x:e.map(|ids| $b:a).unwrap_or_default() ==> (match $x { Some(ids) => { vp_text!("proof { bucket_lists(self.facts@, self.facts_by_subject@, by_subject(), sub_le(self.file_owned_indexes_ordered), subject_id); }"); let vp_r = $b; vp_text!("proof { of_subject(*self, facts_at(self.facts@, ids@), subject_id, *subject); assert forall|g: TypeFact| #[trigger] vp_r@.to_multiset().count(g) == (if g.subject == *subject { has(*self, g) } else { 0 }) by {} }"); vp_r } None => { vp_text!("proof { no_bucket(self.facts@, self.facts_by_subject@, by_subject(), subject_id); of_subject(*self, Seq::empty(), subject_id, *subject); assert(shown(*self, Seq::empty()) =~= Seq::<TypeFact>::empty()); }"); Vec::new() } })
//@ spec
    requires store_ok(*self)
    ensures forall|g: TypeFact| #[trigger] r@.to_multiset().count(g) == (if g.subject == *subject { has(*self, g) } else { 0 })
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::all_facts
//@ ret r
//@ rewrite? self.facts.iter().filter_map(|fact| $b:a).map(|fact| $c:a).collect() ==> vp_filter_map(self.facts.as_slice(), |fact: &Option<StoredTypeFact>| -> Option<TypeFact> { vp_clause!("requires *fact is Some ==> valid(*self, fact->0) ensures vp_r == (match *fact { Some(f) => Some(expand(*self, f)), None => None })"); match $b { Some(fact) => Some($c), None => None } }, Ghost(shown_of(*self)))
//@ spec
    requires base_ok(*self)
    ensures forall|g: TypeFact| #[trigger] r@.to_multiset().count(g) == has(*self, g)
//@ entry
    proof {
        assert forall|i: int| 0 <= i < self.facts@.len() && (#[trigger] self.facts@[i]) is Some implies valid(*self, self.facts@[i]->0) by { assert(slot(self.facts@, fact_id(i))); }
        everything(*self);
    }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::stored_subject_matches
//@ ret r
//@ rewrite? self.subject(stored) == expected ==> vp_same(self.subject(stored), expected)
//@ spec
    requires names_ok(*self), valid(*self, *fact)
    ensures r == (expand(*self, *fact).subject == *subject)
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::add
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ rewrite? let id = self.insert_fact($f:a); ==> let vp_stored = $f; vp_text!("let ghost vp_h = *self;"); let id = self.insert_fact(vp_stored); vp_text!("let ghost vp_n = *self;");
//@ spec
    requires store_ok(*old(self)), fact.subject is Expression ==> fact.subject->Expression_0 == fact.range
    ensures store_ok(*final(self)), forall|g: TypeFact| #[trigger] has(*final(self), g) == has(*old(self), g) + (if g == fact { 1int } else { 0 })
//@ entry
    let ghost vp_f = fact;
//@ exit
    proof {
        index_add(vp_h.facts@, vp_n.facts@, id, vp_stored, vp_h.facts_by_file@, self.facts_by_file@, of_file());
        if sid(vp_stored.subject) is Some { assert(self.facts_by_subject@ =~= vp_h.facts_by_subject@.insert(sid(vp_stored.subject)->0, self.facts_by_subject@[sid(vp_stored.subject)->0])); }
        index_add(vp_h.facts@, vp_n.facts@, id, vp_stored, vp_h.facts_by_subject@, self.facts_by_subject@, by_subject());
        has_step(*old(self), *self, vp_stored); assert(expand(*self, vp_stored) == vp_f);
    }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::remove_file
//@ sig fn remove_file(&mut self, file_id: SourceFileId)
//@ rewrite? for stale_id in stale_ids $b:b ==> { let mut vp_j: usize = 0; while vp_j < stale_ids.len() { let stale_id = stale_ids[vp_j]; vp_text!("let ghost vp_o = *self; proof { assert(stale_ids@.skip(vp_j as int)[0] == stale_id); }"); vp_j += 1; $b vp_text!("proof { assert(slot(vp_o.facts@, stale_id)); if sid(at(vp_o.facts@, stale_id).subject) is Some { let k = sid(at(vp_o.facts@, stale_id).subject)->0; assert(by_subject()(at(vp_o.facts@, stale_id)) is Some); assert(vp_o.facts_by_subject@.contains_key(k)); if self.facts_by_subject@.contains_key(k) { assert(self.facts_by_subject@ =~= vp_o.facts_by_subject@.insert(k, self.facts_by_subject@[k])); } else { assert(self.facts_by_subject@ =~= vp_o.facts_by_subject@.remove(k)); } } removed_one(vp_o, *self, file_id, stale_ids@.skip(vp_j - 1)); assert(stale_ids@.skip(vp_j - 1).skip(1) =~= stale_ids@.skip(vp_j as int)); }"); } }
//@ rewrite? return; ==> vp_text!("proof { has_without(*old(self), *self, file_id); }"); return;
//@ rewrite? ids.retain(|id| $c:a) ==> vp_retain(ids, |id: &TypeFactId| -> bool { vp_clause!("ensures vp_r == (*id != stale_id)"); $c }, Ghost(other(stale_id)))
//@ spec
    requires store_ok(*old(self))
    ensures store_ok(*final(self)), forall|id: FactId| #[trigger] slot(final(self).facts@, id) ==> at(final(self).facts@, id).range.file_id != file_id,
        forall|f: Fact| #[trigger] cnt(final(self).facts@, f) == (if f.range.file_id == file_id { 0 } else { cnt(old(self).facts@, f) }),
        forall|g: TypeFact| #[trigger] has(*final(self), g) == (if g.range.file_id == file_id { 0 } else { has(*old(self), g) }),
        grows(*old(self), *final(self)), final(self).file_owned_indexes_ordered == old(self).file_owned_indexes_ordered
//@ loop 0
    invariant vp_j <= stale_ids@.len(), names_ok(*self), self.subjects == old(self).subjects, self.ruby_types == old(self).ruby_types, self.file_owned_indexes_ordered == old(self).file_owned_indexes_ordered, self.facts@.len() <= 0x1_0000_0000, free_ok(self.facts@, self.free_facts@),
        index_ok(self.facts@, self.facts_by_subject@, by_subject()), all_sorted(self.facts@, self.facts_by_subject@, sub_le(old(self).file_owned_indexes_ordered)),
        index_but(self.facts@, self.facts_by_file@, of_file(), file_id, stale_ids@.skip(vp_j as int)), all_sorted(self.facts@, self.facts_by_file@, own_le(old(self).file_owned_indexes_ordered)),
        forall|f: Fact| f.range.file_id != file_id ==> #[trigger] cnt(self.facts@, f) == cnt(old(self).facts@, f)
    decreases stale_ids@.len() - vp_j
//@ entry
    proof { none_of(self.facts@, self.facts_by_file@, file_id); before_removal(self.facts@, self.facts_by_file@, file_id, own_le(old(self).file_owned_indexes_ordered)); }
//@ exit
    proof { assert forall|f: Fact| f.range.file_id == file_id implies #[trigger] cnt(self.facts@, f) == 0 by { cnt_zero(self.facts@, f); } has_without(*old(self), *self, file_id); }
//@end
//@fn crates/ruby-analysis/src/core/type_store.rs :: TypeStore::replace_file
//@ sig fn replace_file(&mut self, file_id: SourceFileId, facts: Vec<TypeFact>)
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? .entry($k:a).or_default() ==> .vp_entry($k)
//@ rewrite? let id = self.insert_fact($f:a); ==> let vp_stored = $f; let id = self.insert_fact(vp_stored); vp_text!("proof { vp_id = id; vp_new = vp_stored; vp_i = *self; }");
//@ rewrite? touched_subjects.iter_mut().find(|(touched, _)| *touched == subject_id) ==> vp_find(&mut touched_subjects, subject_id)
//@ rewrite? ids.shrink_to_fit() ==> vp_shrink(ids)
//@ rewrite? for fact in facts $b:b ==> vp_text!("let ghost vp_s = *self; proof { replacing_starts(vp_s, file_id); assert(facts@.take(0) =~= Seq::empty()); tcounted(facts@, 0); }"); { let mut vp_j: usize = 0; while vp_j < facts.len() { let fact = vp_clone(&facts[vp_j]); vp_text!("let ghost vp_o = *self; let ghost vp_t = touched_subjects@; let ghost mut vp_id = fact_id(0); let ghost mut vp_new: Fact = arbitrary(); let ghost mut vp_i: TypeStore = arbitrary(); let ghost vp_f = fact"); vp_j += 1; $b vp_text!("proof { tcounted(facts@, vp_j as int); if sid(vp_new.subject) is Some { let k = sid(vp_new.subject)->0; assert(self.facts_by_subject@ =~= vp_o.facts_by_subject@.insert(k, self.facts_by_subject@[k])); } assert(self.facts_by_file@ =~= vp_o.facts_by_file@.insert(file_id, self.facts_by_file@[file_id])); replaced_one(vp_s, vp_o, *self, vp_new, file_id, vp_t, touched_subjects@, vp_id); has_step(vp_o, *self, vp_new); assert(expand(*self, vp_new) == vp_f); }"); } }
//@ rewrite? for (subject, appended_count) in touched_subjects $b:b ==> vp_text!("let ghost vp_m = *self; proof { placing_starts(vp_s.facts@, self.facts@, vp_s.facts_by_subject@, self.facts_by_subject@, touched_subjects@, by_subject(), file_id, sub_le(vp_s.file_owned_indexes_ordered)); }"); { let mut vp_k: usize = 0; while vp_k < touched_subjects.len() { let (subject, appended_count) = touched_subjects[vp_k]; vp_text!("let ghost vp_o = *self; proof { placeable(vp_s.facts@, vp_m.facts@, vp_s.facts_by_subject@, vp_m.facts_by_subject@, touched_subjects@, vp_k as int, by_subject(), file_id, sub_le(vp_s.file_owned_indexes_ordered)); assert(touched_subjects@[vp_k as int].0 == subject); }"); vp_k += 1; $b vp_text!("proof { assert(self.facts_by_subject@ =~= vp_o.facts_by_subject@.insert(subject, self.facts_by_subject@[subject])); placing_step(self.facts@, vp_m.facts_by_subject@, vp_o.facts_by_subject@, self.facts_by_subject@, touched_subjects@, vp_k - 1, by_subject(), sub_le(vp_s.file_owned_indexes_ordered)); }"); } }
//@ rewrite? place_appended_file_facts(ids, appended_count, file_id, |id| $c:b, |appended| sort_type_ids(&self.facts, appended),) ==> place_appended_file_facts(ids, appended_count, file_id, |id: TypeFactId| -> SourceFileId { vp_clause!("requires slot(self.facts@, id) ensures vp_r == at(self.facts@, id).range.file_id"); $c }, vp_sorter(&self.facts), Ghost(|x: FactId| slot(self.facts.view(), x)), Ghost(|x: FactId| at(self.facts.view(), x).range.file_id.0 as int), Ghost(|x: FactId, y: FactId| le4(fqn_rank(at(self.facts.view(), x)), fqn_rank(at(self.facts.view(), y)))))
//@ rewrite? $x:e.as_ref().expect($m:a) ==> $x.as_ref().unwrap()
//@ spec
    requires store_ok(*old(self)), forall|i: int| 0 <= i < facts@.len() ==> (#[trigger] facts@[i]).range.file_id == file_id && (facts@[i].subject is Expression ==> facts@[i].subject->Expression_0 == facts@[i].range)
    ensures store_ok(*final(self)), forall|g: TypeFact| #[trigger] has(*final(self), g) == (if g.range.file_id == file_id { facts@.to_multiset().count(g) } else { has(*old(self), g) })
//@ loop 0
    invariant vp_j <= facts@.len(), forall|i: int| 0 <= i < facts@.len() ==> (#[trigger] facts@[i]).range.file_id == file_id && (facts@[i].subject is Expression ==> facts@[i].subject->Expression_0 == facts@[i].range), store_ok(vp_s),
        forall|id: FactId| #[trigger] slot(vp_s.facts@, id) ==> fact_file(at(vp_s.facts@, id)) != file_id,
        replacing(vp_s, *self, file_id, touched_subjects@), forall|i: int| 0 <= i < touched_subjects@.len() ==> (#[trigger] touched_subjects@[i]).1 <= vp_j,
        forall|g: TypeFact| #[trigger] has(*self, g) == has(vp_s, g) + facts@.take(vp_j as int).to_multiset().count(g)
    decreases facts@.len() - vp_j
//@ loop 1
    invariant vp_k <= touched_subjects@.len(), store_ok(vp_s), replacing(vp_s, vp_m, file_id, touched_subjects@),
        forall|id: FactId| #[trigger] slot(vp_s.facts@, id) ==> fact_file(at(vp_s.facts@, id)) != file_id,
        self.facts == vp_m.facts, self.free_facts == vp_m.free_facts, self.facts_by_file == vp_m.facts_by_file, self.subjects == vp_m.subjects, self.ruby_types == vp_m.ruby_types, self.file_owned_indexes_ordered == vp_m.file_owned_indexes_ordered,
        index_ok(self.facts@, self.facts_by_subject@, by_subject()), placing(self.facts@, vp_m.facts_by_subject@, self.facts_by_subject@, touched_subjects@, vp_k as int, sub_le(vp_s.file_owned_indexes_ordered))
    decreases touched_subjects@.len() - vp_k
//@ exit
    proof { placing_ends(self.facts@, vp_m.facts_by_subject@, self.facts_by_subject@, touched_subjects@, sub_le(vp_s.file_owned_indexes_ordered)); assert(facts@.take(facts@.len() as int) =~= facts@); file_placed(vp_s, vp_m, *self, file_id, touched_subjects@); same_has(vp_m, *self); tfrom_file(facts@, file_id); }
//@end
}
/// the closure `|appended| sort_type_ids(&self.facts, appended)` (Verus loses a closure's postcondition inside a loop)
fn vp_sorter<'a>(facts: &'a Vec<Option<StoredTypeFact>>) -> (f: impl FnOnce(&mut [TypeFactId]) + use<'a>)
    ensures forall|s: &mut [TypeFactId]| (forall|i: int| 0 <= i < s@.len() ==> slot(facts@, #[trigger] s@[i])) ==> #[trigger] f.requires((s,)),
        forall|s: &mut [TypeFactId]| #[trigger] f.ensures((s,), ()) ==> perm(s@, final(s)@) && sorted_ids(facts@, final(s)@, fqn_le())
{ |appended: &mut [TypeFactId]| -> (r: ()) requires forall|i: int| 0 <= i < old(appended)@.len() ==> slot(facts@, #[trigger] old(appended)@[i]) ensures perm(old(appended)@, final(appended)@), sorted_ids(facts@, final(appended)@, fqn_le()) { sort_type_ids(facts, appended) } }
proof fn tcounted(facts: Seq<TypeFact>, j: int)
    requires 0 <= j <= facts.len()
    ensures facts.take(0).to_multiset() == Multiset::<TypeFact>::empty(), j > 0 ==> forall|f: TypeFact| #[trigger] facts.take(j).to_multiset().count(f) == facts.take(j - 1).to_multiset().count(f) + (if facts[j - 1] == f { 1int } else { 0 })
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(facts.take(0) =~= Seq::empty());
    if j > 0 { assert(facts.take(j) =~= facts.take(j - 1).push(facts[j - 1])); }
}
proof fn tfrom_file(facts: Seq<TypeFact>, file_id: SourceFileId)
    requires forall|i: int| 0 <= i < facts.len() ==> (#[trigger] facts[i]).range.file_id == file_id
    ensures forall|g: TypeFact| g.range.file_id != file_id ==> #[trigger] facts.to_multiset().count(g) == 0
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|g: TypeFact| g.range.file_id != file_id implies #[trigger] facts.to_multiset().count(g) == 0 by { if facts.to_multiset().count(g) > 0 { assert(facts.contains(g)); } }
}
proof fn same_has(m: TypeStore, n: TypeStore)
    requires base_ok(m), base_ok(n), n.facts == m.facts, n.subjects == m.subjects, n.ruby_types == m.ruby_types
    ensures forall|g: TypeFact| #[trigger] has(n, g) == has(m, g)
{
    assert forall|g: TypeFact| #[trigger] has(n, g) == has(m, g) by {
        assert forall|f: Fact| #[trigger] means(n, f, g) == means(m, f, g) by {}
        if exists|f: Fact| #[trigger] means(n, f, g) { let f = choose|f: Fact| #[trigger] means(n, f, g); assert(means(m, f, g)); has_is(m, f); has_is(n, f); }
        else if exists|f: Fact| #[trigger] means(m, f, g) { let k = choose|f: Fact| #[trigger] means(m, f, g); assert(means(n, k, g)); }
    }
}
/// some of the file's facts were stored again
spec fn replacing(s: TypeStore, n: TypeStore, file_id: SourceFileId, t: Seq<(TypeSubjectId, usize)>) -> bool {
    &&& base_ok(n) && indexes_ok(n) && kept(s.facts@, n.facts@) && grows(s, n) && n.file_owned_indexes_ordered == s.file_owned_indexes_ordered
    &&& all_extended(n.facts@, s.facts_by_subject@, n.facts_by_subject@, file_id) && touch_ok(t, s.facts_by_subject@, n.facts_by_subject@)
    &&& all_extended(n.facts@, s.facts_by_file@, n.facts_by_file@, file_id) && forall|k: SourceFileId| #[trigger] n.facts_by_file@.contains_key(k) && k != file_id ==> s.facts_by_file@.contains_key(k) && n.facts_by_file@[k] == s.facts_by_file@[k]
}
/// a stored fact without a key leaves the buckets as they were
proof fn extended_same<K>(a: Arena, b: Arena, id: FactId, f: Fact, m: Map<K, Vec<FactId>>, o: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, file: SourceFileId)
    requires added(a, b, id, f), index_ok(a, o, key), all_extended(a, m, o, file), key(f) is None
    ensures index_ok(b, o, key), all_extended(b, m, o, file)
{
    index_add(a, b, id, f, o, o, key);
    assert forall|k: K| #[trigger] o.contains_key(k) implies extended(b, ids_at(m, k), o[k]@, file) by {
        assert(extended(a, ids_at(m, k), o[k]@, file)); assert(bucket_ok(a, o[k]@, k, key));
        assert forall|i: int| ids_at(m, k).len() <= i < o[k]@.len() implies fact_file(at(b, #[trigger] o[k]@[i])) == file by { assert(slot(a, o[k]@[i])); assert(o[k]@[i] != id); }
    }
}
proof fn replaced_one(s: TypeStore, o: TypeStore, n: TypeStore, fact: Fact, file_id: SourceFileId, t: Seq<(TypeSubjectId, usize)>, u: Seq<(TypeSubjectId, usize)>, id: FactId)
    requires replacing(s, o, file_id, t), base_ok(n), grows(o, n), n.file_owned_indexes_ordered == o.file_owned_indexes_ordered, fact.range.file_id == file_id, added(o.facts@, n.facts@, id, fact),
        match sid(fact.subject) { None => u == t && n.facts_by_subject@ == o.facts_by_subject@, Some(k) => touch_one(t, u, k) && n.facts_by_subject@ == o.facts_by_subject@.insert(k, n.facts_by_subject@[k]) && n.facts_by_subject@[k]@ == ids_at(o.facts_by_subject@, k).push(id) },
        n.facts_by_file@ == o.facts_by_file@.insert(file_id, n.facts_by_file@[file_id]), n.facts_by_file@[file_id]@ == ids_at(o.facts_by_file@, file_id).push(id)
    ensures replacing(s, n, file_id, u)
{
    match sid(fact.subject) {
        None => { extended_same(o.facts@, n.facts@, id, fact, s.facts_by_subject@, o.facts_by_subject@, by_subject(), file_id); }
        Some(kk) => {
            extended_one(o.facts@, n.facts@, id, fact, s.facts_by_subject@, o.facts_by_subject@, n.facts_by_subject@, by_subject(), file_id);
            assert forall|k: TypeSubjectId| #[trigger] o.facts_by_subject@.contains_key(k) implies o.facts_by_subject@[k]@.len() >= ids_at(s.facts_by_subject@, k).len() by { assert(extended(o.facts@, ids_at(s.facts_by_subject@, k), o.facts_by_subject@[k]@, file_id)); }
            touched_one(t, u, s.facts_by_subject@, o.facts_by_subject@, n.facts_by_subject@, kk, id, n.facts@, file_id);
        }
    }
    extended_one(o.facts@, n.facts@, id, fact, s.facts_by_file@, o.facts_by_file@, n.facts_by_file@, of_file(), file_id);
    assert forall|x: FactId| slot(s.facts@, x) implies #[trigger] slot(n.facts@, x) && at(n.facts@, x) == at(s.facts@, x) by { assert(slot(o.facts@, x)); assert(x != id); }
}
/// the file's own bucket was sorted last
proof fn file_placed(s: TypeStore, m: TypeStore, n: TypeStore, file_id: SourceFileId, t: Seq<(TypeSubjectId, usize)>)
    requires store_ok(s), replacing(s, m, file_id, t), n.facts == m.facts, n.free_facts == m.free_facts, n.subjects == m.subjects, n.ruby_types == m.ruby_types, n.file_owned_indexes_ordered == m.file_owned_indexes_ordered,
        index_ok(n.facts@, n.facts_by_subject@, by_subject()), all_sorted(n.facts@, n.facts_by_subject@, sub_le(s.file_owned_indexes_ordered)),
        if m.facts_by_file@.contains_key(file_id) { n.facts_by_file@ == m.facts_by_file@.insert(file_id, n.facts_by_file@[file_id]) && perm(m.facts_by_file@[file_id]@, n.facts_by_file@[file_id]@) && sorted_ids(n.facts@, n.facts_by_file@[file_id]@, file_le()) } else { n.facts_by_file@ == m.facts_by_file@ }
    ensures store_ok(n)
{
    let le = own_le(s.file_owned_indexes_ordered);
    if m.facts_by_file@.contains_key(file_id) { index_resorted(n.facts@, m.facts_by_file@, n.facts_by_file@, of_file(), file_id); }
    assert forall|k: SourceFileId| #[trigger] n.facts_by_file@.contains_key(k) implies sorted_ids(n.facts@, n.facts_by_file@[k]@, le) by {
        if k != file_id {
            assert(m.facts_by_file@.contains_key(k)); let ids = s.facts_by_file@[k]@;
            assert(bucket_ok(s.facts@, ids, k, of_file()));
            assert forall|i: int| 0 <= i < ids.len() implies at(n.facts@, #[trigger] ids[i]) == at(s.facts@, ids[i]) by { assert(slot(s.facts@, ids[i])); assert(slot(n.facts@, ids[i])); }
            sorted_kept(s.facts@, n.facts@, ids, le);
        }
    }
}
proof fn replacing_starts(s: TypeStore, file_id: SourceFileId)
    requires store_ok(s)
    ensures replacing(s, s, file_id, Seq::empty())
{
    assert forall|k: TypeSubjectId| #[trigger] s.facts_by_subject@.contains_key(k) implies extended(s.facts@, ids_at(s.facts_by_subject@, k), s.facts_by_subject@[k]@, file_id) by { let v = s.facts_by_subject@[k]@; assert(v.take(v.len() as int) =~= v); }
    assert forall|k: SourceFileId| #[trigger] s.facts_by_file@.contains_key(k) implies extended(s.facts@, ids_at(s.facts_by_file@, k), s.facts_by_file@[k]@, file_id) by { let v = s.facts_by_file@[k]@; assert(v.take(v.len() as int) =~= v); }
}
spec fn expr_of(s: TypeStore, range: TextRange) -> spec_fn(FactId) -> Option<TypeFact> { |x: FactId| expression(s, x, range) }
spec fn shown_of(s: TypeStore) -> spec_fn(Option<Fact>) -> Option<TypeFact> { |x: Option<Fact>| match x { Some(f) => Some(expand(s, f)), None => None } }
spec fn expression(s: TypeStore, id: FactId, range: TextRange) -> Option<TypeFact> { if slot(s.facts@, id) && at(s.facts@, id).subject.0 == tag() && at(s.facts@, id).range == range { Some(expand(s, at(s.facts@, id))) } else { None } }
proof fn expressions(s: TypeStore, ids: Seq<FactId>, range: TextRange, g: TypeFact)
    requires names_ok(s), forall|i: int| 0 <= i < ids.len() ==> slot(s.facts@, #[trigger] ids[i])
    ensures mapped(ids, expr_of(s, range)).to_multiset().count(g) == (if g.subject == TypeSubject::Expression(range) { shown(s, facts_at(s.facts@, ids)).to_multiset().count(g) } else { 0 })
    decreases ids.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let e = expr_of(s, range);
    if ids.len() > 0 {
        let p = ids.drop_last(); expressions(s, p, range, g); let f = at(s.facts@, ids.last());
        assert(slot(s.facts@, ids[ids.len() - 1]));
        assert(shown(s, facts_at(s.facts@, ids)) =~= shown(s, facts_at(s.facts@, p)).push(expand(s, f)));
        assert(mapped(ids, e) == (match e(ids.last()) { Some(u) => mapped(p, e).push(u), None => mapped(p, e) }));
    } else { assert(shown(s, facts_at(s.facts@, ids)) =~= Seq::<TypeFact>::empty()); assert(mapped(ids, e) =~= Seq::<TypeFact>::empty()); }
}
/// an expression's fact is in the expression's file
proof fn in_their_file(s: TypeStore, range: TextRange)
    requires base_ok(s)
    ensures forall|g: TypeFact| g.subject == TypeSubject::Expression(range) && g.range.file_id != range.file_id ==> #[trigger] has(s, g) == 0, Seq::<TypeFact>::empty().to_multiset() == Multiset::<TypeFact>::empty()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|g: TypeFact| g.subject == TypeSubject::Expression(range) && g.range.file_id != range.file_id implies #[trigger] has(s, g) == 0 by {
        if exists|f: Fact| #[trigger] means(s, f, g) { let f = choose|f: Fact| #[trigger] means(s, f, g); if f.subject.0 == tag() { assert(g.range == range); } else { assert(!(s.subjects@[f.subject.0 as int] is Expression)); } }
    }
}
/// a subject without a number has no fact
proof fn never_seen(s: TypeStore, subject: TypeSubject)
    requires base_ok(s), !(subject is Expression), !s.subjects@.contains(subject)
    ensures forall|g: TypeFact| g.subject == subject ==> #[trigger] has(s, g) == 0, Seq::<TypeFact>::empty().to_multiset() == Multiset::<TypeFact>::empty()
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; }
proof fn of_subject(s: TypeStore, l: Seq<Fact>, id: TypeSubjectId, subject: TypeSubject)
    requires base_ok(s), lists(s.facts@, l, by_subject(), id), first_at(s.subjects@, subject, id.0 as int), !(subject is Expression)
    ensures forall|g: TypeFact| #[trigger] shown(s, l).to_multiset().count(g) == (if g.subject == subject { has(s, g) } else { 0 })
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    s.subjects.distinct();
    assert forall|i: int| 0 <= i < l.len() implies valid(s, #[trigger] l[i]) && expand(s, l[i]).subject == subject by {
        assert(l.contains(l[i])); assert(l.to_multiset().count(l[i]) > 0); if !valid(s, l[i]) { unknown_none(s, l[i]); }
    }
    assert forall|g: TypeFact| #[trigger] shown(s, l).to_multiset().count(g) == (if g.subject == subject { has(s, g) } else { 0 }) by {
        let m = shown(s, l);
        if exists|f: Fact| #[trigger] means(s, f, g) {
            let f = choose|f: Fact| #[trigger] means(s, f, g); has_is(s, f); counts_map(s, l, f);
            if g.subject == subject { assert(f.subject.0 == id.0); }
        } else if m.to_multiset().count(g) > 0 {
            assert(m.contains(g)); let i = choose|i: int| 0 <= i < m.len() && m[i] == g; assert(means(s, l[i], g));
        }
    }
}
proof fn mapped_shown(s: TypeStore, a: Arena)
    ensures mapped(a, shown_of(s)) == shown(s, mapped(a, keep()))
    decreases a.len()
{
    let e = shown_of(s);
    if a.len() > 0 { mapped_shown(s, a.drop_last()); assert(mapped(a, e) =~= shown(s, mapped(a, keep()))); }
    else { assert(mapped(a, e) =~= shown(s, mapped(a, keep()))); }
}
proof fn everything(s: TypeStore)
    requires base_ok(s)
    ensures forall|g: TypeFact| #[trigger] mapped(s.facts@, shown_of(s)).to_multiset().count(g) == has(s, g)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    mapped_shown(s, s.facts@); let l = mapped(s.facts@, keep());
    assert forall|i: int| 0 <= i < l.len() implies valid(s, #[trigger] l[i]) by {
        assert(l.contains(l[i])); assert(l.to_multiset().count(l[i]) > 0); mapped_counts(s.facts@, l[i]); if !valid(s, l[i]) { unknown_none(s, l[i]); }
    }
    assert forall|g: TypeFact| #[trigger] shown(s, l).to_multiset().count(g) == has(s, g) by {
        let m = shown(s, l);
        if exists|f: Fact| #[trigger] means(s, f, g) { let f = choose|f: Fact| #[trigger] means(s, f, g); has_is(s, f); counts_map(s, l, f); mapped_counts(s.facts@, f); }
        else if m.to_multiset().count(g) > 0 { assert(m.contains(g)); let i = choose|i: int| 0 <= i < m.len() && m[i] == g; assert(means(s, l[i], g)); }
    }
}
#[verifier::external_body] fn vp_same<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// one fact of the removed file was taken out
proof fn removed_one(o: TypeStore, n: TypeStore, file_id: SourceFileId, rest: Seq<FactId>)
    requires rest.len() > 0, o.facts@.len() <= 0x1_0000_0000, free_ok(o.facts@, o.free_facts@), names_ok(o), n.subjects == o.subjects, n.ruby_types == o.ruby_types, index_ok(o.facts@, o.facts_by_subject@, by_subject()), all_sorted(o.facts@, o.facts_by_subject@, sub_le(o.file_owned_indexes_ordered)),
        index_but(o.facts@, o.facts_by_file@, of_file(), file_id, rest), all_sorted(o.facts@, o.facts_by_file@, own_le(o.file_owned_indexes_ordered)),
        dropped(o.facts@, n.facts@, rest[0]), n.free_facts@ == o.free_facts@.push(rest[0]), n.facts_by_file == o.facts_by_file, index_dropped(o.facts_by_subject@, n.facts_by_subject@, sid(at(o.facts@, rest[0]).subject), rest[0])
    ensures names_ok(n), free_ok(n.facts@, n.free_facts@), index_ok(n.facts@, n.facts_by_subject@, by_subject()), all_sorted(n.facts@, n.facts_by_subject@, sub_le(o.file_owned_indexes_ordered)),
        index_but(n.facts@, n.facts_by_file@, of_file(), file_id, rest.skip(1)), all_sorted(n.facts@, n.facts_by_file@, own_le(o.file_owned_indexes_ordered)),
        forall|f: Fact| f.range.file_id != file_id ==> #[trigger] cnt(n.facts@, f) == cnt(o.facts@, f)
{
    index_drop(o.facts@, n.facts@, rest[0], o.facts_by_subject@, n.facts_by_subject@, by_subject(), sub_le(o.file_owned_indexes_ordered));
    but_take(o.facts@, n.facts@, o.facts_by_file@, of_file(), file_id, rest, own_le(o.file_owned_indexes_ordered));
    cnt_set(o.facts@, rest[0].0 as int, None);
    assert(slot(o.facts@, rest[0]) && at(o.facts@, rest[0]).range.file_id == file_id);
    assert forall|x: FactId| #[trigger] slot(n.facts@, x) implies valid(n, at(n.facts@, x)) by { assert(slot(o.facts@, x)); }
    freed(o.facts@, n.facts@, o.free_facts@, rest[0]);
}
proof fn reused(o: TypeStore, n: TypeStore, id: FactId, fact: Fact)
    requires base_ok(o), o.free_facts@.len() > 0, id == o.free_facts@.last(), n.free_facts@ == o.free_facts@.drop_last(), n.facts@ == o.facts@.update(id.0 as int, Some(fact)), valid(o, fact), n.subjects == o.subjects, n.ruby_types == o.ruby_types
    ensures base_ok(n), added(o.facts@, n.facts@, id, fact), forall|f: Fact| #[trigger] cnt(n.facts@, f) == cnt(o.facts@, f) + (if f == fact { 1int } else { 0 })
{
    let fr = o.free_facts@; assert(fr[fr.len() - 1] == id);
    cnt_set(o.facts@, id.0 as int, Some(fact));
    assert forall|x: FactId| #[trigger] slot(n.facts@, x) implies valid(n, at(n.facts@, x)) by { if x != id { assert(slot(o.facts@, x)); } }
    assert forall|i: int| 0 <= i < n.free_facts@.len() implies (#[trigger] n.free_facts@[i]).0 < n.facts@.len() && n.facts@[n.free_facts@[i].0 as int] is None by { assert(n.free_facts@[i] == fr[i] && fr[i] != fr[fr.len() - 1]); }
}
}
fn main() {}
