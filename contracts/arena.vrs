// ---- a slot arena with indexes (Fact, FactId are fixed by the including contract) ----
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
/// An internal `assert!` of the code: proved never to fire.
fn vp_check(c: bool) requires c {}
/// HashMap<K, V> as its mathematical map (assumed)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct VpMap<K, V> { _k: Vec<(K, V)> }
impl<K, T> VpMap<K, Vec<T>> {
    pub uninterp spec fn view(&self) -> Map<K, Vec<T>>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&Vec<T>>)
        ensures match r { None => !self@.contains_key(*k), Some(v) => self@.contains_key(*k) && *v == self@[*k] } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut Vec<T>>)
        ensures match r { None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@, Some(p) => old(self)@.contains_key(*k) && *p == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(p)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<Vec<T>>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_entry(&mut self, k: K) -> (r: &mut Vec<T>)
        ensures (*r)@ == ids_at(old(self)@, k), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
pub open spec fn ids_at<K, T>(m: Map<K, Vec<T>>, k: K) -> Seq<T> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
/// Vec::retain
#[verifier::external_body]
fn vp_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F, p: Ghost<spec_fn(T) -> bool>)
    requires forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, r: bool| #[trigger] f.ensures((&x,), r) ==> r == p@(x)
    ensures retained(old(v)@, final(v)@, p@) { unimplemented!() }
spec fn retained<T>(s: Seq<T>, t: Seq<T>, p: spec_fn(T) -> bool) -> bool { exists|ix: Seq<int>| #[trigger] picks(s, t, p, ix) }
spec fn picks<T>(s: Seq<T>, t: Seq<T>, p: spec_fn(T) -> bool, ix: Seq<int>) -> bool {
    &&& ix.len() == t.len()
    &&& forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] ix[i] < s.len() && t[i] == s[ix[i]] && p(t[i])
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] ix[i] < #[trigger] ix[j]
    &&& forall|k: int| 0 <= k < s.len() && p(#[trigger] s[k]) ==> ix.contains(k)
}

// ---- the stored facts ----
type Arena = Seq<Option<Fact>>;
/// how many slots hold the fact
spec fn cnt(a: Arena, f: Fact) -> nat { a.to_multiset().count(Some(f)) }
spec fn slot(a: Arena, id: FactId) -> bool { id.0 < a.len() && a[id.0 as int] is Some }
spec fn at(a: Arena, id: FactId) -> Fact { a[id.0 as int]->0 }
spec fn free_ok(a: Arena, free: Seq<FactId>) -> bool { free.no_duplicates() && forall|i: int| 0 <= i < free.len() ==> (#[trigger] free[i]).0 < a.len() && a[free[i].0 as int] is None }
proof fn freed(a: Arena, b: Arena, free: Seq<FactId>, id: FactId)
    requires free_ok(a, free), dropped(a, b, id)
    ensures free_ok(b, free.push(id))
{
    let n = free.push(id);
    assert forall|i: int| 0 <= i < free.len() implies #[trigger] free[i] != id by { assert(a[free[i].0 as int] is None); }
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).0 < b.len() && b[n[i].0 as int] is None by { if i < free.len() { assert(n[i] == free[i]); assert(free[i].0 < a.len()); } }
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { if i < free.len() && j < free.len() { assert(free[i] != free[j]); } else if i < free.len() { assert(free[i] != id); } else { assert(free[j] != id); } }
}
proof fn cnt_set(a: Arena, i: int, v: Option<Fact>)
    requires 0 <= i < a.len()
    ensures forall|f: Fact| #[trigger] cnt(a.update(i, v), f) == cnt(a, f) - (if a[i] == Some(f) { 1int } else { 0 }) + (if v == Some(f) { 1int } else { 0 })
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::to_multiset_update(a, i, v);
    assert(a.to_multiset().contains(a[i])) by { assert(a.contains(a[i])); };
}
proof fn cnt_push(a: Arena, v: Option<Fact>)
    ensures forall|f: Fact| #[trigger] cnt(a.push(v), f) == cnt(a, f) + (if v == Some(f) { 1int } else { 0 })
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; }
proof fn cnt_zero(a: Arena, f: Fact)
    requires forall|id: FactId| slot(a, id) ==> #[trigger] at(a, id) != f, a.len() <= 0x1_0000_0000
    ensures cnt(a, f) == 0
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.to_multiset().count(Some(f)) > 0 {
        assert(a.contains(Some(f)));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == Some(f);
        let id = fact_id(i); assert(slot(a, id) && at(a, id) == f);
    }
}
proof fn cnt_live(a: Arena, f: Fact)
    requires cnt(a, f) > 0
    ensures exists|i: int| 0 <= i < a.len() && a[i] == Some(f)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(a.contains(Some(f))); }

// ---- one index ----
spec fn bucket_ok<K>(a: Arena, ids: Seq<FactId>, k: K, key: spec_fn(Fact) -> Option<K>) -> bool {
    &&& ids.len() > 0 && ids.no_duplicates()
    &&& forall|i: int| 0 <= i < ids.len() ==> slot(a, #[trigger] ids[i]) && key(at(a, ids[i])) == Some(k)
}
/// the index holds every stored fact that has a key, once, under that key, and nothing else
spec fn index_ok<K>(a: Arena, m: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>) -> bool {
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> bucket_ok(a, m[k]@, k, key)
    &&& forall|id: FactId| #[trigger] slot(a, id) && key(at(a, id)) is Some ==> m.contains_key(key(at(a, id))->0) && m[key(at(a, id))->0]@.contains(id)
}
spec fn sorted_ids(a: Arena, ids: Seq<FactId>, le: spec_fn(Fact, Fact) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < ids.len() ==> le(at(a, #[trigger] ids[i]), at(a, #[trigger] ids[j])) }
spec fn all_sorted<K>(a: Arena, m: Map<K, Vec<FactId>>, le: spec_fn(Fact, Fact) -> bool) -> bool { forall|k: K| #[trigger] m.contains_key(k) ==> sorted_ids(a, m[k]@, le) }
/// a' stores one more fact, under id
spec fn added(a: Arena, b: Arena, id: FactId, f: Fact) -> bool {
    &&& !slot(a, id) && slot(b, id) && at(b, id) == f
    &&& forall|x: FactId| x != id ==> #[trigger] slot(b, x) == slot(a, x)
    &&& forall|x: FactId| x != id && slot(a, x) ==> #[trigger] at(b, x) == at(a, x)
}
proof fn index_add<K>(a: Arena, b: Arena, id: FactId, f: Fact, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>)
    requires added(a, b, id, f), index_ok(a, m, key),
        key(f) is None ==> n == m,
        key(f) is Some ==> n == m.insert(key(f)->0, n[key(f)->0]) && n[key(f)->0]@ == ids_at(m, key(f)->0).push(id)
    ensures index_ok(b, n, key)
{
    assert forall|k: K| #[trigger] n.contains_key(k) implies bucket_ok(b, n[k]@, k, key) by {
        if m.contains_key(k) { assert(bucket_ok(a, m[k]@, k, key)); }
        if key(f) == Some(k) {
            let s = ids_at(m, k);
            assert forall|i: int| 0 <= i < s.len() implies s[i] != id by { assert(slot(a, s[i])); }
        }
        assert forall|i: int| 0 <= i < n[k]@.len() implies slot(b, #[trigger] n[k]@[i]) && key(at(b, n[k]@[i])) == Some(k) by {
            let x = n[k]@[i];
            if x != id { assert(m.contains_key(k)); assert(x == m[k]@[i]); assert(slot(a, x)); assert(slot(b, x)); assert(at(b, x) == at(a, x)); }
        }
    }
    assert forall|x: FactId| #[trigger] slot(b, x) && key(at(b, x)) is Some implies n.contains_key(key(at(b, x))->0) && n[key(at(b, x))->0]@.contains(x) by {
        let k = key(at(b, x))->0;
        if x == id { assert(n[k]@.last() == id); }
        else {
            assert(slot(a, x)); assert(at(b, x) == at(a, x));
            assert(m.contains_key(k) && m[k]@.contains(x));
            let i = choose|i: int| 0 <= i < m[k]@.len() && m[k]@[i] == x;
            assert(n[k]@[i] == x);
        }
    }
}
/// storing one more fact and putting it into its bucket at its place
proof fn index_put<K>(a: Arena, b: Arena, id: FactId, f: Fact, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>)
    requires added(a, b, id, f), index_ok(a, m, key), key(f) is Some, n == m.insert(key(f)->0, n[key(f)->0]), perm(ids_at(m, key(f)->0).push(id), n[key(f)->0]@)
    ensures index_ok(b, n, key)
{
    let kk = key(f)->0; let s = ids_at(m, kk).push(id);
    perm_has(s, n[kk]@);
    if m.contains_key(kk) { assert(bucket_ok(a, m[kk]@, kk, key)); }
    assert forall|i: int| 0 <= i < ids_at(m, kk).len() implies #[trigger] ids_at(m, kk)[i] != id by { assert(slot(a, m[kk]@[i])); }
    assert(s.no_duplicates());
    assert forall|k: K| #[trigger] n.contains_key(k) implies bucket_ok(b, n[k]@, k, key) by {
        if m.contains_key(k) { assert(bucket_ok(a, m[k]@, k, key)); }
        assert forall|i: int| 0 <= i < n[k]@.len() implies slot(b, #[trigger] n[k]@[i]) && key(at(b, n[k]@[i])) == Some(k) by {
            let x = n[k]@[i];
            if k == kk {
                assert(s.contains(x)); let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
                if j < s.len() - 1 { assert(x == ids_at(m, kk)[j]); assert(slot(a, m[kk]@[j])); assert(slot(b, x)); assert(at(b, x) == at(a, x)); }
            } else { assert(slot(a, m[k]@[i])); assert(x != id) by { assert(!slot(a, id)); } assert(slot(b, x)); assert(at(b, x) == at(a, x)); }
        }
    }
    assert forall|x: FactId| #[trigger] slot(b, x) && key(at(b, x)) is Some implies n.contains_key(key(at(b, x))->0) && n[key(at(b, x))->0]@.contains(x) by {
        let k = key(at(b, x))->0;
        if x == id { assert(s.last() == id); assert(s.contains(id)); }
        else {
            assert(slot(a, x)); assert(at(b, x) == at(a, x));
            assert(m.contains_key(k) && m[k]@.contains(x));
            if k == kk { let i = choose|i: int| 0 <= i < m[k]@.len() && m[k]@[i] == x; assert(s[i] == x); assert(s.contains(x)); }
        }
    }
}
proof fn sorted_put<K>(a: Arena, b: Arena, id: FactId, f: Fact, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, le: spec_fn(Fact, Fact) -> bool)
    requires added(a, b, id, f), index_ok(a, m, key), all_sorted(a, m, le), key(f) is Some, n == m.insert(key(f)->0, n[key(f)->0]), sorted_ids(b, n[key(f)->0]@, le)
    ensures all_sorted(b, n, le)
{
    assert forall|k: K| #[trigger] n.contains_key(k) implies sorted_ids(b, n[k]@, le) by {
        if key(f) != Some(k) {
            assert(bucket_ok(a, m[k]@, k, key)); assert(sorted_ids(a, m[k]@, le));
            assert forall|i: int| 0 <= i < m[k]@.len() implies at(b, #[trigger] m[k]@[i]) == at(a, m[k]@[i]) by { assert(slot(a, m[k]@[i])); }
        }
    }
}
/// a stored fact without a key leaves the index alone
proof fn sorted_same<K>(a: Arena, b: Arena, id: FactId, f: Fact, m: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, le: spec_fn(Fact, Fact) -> bool)
    requires added(a, b, id, f), index_ok(a, m, key), all_sorted(a, m, le)
    ensures all_sorted(b, m, le)
{
    assert forall|k: K| #[trigger] m.contains_key(k) implies sorted_ids(b, m[k]@, le) by {
        assert(bucket_ok(a, m[k]@, k, key)); assert(sorted_ids(a, m[k]@, le));
        assert forall|i: int| 0 <= i < m[k]@.len() implies at(b, #[trigger] m[k]@[i]) == at(a, m[k]@[i]) by { assert(slot(a, m[k]@[i])); }
    }
}
/// only the order inside one bucket changed
proof fn index_resorted<K>(a: Arena, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, kk: K)
    requires index_ok(a, m, key), m.contains_key(kk), n == m.insert(kk, n[kk]), perm(m[kk]@, n[kk]@)
    ensures index_ok(a, n, key)
{
    perm_has(m[kk]@, n[kk]@);
    assert forall|k: K| #[trigger] n.contains_key(k) implies bucket_ok(a, n[k]@, k, key) by {
        assert(bucket_ok(a, m[k]@, k, key));
        if k == kk {
            assert forall|i: int| 0 <= i < n[k]@.len() implies slot(a, #[trigger] n[k]@[i]) && key(at(a, n[k]@[i])) == Some(k) by {
                assert(m[k]@.contains(n[k]@[i])); let j = choose|j: int| 0 <= j < m[k]@.len() && m[k]@[j] == n[k]@[i]; assert(slot(a, m[k]@[j]));
            }
        }
    }
    assert forall|x: FactId| #[trigger] slot(a, x) && key(at(a, x)) is Some implies n.contains_key(key(at(a, x))->0) && n[key(at(a, x))->0]@.contains(x) by {
        assert(m[key(at(a, x))->0]@.contains(x));
    }
}
/// the file's bucket was taken out of the index; `rest` of its facts are still stored
spec fn index_but<K>(a: Arena, m: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, kk: K, rest: Seq<FactId>) -> bool {
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> k != kk && bucket_ok(a, m[k]@, k, key)
    &&& rest.no_duplicates() && forall|i: int| 0 <= i < rest.len() ==> slot(a, #[trigger] rest[i]) && key(at(a, rest[i])) == Some(kk)
    &&& forall|id: FactId| #[trigger] slot(a, id) && key(at(a, id)) is Some ==> (if key(at(a, id)) == Some(kk) { rest.contains(id) } else { m.contains_key(key(at(a, id))->0) && m[key(at(a, id))->0]@.contains(id) })
}
proof fn but_take<K>(a: Arena, b: Arena, m: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, kk: K, rest: Seq<FactId>, le: spec_fn(Fact, Fact) -> bool)
    requires index_but(a, m, key, kk, rest), rest.len() > 0, dropped(a, b, rest[0]), all_sorted(a, m, le)
    ensures index_but(b, m, key, kk, rest.skip(1)), all_sorted(b, m, le)
{
    let id = rest[0];
    assert(forall|x: FactId| x != id ==> #[trigger] slot(b, x) == slot(a, x));
    assert(forall|x: FactId| x != id ==> #[trigger] at(b, x) == at(a, x));
    assert forall|k: K| #[trigger] m.contains_key(k) implies k != kk && bucket_ok(b, m[k]@, k, key) && sorted_ids(b, m[k]@, le) by {
        assert(bucket_ok(a, m[k]@, k, key)); assert(sorted_ids(a, m[k]@, le));
        assert forall|i: int| 0 <= i < m[k]@.len() implies #[trigger] m[k]@[i] != id by { assert(key(at(a, m[k]@[i])) == Some(k)); }
    }
    let r = rest.skip(1);
    assert forall|i: int| 0 <= i < r.len() implies slot(b, #[trigger] r[i]) && key(at(b, r[i])) == Some(kk) by { assert(r[i] == rest[i + 1]); assert(rest[i + 1] != rest[0]); assert(slot(a, rest[i + 1])); }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(rest[i + 1] != rest[j + 1]); }
    assert forall|x: FactId| #[trigger] slot(b, x) && key(at(b, x)) is Some implies (if key(at(b, x)) == Some(kk) { r.contains(x) } else { m.contains_key(key(at(b, x))->0) && m[key(at(b, x))->0]@.contains(x) }) by {
        assert(x != id); assert(slot(a, x)); assert(at(a, x) == at(b, x));
        if key(at(b, x)) == Some(kk) { let j = choose|j: int| 0 <= j < rest.len() && rest[j] == x; assert(j > 0); assert(r[j - 1] == x); }
    }
}
proof fn sorted_kept(a: Arena, b: Arena, ids: Seq<FactId>, le: spec_fn(Fact, Fact) -> bool)
    requires sorted_ids(a, ids, le), forall|i: int| 0 <= i < ids.len() ==> at(b, #[trigger] ids[i]) == at(a, ids[i])
    ensures sorted_ids(b, ids, le)
{}
spec fn other(id: FactId) -> spec_fn(FactId) -> bool { |x: FactId| x != id }
/// b is a without the fact under id
spec fn dropped(a: Arena, b: Arena, id: FactId) -> bool { slot(a, id) && b == a.update(id.0 as int, None) }
spec fn index_dropped<K>(m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, k: Option<K>, id: FactId) -> bool {
    match k {
        None => n == m,
        Some(k) => exists|v: Seq<FactId>| #[trigger] retained(m[k]@, v, other(id)) && (if v.len() == 0 { n == m.remove(k) } else { n.contains_key(k) && n[k]@ == v && n == m.insert(k, n[k]) }),
    }
}
proof fn index_drop<K>(a: Arena, b: Arena, id: FactId, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, le: spec_fn(Fact, Fact) -> bool)
    requires dropped(a, b, id), index_ok(a, m, key), all_sorted(a, m, le), index_dropped(m, n, key(at(a, id)), id)
    ensures index_ok(b, n, key), all_sorted(b, n, le)
{
    let kk = key(at(a, id));
    assert(forall|x: FactId| x != id ==> #[trigger] slot(b, x) == slot(a, x));
    assert(forall|x: FactId| x != id ==> #[trigger] at(b, x) == at(a, x));
    assert(!slot(b, id));
    let p = other(id);
    assert forall|k: K| #[trigger] n.contains_key(k) implies bucket_ok(b, n[k]@, k, key) && sorted_ids(b, n[k]@, le) by {
        assert(bucket_ok(a, m[k]@, k, key)); assert(sorted_ids(a, m[k]@, le));
        let s = m[k]@; let t = n[k]@;
        if kk == Some(k) {
            let v = choose|v: Seq<FactId>| #[trigger] retained(s, v, p) && (if v.len() == 0 { n == m.remove(k) } else { n.contains_key(k) && n[k]@ == v && n == m.insert(k, n[k]) });
            let ix = choose|ix: Seq<int>| #[trigger] picks(s, t, p, ix);
            assert(picks(s, t, p, ix));
            assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(ix[i] != ix[j]) by { if i < j { assert(ix[i] < ix[j]); } else { assert(ix[j] < ix[i]); } } assert(t[i] == s[ix[i]] && t[j] == s[ix[j]]); }
            assert forall|i: int| 0 <= i < t.len() implies slot(b, #[trigger] t[i]) && key(at(b, t[i])) == Some(k) by { assert(0 <= ix[i] < s.len()); assert(slot(a, s[ix[i]])); }
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies le(at(b, #[trigger] t[i]), at(b, #[trigger] t[j])) by { assert(ix[i] < ix[j]); assert(le(at(a, s[ix[i]]), at(a, s[ix[j]]))); assert(t[i] == s[ix[i]] && t[j] == s[ix[j]]); }
        } else {
            assert(t == s);
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != id by { assert(slot(a, s[i]) && key(at(a, s[i])) == Some(k)); }
        }
    }
    assert forall|x: FactId| #[trigger] slot(b, x) && key(at(b, x)) is Some implies n.contains_key(key(at(b, x))->0) && n[key(at(b, x))->0]@.contains(x) by {
        let k = key(at(b, x))->0;
        assert(slot(a, x)); assert(at(a, x) == at(b, x));
        assert(m.contains_key(k) && m[k]@.contains(x));
        if kk == Some(k) {
            let s = m[k]@;
            let v = choose|v: Seq<FactId>| #[trigger] retained(s, v, p) && (if v.len() == 0 { n == m.remove(k) } else { n.contains_key(k) && n[k]@ == v && n == m.insert(k, n[k]) });
            let ix = choose|ix: Seq<int>| #[trigger] picks(s, v, p, ix);
            let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
            assert(p(s[j])); assert(ix.contains(j));
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == j;
            assert(v[i] == x);
        }
    }
}
/// listing a bucket lists every stored fact with that key, as often as it is stored
spec fn facts_at(a: Arena, ids: Seq<FactId>) -> Seq<Fact> { Seq::new(ids.len(), |i: int| at(a, ids[i])) }
spec fn covers_key<K>(a: Arena, ids: Seq<FactId>, k: K, key: spec_fn(Fact) -> Option<K>) -> bool {
    &&& ids.no_duplicates()
    &&& forall|i: int| 0 <= i < ids.len() ==> slot(a, #[trigger] ids[i]) && key(at(a, ids[i])) == Some(k)
    &&& forall|id: FactId| #[trigger] slot(a, id) && key(at(a, id)) == Some(k) ==> ids.contains(id)
}
proof fn listing_counts<K>(a: Arena, ids: Seq<FactId>, k: K, key: spec_fn(Fact) -> Option<K>, f: Fact)
    requires covers_key(a, ids, k, key), a.len() <= 0x1_0000_0000
    ensures facts_at(a, ids).to_multiset().count(f) == (if key(f) == Some(k) { cnt(a, f) } else { 0 })
    decreases ids.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if ids.len() == 0 {
        assert(facts_at(a, ids) =~= Seq::empty());
        if key(f) == Some(k) { assert forall|id: FactId| slot(a, id) implies #[trigger] at(a, id) != f by { if at(a, id) == f { assert(ids.contains(id)); } } cnt_zero(a, f); }
    } else {
        let last = ids.last(); let rest = ids.drop_last(); let b = a.update(last.0 as int, None);
        assert(slot(a, last) && key(at(a, last)) == Some(k)) by { assert(ids[ids.len() - 1] == last); }
        assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] != last && slot(b, rest[i]) && at(b, rest[i]) == at(a, rest[i]) && key(at(b, rest[i])) == Some(k) by { assert(rest[i] == ids[i]); assert(slot(a, ids[i])); }
        assert forall|id: FactId| #[trigger] slot(b, id) && key(at(b, id)) == Some(k) implies rest.contains(id) by {
            assert(slot(a, id)); assert(at(a, id) == at(b, id));
            let j = choose|j: int| 0 <= j < ids.len() && ids[j] == id;
            assert(rest[j] == id);
        }
        listing_counts(b, rest, k, key, f);
        cnt_set(a, last.0 as int, None);
        assert(cnt(b, f) == cnt(a, f) - (if a[last.0 as int] == Some(f) { 1int } else { 0 }));
        assert(facts_at(a, ids) =~= facts_at(b, rest).push(at(a, last)));
    }
}
// ---- sorting, placing ----
spec fn perm<T>(s: Seq<T>, t: Seq<T>) -> bool { s.len() == t.len() && s.to_multiset() == t.to_multiset() }
spec fn in_order<T>(s: Seq<T>, le: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le(#[trigger] s[i], #[trigger] s[j]) }
proof fn perm_has<T>(s: Seq<T>, t: Seq<T>)
    requires perm(s, t)
    ensures forall|x: T| s.contains(x) == #[trigger] t.contains(x), s.no_duplicates() ==> t.no_duplicates(),
        forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|x: T| s.contains(x) == #[trigger] t.contains(x) by { assert(s.contains(x) == s.to_multiset().contains(x)); assert(t.contains(x) == t.to_multiset().contains(x)); }
    assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t.contains(t[i])); }
    if s.no_duplicates() { s.lemma_multiset_has_no_duplicates(); t.lemma_multiset_has_no_duplicates_conv(); }
}
/// slice::sort_by_key with the key function and the order of its result type
#[verifier::external_body]
fn vp_sort_by_key<T, K, F: Fn(&T) -> K>(ids: &mut [T], f: F, key: Ghost<spec_fn(T) -> K>, le: Ghost<spec_fn(K, K) -> bool>)
    requires forall|i: int| 0 <= i < old(ids)@.len() ==> f.requires((&#[trigger] old(ids)@[i],)), forall|x: T, k: K| #[trigger] f.ensures((&x,), k) ==> k == key@(x)
    ensures perm(old(ids)@, final(ids)@), forall|i: int, j: int| 0 <= i < j < final(ids)@.len() ==> le@(key@(#[trigger] final(ids)@[i]), key@(#[trigger] final(ids)@[j])) { unimplemented!() }
/// slice::partition_point
#[verifier::external_body]
fn vp_partition_point<T, F: Fn(&T) -> bool>(s: &[T], f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: usize)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)), forall|x: T, r: bool| #[trigger] f.ensures((&x,), r) ==> r == p@(x),
        forall|i: int, j: int| 0 <= i < j < s@.len() && p@(#[trigger] s@[j]) ==> p@(#[trigger] s@[i])
    ensures r <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> p@(#[trigger] s@[i]) == (i < r) { unimplemented!() }
#[verifier::external_body]
fn vp_rotate_right<T>(s: &mut [T], n: usize)
    requires n <= old(s)@.len()
    ensures final(s)@ == old(s)@.skip(old(s)@.len() - n) + old(s)@.take(old(s)@.len() - n) { s.rotate_right(n) }
/// the order of the whole: by file, and inside a file by le
spec fn by_file<T>(fid: spec_fn(T) -> int, le: spec_fn(T, T) -> bool) -> spec_fn(T, T) -> bool { |x: T, y: T| fid(x) < fid(y) || (fid(x) == fid(y) && le(x, y)) }
proof fn move_tail<T>(s: Seq<T>, at: int, n: int, t: Seq<T>)
    requires 0 <= n, 0 <= at <= s.len() - n, t == s.take(at) + s.skip(s.len() - n) + s.subrange(at, s.len() - n)
    ensures perm(s, t)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let (a, b, c) = (s.take(at), s.subrange(at, s.len() - n), s.skip(s.len() - n));
    assert(s =~= a + b + c);
    vstd::seq_lib::lemma_multiset_commutative(a + b, c); vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(a + c, b); vstd::seq_lib::lemma_multiset_commutative(a, c);
    assert(s.to_multiset() =~= t.to_multiset());
}
proof fn perm_tail<T>(s: Seq<T>, t: Seq<T>, k: int)
    requires 0 <= k <= s.len(), s.len() == t.len(), s.take(k) == t.take(k), perm(s.skip(k), t.skip(k))
    ensures perm(s, t)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s =~= s.take(k) + s.skip(k)); assert(t =~= t.take(k) + t.skip(k));
    vstd::seq_lib::lemma_multiset_commutative(s.take(k), s.skip(k)); vstd::seq_lib::lemma_multiset_commutative(t.take(k), t.skip(k));
}
proof fn placed<T>(mid: Seq<T>, t: Seq<T>, k: int, p: int, fid: spec_fn(T) -> int, le: spec_fn(T, T) -> bool, file: int)
    requires 0 <= p <= k <= mid.len(), t == mid.take(p) + mid.skip(k) + mid.subrange(p, k),
        in_order(mid.take(k), by_file(fid, le)), in_order(mid.skip(k), by_file(fid, le)),
        forall|i: int| 0 <= i < mid.len() ==> (fid(#[trigger] mid[i]) == file) == (i >= k), forall|i: int| 0 <= i < k ==> (fid(#[trigger] mid[i]) < file) == (i < p)
    ensures perm(mid, t), in_order(t, by_file(fid, le))
{
    let n = mid.len() - k; let le2 = by_file(fid, le);
    move_tail(mid, p, n, t);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies le2(#[trigger] t[i], #[trigger] t[j]) by {
        let si = if i < p { i } else if i < p + n { k + (i - p) } else { i - n };
        let sj = if j < p { j } else if j < p + n { k + (j - p) } else { j - n };
        assert(t[i] == mid[si] && t[j] == mid[sj]);
        if si < k && sj < k { assert(le2(mid.take(k)[si], mid.take(k)[sj])); }
        else if si >= k && sj >= k { assert(le2(mid.skip(k)[si - k], mid.skip(k)[sj - k])); }
    }
}
/// after the tail was sorted: the head is untouched and the tail is still the file's
proof fn tail_sorted<T>(s: Seq<T>, t: Seq<T>, k: int, fid: spec_fn(T) -> int, good: spec_fn(T) -> bool, file: int)
    requires 0 <= k <= s.len(), s.len() == t.len(), s.take(k) == t.take(k), perm(s.skip(k), t.skip(k)), forall|i: int| 0 <= i < s.len() ==> (fid(#[trigger] s[i]) == file) == (i >= k), forall|i: int| 0 <= i < s.len() ==> good(#[trigger] s[i])
    ensures perm(s, t), forall|i: int| 0 <= i < t.len() ==> (fid(#[trigger] t[i]) == file) == (i >= k), forall|i: int| 0 <= i < t.len() ==> good(#[trigger] t[i])
{
    perm_tail(s, t, k); perm_has(s.skip(k), t.skip(k));
    assert forall|i: int| 0 <= i < t.len() implies (fid(#[trigger] t[i]) == file) == (i >= k) && good(t[i]) by {
        if i < k { assert(s.take(k)[i] == s[i]); assert(t.take(k)[i] == t[i]); }
        else { let x = t.skip(k)[i - k]; assert(s.skip(k).contains(x)); let j = choose|j: int| 0 <= j < s.skip(k).len() && s.skip(k)[j] == x; assert(s[j + k] == x); assert(t[i] == x); }
    }
}
//@fn crates/ruby-analysis/src/core/file_owned_index.rs :: place_appended_file_facts
//@ sig fn place_appended_file_facts<T: Copy, F: Fn(T) -> SourceFileId, G: FnOnce(&mut [T])>(ids: &mut [T], appended_count: usize, file_id: SourceFileId, file_id_for: F, sort_facts: G, Ghost(good): Ghost<spec_fn(T) -> bool>, Ghost(fid): Ghost<spec_fn(T) -> int>, Ghost(le): Ghost<spec_fn(T, T) -> bool>)
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? file_id_for($x:a) != file_id ==> file_id_for($x).0 != file_id.0
//@ rewrite? let insertion = ids[..appended_start].partition_point(|id| $c:a); ==> proof_sorted!(); let vp_head = &ids[..appended_start]; let insertion = vp_partition_point(vp_head, |id: &T| -> bool { vp_clause!("requires good(*id) ensures vp_r == (fid(*id) < file_id.0)"); $c }, Ghost(|x: T| fid(x) < file_id.0));
//@ rewrite? file_id_for($x) < file_id ==> file_id_for($x).0 < file_id.0
//@ rewrite? ids[insertion..].rotate_right(appended_count) ==> vp_rotate_right(&mut ids[insertion..], appended_count)
//@ rewrite? proof_sorted!(); ==> vp_text!("let ghost vp_mid = ids@; proof { assert(ids@.take(appended_start as int) =~= old(ids)@.take(appended_start as int)); tail_sorted(old(ids)@, ids@, appended_start as int, fid, good, file_id.0 as int); }");
//@ spec
    requires 0 < appended_count <= old(ids)@.len(),
        forall|x: T| good(x) ==> #[trigger] file_id_for.requires((x,)), forall|x: T, r: SourceFileId| #[trigger] file_id_for.ensures((x,), r) ==> r.0 == fid(x),
        forall|s: &mut [T]| (forall|i: int| 0 <= i < s@.len() ==> good(#[trigger] s@[i])) ==> #[trigger] sort_facts.requires((s,)),
        forall|s: &mut [T]| #[trigger] sort_facts.ensures((s,), ()) ==> perm(s@, final(s)@) && in_order(final(s)@, by_file(fid, le)),
        forall|i: int| 0 <= i < old(ids)@.len() ==> good(#[trigger] old(ids)@[i]),
        // the others' facts come first, in order, then this file's
        in_order(old(ids)@.take(old(ids)@.len() - appended_count), by_file(fid, le)),
        forall|i: int| 0 <= i < old(ids)@.len() ==> (fid(#[trigger] old(ids)@[i]) == file_id.0) == (i >= old(ids)@.len() - appended_count)
    ensures perm(old(ids)@, final(ids)@), in_order(final(ids)@, by_file(fid, le))
//@ exit
    proof {
        assert(ids@ =~= vp_mid.take(insertion as int) + vp_mid.skip(vp_mid.len() - appended_count) + vp_mid.subrange(insertion as int, vp_mid.len() - appended_count));
        placed(vp_mid, ids@, appended_start as int, insertion as int, fid, le, file_id.0 as int);
    }
//@end

/// `ids.iter().filter_map(f).collect()`
#[verifier::external_body]
fn vp_filter_map<T, U, F: Fn(&T) -> Option<U>>(s: &[T], f: F, g: Ghost<spec_fn(T) -> Option<U>>) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)), forall|x: T, o: Option<U>| #[trigger] f.ensures((&x,), o) ==> o == g@(x)
    ensures r@ == mapped(s@, g@) { unimplemented!() }
spec fn mapped<T, U>(s: Seq<T>, g: spec_fn(T) -> Option<U>) -> Seq<U> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match g(s.last()) { Some(u) => mapped(s.drop_last(), g).push(u), None => mapped(s.drop_last(), g) } } }
proof fn mapped_all<T, U>(s: Seq<T>, g: spec_fn(T) -> Option<U>)
    requires forall|i: int| 0 <= i < s.len() ==> g(#[trigger] s[i]) is Some
    ensures mapped(s, g) == Seq::new(s.len(), |i: int| g(s[i])->0)
    decreases s.len()
{ if s.len() > 0 { mapped_all(s.drop_last(), g); assert(mapped(s, g) =~= Seq::new(s.len(), |i: int| g(s[i])->0)); } else { assert(mapped(s, g) =~= Seq::new(s.len(), |i: int| g(s[i])->0)); } }
spec fn keep() -> spec_fn(Option<Fact>) -> Option<Fact> { |x: Option<Fact>| x }
proof fn mapped_counts(a: Arena, f: Fact)
    ensures mapped(a, keep()).to_multiset().count(f) == cnt(a, f)
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() > 0 { mapped_counts(a.drop_last(), f); cnt_push(a.drop_last(), a.last()); assert(a =~= a.drop_last().push(a.last())); }
}

spec fn stored(a: Arena, id: FactId) -> Option<Fact> { if slot(a, id) { Some(at(a, id)) } else { None } }
/// exactly the stored facts with that key, as often as they are stored
spec fn lists<K>(a: Arena, r: Seq<Fact>, key: spec_fn(Fact) -> Option<K>, k: K) -> bool { forall|f: Fact| #[trigger] r.to_multiset().count(f) == (if key(f) == Some(k) { cnt(a, f) } else { 0 }) }
proof fn bucket_lists<K>(a: Arena, m: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, le: spec_fn(Fact, Fact) -> bool, k: K)
    requires index_ok(a, m, key), all_sorted(a, m, le), m.contains_key(k), a.len() <= 0x1_0000_0000
    ensures lists(a, facts_at(a, m[k]@), key, k), in_order(facts_at(a, m[k]@), le)
{
    assert(bucket_ok(a, m[k]@, k, key)); assert(sorted_ids(a, m[k]@, le));
    assert(covers_key(a, m[k]@, k, key));
    assert forall|f: Fact| #[trigger] facts_at(a, m[k]@).to_multiset().count(f) == (if key(f) == Some(k) { cnt(a, f) } else { 0 }) by { listing_counts(a, m[k]@, k, key, f); }
    let r = facts_at(a, m[k]@); let ids = m[k]@;
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies le(#[trigger] r[i], #[trigger] r[j]) by { assert(le(at(a, ids[i]), at(a, ids[j]))); }
}
proof fn no_bucket<K>(a: Arena, m: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, k: K)
    requires index_ok(a, m, key), !m.contains_key(k), a.len() <= 0x1_0000_0000
    ensures lists(a, Seq::empty(), key, k)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let none = Seq::<FactId>::empty();
    assert forall|id: FactId| #[trigger] slot(a, id) && key(at(a, id)) == Some(k) implies none.contains(id) by {}
    assert forall|f: Fact| #[trigger] Seq::<Fact>::empty().to_multiset().count(f) == (if key(f) == Some(k) { cnt(a, f) } else { 0 }) by { listing_counts(a, none, k, key, f); assert(facts_at(a, none) =~= Seq::empty()); }
}

// ---- replacing a file's facts: append to the buckets, then put the appended ones in place ----
spec fn in_file(file: SourceFileId) -> spec_fn(Fact) -> bool { |f: Fact| fact_file(f) == file }
spec fn kept(a: Arena, b: Arena) -> bool { forall|id: FactId| slot(a, id) ==> #[trigger] slot(b, id) && at(b, id) == at(a, id) }
/// a bucket is what it was, followed by facts of the file
spec fn extended(b: Arena, h: Seq<FactId>, s: Seq<FactId>, file: SourceFileId) -> bool { s.len() >= h.len() && s.take(h.len() as int) == h && forall|i: int| h.len() <= i < s.len() ==> fact_file(at(b, #[trigger] s[i])) == file }
spec fn all_extended<K>(b: Arena, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, file: SourceFileId) -> bool { (forall|k: K| #[trigger] n.contains_key(k) ==> extended(b, ids_at(m, k), n[k]@, file)) && forall|k: K| #[trigger] m.contains_key(k) ==> n.contains_key(k) }
/// the touched list names every extended bucket once, with the number of facts appended
spec fn touch_ok<K>(t: Seq<(K, usize)>, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> n.contains_key((#[trigger] t[i]).0) && t[i].1 > 0 && t[i].1 == n[t[i].0]@.len() - ids_at(m, t[i].0).len()
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 != (#[trigger] t[j]).0
    &&& forall|k: K| #[trigger] n.contains_key(k) && n[k]@.len() > ids_at(m, k).len() ==> touched(t, k)
}
spec fn touched<K>(t: Seq<(K, usize)>, k: K) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k }
spec fn touch_one<K>(t: Seq<(K, usize)>, u: Seq<(K, usize)>, k: K) -> bool {
    ||| !touched(t, k) && u == t.push((k, 1usize))
    ||| exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k && t[i].1 < usize::MAX && u == t.update(i, (k, (t[i].1 + 1) as usize))
}
#[verifier::external_body]
fn vp_find<K>(t: &mut Vec<(K, usize)>, k: K) -> (r: Option<((), &mut usize)>)
    ensures match r { None => !touched(old(t)@, k) && final(t)@ == old(t)@,
        Some(p) => exists|i: int| 0 <= i < old(t)@.len() && (#[trigger] old(t)@[i]).0 == k && *p.1 == old(t)@[i].1 && final(t)@ == old(t)@.update(i, (k, *final(p.1))) } { unimplemented!() }
#[verifier::external_body]
fn vp_shrink<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@ { v.shrink_to_fit() }
proof fn extended_one<K>(a: Arena, b: Arena, id: FactId, f: Fact, m: Map<K, Vec<FactId>>, o: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, key: spec_fn(Fact) -> Option<K>, file: SourceFileId)
    requires added(a, b, id, f), index_ok(a, o, key), all_extended(a, m, o, file), fact_file(f) == file, key(f) is Some, n == o.insert(key(f)->0, n[key(f)->0]), n[key(f)->0]@ == ids_at(o, key(f)->0).push(id)
    ensures index_ok(b, n, key), all_extended(b, m, n, file)
{
    let kk = key(f)->0;
    index_add(a, b, id, f, o, n, key);
    assert forall|k: K| #[trigger] n.contains_key(k) implies extended(b, ids_at(m, k), n[k]@, file) by {
        let h = ids_at(m, k); let s = n[k]@; let t = ids_at(o, k);
        if o.contains_key(k) { assert(extended(a, h, o[k]@, file)); assert(bucket_ok(a, o[k]@, k, key)); } else { assert(!m.contains_key(k)); }
        assert(s.take(h.len() as int) =~= h) by { assert(t.take(h.len() as int) == h); if k == kk { assert(s.take(h.len() as int) =~= t.take(h.len() as int)); } }
        assert forall|i: int| h.len() <= i < s.len() implies fact_file(at(b, #[trigger] s[i])) == file by {
            if i < t.len() { assert(s[i] == o[k]@[i]); assert(slot(a, o[k]@[i])); assert(s[i] != id); assert(at(b, s[i]) == at(a, s[i])); } else { assert(s[i] == id); }
        }
    }
}
proof fn touched_one<K>(t: Seq<(K, usize)>, u: Seq<(K, usize)>, m: Map<K, Vec<FactId>>, o: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, kk: K, id: FactId, b: Arena, file: SourceFileId)
    requires touch_ok(t, m, o), touch_one(t, u, kk), n == o.insert(kk, n[kk]), n[kk]@ == ids_at(o, kk).push(id), all_extended(b, m, n, file), forall|k: K| #[trigger] o.contains_key(k) ==> o[k]@.len() >= ids_at(m, k).len(), forall|k: K| #[trigger] m.contains_key(k) ==> o.contains_key(k)
    ensures touch_ok(u, m, n)
{
    assert(n.contains_key(kk));
    assert(extended(b, ids_at(m, kk), n[kk]@, file));
    if !touched(t, kk) && u == t.push((kk, 1usize)) {
        if o.contains_key(kk) { assert(o[kk]@.len() >= ids_at(m, kk).len()); }
        assert(ids_at(o, kk).len() == ids_at(m, kk).len()) by { if o.contains_key(kk) { assert(!(o[kk]@.len() > ids_at(m, kk).len())); } }
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by { if j < t.len() { assert(t[i].0 != t[j].0); } else { assert(t[i].0 != kk); } }
        assert forall|i: int| 0 <= i < u.len() implies n.contains_key((#[trigger] u[i]).0) && u[i].1 > 0 && u[i].1 == n[u[i].0]@.len() - ids_at(m, u[i].0).len() by { if i < t.len() { assert(u[i] == t[i]); assert(t[i].0 != kk); } }
        assert forall|k: K| #[trigger] n.contains_key(k) && n[k]@.len() > ids_at(m, k).len() implies touched(u, k) by {
            if k == kk { assert(u[t.len() as int].0 == k); } else { assert(o.contains_key(k)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(u[i].0 == k); }
        }
    } else {
        let x = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == kk && t[i].1 < usize::MAX && u == t.update(i, (kk, (t[i].1 + 1) as usize));
        assert(o.contains_key(t[x].0));
        assert forall|i: int| 0 <= i < u.len() implies n.contains_key((#[trigger] u[i]).0) && u[i].1 > 0 && u[i].1 == n[u[i].0]@.len() - ids_at(m, u[i].0).len() by { if i != x { assert(u[i] == t[i]); if i < x { assert(t[i].0 != t[x].0); } else { assert(t[x].0 != t[i].0); } } }
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by { assert(u[i].0 == t[i].0 && u[j].0 == t[j].0); }
        assert forall|k: K| #[trigger] n.contains_key(k) && n[k]@.len() > ids_at(m, k).len() implies touched(u, k) by {
            if k == kk { assert(u[x].0 == k); } else { assert(o.contains_key(k)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(u[i].0 == k); }
        }
    }
}
/// the appended facts of the buckets from the k-th touched one on still wait to be put in place; every other bucket is in order
spec fn placing<K>(a: Arena, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, t: Seq<(K, usize)>, j: int, le: spec_fn(Fact, Fact) -> bool) -> bool {
    &&& forall|k: K| #[trigger] n.contains_key(k) == m.contains_key(k)
    &&& forall|k: K| #[trigger] n.contains_key(k) && !touched(t.skip(j), k) ==> sorted_ids(a, n[k]@, le)
    &&& forall|i: int| j <= i < t.len() ==> n.contains_key((#[trigger] t[i]).0) && n[t[i].0]@ == m[t[i].0]@
}
proof fn placing_starts<K>(a: Arena, b: Arena, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, t: Seq<(K, usize)>, key: spec_fn(Fact) -> Option<K>, file: SourceFileId, le: spec_fn(Fact, Fact) -> bool)
    requires index_ok(a, m, key), all_sorted(a, m, le), kept(a, b), all_extended(b, m, n, file), touch_ok(t, m, n), index_ok(b, n, key)
    ensures placing(b, n, n, t, 0, le)
{
    assert(t.skip(0) =~= t);
    assert forall|k: K| #[trigger] n.contains_key(k) && !touched(t, k) implies sorted_ids(b, n[k]@, le) by {
        assert(extended(b, ids_at(m, k), n[k]@, file));
        assert(n[k]@.len() <= ids_at(m, k).len());
        assert(n[k]@ =~= n[k]@.take(ids_at(m, k).len() as int));
        assert(bucket_ok(b, n[k]@, k, key));
        if m.contains_key(k) {
            assert(bucket_ok(a, m[k]@, k, key)); assert(sorted_ids(a, m[k]@, le));
            assert forall|i: int| 0 <= i < m[k]@.len() implies at(b, #[trigger] m[k]@[i]) == at(a, m[k]@[i]) by { assert(slot(a, m[k]@[i])); assert(slot(b, m[k]@[i])); }
            sorted_kept(a, b, m[k]@, le);
        }
    }
}
/// what place_appended_file_facts needs of the bucket it is given
proof fn placeable<K>(a: Arena, b: Arena, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, t: Seq<(K, usize)>, x: int, key: spec_fn(Fact) -> Option<K>, file: SourceFileId, le: spec_fn(Fact, Fact) -> bool)
    requires index_ok(a, m, key), all_sorted(a, m, le), kept(a, b), all_extended(b, m, n, file), touch_ok(t, m, n), index_ok(b, n, key), 0 <= x < t.len(),
        forall|id: FactId| #[trigger] slot(a, id) ==> fact_file(at(a, id)) != file,
    ensures ({ let s = n[t[x].0]@; let h = s.len() - t[x].1; &&& n.contains_key(t[x].0) && 0 <= h < s.len() && sorted_ids(b, s.take(h), le)
        &&& forall|i: int| 0 <= i < s.len() ==> slot(b, #[trigger] s[i]) && (fact_file(at(b, s[i])) == file) == (i >= h) })
{
    let k = t[x].0; let s = n[k]@; let h = s.len() - t[x].1;
    assert(n.contains_key(k));
    assert(extended(b, ids_at(m, k), s, file)); assert(bucket_ok(b, s, k, key));
    if m.contains_key(k) {
        assert(bucket_ok(a, m[k]@, k, key)); assert(sorted_ids(a, m[k]@, le));
        assert forall|i: int| 0 <= i < m[k]@.len() implies at(b, #[trigger] m[k]@[i]) == at(a, m[k]@[i]) && fact_file(at(b, m[k]@[i])) != file by { assert(slot(a, m[k]@[i])); assert(slot(b, m[k]@[i])); }
        sorted_kept(a, b, m[k]@, le);
    }
    assert forall|i: int| 0 <= i < s.len() implies slot(b, #[trigger] s[i]) && (fact_file(at(b, s[i])) == file) == (i >= h) by { if i < h { assert(s.take(h)[i] == s[i]); assert(s[i] == m[k]@[i]); } }
}
proof fn placing_step<K>(a: Arena, m: Map<K, Vec<FactId>>, o: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, t: Seq<(K, usize)>, j: int, key: spec_fn(Fact) -> Option<K>, le: spec_fn(Fact, Fact) -> bool)
    requires 0 <= j < t.len(), placing(a, m, o, t, j, le), index_ok(a, o, key), forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 != (#[trigger] t[j]).0,
        n == o.insert(t[j].0, n[t[j].0]), perm(o[t[j].0]@, n[t[j].0]@), sorted_ids(a, n[t[j].0]@, le)
    ensures placing(a, m, n, t, j + 1, le), index_ok(a, n, key)
{
    let kk = t[j].0;
    assert(o.contains_key(kk));
    index_resorted(a, o, n, key, kk);
    assert forall|k: K| #[trigger] n.contains_key(k) && !touched(t.skip(j + 1), k) implies sorted_ids(a, n[k]@, le) by {
        if k != kk {
            assert(o.contains_key(k));
            if touched(t.skip(j), k) { let i = choose|i: int| 0 <= i < t.skip(j).len() && (#[trigger] t.skip(j)[i]).0 == k; assert(i > 0); assert(t.skip(j + 1)[i - 1].0 == k); }
        }
    }
    assert forall|i: int| j + 1 <= i < t.len() implies n.contains_key((#[trigger] t[i]).0) && n[t[i].0]@ == m[t[i].0]@ by { assert(t[j].0 != t[i].0); }
}
proof fn placing_ends<K>(a: Arena, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, t: Seq<(K, usize)>, le: spec_fn(Fact, Fact) -> bool)
    requires placing(a, m, n, t, t.len() as int, le)
    ensures all_sorted(a, n, le)
{
    assert forall|k: K| #[trigger] n.contains_key(k) implies sorted_ids(a, n[k]@, le) by { assert(!touched(t.skip(t.len() as int), k)); }
}
proof fn counted(facts: Seq<Fact>, j: int)
    requires 0 <= j <= facts.len()
    ensures facts.take(0).to_multiset() == Multiset::<Fact>::empty(), j > 0 ==> forall|f: Fact| #[trigger] facts.take(j).to_multiset().count(f) == facts.take(j - 1).to_multiset().count(f) + (if facts[j - 1] == f { 1int } else { 0 })
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(facts.take(0) =~= Seq::empty());
    if j > 0 { assert(facts.take(j) =~= facts.take(j - 1).push(facts[j - 1])); }
}
spec fn of_file() -> spec_fn(Fact) -> Option<SourceFileId> { |f: Fact| Some(fact_file(f)) }
proof fn none_of(a: Arena, m: Map<SourceFileId, Vec<FactId>>, file_id: SourceFileId)
    requires index_ok(a, m, of_file()), a.len() <= 0x1_0000_0000
    ensures !m.contains_key(file_id) ==> (forall|id: FactId| #[trigger] slot(a, id) ==> fact_file(at(a, id)) != file_id) && forall|f: Fact| fact_file(f) == file_id ==> #[trigger] cnt(a, f) == 0
{
    if !m.contains_key(file_id) {
        assert forall|id: FactId| #[trigger] slot(a, id) implies fact_file(at(a, id)) != file_id by { assert(of_file()(at(a, id)) is Some); }
        assert forall|f: Fact| fact_file(f) == file_id implies #[trigger] cnt(a, f) == 0 by { assert forall|id: FactId| slot(a, id) implies #[trigger] at(a, id) != f by {} cnt_zero(a, f); }
    }
}
proof fn before_removal(a: Arena, m: Map<SourceFileId, Vec<FactId>>, file_id: SourceFileId, le: spec_fn(Fact, Fact) -> bool)
    requires index_ok(a, m, of_file()), all_sorted(a, m, le)
    ensures m.contains_key(file_id) ==> index_but(a, m.remove(file_id), of_file(), file_id, m[file_id]@) && all_sorted(a, m.remove(file_id), le) && m[file_id]@.skip(0) == m[file_id]@
{
    if m.contains_key(file_id) {
        let n = m.remove(file_id);
        assert(bucket_ok(a, m[file_id]@, file_id, of_file()));
        assert(m[file_id]@.skip(0) =~= m[file_id]@);
        assert forall|k: SourceFileId| #[trigger] n.contains_key(k) implies k != file_id && bucket_ok(a, n[k]@, k, of_file()) && sorted_ids(a, n[k]@, le) by { assert(m.contains_key(k)); }
    }
}
proof fn from_file(facts: Seq<Fact>, file_id: SourceFileId)
    requires forall|i: int| 0 <= i < facts.len() ==> fact_file(#[trigger] facts[i]) == file_id
    ensures forall|f: Fact| fact_file(f) != file_id ==> #[trigger] facts.to_multiset().count(f) == 0
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|f: Fact| fact_file(f) != file_id implies #[trigger] facts.to_multiset().count(f) == 0 by { if facts.to_multiset().count(f) > 0 { assert(facts.contains(f)); } }
}

// ---- touched buckets kept as a set and sorted as a whole ----
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct VpSet<K> { _k: Vec<K> }
impl<K> VpSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    /// iteration order is arbitrary
    #[verifier::external_body]
    pub fn vp_into(self) -> (r: Vec<K>) ensures forall|k: K| #[trigger] self@.contains(k) ==> r@.contains(k) { unimplemented!() }
}
/// a bucket that was not touched is as it was
spec fn grown<K>(m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, t: Set<K>) -> bool { forall|k: K| #[trigger] n.contains_key(k) && !t.contains(k) ==> m.contains_key(k) && n[k]@ == m[k]@ }
proof fn grown_one<K>(m: Map<K, Vec<FactId>>, o: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, t: Set<K>, kk: K)
    requires grown(m, o, t), n == o.insert(kk, n[kk])
    ensures grown(m, n, t.insert(kk))
{
    assert forall|k: K| #[trigger] n.contains_key(k) && !t.insert(kk).contains(k) implies m.contains_key(k) && n[k]@ == m[k]@ by { assert(k != kk); assert(o.contains_key(k)); assert(!t.contains(k)); }
}
/// every bucket but the ones still to do is in order
spec fn sorted_but<K>(a: Arena, n: Map<K, Vec<FactId>>, todo: Seq<K>, le: spec_fn(Fact, Fact) -> bool) -> bool { forall|k: K| #[trigger] n.contains_key(k) && !todo.contains(k) ==> sorted_ids(a, n[k]@, le) }
proof fn sorting_starts<K>(a: Arena, b: Arena, m: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, t: Set<K>, v: Seq<K>, key: spec_fn(Fact) -> Option<K>, le: spec_fn(Fact, Fact) -> bool)
    requires index_ok(a, m, key), all_sorted(a, m, le), kept(a, b), grown(m, n, t), forall|k: K| #[trigger] t.contains(k) ==> v.contains(k)
    ensures sorted_but(b, n, v.skip(0), le)
{
    assert(v.skip(0) =~= v);
    assert forall|k: K| #[trigger] n.contains_key(k) && !v.contains(k) implies sorted_ids(b, n[k]@, le) by {
        assert(!t.contains(k));
        assert(bucket_ok(a, m[k]@, k, key)); assert(sorted_ids(a, m[k]@, le));
        assert forall|i: int| 0 <= i < m[k]@.len() implies at(b, #[trigger] m[k]@[i]) == at(a, m[k]@[i]) by { assert(slot(a, m[k]@[i])); assert(slot(b, m[k]@[i])); }
        sorted_kept(a, b, m[k]@, le);
    }
}
proof fn sorting_step<K>(a: Arena, o: Map<K, Vec<FactId>>, n: Map<K, Vec<FactId>>, v: Seq<K>, j: int, key: spec_fn(Fact) -> Option<K>, le: spec_fn(Fact, Fact) -> bool)
    requires 0 <= j < v.len(), sorted_but(a, o, v.skip(j), le), index_ok(a, o, key),
        if o.contains_key(v[j]) { n == o.insert(v[j], n[v[j]]) && perm(o[v[j]]@, n[v[j]]@) && sorted_ids(a, n[v[j]]@, le) } else { n == o }
    ensures sorted_but(a, n, v.skip(j + 1), le), index_ok(a, n, key)
{
    if o.contains_key(v[j]) { index_resorted(a, o, n, key, v[j]); }
    assert forall|k: K| #[trigger] n.contains_key(k) && !v.skip(j + 1).contains(k) implies sorted_ids(a, n[k]@, le) by {
        if k != v[j] {
            assert(o.contains_key(k));
            if v.skip(j).contains(k) { let i = choose|i: int| 0 <= i < v.skip(j).len() && v.skip(j)[i] == k; assert(i > 0); assert(v.skip(j + 1)[i - 1] == k); }
        }
    }
}
proof fn sorting_ends<K>(a: Arena, n: Map<K, Vec<FactId>>, v: Seq<K>, le: spec_fn(Fact, Fact) -> bool)
    requires sorted_but(a, n, v.skip(v.len() as int), le)
    ensures all_sorted(a, n, le)
{ assert forall|k: K| #[trigger] n.contains_key(k) implies sorted_ids(a, n[k]@, le) by { assert(!v.skip(v.len() as int).contains(k)); } }
