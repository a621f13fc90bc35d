// ---- a map of lists: what it holds, and HashMap's operations on it (assumed) ----
/// An internal `assert!` of the code: proved never to fire.
fn vp_check(c: bool) requires c {}
spec fn perm<T>(s: Seq<T>, t: Seq<T>) -> bool { s.len() == t.len() && s.to_multiset() == t.to_multiset() }
/// HashMap<K, Vec<T>> as its mathematical map (assumed)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct VpMap<K, V> { _k: Vec<(K, V)> }
impl<K, T> VpMap<K, Vec<T>> {
    pub uninterp spec fn view(&self) -> Map<K, Vec<T>>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&Vec<T>>)
        ensures match r { None => !self@.contains_key(*k), Some(v) => self@.contains_key(*k) && *v == self@[*k] } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut Vec<T>>)
        ensures match r { None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@, Some(p) => old(self)@.contains_key(*k) && *p == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(p)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<Vec<T>>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: Vec<T>) -> (r: Option<Vec<T>>)
        ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, Vec<T>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, Vec<T>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_entry(&mut self, k: K) -> (r: &mut Vec<T>)
        ensures (*r)@ == held(old(self)@, k), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    /// keys(): every key once, in some order
    #[verifier::external_body]
    pub fn vp_keys(&self) -> (r: Vec<K>) ensures keys_of(r@, self@) { unimplemented!() }
    /// the list of a key that is there
    #[verifier::external_body]
    pub fn vp_mut(&mut self, k: &K) -> (r: &mut Vec<T>)
        requires old(self)@.contains_key(*k)
        ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r)) { unimplemented!() }
    /// values().flat_map(|v| v.iter().cloned()).collect()
    #[verifier::external_body]
    pub fn vp_joined(&self) -> (r: Vec<T>) ensures exists|o: Seq<K>| #[trigger] keys_of(o, self@) && r@ == joined(self@, o) { unimplemented!() }
    /// values().map(Vec::len).sum()
    #[verifier::external_body]
    pub fn vp_total(&self) -> (r: usize) ensures exists|o: Seq<K>| #[trigger] keys_of(o, self@) && r == joined(self@, o).len() { unimplemented!() }
}
pub open spec fn held<K, T>(m: Map<K, Vec<T>>, k: K) -> Seq<T> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
pub open spec fn keys_of<K, T>(o: Seq<K>, m: Map<K, Vec<T>>) -> bool { o.no_duplicates() && forall|k: K| #[trigger] o.contains(k) <==> m.contains_key(k) }
pub open spec fn joined<K, T>(m: Map<K, Vec<T>>, o: Seq<K>) -> Seq<T> decreases o.len() { if o.len() == 0 { Seq::empty() } else { joined(m, o.drop_last()) + m[o.last()]@ } }
/// slice sorting by whatever key: a permutation (the order of these stores is not part of the property)
#[verifier::external_body]
fn vp_sorted<T>(v: &mut Vec<T>) ensures perm(old(v)@, final(v)@) { unimplemented!() }
#[verifier::external_body]
fn vp_shrink<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body]
fn vp_cloned<T>(v: Option<&Vec<T>>) -> (r: Vec<T>) ensures r@ == (match v { Some(v) => v@, None => Seq::empty() }) { unimplemented!() }
fn vp_slice<T>(v: Option<&Vec<T>>) -> (r: &[T]) ensures r@ == (match v { Some(v) => v@, None => Seq::empty() }) { match v { Some(v) => v.as_slice(), None => vp_none() } }
#[verifier::external_body]
fn vp_none<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { &[] }
/// clone yields an equal value
#[verifier::external_body]
fn vp_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// Vec::retain
#[verifier::external_body]
fn vp_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F, p: Ghost<spec_fn(T) -> bool>)
    requires forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, r: bool| #[trigger] f.ensures((&x,), r) ==> r == p@(x)
    ensures final(v)@ == old(v)@.filter(p@) { unimplemented!() }

// ---- counting ----
spec fn count<T>(s: Seq<T>, x: T) -> nat { s.to_multiset().count(x) }
proof fn count_push<T>(s: Seq<T>, y: T, x: T) ensures count(s.push(y), x) == count(s, x) + (if x == y { 1int } else { 0 })
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; }
proof fn count_add<T>(s: Seq<T>, t: Seq<T>, x: T) ensures count(s + t, x) == count(s, x) + count(t, x)
{ vstd::seq_lib::lemma_multiset_commutative(s, t); }
proof fn count_in<T>(s: Seq<T>, x: T) ensures count(s, x) > 0 <==> s.contains(x)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; }
proof fn perm_in<T>(s: Seq<T>, t: Seq<T>, x: T) requires perm(s, t) ensures s.contains(x) <==> t.contains(x), count(s, x) == count(t, x)
{ count_in(s, x); count_in(t, x); }
proof fn perm_push<T>(s: Seq<T>, t: Seq<T>, y: T) requires perm(s, t) ensures perm(s.push(y), t.push(y))
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(s.push(y).to_multiset() =~= t.push(y).to_multiset()); }
proof fn perm_trans<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) requires perm(a, b), perm(b, c) ensures perm(a, c) {}
/// a fact is in the joined lists as often as in the list of its own key, if every list holds facts of its key only
proof fn joined_counts<K, T>(m: Map<K, Vec<T>>, o: Seq<K>, key: spec_fn(T) -> K, x: T)
    requires o.no_duplicates(), forall|k: K| #[trigger] o.contains(k) ==> m.contains_key(k), forall|k: K, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() ==> key(#[trigger] m[k]@[i]) == k
    ensures count(joined(m, o), x) == (if o.contains(key(x)) { count(held(m, key(x)), x) } else { 0 })
    decreases o.len()
{
    if o.len() == 0 { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
    else {
        let p = o.drop_last(); let k = o.last(); let mk = m[k]@;
        assert forall|j: K| #[trigger] p.contains(j) implies m.contains_key(j) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == j; assert(o[i] == j); assert(o.contains(j)); }
        assert(o.contains(k));
        joined_counts(m, p, key, x); count_add(joined(m, p), mk, x);
        if key(x) == k { assert(!p.contains(k)) by { if p.contains(k) { let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(o[i] == o[o.len() - 1]); } } }
        else {
            count_in(mk, x);
            if mk.contains(x) { let i = choose|i: int| 0 <= i < mk.len() && mk[i] == x; assert(key(m[k]@[i]) == k); }
            if o.contains(key(x)) { let i = choose|i: int| 0 <= i < o.len() && o[i] == key(x); assert(p[i] == key(x)); assert(p.contains(key(x))); }
            if p.contains(key(x)) { let i = choose|i: int| 0 <= i < p.len() && p[i] == key(x); assert(o[i] == key(x)); assert(o.contains(key(x))); }
        }
    }
}
