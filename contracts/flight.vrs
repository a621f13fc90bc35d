// ---- the map: an association list with distinct keys (HashMap assumed to behave as one) ----
struct VpMap { v: Vec<(K, Entry)> }
spec fn at_key(es: Seq<(K, Entry)>, k: K, i: int) -> bool { 0 <= i < es.len() && es[i].0 == k }
spec fn has_key(es: Seq<(K, Entry)>, k: K) -> bool { exists|i: int| at_key(es, k, i) }
spec fn distinct_keys(es: Seq<(K, Entry)>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0 }
impl VpMap {
    spec fn view(&self) -> Seq<(K, Entry)> { self.v@ }
    fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    fn find(&self, k: &K) -> (r: Option<usize>)
        ensures r.is_some() ==> at_key(self@, *k, r->0 as int), r.is_none() ==> !has_key(self@, *k)
    {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self.v@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] self@[j]).0 != *k
            decreases self.v@.len() - i
        { if vp_key_eq(&self.v[i].0, k) { return Some(i); } i = i + 1; }
        None
    }
    fn contains_key(&self, k: &K) -> (r: bool) ensures r == has_key(self@, *k) { match self.find(k) { Some(i) => { assert(at_key(self@, *k, i as int)); true } None => false } }
    fn nth(&self, i: usize) -> (r: &Entry) requires i < self@.len() ensures *r == self@[i as int].1 { &self.v[i].1 }
    fn nth_key(&self, i: usize) -> (r: &K) requires i < self@.len() ensures *r == self@[i as int].0 { &self.v[i].0 }
    fn get(&self, k: &K) -> (r: Option<&Entry>)
        ensures r.is_none() ==> !has_key(self@, *k), r.is_some() ==> exists|i: int| #[trigger] at_key(self@, *k, i) && *r->0 == self@[i].1
    { match self.find(k) { Some(i) => { assert(at_key(self@, *k, i as int)); Some(&self.v[i].1) } None => None } }
    fn add(&mut self, k: K, e: Entry) requires !has_key(old(self)@, k) ensures final(self)@ == old(self)@.push((k, e)) { self.v.push((k, e)); }
    fn remove(&mut self, k: &K)
        ensures !has_key(old(self)@, *k) ==> final(self)@ == old(self)@,
            has_key(old(self)@, *k) ==> exists|i: int| #[trigger] at_key(old(self)@, *k, i) && final(self)@ == old(self)@.remove(i)
    { match self.find(k) { Some(i) => { assert(at_key(self@, *k, i as int)); self.v.remove(i); } None => {} } }
}
// ---- shared cells (Arc): an identity into a ghost heap ----
pub struct CellRef { pub id: Ghost<int> }
impl CellRef {
    fn clone(&self) -> (r: CellRef) ensures r.id@ == self.id@ { CellRef { id: self.id } }
}
#[verifier::external_body]
fn vp_ptr_eq(a: &CellRef, b: &CellRef) -> (r: bool) ensures r == (a.id@ == b.id@) { unimplemented!() }
#[verifier::external_body]
struct VpHeap { _p: u8 }
impl VpHeap {
    uninterp spec fn cells(&self) -> Map<int, Cell>;
    uninterp spec fn keys(&self) -> Map<int, K>;
    uninterp spec fn next(&self) -> int;
    spec fn has(&self, c: int) -> bool { 0 <= c < self.next() }
    #[verifier::external_body]
    fn peek(&self, c: &CellRef) -> (r: &Cell) requires self.has(c.id@) ensures *r == self.cells()[c.id@] { unimplemented!() }
    #[verifier::external_body]
    fn take(&mut self, c: &CellRef) -> (r: Cell) requires old(self).has(c.id@) ensures r == old(self).cells()[c.id@], *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    fn put(&mut self, c: &CellRef, x: Cell) requires old(self).has(c.id@)
        ensures final(self).cells() == old(self).cells().insert(c.id@, x), final(self).keys() == old(self).keys(), final(self).next() == old(self).next() { unimplemented!() }
    #[verifier::external_body]
    fn alloc(&mut self, x: Cell, Ghost(k): Ghost<K>) -> (r: CellRef)
        ensures r.id@ == old(self).next(), final(self).next() == r.id@ + 1, final(self).cells() == old(self).cells().insert(r.id@, x), final(self).keys() == old(self).keys().insert(r.id@, k) { unimplemented!() }
}
/// ghost state of the concurrent system: cells whose producer runs, cells whose
/// producer has returned and whose owner has yet to publish, evictions owed
struct VpWorld { heap: VpHeap, running: Ghost<Set<int>>, ending: Ghost<Set<int>>, owed: Ghost<int> }

enum St { Pending, Done(Result<V, E>), Panicked }
spec fn cid(e: (K, Entry)) -> int { cell_of(e.1).id@ }
spec fn done_e(cells: Map<int, Cell>, e: (K, Entry)) -> bool { st(cells[cid(e)]) matches St::Done(Ok(_)) }
spec fn w_e(cells: Map<int, Cell>, e: (K, Entry)) -> int { match st(cells[cid(e)]) { St::Done(Ok(v)) => weight_of(v) as int, _ => 0 } }
spec fn cnt(es: Seq<(K, Entry)>, cells: Map<int, Cell>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { cnt(es, cells, n - 1) + if done_e(cells, es[n - 1]) { 1int } else { 0 } } }
spec fn wsum(es: Seq<(K, Entry)>, cells: Map<int, Cell>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { wsum(es, cells, n - 1) + w_e(cells, es[n - 1]) } }
spec fn within(es: Seq<(K, Entry)>, cells: Map<int, Cell>, max_n: int, max_w: int) -> bool {
    cnt(es, cells, es.len() as int) <= max_n && wsum(es, cells, es.len() as int) <= max_w
}
proof fn cnt_pos(es: Seq<(K, Entry)>, cells: Map<int, Cell>, n: int)
    requires 0 <= n <= es.len()
    ensures 0 <= cnt(es, cells, n) <= n, wsum(es, cells, n) >= 0, (forall|i: int| 0 <= i < n ==> !done_e(cells, #[trigger] es[i])) ==> cnt(es, cells, n) == 0 && wsum(es, cells, n) == 0
    decreases n
{ if n > 0 { cnt_pos(es, cells, n - 1); if forall|i: int| 0 <= i < n ==> !done_e(cells, #[trigger] es[i]) { assert(!done_e(cells, es[n - 1])); } } }
proof fn cnt_removed(es: Seq<(K, Entry)>, cells: Map<int, Cell>, j: int, n: int)
    requires 0 <= j < es.len(), 0 <= n < es.len()
    ensures cnt(es.remove(j), cells, n) == (if n <= j { cnt(es, cells, n) } else { cnt(es, cells, n + 1) - if done_e(cells, es[j]) { 1int } else { 0 } }),
        wsum(es.remove(j), cells, n) == (if n <= j { wsum(es, cells, n) } else { wsum(es, cells, n + 1) - w_e(cells, es[j]) })
    decreases n
{
    if n > 0 {
        cnt_removed(es, cells, j, n - 1);
        let r = es.remove(j);
        if n - 1 < j { assert(r[n - 1] == es[n - 1]); } else { assert(r[n - 1] == es[n]); }
        if n - 1 == j { assert(cnt(es, cells, n) == cnt(es, cells, n - 1) + if done_e(cells, es[n - 1]) { 1int } else { 0 }); assert(cnt(es, cells, n + 1) == cnt(es, cells, n) + if done_e(cells, es[n]) { 1int } else { 0 });
            assert(wsum(es, cells, n + 1) == wsum(es, cells, n) + w_e(cells, es[n])); }
    }
}
proof fn cnt_same(es: Seq<(K, Entry)>, es2: Seq<(K, Entry)>, c1: Map<int, Cell>, c2: Map<int, Cell>, n: int)
    requires 0 <= n <= es.len(), n <= es2.len(), forall|i: int| 0 <= i < n ==> es[i] == es2[i] && st(c1[cid(#[trigger] es[i])]) == st(c2[cid(es[i])])
    ensures cnt(es, c1, n) == cnt(es2, c2, n), wsum(es, c1, n) == wsum(es2, c2, n)
    decreases n
{ if n > 0 { cnt_same(es, es2, c1, c2, n - 1); assert(es[n - 1] == es2[n - 1]); } }

/// entries: one per key, one cell and one generation each, the cell made for that key
spec fn wf_entries(es: Seq<(K, Entry)>, keys: Map<int, K>, next_cell: int, next_gen: int) -> bool {
    &&& distinct_keys(es)
    &&& forall|i: int| 0 <= i < es.len() ==> 0 <= cid(#[trigger] es[i]) < next_cell && keys[cid(es[i])] == es[i].0 && gen_of(es[i].1) <= next_gen
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> gen_of((#[trigger] es[i]).1) != gen_of((#[trigger] es[j]).1) || !bounded()
}
spec fn present(es: Seq<(K, Entry)>, c: int) -> bool { exists|i: int| 0 <= i < es.len() && cid(#[trigger] es[i]) == c }
spec fn world_inv(es: Seq<(K, Entry)>, w: VpWorld, next_gen: int) -> bool {
    let cells = w.heap.cells();
    &&& wf_entries(es, w.heap.keys(), w.heap.next(), next_gen) && w.heap.next() >= 0
    // a lookup can only meet a flight in progress or a value: no failure is ever found
    &&& forall|i: int| 0 <= i < es.len() ==> st(cells[cid(#[trigger] es[i])]) == St::Pending || done_e(cells, es[i])
    // a running production is the one registered for its key, so there is no second one
    &&& forall|c: int| #[trigger] w.running@.contains(c) ==> present(es, c) && st(cells[c]) == St::Pending && !w.ending@.contains(c) && w.heap.has(c)
    &&& forall|c: int| #[trigger] w.ending@.contains(c) ==> st(cells[c]) == St::Pending && w.heap.has(c)
    // a pending cell has somebody who will complete it
    &&& forall|c: int| w.heap.has(c) && st(#[trigger] cells[c]) == St::Pending ==> w.running@.contains(c) || w.ending@.contains(c)
    // nobody sleeps on a completed cell
    &&& forall|c: int| w.heap.has(c) && asleep(#[trigger] cells[c]) ==> st(cells[c]) == St::Pending
    &&& w.owed@ >= 0
}
spec fn same_key_same_cell(es: Seq<(K, Entry)>, keys: Map<int, K>, a: int, b: int) -> bool { keys[a] == keys[b] ==> a == b }
/// at most one production per key is in flight
proof fn one_producer(es: Seq<(K, Entry)>, w: VpWorld, g: int, a: int, b: int)
    requires world_inv(es, w, g), w.running@.contains(a), w.running@.contains(b), w.heap.keys()[a] == w.heap.keys()[b]
    ensures a == b
{
    let i = choose|i: int| 0 <= i < es.len() && cid(#[trigger] es[i]) == a;
    let j = choose|i: int| 0 <= i < es.len() && cid(#[trigger] es[i]) == b;
    if i < j { assert(es[i].0 != es[j].0); } else if j < i { assert(es[j].0 != es[i].0); }
}
/// what other threads may do to the shared state meanwhile; `own`: a cell only we complete
spec fn others_world(e1: Seq<(K, Entry)>, w1: VpWorld, e2: Seq<(K, Entry)>, w2: VpWorld, own: Option<int>) -> bool {
    &&& w2.heap.next() >= w1.heap.next()
    &&& forall|c: int| w1.heap.has(c) ==> #[trigger] w2.heap.keys()[c] == w1.heap.keys()[c]
    &&& forall|c: int| w1.heap.has(c) && st(w1.heap.cells()[c]) != St::Pending ==> st(#[trigger] w2.heap.cells()[c]) == st(w1.heap.cells()[c])
    &&& own.is_some() ==> w2.running@.contains(own->0) == w1.running@.contains(own->0) && w2.ending@.contains(own->0) == w1.ending@.contains(own->0)
        && present(e2, own->0) == present(e1, own->0) && st(w2.heap.cells()[own->0]) == st(w1.heap.cells()[own->0])
}
