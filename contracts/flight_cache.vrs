/// what eviction may do: subset, nothing pending lost, everything evicted finished and older than what stays
spec fn in_map(es: Seq<(K, Entry)>, e: (K, Entry)) -> bool { exists|i: int| 0 <= i < es.len() && #[trigger] es[i] == e }
spec fn eviction(a: Seq<(K, Entry)>, b: Seq<(K, Entry)>, cells: Map<int, Cell>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> in_map(a, #[trigger] b[i])
    &&& forall|i: int| 0 <= i < a.len() && !done_e(cells, #[trigger] a[i]) ==> in_map(b, a[i])
    &&& forall|i: int, j: int| 0 <= i < a.len() && !in_map(b, #[trigger] a[i]) && 0 <= j < b.len() && done_e(cells, #[trigger] b[j]) ==> gen_of(a[i].1) < gen_of(b[j].1)
}
proof fn found_oldest(s: Cache, best: Option<usize>)
    requires best.is_none() ==> forall|j: int| 0 <= j < s.entries@.len() ==> !done_e(s.world.heap.cells(), #[trigger] s.entries@[j])
    ensures best.is_none() ==> s.fits()
{ if best.is_none() { cnt_pos(s.entries@, s.world.heap.cells(), s.entries@.len() as int); } }
proof fn evicted(a: Seq<(K, Entry)>, es: Seq<(K, Entry)>, b: Seq<(K, Entry)>, w: VpWorld, g: int, at: int)
    requires bounded(), wf_entries(es, w.heap.keys(), w.heap.next(), g), eviction(a, es, w.heap.cells()), 0 <= at < es.len(), done_e(w.heap.cells(), es[at]),
        forall|j: int| 0 <= j < es.len() && done_e(w.heap.cells(), #[trigger] es[j]) ==> gen_of(es[at].1) <= gen_of(es[j].1),
        exists|i: int| #[trigger] at_key(es, es[at].0, i) && b == es.remove(i)
    ensures b == es.remove(at), wf_entries(b, w.heap.keys(), w.heap.next(), g), eviction(a, b, w.heap.cells()), b.len() == es.len() - 1
{
    let i = choose|i: int| #[trigger] at_key(es, es[at].0, i) && b == es.remove(i);
    if i < at { assert(es[i].0 != es[at].0); } else if at < i { assert(es[at].0 != es[i].0); }
    removed_wf(es, at, w.heap.keys(), w.heap.next(), g);
    let cells = w.heap.cells();
    assert forall|i: int| 0 <= i < b.len() implies in_map(a, #[trigger] b[i]) by { assert(b[i] == es[if i < at { i } else { i + 1 }]); }
    assert forall|i: int| 0 <= i < a.len() && !done_e(cells, #[trigger] a[i]) implies in_map(b, a[i]) by {
        let j = choose|j: int| 0 <= j < es.len() && #[trigger] es[j] == a[i];
        assert(j != at); assert(b[if j < at { j } else { j - 1 }] == a[i]);
    }
    assert forall|i: int, j: int| 0 <= i < a.len() && !in_map(b, #[trigger] a[i]) && 0 <= j < b.len() && done_e(cells, #[trigger] b[j]) implies gen_of(a[i].1) < gen_of(b[j].1) by {
        let jj = if j < at { j } else { j + 1 };
        assert(b[j] == es[jj]);
        if in_map(es, a[i]) {
            let x = choose|x: int| 0 <= x < es.len() && #[trigger] es[x] == a[i];
            if x != at { assert(b[if x < at { x } else { x - 1 }] == a[i]); assert(false); }
            if at < jj { assert(gen_of(es[at].1) != gen_of(es[jj].1)); } else { assert(gen_of(es[jj].1) != gen_of(es[at].1)); }
        }
    }
}
proof fn removed_wf(es: Seq<(K, Entry)>, at: int, keys: Map<int, K>, next_cell: int, g: int)
    requires wf_entries(es, keys, next_cell, g), 0 <= at < es.len()
    ensures wf_entries(es.remove(at), keys, next_cell, g), !has_key(es.remove(at), es[at].0)
{
    let b = es.remove(at);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == es[if i < at { i } else { i + 1 }] by {}
    assert forall|i: int| !at_key(b, es[at].0, i) by { if at_key(b, es[at].0, i) { let x = if i < at { i } else { i + 1 }; assert(b[i] == es[x]); if x < at { assert(es[x].0 != es[at].0); } else { assert(es[at].0 != es[x].0); } } }
}
impl Cache {
    spec fn fits(&self) -> bool { !bounded() || within(self.entries@, self.world.heap.cells(), max_n(*self), max_w(*self)) }
    spec fn lag(&self) -> int { self.counters.lookups - self.counters.hits - self.counters.joined_flights - self.counters.misses }
    spec fn lag_producers(&self) -> int { self.counters.misses - self.counters.producers }
    /// true whenever no lock is held
    spec fn inv(&self) -> bool {
        world_inv(self.entries@, self.world, gen_now(*self)) && (self.world.owed@ == 0 ==> self.fits())
    }
}
spec fn others(a: Cache, b: Cache, own: Option<int>, debt: int) -> bool {
    &&& b.inv() && others_world(a.entries@, a.world, b.entries@, b.world, own) && b.world.owed@ >= debt
    &&& same_limits(a, b) && gen_now(b) >= gen_now(a)
    // counter updates of other calls are balanced
    &&& b.lag() == a.lag() && b.lag_producers() == a.lag_producers()
}
#[verifier::external_body]
fn vp_env(s: &mut Cache, Ghost(own): Ghost<Option<int>>, Ghost(debt): Ghost<int>)
    requires old(s).inv(), old(s).world.owed@ >= debt ensures others(*old(s), *final(s), own, debt) { unimplemented!() }
/// the producer runs, with or without panicking; meanwhile anything may happen elsewhere
#[verifier::external_body]
fn vp_produce(s: &mut Cache, Ghost(own): Ghost<int>) -> (r: Result<Result<V, E>, Payload>)
    requires old(s).inv(), old(s).world.running@.contains(own)
    ensures others(*old(s), *final(s), Some(own), 0) { unimplemented!() }
proof fn cells_same(a: Cache, b: Cache)
    requires a.entries == b.entries, a.world.heap.next() == b.world.heap.next(), forall|c: int| a.world.heap.has(c) ==> st(#[trigger] a.world.heap.cells()[c]) == st(b.world.heap.cells()[c]), same_limits(a, b),
        forall|i: int| 0 <= i < a.entries@.len() ==> a.world.heap.has(cid(#[trigger] a.entries@[i]))
    ensures a.fits() == b.fits()
{ cnt_same(a.entries@, b.entries@, a.world.heap.cells(), b.world.heap.cells(), a.entries@.len() as int); }
spec fn same_limits(a: Cache, b: Cache) -> bool { max_n(a) == max_n(b) && max_w(a) == max_w(b) }
proof fn registered(a: Cache, b: Cache, key: K, e: (K, Entry))
    requires a.inv(), b.entries@ == a.entries@.push(e), e.0 == key, !has_key(a.entries@, key), same_limits(a, b),
        cid(e) == a.world.heap.next(), b.world.heap.next() == cid(e) + 1, b.world.heap.keys() == a.world.heap.keys().insert(cid(e), key),
        b.world.heap.cells() == a.world.heap.cells().insert(cid(e), b.world.heap.cells()[cid(e)]), st(b.world.heap.cells()[cid(e)]) == St::Pending, !asleep(b.world.heap.cells()[cid(e)]),
        b.world.running@ == a.world.running@.insert(cid(e)), b.world.ending == a.world.ending, b.world.owed == a.world.owed,
        bounded() ==> gen_of(e.1) == gen_now(a) + 1, gen_of(e.1) <= gen_now(b), gen_now(b) >= gen_now(a)
    ensures b.inv(), present(b.entries@, cid(e))
{
    let (x, y, c) = (a.entries@, b.entries@, cid(e));
    assert(y[x.len() as int] == e);
    assert forall|i: int| 0 <= i < x.len() implies y[i] == x[i] && (#[trigger] y[i]).0 != key by { assert(at_key(x, key, i) ==> has_key(x, key)); }
    assert forall|d: int| present(x, d) implies present(y, d) by { let i = choose|i: int| 0 <= i < x.len() && cid(#[trigger] x[i]) == d; assert(y[i] == x[i]); }
    assert forall|i: int| 0 <= i < y.len() implies st(b.world.heap.cells()[cid(#[trigger] y[i])]) == St::Pending || done_e(b.world.heap.cells(), y[i]) by { if i < x.len() { assert(y[i] == x[i]); } }
    cnt_same(x, y, a.world.heap.cells(), b.world.heap.cells(), x.len() as int);
    assert(cnt(y, b.world.heap.cells(), y.len() as int) == cnt(y, b.world.heap.cells(), x.len() as int));
    assert(wsum(y, b.world.heap.cells(), y.len() as int) == wsum(y, b.world.heap.cells(), x.len() as int));
}
proof fn ended(a: Cache, b: Cache, c: int)
    requires a.inv(), b == (Cache { world: VpWorld { running: Ghost(a.world.running@.remove(c)), ending: Ghost(a.world.ending@.insert(c)), ..a.world }, ..a }), a.world.running@.contains(c)
    ensures b.inv()
{}
proof fn dropped(a: Cache, b: Cache, key: K, c: int)
    requires a.inv(), a.world.heap.keys()[c] == key, a.world.ending@.contains(c), b == (Cache { entries: b.entries, counters: b.counters, ..a }),
        (exists|i: int| at_key(a.entries@, key, i) && cid(a.entries@[i]) == c) ==> exists|i: int| #[trigger] at_key(a.entries@, key, i) && cid(a.entries@[i]) == c && b.entries@ == a.entries@.remove(i),
        !(exists|i: int| at_key(a.entries@, key, i) && cid(a.entries@[i]) == c) ==> b.entries@ == a.entries@
    ensures b.inv(), !present(b.entries@, c)
{
    let (x, y) = (a.entries@, b.entries@);
    let cells = a.world.heap.cells();
    if exists|i: int| at_key(x, key, i) && cid(x[i]) == c {
        let i = choose|i: int| #[trigger] at_key(x, key, i) && cid(x[i]) == c && y == x.remove(i);
        removed_wf(x, i, a.world.heap.keys(), a.world.heap.next(), gen_now(a));
        assert forall|j: int| 0 <= j < y.len() implies cid(#[trigger] y[j]) != c by { let jj = if j < i { j } else { j + 1 }; assert(y[j] == x[jj]); if cid(x[jj]) == c { assert(x[jj].0 == key); if jj < i { assert(x[jj].0 != x[i].0); } else { assert(x[i].0 != x[jj].0); } } }
        assert forall|j: int| 0 <= j < y.len() implies st(cells[cid(#[trigger] y[j])]) == St::Pending || done_e(cells, y[j]) by { let jj = if j < i { j } else { j + 1 }; assert(y[j] == x[jj]); }
        assert forall|d: int| #[trigger] a.world.running@.contains(d) implies present(y, d) by {
            let j = choose|j: int| 0 <= j < x.len() && cid(#[trigger] x[j]) == d;
            assert(j != i); assert(y[if j < i { j } else { j - 1 }] == x[j]);
        }
        if 0 < x.len() { cnt_removed(x, cells, i, x.len() - 1); }
    } else {
        assert forall|j: int| 0 <= j < y.len() implies cid(#[trigger] y[j]) != c by { if cid(y[j]) == c { assert(at_key(x, key, j)); } }
    }
}
proof fn completed(a: Cache, b: Cache, c: int)
    requires a.inv(), a.world.ending@.contains(c), b.entries == a.entries, same_limits(a, b), gen_now(b) == gen_now(a),
        b.world.heap.next() == a.world.heap.next(), b.world.heap.keys() == a.world.heap.keys(), b.world.heap.cells() == a.world.heap.cells().insert(c, b.world.heap.cells()[c]),
        b.world.running == a.world.running, b.world.ending@ == a.world.ending@.remove(c), st(b.world.heap.cells()[c]) != St::Pending, !asleep(b.world.heap.cells()[c]),
        // a failure is published only after its entry is gone
        (st(b.world.heap.cells()[c]) matches St::Done(Ok(_))) ==> b.world.owed@ == a.world.owed@ + 1,
        !(st(b.world.heap.cells()[c]) matches St::Done(Ok(_))) ==> !present(a.entries@, c) && b.world.owed@ == a.world.owed@
    ensures b.inv()
{
    let es = a.entries@;
    if !(st(b.world.heap.cells()[c]) matches St::Done(Ok(_))) {
        assert forall|i: int| 0 <= i < es.len() implies cid(#[trigger] es[i]) != c by { assert(cid(es[i]) == c ==> present(es, c)); }
        cnt_same(es, es, a.world.heap.cells(), b.world.heap.cells(), es.len() as int);
    }
}
proof fn settled(a: Cache, b: Cache, debt: int)
    requires a.inv(), a.world.owed@ >= debt, eviction(a.entries@, b.entries@, a.world.heap.cells()), wf_entries(b.entries@, a.world.heap.keys(), a.world.heap.next(), gen_now(a)), b.fits(),
        b == (Cache { entries: b.entries, counters: b.counters, world: VpWorld { owed: Ghost(a.world.owed@ - debt), ..a.world }, ..a })
    ensures b.inv()
{
    let (x, y, cells) = (a.entries@, b.entries@, a.world.heap.cells());
    assert forall|j: int| 0 <= j < y.len() implies st(cells[cid(#[trigger] y[j])]) == St::Pending || done_e(cells, y[j]) by { assert(in_map(x, y[j])); }
    assert forall|d: int| #[trigger] a.world.running@.contains(d) implies present(y, d) by {
        let j = choose|j: int| 0 <= j < x.len() && cid(#[trigger] x[j]) == d;
        assert(in_map(y, x[j]));
    }
}
proof fn only_one(es: Seq<(K, Entry)>, key: K)
    requires distinct_keys(es)
    ensures forall|i: int, j: int| at_key(es, key, i) && at_key(es, key, j) ==> i == j
{ assert forall|i: int, j: int| at_key(es, key, i) && at_key(es, key, j) implies i == j by { if i < j { assert(es[i].0 != es[j].0); } else if j < i { assert(es[j].0 != es[i].0); } } }
