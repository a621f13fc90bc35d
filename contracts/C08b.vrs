// C08: stored products on disk: lookup, atomic publication, bounded cleanup.
use vstd::prelude::*;
verus! {
//@include envelope.vrs
// ---- the file system as this code uses it (assumed) ----
#[verifier::external_body]
pub struct VpPath { _p: u8 }
impl VpPath {
    #[verifier::external_body] fn clone(&self) -> (r: VpPath) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn parent(&self) -> Option<VpPath> { unimplemented!() }
    #[verifier::external_body] fn cmp(&self, o: &VpPath) -> (r: VpOrd) ensures r == path_ord(*self, *o) { unimplemented!() }
}
pub uninterp spec fn path_ord(a: VpPath, b: VpPath) -> VpOrd;
pub enum VpOrd { Less, Equal, Greater }
impl VpOrd { fn vp_then(self, o: VpOrd) -> (r: VpOrd) ensures r == if self is Equal { o } else { self } { match self { VpOrd::Equal => o, _ => self } } }
#[derive(Clone, Copy)]
pub struct VpTime { pub t: u64 }
impl VpTime { fn cmp(&self, o: &VpTime) -> (r: VpOrd) ensures r == time_ord(*self, *o) { if self.t < o.t { VpOrd::Less } else if self.t > o.t { VpOrd::Greater } else { VpOrd::Equal } } }
spec fn time_ord(a: VpTime, b: VpTime) -> VpOrd { if a.t < b.t { VpOrd::Less } else if a.t > b.t { VpOrd::Greater } else { VpOrd::Equal } }
pub struct VpIo { pub not_found: bool, pub would_block: bool }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum VpHeld { Nothing, Shared, Exclusive }
pub struct VpDisk {
    /// product files: path -> bytes (temporary files are not products)
    pub products: Ghost<Map<VpPath, Seq<u8>>>,
    pub times: Ghost<Map<VpPath, VpTime>>,
    /// temporary files: path -> (bytes, forced to disk)
    pub temps: Ghost<Map<VpPath, (Seq<u8>, bool)>>,
    /// the last rename has reached the disk
    pub durable: Ghost<bool>,
    /// our hold on the cache-wide lock and on one key's lock
    pub lease: Ghost<VpHeld>, pub key: Ghost<Option<VpPath>>,
    /// no other process uses the cache
    pub alone: Ghost<bool>,
}
/// A whole envelope: nothing less may ever appear under a product's name.
spec fn whole(s: Seq<u8>) -> bool { s.len() >= 60 && s.len() == 60 + field(s, 20, 28) }
#[verifier::external_body]
fn vp_temp_path(parent: &VpPath, product: &VpPath, d: &VpDisk) -> (r: VpPath) ensures r != *product, !d.products@.contains_key(r) { unimplemented!() }
pub struct VpLock { pub path: Ghost<Option<VpPath>> }
/// one lock file per product
fn vp_key_lock(p: &VpPath) -> (r: VpLock) ensures r.path@ == Some(*p) { VpLock { path: Ghost(Some(*p)) } }
pub struct VpRead { pub bytes: Ghost<Seq<u8>> }
impl VpRead {
    #[verifier::external_body] fn metadata_len(&self) -> (r: Result<u64, VpError>) ensures r is Ok ==> r->Ok_0 == self.bytes@.len() { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize, VpError>) ensures r is Ok ==> final(out)@ == old(out)@ + old(self).bytes@ { unimplemented!() }
}
impl VpDisk {
    #[verifier::external_body]
    fn open(&self, p: &VpPath) -> (r: Result<VpRead, VpIo>)
        ensures r is Ok ==> self.products@.contains_key(*p) && r->Ok_0.bytes@ == self.products@[*p], r is Err && r->Err_0.not_found ==> !self.products@.contains_key(*p) { unimplemented!() }
    /// waits for a lock: other processes may run meanwhile
    #[verifier::external_body]
    fn acquire(&mut self, l: &VpLock, exclusive: bool) -> (r: Result<(), VpError>)
        // asking again for what this process already holds through another handle would wait for itself
        requires l.path@ is None ==> old(self).lease@ is Nothing, l.path@ is Some ==> old(self).key@ is None
        ensures final(self).alone == old(self).alone, old(self).alone@ ==> final(self).products == old(self).products && final(self).times == old(self).times,
            final(self).temps == old(self).temps, final(self).durable == old(self).durable,
            r is Ok && l.path@ is None ==> final(self).lease@ == (if exclusive { VpHeld::Exclusive } else { VpHeld::Shared }) && final(self).key == old(self).key,
            r is Ok && l.path@ is Some ==> final(self).key@ == (if exclusive { l.path@ } else { None }) && final(self).lease == old(self).lease { unimplemented!() }
    #[verifier::external_body]
    fn release(&mut self, l: &VpLock) -> (r: Result<(), VpError>)
        ensures *final(self) == (if l.path@ is None { VpDisk { lease: Ghost(VpHeld::Nothing), ..*old(self) } } else { VpDisk { key: Ghost(None), ..*old(self) } }) { unimplemented!() }
    #[verifier::external_body]
    fn create_new(&mut self, p: &VpPath) -> (r: Result<VpPath, VpError>)
        requires !old(self).products@.contains_key(*p)
        ensures r is Ok ==> r->Ok_0 == *p && *final(self) == (VpDisk { temps: Ghost(old(self).temps@.insert(*p, (Seq::empty(), false))), ..*old(self) }), r is Err ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, f: &VpPath, data: &Vec<u8>) -> (r: Result<(), VpError>)
        requires old(self).temps@.contains_key(*f)
        ensures exists|s: Seq<u8>| *final(self) == (VpDisk { temps: Ghost(#[trigger] old(self).temps@.insert(*f, (s, false))), ..*old(self) }) && (r is Ok ==> s == old(self).temps@[*f].0 + data@) { unimplemented!() }
    #[verifier::external_body]
    fn sync_all(&mut self, f: &VpPath) -> (r: Result<(), VpError>)
        requires old(self).temps@.contains_key(*f)
        ensures r is Ok ==> *final(self) == (VpDisk { temps: Ghost(old(self).temps@.insert(*f, (old(self).temps@[*f].0, true))), ..*old(self) }), r is Err ==> *final(self) == *old(self) { unimplemented!() }
    /// the one step that changes what stands under a product's name; a crash before or after it leaves the old or the new whole file
    #[verifier::external_body]
    fn rename(&mut self, a: &VpPath, b: &VpPath) -> (r: Result<(), VpError>)
        requires old(self).temps@.contains_key(*a), old(self).temps@[*a].1, whole(old(self).temps@[*a].0), old(self).key@ == Some(*b), !(old(self).lease@ is Nothing)
        ensures r is Err ==> *final(self) == *old(self),
            r is Ok ==> final(self).products@ == old(self).products@.insert(*b, old(self).temps@[*a].0) && final(self).temps@ == old(self).temps@.remove(*a) && final(self).lease == old(self).lease && final(self).key == old(self).key && final(self).alone == old(self).alone && !final(self).durable@ && (forall|q: VpPath| q != *b ==> #[trigger] final(self).times@[q] == old(self).times@[q]) { unimplemented!() }
    #[verifier::external_body]
    fn sync_directory(&mut self, p: &VpPath) -> (r: Result<(), VpError>)
        ensures r is Ok ==> *final(self) == (VpDisk { durable: Ghost(true), ..*old(self) }), r is Err ==> *final(self) == *old(self) { unimplemented!() }
    /// removing a product: under the cache-wide lock, or under its own key's lock
    #[verifier::external_body]
    fn remove_product(&mut self, p: &VpPath) -> (r: Result<(), VpIo>)
        requires old(self).lease@ is Exclusive || (old(self).key@ == Some(*p) && !(old(self).lease@ is Nothing))
        ensures r is Ok ==> old(self).products@.contains_key(*p) && *final(self) == (VpDisk { products: Ghost(old(self).products@.remove(*p)), ..*old(self) }), r is Err ==> *final(self) == *old(self), r is Err && r->Err_0.not_found ==> !old(self).products@.contains_key(*p) { unimplemented!() }
    #[verifier::external_body]
    fn remove_temp(&mut self, p: &VpPath)
        requires !old(self).products@.contains_key(*p)
        ensures *final(self) == (VpDisk { temps: final(self).temps, ..*old(self) }) { unimplemented!() }
    /// scan_product_entries: every product file, once, with its size and time
    #[verifier::external_body]
    fn scan(&self) -> (r: Result<Vec<CacheEntry>, VpError>)
        requires !(self.lease@ is Nothing)
        ensures r is Ok ==> listing(*self, r->Ok_0@) && r->Ok_0@.len() < usize::MAX { unimplemented!() }
}
/// an arbitrary entry: what is proved about it is proved for all
#[verifier::external_body]
fn vp_any_entry<'a>() -> &'a CacheEntry { unimplemented!() }
spec fn entry_ord(a: CacheEntry, b: CacheEntry) -> VpOrd { if time_ord(a.modified, b.modified) is Equal { path_ord(a.path, b.path) } else { time_ord(a.modified, b.modified) } }
/// slice::sort_by with that order: same entries, in order
#[verifier::external_body]
fn vp_sort(v: &mut Vec<CacheEntry>)
    ensures final(v)@.len() == old(v)@.len(), forall|d: VpDisk| listing(d, old(v)@) ==> #[trigger] listing(d, final(v)@),
        sorted(final(v)@) { unimplemented!() }
//@enum src/persistent_cache.rs :: PersistentProductKind ; derive Clone, Copy
//@struct src/persistent_cache.rs :: CacheEntry ; subst path: PathBuf ==> path: VpPath ; subst SystemTime ==> VpTime
//@struct src/persistent_cache.rs :: CacheAccounting
//@struct src/persistent_cache.rs :: PersistentDerivedProductCacheInner ; drop root, counters, java_artifact_counters, compiled_wasm_counters ; subst accounting: Mutex<$t> ==> accounting: $t ; add disk: VpDisk
//@struct src/persistent_cache.rs :: PersistentDerivedProductCache ; subst Arc<$t> ==> $t
type Cache = PersistentDerivedProductCache;
//@const src/persistent_cache.rs :: RESCAN_PUBLICATION_INTERVAL
spec fn listing(d: VpDisk, es: Seq<CacheEntry>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).path != (#[trigger] es[j]).path
    &&& forall|i: int| 0 <= i < es.len() ==> d.products@.contains_key((#[trigger] es[i]).path) && es[i].bytes == d.products@[es[i].path].len() && es[i].modified == d.times@[es[i].path]
    &&& forall|p: VpPath| #[trigger] d.products@.contains_key(p) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).path == p
}
spec fn bytes_of(es: Seq<CacheEntry>) -> int decreases es.len() { if es.len() == 0 { 0 } else { es[0].bytes + bytes_of(es.skip(1)) } }
proof fn bytes_take(es: Seq<CacheEntry>, k: int) requires 0 <= k < es.len() ensures bytes_of(es.skip(k)) == es[k].bytes + bytes_of(es.skip(k + 1)), bytes_of(es.skip(k + 1)) >= 0
{ assert(es.skip(k).skip(1) =~= es.skip(k + 1)); bytes_nonneg(es.skip(k + 1)); }
proof fn bytes_nonneg(es: Seq<CacheEntry>) ensures bytes_of(es) >= 0 decreases es.len() { if es.len() > 0 { bytes_nonneg(es.skip(1)); } }
spec fn bytes_upto(es: Seq<CacheEntry>, k: int) -> int { bytes_of(es) - bytes_of(es.skip(k)) }
/// the products on disk are within the limits
spec fn fits(c: Cache) -> bool { exists|es: Seq<CacheEntry>| #[trigger] listing(c.inner.disk, es) && es.len() <= c.inner.max_entries && bytes_of(es) <= c.inner.max_bytes }
/// the bookkeeping never understates what is on disk
spec fn covers(c: Cache) -> bool {
    exists|es: Seq<CacheEntry>| #[trigger] listing(c.inner.disk, es) && es.len() <= c.inner.accounting.entries && (bytes_of(es) <= c.inner.accounting.bytes || c.inner.accounting.bytes == u64::MAX)
}
impl PersistentDerivedProductCache {
//@fn src/persistent_cache.rs :: PersistentDerivedProductCache::cleanup_to_limits
//@ sig fn cleanup_to_limits(&mut self) -> (r: Result<(), VpError>)
//@ rewrite? self.open_maintenance_lock()? ==> VpLock { path: Ghost(None) }
//@ rewrite? acquire_lock(&$l:i, $x, &self.inner.counters)?; ==> match self.inner.disk.acquire(&$l, $x) { Ok(_) => {}, Err(e) => return Err(e) } proof_locked!();
//@ rewrite? scan_product_entries(&self.namespace_root())?; ==> match self.inner.disk.scan() { Ok(v) => v, Err(e) => return Err(e) };
//@ rewrite? entries.sort_by(|left, right| $c:b); ==> { let left = vp_any_entry(); let right = vp_any_entry(); let vp_o = $c; proof_order!(); } vp_sort(&mut entries); proof_sorted!();
//@ rewrite? .then_with(|| $x) ==> .vp_then($x)
//@ rewrite? let mut total = entries.iter().try_fold(0u64, |sum, entry| { sum.checked_add($b).ok_or_else($c) })?; ==> let mut total: u64 = 0; let mut k: usize = 0; while k < entries.len() { let entry = &entries[k]; match total.checked_add($b) { Some(v) => { total = v; } None => return Err(vp_err()) } k = k + 1; }
//@ rewrite? for entry in entries $b:b ==> let mut n: usize = 0; while n < entries.len() { let entry = &entries[n]; $b n = n + 1; }
//@ rewrite? std::fs::remove_file(&$p:e) ==> self.inner.disk.remove_product(&$p)
//@ rewrite? error.kind() == ErrorKind::NotFound ==> error.not_found
//@ rewrite? return Err(error).with_context($c:a); ==> return Err(vp_err());
//@ rewrite? $x:e.ok_or_else($c:a)?; ==> match $x { Some(v) => v, None => return Err(vp_err()) };
//@ rewrite? self.counters($p).evictions.fetch_add($c:a); ==>
//@ rewrite? *self.inner.accounting.lock() = $x:a; ==> proof_rest!(); self.inner.accounting = $x;
//@ rewrite? FileExt::unlock(&$l:i).context($c)?; ==> match self.inner.disk.release(&$l) { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? proof_rest!(); ==> vp_text!("proof { rest_listed(d0, self.inner.disk, entries@, n as int); }");
//@ rewrite? proof_locked!(); ==> vp_text!("let ghost d0 = self.inner.disk");
//@ rewrite? proof_order!(); ==> vp_text!("proof { assert(vp_o == entry_ord(*left, *right)); }");
//@ rewrite? proof_sorted!(); ==> vp_text!("proof { assert(listing(d0, entries@)); assert(entries@.skip(0) =~= entries@); bytes_nonneg(entries@); }");
//@ spec
    requires old(self).inner.disk.lease@ is Nothing, old(self).inner.disk.key@ is None
    ensures
        final(self).inner.max_entries == old(self).inner.max_entries, final(self).inner.max_bytes == old(self).inner.max_bytes, final(self).inner.disk.alone == old(self).inner.disk.alone,
        // within the limits, and the bookkeeping is exact again
        r is Ok ==> fits(*final(self)) && covers(*final(self)) && final(self).inner.accounting.initialized && final(self).inner.disk.lease@ is Nothing,
        // the oldest products went first, only as many as needed, and nothing else was touched
        old(self).inner.disk.alone@ ==> forall|p: VpPath| #[trigger] final(self).inner.disk.products@.contains_key(p) ==> old(self).inner.disk.products@.contains_key(p) && final(self).inner.disk.products@[p] == old(self).inner.disk.products@[p],
        r is Ok ==> exists|d: VpDisk, es: Seq<CacheEntry>, n: int| (old(self).inner.disk.alone@ ==> d.products == old(self).inner.disk.products) && #[trigger] oldest_removed(d, final(self).inner.disk, es, n, old(self).inner.max_entries as int, old(self).inner.max_bytes as int)
//@ loop 0
    invariant k <= entries@.len(), total == bytes_upto(entries@, k as int), listing(d0, entries@), entries@.len() < usize::MAX, self.inner.disk == d0, *self == (Cache { inner: PersistentDerivedProductCacheInner { disk: self.inner.disk, ..old(self).inner } }), bytes_of(entries@.skip(k as int)) >= 0, d0.lease@ is Exclusive, d0.alone == old(self).inner.disk.alone, maintenance_lock.path@ is None, d0.alone@ ==> d0.products == old(self).inner.disk.products, sorted(entries@)
    decreases entries@.len() - k
//@ loopstart 0
    proof { bytes_take(entries@, k as int); }
//@ loop 1
    invariant n <= entries@.len(), count == entries@.len() - n, total == bytes_of(entries@.skip(n as int)), listing(d0, entries@), entries@.len() < usize::MAX,
        *self == (Cache { inner: PersistentDerivedProductCacheInner { disk: self.inner.disk, ..old(self).inner } }),
        self.inner.disk == (VpDisk { products: self.inner.disk.products, ..d0 }), d0.lease@ is Exclusive, d0.alone == old(self).inner.disk.alone,
        prefix_removed(d0, self.inner.disk, entries@, n as int), maintenance_lock.path@ is None, d0.alone@ ==> d0.products == old(self).inner.disk.products, sorted(entries@),
        n > 0 ==> !(entries@.len() - n < self.inner.max_entries && bytes_of(entries@.skip(n - 1)) <= self.inner.max_bytes)
    ensures n < entries@.len() ==> count <= self.inner.max_entries && total <= self.inner.max_bytes
    decreases entries@.len() - n
//@ loopstart 1
    proof { bytes_take(entries@, n as int); assert(forall|i: int| 0 <= i < entries@.len() && i != n ==> (#[trigger] entries@[i]).path != entries@[n as int].path); }
//@ exit
    proof { assert(listing(self.inner.disk, entries@.skip(n as int))); assert(oldest_removed(d0, self.inner.disk, entries@, n as int, self.inner.max_entries as int, self.inner.max_bytes as int)); }
//@end
}
spec fn sorted(es: Seq<CacheEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).modified.t <= (#[trigger] es[j]).modified.t }
/// exactly the first n listed products are gone
spec fn prefix_removed(d0: VpDisk, d: VpDisk, es: Seq<CacheEntry>, n: int) -> bool {
    &&& forall|p: VpPath| #[trigger] d.products@.contains_key(p) ==> d0.products@.contains_key(p) && d.products@[p] == d0.products@[p]
    &&& forall|i: int| 0 <= i < es.len() ==> d.products@.contains_key((#[trigger] es[i]).path) == (i >= n)
}
spec fn oldest_removed(d0: VpDisk, d: VpDisk, es: Seq<CacheEntry>, n: int, most: int, bytes: int) -> bool {
    &&& listing(d0, es) && prefix_removed(d0, d, es, n) && 0 <= n <= es.len()
    &&& sorted(es)
    &&& n > 0 ==> es.len() - n >= most || bytes_of(es.skip(n - 1)) > bytes
}
proof fn rest_listed(d0: VpDisk, d: VpDisk, es: Seq<CacheEntry>, n: int)
    requires listing(d0, es), prefix_removed(d0, d, es, n), 0 <= n <= es.len(), d.times == d0.times
    ensures listing(d, es.skip(n))
{
    let t = es.skip(n);
    assert forall|p: VpPath| #[trigger] d.products@.contains_key(p) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).path == p by {
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).path == p;
        assert(t[i - n] == es[i]);
    }
}
// ---- publication ----
//@struct src/persistent_cache.rs :: PersistentDerivedProductReservation ; drop cache ; subst cache_id: String ==> cache_id: VpText ; subst product_path: PathBuf ==> product_path: VpPath ; subst key_lock: Option<File> ==> key_lock: Option<VpLock> ; subst maintenance_lock: Option<File> ==> maintenance_lock: Option<VpLock>
pub struct VpText { pub v: Vec<u8> }
impl VpText {
    #[verifier::external_body] fn same(&self, o: &VpText) -> (r: bool) ensures r == (self.v@ == o.v@) { unimplemented!() }
    #[verifier::external_body] fn to_string(&self) -> (r: VpText) ensures r.v@ == self.v@ { unimplemented!() }
}
pub uninterp spec fn magic_of(k: PersistentProductKind) -> Seq<u8>;
spec fn most_of(k: PersistentProductKind) -> int { match k { PersistentProductKind::CompiledWasm => MAX_COMPILED_WASM_LOGICAL_ENTRY_BYTES as int, _ => MAX_LOGICAL_ENTRY_BYTES as int } }
impl PersistentProductKind {
    #[verifier::external_body] fn magic(self) -> (r: &'static [u8; 8]) ensures r@ == magic_of(self) { unimplemented!() }
//@fn src/persistent_cache.rs :: PersistentProductKind::max_logical_entry_bytes
//@ ret r
//@ spec
    ensures r == most_of(self), r <= MAX_LOGICAL_ENTRY_BYTES
//@end
}
proof fn envelope_whole(m: Seq<u8>, p: Seq<u8>, z: Seq<u8>)
    requires m.len() == 8, p.len() <= u64::MAX, z.len() <= u64::MAX, sha(p).len() == 32
    ensures whole(envelope(m, p, z))
{
    let e = envelope(m, p, z);
    pow8(); le_round(z.len(), 8); le_len(ENVELOPE_SCHEMA as nat, 4); le_len(p.len(), 8);
    assert(e.subrange(20, 28) =~= le(z.len(), 8));
}
/// Somebody holding a reservation owns the key.
spec fn owns(r: PersistentDerivedProductReservation, d: VpDisk) -> bool {
    &&& r.key_lock is Some && r.key_lock->0.path@ == Some(r.product_path) && d.key@ == Some(r.product_path)
    &&& r.maintenance_lock is Some && r.maintenance_lock->0.path@ is None && d.lease@ is Shared
}
proof fn one_more(d0: VpDisk, d: VpDisk, es: Seq<CacheEntry>, p: VpPath, x: Seq<u8>) -> (fs: Seq<CacheEntry>)
    requires listing(d0, es), d.products@ == d0.products@.insert(p, x), x.len() <= u64::MAX, forall|q: VpPath| q != p ==> #[trigger] d.times@[q] == d0.times@[q]
    ensures listing(d, fs), fs.len() <= es.len() + 1, bytes_of(fs) <= bytes_of(es) + x.len()
{
    let e = CacheEntry { path: p, bytes: x.len() as u64, modified: d.times@[p] };
    if d0.products@.contains_key(p) {
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).path == p;
        let fs = es.update(i, e);
        bytes_update(es, i, e);
        assert forall|q: VpPath| #[trigger] d.products@.contains_key(q) implies exists|k: int| 0 <= k < fs.len() && (#[trigger] fs[k]).path == q by {
            assert(d0.products@.contains_key(q));
            let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).path == q;
            assert(fs[k].path == q);
        }
        fs
    } else {
        let fs = seq![e] + es;
        assert(fs.skip(1) =~= es);
        assert forall|q: VpPath| #[trigger] d.products@.contains_key(q) implies exists|k: int| 0 <= k < fs.len() && (#[trigger] fs[k]).path == q by {
            if q == p { assert(fs[0].path == q); } else {
                assert(d0.products@.contains_key(q));
                let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).path == q;
                assert(fs[k + 1] == es[k]);
            }
        }
        fs
    }
}
proof fn bytes_update(es: Seq<CacheEntry>, i: int, e: CacheEntry)
    requires 0 <= i < es.len()
    ensures bytes_of(es.update(i, e)) == bytes_of(es) - es[i].bytes + e.bytes decreases es.len()
{
    if i == 0 { assert(es.update(0, e).skip(1) =~= es.skip(1)); }
    else { bytes_update(es.skip(1), i - 1, e); assert(es.update(i, e).skip(1) =~= es.skip(1).update(i - 1, e)); }
}
impl PersistentDerivedProductCache {
//@fn src/persistent_cache.rs :: PersistentDerivedProductCache::record_publication_and_cleanup
//@ sig fn record_publication_and_cleanup(&mut self, bytes: u64) -> (r: Result<(), VpError>)
//@ rewrite? let mut accounting = self.inner.accounting.lock(); ==>
//@ rewrite? accounting. ==> self.inner.accounting.
//@ rewrite? self.cleanup_to_limits()?; ==> match self.cleanup_to_limits() { Ok(_) => {}, Err(e) => return Err(e) }
//@ spec
    requires old(self).inner.disk.lease@ is Nothing, old(self).inner.disk.key@ is None, old(self).inner.max_entries < usize::MAX, old(self).inner.max_bytes < u64::MAX,
        grown(*old(self), bytes)
    ensures r is Ok && old(self).inner.disk.alone@ ==> fits(*final(self)) && covers(*final(self)),
        final(self).inner.max_entries == old(self).inner.max_entries, final(self).inner.max_bytes == old(self).inner.max_bytes, final(self).inner.disk.alone == old(self).inner.disk.alone,
        old(self).inner.disk.alone@ ==> forall|p: VpPath| #[trigger] final(self).inner.disk.products@.contains_key(p) ==> old(self).inner.disk.products@.contains_key(p) && final(self).inner.disk.products@[p] == old(self).inner.disk.products@[p],
//@end
}
/// one product of `bytes` bytes came on top of what the bookkeeping covers
spec fn grown(c: Cache, bytes: u64) -> bool {
    exists|es: Seq<CacheEntry>| #[trigger] listing(c.inner.disk, es) && es.len() <= c.inner.accounting.entries + 1 && (bytes_of(es) <= c.inner.accounting.bytes + bytes || c.inner.accounting.bytes == u64::MAX)
}
impl PersistentDerivedProductReservation {
//@fn src/persistent_cache.rs :: PersistentDerivedProductReservation::publish_inner
//@ sig fn publish_inner(&self, disk: &mut VpDisk, payload: &[u8]) -> (r: Result<u64, VpError>)
//@ rewrite? encode_envelope($x:a)? ==> match encode_envelope($x) { Ok(v) => v, Err(e) => return Err(e) }
//@ rewrite? u64::try_from($x:e).map_err($c)? ==> vp_u64($x)
//@ rewrite? return Err(anyhow!($m:a)) ==> return Err(vp_err())
//@ rewrite? self.product_path.parent().ok_or_else($c:a)?; ==> match self.product_path.parent() { Some(p) => p, None => return Err(vp_err()) };
//@ rewrite? std::fs::create_dir_all(parent).with_context($c:a)?; ==>
//@ rewrite? parent.join(format!($c:a)) ==> vp_temp_path(&parent, &self.product_path, vp_disk(disk))
//@ rewrite? let mut options = OpenOptions::new(); ==> proof_enc!();
//@ rewrite? options.write(true).create_new(true); ==>
//@ rewrite? #[cfg(unix)] { use std::os::unix::fs::OpenOptionsExt; options.mode($m); } ==>
//@ rewrite? options.open(&$p:i).with_context($c:a)?; ==> match disk.create_new(&$p) { Ok(v) => v, Err(e) => return Err(e) };
//@ rewrite? (|| -> Result<()> { $body:a Ok(()) })() ==> { let mut vp_go = true; $body if vp_go { Ok(()) } else { Err(vp_err()) } }
//@ rewrite? temp.write_all(&encoded).with_context($c:a)?; ==> if vp_go { match disk.write_all(&temp, &encoded) { Ok(_) => {}, Err(_) => { vp_go = false; } } }
//@ rewrite? temp.sync_all().with_context($c:a)?; ==> if vp_go { match disk.sync_all(&temp) { Ok(_) => {}, Err(_) => { vp_go = false; } } }
//@ rewrite? std::fs::rename(&$a:e, &$b:e).with_context($c:a)?; ==> if vp_go { match disk.rename(&$a, &$b) { Ok(_) => {}, Err(_) => { vp_go = false; } } }
//@ rewrite? sync_directory(parent)?; ==> if vp_go { match disk.sync_directory(&parent) { Ok(_) => {}, Err(_) => { vp_go = false; } } }
//@ rewrite? let _ = std::fs::remove_file(&$p:i); ==> disk.remove_temp(&$p);
//@ rewrite? write_result?; ==> proof_done!(); match write_result { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? proof_enc!(); ==> vp_text!("proof { let z = encoded@.skip(60); envelope_whole(magic_of(self.kind), payload@, z); if z.len() <= MAX_COMPRESSED_ENTRY_BYTES { published_comes_back(magic_of(self.kind), most_of(self.kind), payload@, z); } }");
//@ rewrite? proof_done!(); ==> vp_text!("proof { if disk.products@ != d0.products@ { assert(published(d0, *disk, self.product_path, encoded@)); } }");
//@ spec
    requires owns(*self, *old(disk)), sha(payload@).len() == 32
    ensures
        // success: the whole new file stands under the name and has reached the disk
        r is Ok ==> final(disk).durable@ && exists|f: Seq<u8>| #[trigger] published(*old(disk), *final(disk), self.product_path, f) && f.len() == r->Ok_0 && decodes(magic_of(self.kind), most_of(self.kind), f) == Some(payload@) && unz(f.skip(60)).1,
        // failure: the old file, or the whole new one
        r is Err ==> final(disk).products@ == old(disk).products@ || exists|f: Seq<u8>| #[trigger] published(*old(disk), *final(disk), self.product_path, f) && decodes(magic_of(self.kind), most_of(self.kind), f) == Some(payload@),
        final(disk).key == old(disk).key, final(disk).lease == old(disk).lease, final(disk).alone == old(disk).alone,
//@ entry
    let ghost d0 = *disk;
//@end
}
spec fn published(a: VpDisk, b: VpDisk, p: VpPath, f: Seq<u8>) -> bool { b.products@ == a.products@.insert(p, f) && (forall|q: VpPath| q != p ==> #[trigger] b.times@[q] == a.times@[q]) }
fn vp_disk(d: &VpDisk) -> (r: &VpDisk) ensures *r == *d { d }
impl PersistentDerivedProductReservation {
//@fn src/persistent_cache.rs :: PersistentDerivedProductReservation::unlock
//@ sig fn unlock(&mut self, disk: &mut VpDisk) -> (r: Result<(), VpError>)
//@ rewrite? FileExt::unlock(&$l:i).context($c)?; ==> match disk.release(&$l) { Ok(_) => {}, Err(e) => return Err(e) }
//@ spec
    requires owns(*old(self), *old(disk))
    ensures r is Ok ==> final(disk).lease@ is Nothing && final(disk).key@ is None,
        *final(disk) == (VpDisk { lease: final(disk).lease, key: final(disk).key, ..*old(disk) }), final(self).kind == old(self).kind, final(self).product_path == old(self).product_path
//@end
//@fn src/persistent_cache.rs :: PersistentDerivedProductReservation::publish_payload
//@ sig fn publish_payload(&mut self, cache: &mut Cache, product_cache_id: &VpText, payload: Vec<u8>) -> (r: Result<(), VpError>)
//@ rewrite? product_cache_id != self.cache_id ==> !product_cache_id.same(&self.cache_id)
//@ rewrite? self.cache.counters(self.kind).publication_failures.fetch_add($c:a); ==>
//@ rewrite? return Err(anyhow!($m:a)) ==> return Err(vp_err())
//@ rewrite? self.publish_inner(&payload) ==> self.publish_inner(&mut cache.inner.disk, payload.as_slice())
//@ rewrite? if result.is_err() { } ==> proof_pub!();
//@ rewrite? result? ==> match result { Ok(v) => v, Err(e) => return Err(e) }
//@ rewrite? self.unlock()?; ==> match self.unlock(&mut cache.inner.disk) { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? let counters = self.cache.counters(self.kind); ==>
//@ rewrite? counters.publications.fetch_add($c:a); ==>
//@ rewrite? counters.write_bytes.fetch_add($c:a); ==>
//@ rewrite? self.cache.record_publication_and_cleanup($b)?; ==> proof_rec!(); match cache.record_publication_and_cleanup($b) { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? proof_pub!(); ==> vp_text!("let ghost d1 = cache.inner.disk");
//@ rewrite? proof_rec!(); ==> vp_text!("proof { let f = choose|f: Seq<u8>| #[trigger] published(c0.inner.disk, d1, self.product_path, f) && f.len() == write_bytes && decodes(magic_of(self.kind), most_of(self.kind), f) == Some(payload@); if c0.inner.accounting.initialized { let es = choose|es: Seq<CacheEntry>| #[trigger] listing(c0.inner.disk, es) && es.len() <= c0.inner.accounting.entries && (bytes_of(es) <= c0.inner.accounting.bytes || c0.inner.accounting.bytes == u64::MAX); let fs = one_more(c0.inner.disk, cache.inner.disk, es, self.product_path, f); assert(listing(cache.inner.disk, fs)); } }");
//@ spec
    requires owns(*old(self), old(cache).inner.disk), sha(payload@).len() == 32, old(cache).inner.max_entries < usize::MAX, old(cache).inner.max_bytes < u64::MAX,
        old(cache).inner.accounting.initialized, covers(*old(cache))
    ensures
        // a product of another identity is refused and changes nothing
        product_cache_id.v@ != old(self).cache_id.v@ ==> r is Err && final(cache).inner.disk.products@ == old(cache).inner.disk.products@,
        // after every publication the cache is within its limits
        r is Ok && old(cache).inner.disk.alone@ ==> fits(*final(cache)),
        // what stands under this name is the old file, the whole new one, or nothing; no other file changed (some may have been evicted)
        old(cache).inner.disk.alone@ ==> forall|p: VpPath| #[trigger] final(cache).inner.disk.products@.contains_key(p) ==>
            (old(cache).inner.disk.products@.contains_key(p) && final(cache).inner.disk.products@[p] == old(cache).inner.disk.products@[p])
            || (p == old(self).product_path && decodes(magic_of(old(self).kind), most_of(old(self).kind), final(cache).inner.disk.products@[p]) == Some(payload@))
//@ entry
    let ghost c0 = *cache;
//@end
}
// ---- lookup ----
pub struct Product { _p: u8 }
/// The caller's decoder of a payload (for Wasm: decode_compiled_wasm_payload with the key).
#[verifier::external_body]
pub struct VpDecode { _p: u8 }
impl VpDecode {
    pub uninterp spec fn meaning(&self, payload: Seq<u8>) -> Option<Product>;
    #[verifier::external_body]
    fn call(&self, payload: Vec<u8>) -> (r: Result<Product, VpError>) ensures (match r { Ok(t) => Some(t), Err(_) => None }) == self.meaning(payload@) { unimplemented!() }
}
//@enum src/persistent_cache.rs :: DiskLookup ; subst DiskLookup<T> ==> DiskLookup ; subst Hit(T, u64, u64) ==> Hit(Product, u64, u64) ; subst anyhow::Error ==> VpError
//@enum src/persistent_cache.rs :: PersistentDerivedProductLookup ; subst PersistentDerivedProductLookup<T> ==> PersistentDerivedProductLookup ; subst Hit(T) ==> Hit(Product)
/// what a stored file gives the caller
spec fn stored(k: PersistentProductKind, d: VpDecode, f: Seq<u8>) -> Option<Product> {
    match decodes(magic_of(k), most_of(k), f) { Some(p) => d.meaning(p), None => None }
}
pub uninterp spec fn path_of(k: PersistentProductKind, id: Seq<u8>) -> VpPath;
#[verifier::external_body]
fn validate_cache_id(id: &VpText) -> Result<(), VpError> { unimplemented!() }
impl PersistentDerivedProductCache {
    #[verifier::external_body]
    fn product_path(&self, kind: PersistentProductKind, id: &VpText) -> (r: VpPath) ensures r == path_of(kind, id.v@) { unimplemented!() }
//@fn src/persistent_cache.rs :: PersistentDerivedProductCache::lookup_disk
//@ sig fn lookup_disk(&self, kind: PersistentProductKind, product_path: &VpPath, decode: &VpDecode) -> (r: Result<DiskLookup, VpError>)
//@ rewrite? File::open(product_path) ==> self.inner.disk.open(product_path)
//@ rewrite? error.kind() == ErrorKind::NotFound ==> error.not_found
//@ rewrite? return Err(error).with_context($c:a); ==> return Err(vp_err());
//@ rewrite? file.metadata().with_context($c:a)?.len(); ==> match file.metadata_len() { Ok(v) => v, Err(e) => return Err(e) };
//@ rewrite? DiskLookup::Corrupt(anyhow!($m:a)) ==> DiskLookup::Corrupt(vp_err())
//@ rewrite? usize::try_from($x:e).map_err($c)? ==> vp_usize($x)
//@ rewrite? Vec::with_capacity($n) ==> vp_with_capacity($n, Ghost(MAX_COMPRESSED_ENTRY_BYTES as nat))
//@ rewrite? file.read_to_end(&mut encoded).with_context($c:a)?; ==> match file.read_to_end(&mut encoded) { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? match decode_envelope($a:e, $b:e, &encoded).and_then(decode) $b2:b ==> let vp_d = match decode_envelope($a, $b, encoded.as_slice()) { Ok(vp_p) => decode.call(vp_p), Err(e) => Err(e) }; match vp_d $b2
//@ rewrite? encoded_payload_logical_len(&encoded)? ==> match encoded_payload_logical_len(encoded.as_slice()) { Ok(v) => v, Err(e) => return Err(e) }
//@ spec
    ensures
        r is Ok && r->Ok_0 is Hit ==> self.inner.disk.products@.contains_key(*product_path) && stored(kind, *decode, self.inner.disk.products@[*product_path]) == Some(r->Ok_0->Hit_0),
        r is Ok && r->Ok_0 is Missing ==> !self.inner.disk.products@.contains_key(*product_path),
        // a good file is not taken for a damaged one
        r is Ok && r->Ok_0 is Corrupt ==> self.inner.disk.products@.contains_key(*product_path) && ({ let f = self.inner.disk.products@[*product_path]; f.len() > MAX_COMPRESSED_ENTRY_BYTES || stored(kind, *decode, f) is None || !unz(f.skip(60)).1 })
//@ entry
    broadcast use vstd::seq_lib::group_seq_properties;
//@end
//@fn src/persistent_cache.rs :: PersistentDerivedProductCache::ensure_accounting
//@ sig fn ensure_accounting(&mut self, kind: PersistentProductKind) -> (r: Result<(), VpError>)
//@ rewrite? self.inner.accounting.lock().initialized ==> self.inner.accounting.initialized
//@ rewrite? self.open_maintenance_lock()? ==> VpLock { path: Ghost(None) }
//@ rewrite? acquire_lock(&$l:i, $x, self.counters(kind))?; ==> match self.inner.disk.acquire(&$l, $x) { Ok(_) => {}, Err(e) => return Err(e) } proof_locked!();
//@ rewrite? scan_product_entries(&self.namespace_root())?; ==> match self.inner.disk.scan() { Ok(v) => v, Err(e) => return Err(e) }; proof_sorted!();
//@ rewrite? let bytes = entries.iter().try_fold(0u64, |total, entry| { total.checked_add($b).ok_or_else($c) })?; ==> let mut total: u64 = 0; let mut k: usize = 0; while k < entries.len() { let entry = &entries[k]; match total.checked_add($b) { Some(v) => { total = v; } None => return Err(vp_err()) } k = k + 1; } let bytes = total;
//@ rewrite? let mut accounting = self.inner.accounting.lock(); ==>
//@ rewrite? accounting. ==> self.inner.accounting.
//@ rewrite? FileExt::unlock(&$l:i).context($c)?; ==> match self.inner.disk.release(&$l) { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? proof_locked!(); ==> vp_text!("let ghost d0 = self.inner.disk");
//@ rewrite? proof_sorted!(); ==> vp_text!("proof { assert(entries@.skip(0) =~= entries@); bytes_nonneg(entries@); }");
//@ spec
    requires old(self).inner.disk.lease@ is Nothing, old(self).inner.accounting.initialized && old(self).inner.disk.alone@ ==> covers(*old(self))
    ensures r is Ok ==> final(self).inner.accounting.initialized && (final(self).inner.disk.alone@ ==> covers(*final(self))) && final(self).inner.disk.lease@ is Nothing && final(self).inner.disk.key == old(self).inner.disk.key,
        final(self).inner.max_entries == old(self).inner.max_entries, final(self).inner.max_bytes == old(self).inner.max_bytes, final(self).inner.disk.alone == old(self).inner.disk.alone,
        old(self).inner.disk.alone@ ==> final(self).inner.disk.products@ == old(self).inner.disk.products@
//@ loop 0
    invariant k <= entries@.len(), total == bytes_upto(entries@, k as int), listing(d0, entries@), entries@.len() < usize::MAX, self.inner.disk == d0, *self == (Cache { inner: PersistentDerivedProductCacheInner { disk: self.inner.disk, ..old(self).inner } }), bytes_of(entries@.skip(k as int)) >= 0, d0.alone == old(self).inner.disk.alone, d0.alone@ ==> d0.products == old(self).inner.disk.products, d0.key == old(self).inner.disk.key, maintenance_lock.path@ is None
    decreases entries@.len() - k
//@ loopstart 0
    proof { bytes_take(entries@, k as int); }
//@ exit
    proof { assert(listing(self.inner.disk, entries@)); }
//@end
}
/// whatever the call saw of the product's file
spec fn seen(d: VpDisk, k: PersistentProductKind, dec: VpDecode, p: VpPath, t: Product) -> bool { d.products@.contains_key(p) && stored(k, dec, d.products@[p]) == Some(t) }
impl PersistentDerivedProductCache {
//@fn src/persistent_cache.rs :: PersistentDerivedProductCache::lookup_derived_product
//@ sig fn lookup_derived_product(&mut self, kind: PersistentProductKind, cache_id: &VpText, decode: VpDecode) -> (r: Result<PersistentDerivedProductLookup, VpError>)
//@ rewrite? let counters = self.counters(kind); ==>
//@ rewrite? counters.lookups.fetch_add($c:a); ==>
//@ rewrite? counters.corruptions.fetch_add($c:a); ==>
//@ rewrite? log::warn!($c:a); ==>
//@ rewrite? record_hit($c:a); ==>
//@ rewrite? record_reservation(counters); ==>
//@ rewrite? self.ensure_accounting(kind)?; ==> match self.ensure_accounting(kind) { Ok(_) => {}, Err(e) => return Err(e) } proof_start!();
//@ rewrite? validate_cache_id(cache_id)?; ==> match validate_cache_id(cache_id) { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? let initial = self.lookup_disk($x:a)?; ==> let initial = match self.lookup_disk($x) { Ok(v) => v, Err(e) => return Err(e) };
//@ rewrite? match self.lookup_disk($x:a)? $b:b ==> let vp_second = match self.lookup_disk($x) { Ok(v) => v, Err(e) => return Err(e) }; match vp_second $b
//@ rewrite? self.open_maintenance_lock()? ==> VpLock { path: Ghost(None) }
//@ rewrite? let key_lock_path = self.key_lock_path($x:a); ==> let key_lock_path = self.product_path($x);
//@ rewrite? open_private_lock_file(&$p:i)?; ==> vp_key_lock(&$p);
//@ rewrite? acquire_lock(&$l:i, $x, counters)?; ==> match self.inner.disk.acquire(&$l, $x) { Ok(_) => {}, Err(e) => return Err(e) } proof_locked!();
//@ rewrite? FileExt::unlock(&$l:i).context($c)?; ==> match self.inner.disk.release(&$l) { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? FileExt::unlock(&$l:i).with_context($c:a)?; ==> match self.inner.disk.release(&$l) { Ok(_) => {}, Err(e) => return Err(e) }
//@ rewrite? std::fs::remove_file(&$p:e) ==> self.inner.disk.remove_product(&$p)
//@ rewrite? remove_error.kind() == ErrorKind::NotFound ==> remove_error.not_found
//@ rewrite? return Err(remove_error).with_context($c:a); ==> return Err(vp_err());
//@ rewrite? cache: self.clone(), ==>
//@ rewrite? proof_start!(); ==> vp_text!("let ghost d0 = self.inner.disk");
//@ rewrite? proof_locked!(); ==> vp_text!("let ghost d1 = self.inner.disk");
//@ spec
    requires old(self).inner.disk.lease@ is Nothing, old(self).inner.disk.key@ is None, old(self).inner.accounting.initialized && old(self).inner.disk.alone@ ==> covers(*old(self))
    ensures
        // found: what the product's own file means to this caller
        r is Ok && r->Ok_0 is Hit ==> seen(final(self).inner.disk, kind, decode, path_of(kind, cache_id.v@), r->Ok_0->Hit_0),
        // otherwise the caller alone may produce it, and nothing stands in its place
        r is Ok && r->Ok_0 is Reservation ==> owns(r->Ok_0->Reservation_0, final(self).inner.disk) && !final(self).inner.disk.products@.contains_key(path_of(kind, cache_id.v@))
            && r->Ok_0->Reservation_0.product_path == path_of(kind, cache_id.v@) && r->Ok_0->Reservation_0.cache_id.v@ == cache_id.v@ && r->Ok_0->Reservation_0.kind == kind,
        // a hit leaves no lock behind
        r is Ok && r->Ok_0 is Hit ==> final(self).inner.disk.lease@ is Nothing && final(self).inner.disk.key@ is None,
        // a good product is found; a damaged one alone is discarded
        old(self).inner.disk.alone@ && r is Ok ==> ({
            let path = path_of(kind, cache_id.v@); let p0 = old(self).inner.disk.products@;
            &&& final(self).inner.disk.products@ == p0 || final(self).inner.disk.products@ == p0.remove(path)
            &&& p0.contains_key(path) && p0[path].len() <= MAX_COMPRESSED_ENTRY_BYTES && stored(kind, decode, p0[path]) is Some && unz(p0[path].skip(60)).1 ==> r->Ok_0 is Hit
        })
//@end
}
fn main() {}
}
