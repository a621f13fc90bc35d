// C01: byte offsets and editor positions convert exactly, in both directions.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
//@include prelude.vrs
//@include text.vrs
//@include line_search.vrs
spec fn asc_us(v: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j] }
#[verifier::external_body]
fn vp_search(v: &Vec<usize>, x: usize) -> (r: Result<usize, usize>)
    requires asc_us(v@)
    ensures match r {
        Ok(i) => 0 <= i < v@.len() && v@[i as int] == x,
        Err(i) => 0 <= i <= v@.len() && (forall|j: int| 0 <= j < i ==> v@[j] < x) && (forall|j: int| i <= j < v@.len() ==> v@[j] > x),
    }
{ v.binary_search(&x) }
#[verifier::external_body]
fn vp_last_is(v: &Vec<usize>, x: usize) -> (r: bool) ensures r == (v@.len() > 0 && v@.last() == x) { v.last() == Some(&x) }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SourceFileId { x: u32 }
#[verifier::external_body]
pub struct Lazy { x: u32 }
impl Lazy {
    #[verifier::external_body] pub fn new() -> Lazy { unimplemented!() }
    #[verifier::external_body] pub fn take(&mut self) { unimplemented!() }
}
//@struct crates/ruby-analysis/src/indexer/source_document.rs :: SourceDocument ; subst OnceLock<Vec<(usize, usize)>> ==> Lazy
impl SourceDocument {
    spec fn of(&self, s: Seq<char>) -> bool { table_ok(ints(self.line_offsets@), s) }
}
/// the end of the longest prefix of line `line`, newline excluded, with at most `character` UTF-16 units
spec fn back_is(s: Seq<char>, line: int, character: int, k: int) -> bool {
    let all = starts(s, s.len() as int);
    if line >= all.len() { k == s.len() } else {
        &&& all[line] <= k <= s.len()
        &&& forall|i: int| all[line] <= i < k ==> s[i] != '\n'
        &&& units(s, all[line], k) <= character
        &&& (k < s.len() ==> s[k] == '\n' || units(s, all[line], k + 1) > character)
    }
}
/// converting a character-boundary offset to a position and back gives the same offset
proof fn round_trip(s: Seq<char>, k: int, line: int, character: int, k2: int)
    requires 0 <= k <= s.len(), pos_is(s, k, line, character), back_is(s, line, character, k2)
    ensures k2 == k
{
    table_lookup(s, k);
    let a = lstart(s, k);
    if k2 < k { units_mono(s, a, k2 + 1, k); assert(s[k2] != '\n'); }
    if k < k2 { units_mono(s, a, k, k2); }
}

spec fn line_a(s: Seq<char>, l: int) -> int { starts(s, s.len() as int)[l] }
spec fn line_e(s: Seq<char>, l: int) -> int { if l + 1 < starts(s, s.len() as int).len() { starts(s, s.len() as int)[l + 1] } else { s.len() as int } }
#[verifier::opaque]
spec fn scanned(s: Seq<char>, a: int, k: int, character: int) -> bool { units(s, a, k) <= character && forall|i: int| a <= i < k ==> s[i] != '\n' }
#[verifier::opaque]
spec fn line_ends(s: Seq<char>, l: int, a: int, e: int) -> bool {
    0 <= l < starts(s, s.len() as int).len() && a == line_a(s, l) && e == line_e(s, l) && (e < s.len() ==> s[e - 1] == '\n')
}
proof fn whole(s: Seq<char>) ensures off(s, s.len() as int) == blen(s), off(s, 0) == 0 { off_mono_all(s); }
proof fn lc_total(t: Seq<int>, s: Seq<char>, l: int, character: int)
    requires table_ok(t, s), 0 <= l, 0 <= character
    ensures t.len() >= 1, off(s, s.len() as int) == blen(s), l >= t.len() - 1 ==> back_is(s, l, character, s.len() as int)
{
    let n = s.len() as int; let all = starts(s, n);
    off_mono_all(s); table_sorted(t, s); starts_facts(s, n);
    if l < all.len() && l >= t.len() - 1 {
        assert(l == all.len() - 1); assert(t[l] == off(s, all[l])); off_injective(s, all[l], n);
        assert(units(s, n, n) == 0);
    }
}
proof fn lc_facts(t: Seq<int>, s: Seq<char>, l: int)
    requires table_ok(t, s), 0 <= l < t.len() - 1
    ensures ({ let a = line_a(s, l); let e = line_e(s, l);
        0 <= a < e <= s.len() && t[l] == off(s, a) && t[l + 1] == off(s, e) && boundary(s, t[l]) && boundary(s, t[l + 1]) && t[l] < t[l + 1] && line_ends(s, l, a, e) && off(s, a + 0) == off(s, a) && units(s, a, a + 0) == 0 && forall|c: int| c >= 0 ==> #[trigger] scanned(s, a, a, c) }),
{
    let n = s.len() as int; let all = starts(s, n);
    reveal(scanned); reveal(line_ends);
    off_mono_all(s); table_sorted(t, s); starts_facts(s, n);
    assert(t[l] == off(s, all[l]));
    if l + 1 < all.len() { assert(t[l + 1] == off(s, all[l + 1])); }
    let a = line_a(s, l); let e = line_e(s, l);
    assert(boundary(s, off(s, a))); assert(boundary(s, off(s, e)));
}
proof fn lc_step(s: Seq<char>, l: int, a: int, e: int, k: int, character: int)
    requires line_ends(s, l, a, e), 0 <= a <= k < e <= s.len(), scanned(s, a, k, character), 0 <= character
    ensures s[k] == '\n' || units(s, a, k + 1) > character ==> back_is(s, l, character, k),
        !(s[k] == '\n' || units(s, a, k + 1) > character) ==> scanned(s, a, k + 1, character) && (k + 1 == e ==> back_is(s, l, character, e)),
        units(s, a, k + 1) == units(s, a, k) + u16len(s[k]),
{ reveal(scanned); reveal(line_ends); }
//@fn crates/ruby-analysis/src/indexer/source_document.rs :: compute_line_offsets
//@ ret r
//@ rewrite? for $c:i in $x:e.chars() $b:b ==> let vp_cs = vp_chars($x); let mut vp_i: usize = 0; while vp_i < vp_cs.len() { let $c = vp_cs[vp_i]; vp_i += 1; $b }
//@ rewrite? let mut offset = 0; ==> let mut offset: usize = 0;
//@ rewrite? let mut line_offsets = vec![0]; ==> let mut line_offsets: Vec<usize> = vec![0];
//@ rewrite? $v:e.last() != Some(&$x) ==> !vp_last_is(&$v, $x)
//@ rewrite? content.len() ==> vp_str_len(content)
//@ spec
    requires blen(content@) <= usize::MAX
    ensures table_ok(ints(r@), content@)
//@ loop 0
    invariant vp_i <= vp_cs@.len(), vp_cs@ == content@, offset == off(content@, vp_i as int), blen(content@) <= usize::MAX,
        line_offsets@.len() == starts(content@, vp_i as int).len(),
        forall|j: int| 0 <= j < line_offsets@.len() ==> #[trigger] line_offsets@[j] == off(content@, starts(content@, vp_i as int)[j]),
    decreases vp_cs@.len() - vp_i
//@ entry
    proof { off_mono_all(content@); starts_facts(content@, content@.len() as int); }
//@ loopstart 0
    proof { off_step(content@, vp_i as int); off_mono_all(content@); }
//@end

impl SourceDocument {
//@fn crates/ruby-analysis/src/indexer/source_document.rs :: SourceDocument::new
//@ ret r
//@ rewrite? OnceLock::new() ==> Lazy::new()
//@ spec
    requires blen(content@) <= usize::MAX
    ensures r.of(content@)
//@end
//@fn crates/ruby-analysis/src/indexer/source_document.rs :: SourceDocument::update
//@ spec
    requires blen(content@) <= usize::MAX
    ensures final(self).of(content@)
//@end
//@fn crates/ruby-analysis/src/indexer/source_document.rs :: SourceDocument::offset_to_line_character
//@ ret r
//@ rewrite? $x:e.min($m) ==> vp_min($x, $m)
//@ rewrite? content.len() ==> vp_str_len(content)
//@ rewrite? $x:e.is_char_boundary($o) ==> vp_is_char_boundary($x, $o)
//@ rewrite? $x:e.binary_search(&$o) ==> vp_search(&$x, $o)
//@ rewrite? $x:e[..$o].ends_with('\n') ==> vp_ends_with_char(vp_substr($x, 0, $o), '\n')
//@ rewrite? u32::try_from($x).expect($m) ==> vp_to_u32($x)
//@ rewrite? $x:e[$a..$b].chars().map(char::len_utf16).sum() ==> vp_utf16_units(vp_substr($x, $a, $b))
//@ spec
    requires self.of(content@), blen(content@) <= u32::MAX
    ensures exists|k: int| floor_idx(content@, offset as int, k) && #[trigger] pos_is(content@, k, r.0 as int, r.1 as int)
//@ entry
    let ghost s = content@;
    let ghost o0 = offset as int;
    proof { off_mono_all(s); table_sorted(ints(self.line_offsets@), s); starts_facts(s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
    let ghost k = floor_exists(s, o0);
    proof { table_lookup(s, k); }
    proof {
        assert forall|i: int, j: int| 0 <= i < j < self.line_offsets@.len() implies self.line_offsets@[i] < self.line_offsets@[j] by { assert(ints(self.line_offsets@)[i] < ints(self.line_offsets@)[j]); }
    }
//@ loop 0
    invariant off(s, k) <= offset <= o0, s == content@, floor_idx(s, o0, k), offset <= blen(s)
    decreases offset
//@ loopstart 0
    proof { assert(boundary(s, off(s, k))); }
//@ before let line_index
    proof {
        if boundary(s, offset as int) {
            let j = choose|j: int| 0 <= j <= s.len() && #[trigger] off(s, j) == offset;
            assert(floor_idx(s, o0, j)) by { if j < s.len() { off_mono(s, j, j + 1); if o0 >= off(s, j + 1) { if k < j { off_mono(s, k + 1, j); } else { if k > j { off_mono(s, j, k);} } } } }
            floor_unique(s, o0, j, k);
        } else { assert(offset == 0); assert(boundary(s, off(s, 0))); }
        assert(offset == off(s, k));
        let t = ints(self.line_offsets@);
        search_facts(t, s, k);
        let a = lstart(s, k);
        idx_off(s, a); idx_off(s, k); idx_off(s, 0); units_sub(s, a, k, k - a); units_le_off(s, a, k);
        assert(k > 0 ==> s.subrange(0, k).last() == s[k - 1]);
        assert forall|i: int| 0 <= i < t.len() implies t[i] == #[trigger] self.line_offsets@[i] by {}
        assert(self.line_offsets@.len() == t.len());
        assert(hit_or_miss(t, s, k));
    }
//@ afterlet character
    proof { assert(character == units(s, lstart(s, k), k)); assert(pos_is(s, k, line_index as int, character as int)); assert(character <= u32::MAX); assert(line_index <= u32::MAX); }
//@ exit
    proof { assert(pos_is(s, k, __vp_result.0 as int, __vp_result.1 as int)); }
//@ afterlet line_index
    proof { assert(line_index == line_of(s, k)) by { reveal(hit_or_miss); assert(self.line_offsets@[line_of(s, k)] == ints(self.line_offsets@)[line_of(s, k)]); } }
//@end
//@fn crates/ruby-analysis/src/indexer/source_document.rs :: SourceDocument::line_character_to_offset
//@ ret r
//@ rewrite? content.len() ==> vp_str_len(content)
//@ rewrite? for $c:i in $x:e[$a..$b].chars() $body:b ==> let vp_sub = vp_substr($x, $a, $b); let vp_cs = vp_chars(vp_sub); let mut vp_i: usize = 0; while vp_i < vp_cs.len() { let $c = vp_cs[vp_i]; vp_i += 1; $body }
//@ rewrite? $x:e.len_utf16() ==> vp_len_utf16($x)
//@ rewrite? let mut byte_offset = 0; ==> let mut byte_offset: usize = 0;
//@ rewrite? let mut utf16_units = 0; ==> let mut utf16_units: usize = 0;
//@ spec
    requires self.of(content@), blen(content@) <= u32::MAX
    ensures exists|k: int| 0 <= k <= content@.len() && r == off(content@, k) && #[trigger] back_is(content@, line as int, character as int, k)
//@ entry
    let ghost s = content@;
    let ghost n = s.len() as int;
    let ghost line0 = line as int;
    proof { lc_total(ints(self.line_offsets@), s, line0, character as int); }
//@ before let line_start
    let ghost a = line_a(s, line0);
    let ghost e = line_e(s, line0);
    proof { lc_facts(ints(self.line_offsets@), s, line0); assert(ints(self.line_offsets@)[line0] == self.line_offsets@[line0]); assert(ints(self.line_offsets@)[line0 + 1] == self.line_offsets@[line0 + 1]); idx_off(s, a); idx_off(s, e); off_mono(s, e, n); }
//@ loop 0
    invariant_except_break line_start + byte_offset <= u32::MAX, byte_offset == off(s, a + vp_i) - off(s, a), utf16_units == units(s, a, a + vp_i),
        scanned(s, a, a + vp_i, character as int),
        vp_i == vp_cs@.len() ==> back_is(s, line0, character as int, e),
    invariant vp_i <= vp_cs@.len(), vp_cs@ == s.subrange(a, e), line_ends(s, line0, a, e), n == s.len(), blen(s) <= u32::MAX, 0 <= a < e <= n,
        target_char == character, line_start == off(s, a),
    ensures line_start + byte_offset <= u32::MAX, exists|k: int| 0 <= k <= n && line_start + byte_offset == off(s, k) && #[trigger] back_is(s, line0, character as int, k),
    decreases vp_cs@.len() - vp_i
//@ loopstart 0
    let ghost k0 = a + vp_i;
    proof { off_step(s, k0); off_mono(s, a, k0); off_mono(s, k0 + 1, n); off_mono(s, 0, a); whole(s); units_le_off(s, a, k0 + 1); assert(vp_cs@[vp_i as int] == s[k0]);
        lc_step(s, line0, a, e, k0, character as int);
    }
//@end
}
}
fn main() {}
