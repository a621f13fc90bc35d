// C01 (engine side): SourceLineIndex and SourceFile::byte_offset_to_line_character.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
//@include prelude.vrs
//@include text.vrs
//@include line_search.vrs
spec fn asc32(v: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j] }
#[verifier::external_body]
fn vp_search32(v: &Vec<u32>, x: u32) -> (r: Result<usize, usize>)
    requires asc32(v@)
    ensures match r {
        Ok(i) => 0 <= i < v@.len() && v@[i as int] == x,
        Err(i) => 0 <= i <= v@.len() && (forall|j: int| 0 <= j < i ==> v@[j] < x) && (forall|j: int| i <= j < v@.len() ==> v@[j] > x),
    }
{ v.binary_search(&x) }
#[verifier::external_body]
fn vp_last_is32(v: &Vec<u32>, x: u32) -> (r: bool) ensures r == (v@.len() > 0 && v@.last() == x) { v.last() == Some(&x) }
#[verifier::external_body]
fn vp_as_deref(o: &Option<String>) -> (r: Option<&str>) ensures match r { Some(x) => o is Some && x@ == o->Some_0@, None => o is None } { o.as_deref() }
#[verifier::external_body]
fn vp_get32(v: &Vec<u32>, i: usize) -> (r: Option<&u32>) ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() } { v.get(i) }
fn vp_try_u32(x: usize) -> (r: Option<u32>) ensures r == (if x <= u32::MAX { Some(x as u32) } else { None }) { if x <= u32::MAX as usize { Some(x as u32) } else { None } }
//@struct crates/ruby-analysis/src/engine/state.rs :: SourceLineIndex
//@struct crates/ruby-analysis/src/engine/state.rs :: SourceFile ; keep source,line_index
impl SourceLineIndex {
    spec fn of(&self, s: Seq<char>) -> bool {
        &&& table_ok(ints32(self.line_offsets@), s)
        &&& self.len == blen(s)
        &&& self.ascii == is_ascii_chars(s)
        &&& self.final_newline == (s.len() > 0 && s.last() == '\n')
    }
}
/// line starts seen by scanning bytes
spec fn bstarts(b: Seq<u8>, k: int) -> Seq<int> decreases k {
    if k <= 0 || k > b.len() { seq![0int] } else if b[k - 1] == 10 { bstarts(b, k - 1).push(k) } else { bstarts(b, k - 1) }
}
spec fn map_off(s: Seq<char>, v: Seq<int>) -> Seq<int> { Seq::new(v.len(), |i: int| off(s, v[i])) }
proof fn bstarts_ext(b: Seq<u8>, c: Seq<u8>, k: int)
    requires k <= b.len(), k <= c.len(), forall|i: int| 0 <= i < k ==> b[i] == c[i]
    ensures bstarts(b, k) == bstarts(c, k)
    decreases k
{ if k > 0 { bstarts_ext(b, c, k - 1); } }
proof fn bstarts_skip(b: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= b.len(), forall|x: int| i <= x < j ==> b[x] != 10
    ensures bstarts(b, j) == bstarts(b, i)
    decreases j - i
{ if i < j { bstarts_skip(b, i, j - 1); } }
/// Scanning bytes for 0x0A finds exactly the line starts of the text.
proof fn bytes_find_lines(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures bstarts(encode_utf8(s), off(s, k)) =~= map_off(s, starts(s, k))
    decreases k
{
    let b = encode_utf8(s);
    off_mono_all(s);
    if k == 0 { assert(starts(s, 0) =~= seq![0int]); } else {
        bytes_find_lines(s, k - 1);
        off_step(s, k - 1); scalar_bytes(s[k - 1]);
        prefix_bytes(s, k);
        let e = encode_scalar(s[k - 1] as u32);
        let p = off(s, k - 1);
        assert(forall|x: int| p <= x < off(s, k) ==> #[trigger] b[x] == e[x - p]);
        if s[k - 1] == '\n' {
            assert(e =~= seq![10u8]);
            assert(b[p] == 10);
            assert(bstarts(b, p + 1) == bstarts(b, p).push(p + 1));
        } else {
            assert forall|x: int| p <= x < off(s, k) implies b[x] != 10 by { assert(b[x] == e[x - p]); if (s[k - 1] as u32) < 128 { assert(e[0] == (s[k-1] as u32) as u8); assert((s[k - 1] as u32) != 10) by { ten(s[k - 1]); } } }
            bstarts_skip(b, p, off(s, k));
        }
    }
}
proof fn ten(c: char) requires c != '\n' ensures (c as u32) != 10 {}
proof fn prefix_bytes(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures forall|x: int| 0 <= x < off(s, k) ==> #[trigger] encode_utf8(s)[x] == encode_utf8(s.take(k))[x], off(s, k) <= blen(s)
{
    off_mono_all(s);
    assert(s =~= s.take(k) + s.skip(k));
    encode_utf8_concat(s.take(k), s.skip(k));
}
/// In an ASCII text byte offsets are char indices.
proof fn ascii_offsets(s: Seq<char>, k: int)
    requires is_ascii_chars(s), 0 <= k <= s.len()
    ensures off(s, k) == k, blen(s) == s.len()
{ is_ascii_chars_encode_utf8(s); assert(is_ascii_chars(s.take(k))); is_ascii_chars_encode_utf8(s.take(k)); }
proof fn ascii_units(s: Seq<char>, a: int, k: int)
    requires is_ascii_chars(s), 0 <= a <= k <= s.len()
    ensures units(s, a, k) == k - a
    decreases k
{ if a < k { ascii_units(s, a, k - 1); } }

impl SourceLineIndex {
//@fn crates/ruby-analysis/src/engine/state.rs :: SourceLineIndex::new
//@ ret r
//@ rewrite? for ($i:i, $x:i) in source.bytes().enumerate() $b:b ==> let vp_bs = source.as_bytes(); let mut vp_i: usize = 0; while vp_i < vp_bs.len() { let $i = vp_i; let $x = vp_bs[vp_i]; vp_i += 1; $b }
//@ rewrite? source.len() ==> vp_str_len(source)
//@ rewrite? let mut line_offsets = vec![0]; ==> let mut line_offsets: Vec<u32> = vec![0];
//@ rewrite? $v:e.last() != Some(&$x) ==> !vp_last_is32(&$v, $x)
//@ rewrite? source.ends_with('\n') ==> vp_ends_with_char(source, '\n')
//@ rewrite? u32::try_from($x).expect($m) ==> vp_to_u32($x)
//@ spec
    requires blen(source@) <= u32::MAX
    ensures r.of(source@)
//@ entry
    let ghost s = source@;
    proof { off_mono_all(s); starts_facts(s, s.len() as int); bytes_find_lines(s, s.len() as int); }
//@ loop 0
    invariant vp_i <= vp_bs@.len(), vp_bs@ == encode_utf8(s), vp_bs@.len() <= u32::MAX,
        ints32(line_offsets@) =~= bstarts(encode_utf8(s), vp_i as int),
    decreases vp_bs@.len() - vp_i
//@ before if !vp_last_is32
    let ghost lo = line_offsets@;
    proof { let all = starts(s, s.len() as int); let t0 = ints32(lo); assert(t0 =~= map_off(s, all)); assert(t0.len() == all.len() && lo.len() == all.len()); assert(lo.last() == t0.last() && t0.last() == off(s, all.last())); assert forall|i: int| 0 <= i < all.len() implies #[trigger] t0[i] == off(s, all[i]) && t0[i] == lo[i] by {} }
//@ exit
    proof { let t1 = ints32(__vp_result.line_offsets@); let all = starts(s, s.len() as int);
        assert forall|i: int| 0 <= i < all.len() implies #[trigger] t1[i] == off(s, all[i]) by { assert(ints32(lo)[i] == off(s, all[i])); }
        assert(t1.last() == blen(s)); }
//@end
}
impl SourceFile {
//@fn crates/ruby-analysis/src/engine/state.rs :: SourceFile::byte_offset_to_line_character
//@ ret r
//@ rewrite? $x:e.binary_search(&$o) ==> vp_search32(&$x, $o)
//@ rewrite? $x:e.line_offsets.get($i) ==> vp_get32(&$x.line_offsets, $i)
//@ rewrite? $x:e.source.as_deref() ==> vp_as_deref(&$x.source)
//@ rewrite? $x:e.is_char_boundary($o) ==> vp_is_char_boundary($x, $o)
//@ rewrite? $x:e[$a..$b].chars().map(char::len_utf16).sum::<usize>().try_into().ok() ==> vp_try_u32(vp_utf16_units(vp_substr($x, $a, $b)))
//@ rewrite? u32::try_from($x).expect($m) ==> vp_to_u32($x)
//@ sig fn byte_offset_to_line_character(&self, byte_offset: u32, Ghost(s): Ghost<Seq<char>>) -> (r: Option<(u32, u32)>)
//@ spec
    requires self.line_index.of(s), self.source is Some ==> self.source->Some_0@ == s, blen(s) <= u32::MAX
    ensures match r {
        Some(p) => exists|k: int| 0 <= k <= s.len() && byte_offset == off(s, k) && #[trigger] pos_is(s, k, p.0 as int, p.1 as int),
        None => !boundary(s, byte_offset as int) || (self.source is None && !is_ascii_chars(s)),
    }
//@ entry
    let ghost t = ints32(self.line_index.line_offsets@);
    proof {
        off_mono_all(s); table_sorted(t, s); starts_facts(s, s.len() as int);
        assert forall|i: int, j: int| 0 <= i < j < self.line_index.line_offsets@.len() implies self.line_index.line_offsets@[i] < self.line_index.line_offsets@[j] by { assert(t[i] < t[j]); }
        assert forall|o: int| o > blen(s) implies !#[trigger] boundary(s, o) by {}
    }
    let ghost k = floor_exists(s, byte_offset as int);
    proof {
        table_lookup(s, k); search_facts(t, s, k); idx_off(s, k); idx_off(s, lstart(s, k)); units_sub(s, lstart(s, k), k, k - lstart(s, k)); units_le_off(s, lstart(s, k), k);
        if self.line_index.ascii && byte_offset <= self.line_index.len { ascii_offsets(s, 0); ascii_offsets(s, byte_offset as int); idx_off(s, byte_offset as int); }
        if boundary(s, byte_offset as int) { let j = idx_of(s, byte_offset as int); assert(off(s, j) == byte_offset); assert(floor_idx(s, byte_offset as int, j)) by { if j < s.len() { off_mono(s, j, j + 1); } } floor_unique(s, byte_offset as int, j, k); }
        assert(boundary(s, byte_offset as int) ==> off(s, k) == byte_offset);
        if self.line_index.ascii && byte_offset <= self.line_index.len { ascii_offsets(s, 0); ascii_offsets(s, byte_offset as int); idx_off(s, byte_offset as int); assert(off(s, byte_offset as int) == byte_offset); assert(boundary(s, byte_offset as int)); ascii_offsets(s, lstart(s, k)); ascii_units(s, lstart(s, k), k); }
        assert forall|i: int| 0 <= i < t.len() implies t[i] == #[trigger] self.line_index.line_offsets@[i] by {}
        assert(self.line_index.line_offsets@.len() == t.len());
    }
//@ afterlet line_index
    proof { reveal(hit_or_miss); assert(boundary(s, byte_offset as int) ==> line_index == line_of(s, k)) by { assert(self.line_index.line_offsets@[line_of(s, k)] == t[line_of(s, k)]); } }
//@ exit
    proof { assert(pos_is(s, k, __vp_result->Some_0.0 as int, __vp_result->Some_0.1 as int)); }
//@end
}
}
fn main() {}
