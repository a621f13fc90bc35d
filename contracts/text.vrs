// ---- text model: byte offsets, lines and UTF-16 columns of a Seq<char> ----
// assumed: str::{is_char_boundary, slicing, chars, ends_with(char)}, char::len_utf16, slice::binary_search
spec fn off(s: Seq<char>, k: int) -> int { encode_utf8(s.take(k)).len() as int }
spec fn blen(s: Seq<char>) -> int { encode_utf8(s).len() as int }
spec fn boundary(s: Seq<char>, o: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == o }
/// the char index at byte offset o
spec fn idx_of(s: Seq<char>, o: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == o }
spec fn u16len(c: char) -> int { if (c as u32) >= 0x10000 { 2 } else { 1 } }
#[verifier::external_body]
fn vp_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
fn vp_len_utf16(c: char) -> (r: usize) ensures r == u16len(c) { c.len_utf16() }
#[verifier::external_body]
fn vp_is_char_boundary(s: &str, o: usize) -> (r: bool) ensures r == boundary(s@, o as int) { s.is_char_boundary(o) }
#[verifier::external_body]
fn vp_substr(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b, boundary(s@, a as int), boundary(s@, b as int)
    ensures r@ == s@.subrange(idx_of(s@, a as int), idx_of(s@, b as int))
{ &s[a..b] }
#[verifier::external_body]
fn vp_ends_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
fn vp_str_len(s: &str) -> (r: usize) ensures r == blen(s@), r == off(s@, s@.len() as int)
{ proof { assert(s@.take(s@.len() as int) =~= s@); } s.as_bytes().len() }
spec fn ascending(v: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j] }

/// char indices at which a line starts, looking at the first k chars
spec fn starts(s: Seq<char>, k: int) -> Seq<int> decreases k {
    if k <= 0 || k > s.len() { seq![0int] } else if s[k - 1] == '\n' { starts(s, k - 1).push(k) } else { starts(s, k - 1) }
}
/// number of newlines among the first k chars
spec fn line_of(s: Seq<char>, k: int) -> int decreases k {
    if k <= 0 || k > s.len() { 0 } else { line_of(s, k - 1) + if s[k - 1] == '\n' { 1int } else { 0 } }
}
/// index of the first char of the line holding index k
spec fn lstart(s: Seq<char>, k: int) -> int decreases k {
    if k <= 0 || k > s.len() { 0 } else if s[k - 1] == '\n' { k } else { lstart(s, k - 1) }
}
/// UTF-16 units of chars a..b
spec fn units(s: Seq<char>, a: int, b: int) -> int decreases b - a {
    if b <= a || b > s.len() || a < 0 { 0 } else { units(s, a, b - 1) + u16len(s[b - 1]) }
}
/// the char index an offset is taken as: past the end -> end, inside a char -> its start
spec fn floor_idx(s: Seq<char>, o: int, k: int) -> bool { 0 <= k <= s.len() && off(s, k) <= o && (k < s.len() ==> o < off(s, k + 1)) }
/// the editor position of char index k
spec fn pos_is(s: Seq<char>, k: int, line: int, character: int) -> bool { line == line_of(s, k) && character == units(s, lstart(s, k), k) }

proof fn starts_facts(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures starts(s, k).len() == line_of(s, k) + 1, starts(s, k).last() == lstart(s, k), starts(s, k)[0] == 0,
        0 <= lstart(s, k) <= k, 0 <= line_of(s, k) <= k, ascending(starts(s, k)),
        forall|i: int| 0 <= i < starts(s, k).len() ==> 0 <= #[trigger] starts(s, k)[i] <= k,
        forall|i: int| 1 <= i < starts(s, k).len() ==> s[#[trigger] starts(s, k)[i] - 1] == '\n',
    decreases k
{ if k > 0 { starts_facts(s, k - 1); } }
proof fn starts_prefix(s: Seq<char>, k: int, n: int)
    requires 0 <= k <= n <= s.len()
    ensures starts(s, k).len() <= starts(s, n).len(),
        forall|i: int| 0 <= i < starts(s, k).len() ==> starts(s, k)[i] == #[trigger] starts(s, n)[i],
        forall|i: int| starts(s, k).len() <= i < starts(s, n).len() ==> k < #[trigger] starts(s, n)[i],
    decreases n
{ if k < n { starts_prefix(s, k, n - 1); starts_facts(s, n - 1); } }
proof fn off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures off(s, i) <= off(s, j), i < j ==> off(s, i) < off(s, j), j - i <= off(s, j) - off(s, i)
    decreases j - i
{
    if i < j { off_mono(s, i, j - 1); lemma_encode_utf8_len_strictly_monotonic(s, j - 1, j); }
}
proof fn off_mono_all(s: Seq<char>)
    ensures forall|i: int, j: int| #![trigger off(s, i), off(s, j)] 0 <= i < j <= s.len() ==> off(s, i) < off(s, j), off(s, 0) == 0, off(s, s.len() as int) == blen(s),
        forall|j: int| 0 <= j <= s.len() ==> j <= #[trigger] off(s, j) <= blen(s)
{
    assert forall|i: int, j: int| #![trigger off(s, i), off(s, j)] 0 <= i < j <= s.len() implies off(s, i) < off(s, j) by { off_mono(s, i, j); }
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()).len() == 0);
    assert forall|j: int| 0 <= j <= s.len() implies j <= #[trigger] off(s, j) <= blen(s) by { off_mono(s, 0, j); off_mono(s, j, s.len() as int); }
}
proof fn scalar_bytes(c: char)
    ensures 1 <= encode_scalar(c as u32).len() <= 4,
        (c as u32) < 128 ==> encode_scalar(c as u32) =~= seq![(c as u32) as u8],
        (c as u32) >= 128 ==> forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[i] >= 128,
{
    let x = c as u32;
    assert(x < 128 ==> (x & 0x7f) as u8 == x as u8) by (bit_vector);
    assert(forall|y: u8| #![auto] (0x80u8 | y) >= 0x80) by (bit_vector);
    assert(forall|y: u8| #![auto] (0xc0u8 | y) >= 0x80) by (bit_vector);
    assert(forall|y: u8| #![auto] (0xe0u8 | y) >= 0x80) by (bit_vector);
    assert(forall|y: u8| #![auto] (0xf0u8 | y) >= 0x80) by (bit_vector);
}
proof fn off_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures off(s, k + 1) == off(s, k) + encode_scalar(s[k] as u32).len(),
        encode_utf8(s.take(k + 1)) == encode_utf8(s.take(k)) + encode_scalar(s[k] as u32)
{ assert(s.take(k + 1) =~= s.take(k).push(s[k])); encode_utf8_push(s.take(k), s[k]); }
proof fn floor_exists(s: Seq<char>, o: int) -> (k: int)
    requires 0 <= o
    ensures floor_idx(s, o, k)
{ off_mono_all(s); floor_below(s, o, s.len() as int) }
proof fn floor_below(s: Seq<char>, o: int, n: int) -> (k: int)
    requires 0 <= o, 0 <= n <= s.len(), n < s.len() ==> o < off(s, n + 1)
    ensures floor_idx(s, o, k)
    decreases n
{ if off(s, n) <= o { n } else { off_mono_all(s); floor_below(s, o, n - 1) } }
proof fn off_injective(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), off(s, i) == off(s, j)
    ensures i == j
{ if i < j { off_mono(s, i, j); } if j < i { off_mono(s, j, i); } }
proof fn idx_off(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures idx_of(s, off(s, k)) == k, boundary(s, off(s, k))
{ let j = idx_of(s, off(s, k)); assert(0 <= j <= s.len() && off(s, j) == off(s, k)); off_injective(s, j, k); }
proof fn units_facts(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures b - a <= units(s, a, b) <= 2 * (b - a)
    decreases b
{ if a < b { units_facts(s, a, b - 1); } }
proof fn units_sub(s: Seq<char>, i: int, j: int, k: int)
    requires 0 <= i <= j <= s.len(), 0 <= k <= j - i
    ensures units(s.subrange(i, j), 0, k) == units(s, i, i + k)
    decreases k
{ if k > 0 { units_sub(s, i, j, k - 1); } }
proof fn units_mono(s: Seq<char>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len()
    ensures units(s, a, b) <= units(s, a, c), b < c ==> units(s, a, b) < units(s, a, c)
    decreases c
{ if b < c { units_mono(s, a, b, c - 1); } }
/// UTF-16 units never exceed UTF-8 bytes.
proof fn units_le_off(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures units(s, a, b) <= off(s, b) - off(s, a)
    decreases b
{
    if a < b { units_le_off(s, a, b - 1); off_step(s, b - 1); scalar_bytes(s[b - 1]); wide_is_long(s[b - 1]); }
}
proof fn wide_is_long(c: char) ensures (c as u32) >= 0x10000 ==> encode_scalar(c as u32).len() == 4 {}

/// u32::try_from(x).expect(..): panics unless it fits
fn vp_to_u32(x: usize) -> (r: u32) requires x <= u32::MAX ensures r == x { x as u32 }
fn vp_utf16_units(s: &str) -> (r: usize)
    ensures r == units(s@, 0, s@.len() as int)
{
    let _n = vp_str_len(s);
    let cs = vp_chars(s);
    let mut sum: usize = 0;
    let mut i: usize = 0;
    while i < cs.len()
        invariant i <= cs@.len(), cs@ == s@, sum == units(s@, 0, i as int), blen(s@) <= usize::MAX
        decreases cs@.len() - i
    {
        proof { units_le_off(s@, 0, i + 1); off_mono_all(s@); }
        sum = sum + vp_len_utf16(cs[i]);
        i += 1;
    }
    sum
}
proof fn floor_unique(s: Seq<char>, o: int, i: int, j: int)
    requires floor_idx(s, o, i), floor_idx(s, o, j)
    ensures i == j
{ off_mono_all(s); if i < j { off_mono(s, i + 1, j); } if j < i { off_mono(s, j + 1, i); } }
/// Which line starts are at or before char k: exactly the first line_of(k)+1.
proof fn table_lookup(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures ({
        let all = starts(s, s.len() as int);
        let l = line_of(s, k);
        &&& 0 <= l < all.len() && all[l] == lstart(s, k) && 0 <= all[l] <= k
        &&& forall|i: int| 0 <= i < l ==> #[trigger] all[i] < all[l]
        &&& forall|i: int| l < i < all.len() ==> k < #[trigger] all[i] <= s.len()
        &&& (l == 0 && all[l] == 0 || s[all[l] - 1] == '\n')
        &&& forall|i: int| all[l] <= i < k ==> s[i] != '\n'
    })
{
    starts_facts(s, k); starts_prefix(s, k, s.len() as int); starts_facts(s, s.len() as int);
    line_start_clean(s, k);
}
proof fn line_start_clean(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures forall|i: int| lstart(s, k) <= i < k ==> s[i] != '\n'
    decreases k
{ if k > 0 { line_start_clean(s, k - 1); } }
/// a line-start table: the byte offset of every line start, closed by the end of the text
spec fn table_ok(t: Seq<int>, s: Seq<char>) -> bool {
    let all = starts(s, s.len() as int);
    &&& t.len() == all.len() + (if off(s, all.last()) == blen(s) { 0int } else { 1 })
    &&& forall|i: int| 0 <= i < all.len() ==> #[trigger] t[i] == off(s, all[i])
    &&& t.last() == blen(s)
}
proof fn table_sorted(t: Seq<int>, s: Seq<char>)
    requires table_ok(t, s)
    ensures ascending(t), t.len() >= 1, t[0] == 0, forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] t[i] <= blen(s)
{
    let n = s.len() as int;
    let all = starts(s, n);
    starts_facts(s, n); off_mono_all(s);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] < t[j] by {
        if j < all.len() { off_mono(s, all[i], all[j]); }
        else { off_mono(s, all[i], all.last()); off_mono(s, all.last(), n); }
    }
    assert(t[0] == off(s, all[0]));
}
spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
spec fn ints32(v: Seq<u32>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
