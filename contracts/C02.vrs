// C02: ERB templates are masked to Ruby byte for byte.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::ops::Range;
verus! {
//@include prelude.vrs
//@include utf8_mask.vrs

spec fn is_at(h: Seq<u8>, n: Seq<u8>, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) =~= n }
spec fn found(h: Seq<u8>, n: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(i) => is_at(h, n, i as int) && forall|j: int| 0 <= j < i ==> !is_at(h, n, j),
        None => forall|j: int| !is_at(h, n, j),
    }
}
#[verifier::external_body]
fn vp_position_window(h: &[u8], n: &[u8]) -> (r: Option<usize>)
    requires n@.len() > 0
    ensures found(h@, n@, r)
{ h.windows(n.len()).position(|w| w == n) }
#[verifier::external_body]
fn vp_bs2(a: u8, b: u8) -> (r: &'static [u8]) ensures r@ == seq![a, b] { unimplemented!() }

//@struct crates/ruby-analysis/src/indexer/erb.rs :: EmbeddedRuby

// ---- specification: what an ERB template means ----
spec fn two(s: Seq<u8>, a: u8, b: u8, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == a && s[i + 1] == b }
/// first i >= from with s[i], s[i+1] == a, b
spec fn find2(s: Seq<u8>, a: u8, b: u8, from: int) -> Option<int>
    decreases s.len() - from
{
    if from < 0 || from + 1 >= s.len() { None } else if s[from] == a && s[from + 1] == b { Some(from) } else { find2(s, a, b, from + 1) }
}
pub struct Tag { pub bs: int, pub be: int, pub close: int }
/// The code tags of the template from `c` on, and the first unclosed tag.
#[verifier::opaque]
spec fn scan(s: Seq<u8>, c: int) -> (Seq<Tag>, Option<int>)
    decreases s.len() - c
{
    if c < 0 || c > s.len() { (Seq::empty(), None) } else {
    match find2(s, 60u8, 37u8, c) {            // <%
        None => (Seq::empty(), None),
        Some(open) => {
            let from = if open + 3 <= s.len() { open + 3 } else { s.len() as int };
            match find2(s, 37u8, 62u8, from) {  // %>
                None => (Seq::empty(), Some(open)),
                Some(close) => if close + 2 <= c || close + 2 > s.len() { (Seq::empty(), None) } else {
                    let rest = scan(s, close + 2);
                    match tag(s, open, close) { Some(t) => (seq![t] + rest.0, rest.1), None => rest }
                },
            }
        },
    } }
}
/// The Ruby body of one closed tag, if it has any: not for <%# and <%%, `-` and `=` trimmed.
#[verifier::opaque]
spec fn tag(s: Seq<u8>, open: int, close: int) -> Option<Tag> {
    let b0 = open + 2;
    if s[b0] == 37 || s[b0] == 35 { None } else {
        let b1 = if s[b0] == 45 { b0 + 1 } else { b0 };
        let bs = if s[b1] == 61 { b1 + 1 } else { b1 };
        let be = if close > bs && s[close - 1] == 45 { close - 1 } else { close };
        if bs >= be { None } else { Some(Tag { bs, be, close }) }
    }
}
spec fn is_ruby(tags: Seq<Tag>, i: int) -> bool { exists|k: int| 0 <= k < tags.len() && (#[trigger] tags[k]).bs <= i < tags[k].be }
spec fn is_close(tags: Seq<Tag>, i: int) -> bool { exists|k: int| 0 <= k < tags.len() && (#[trigger] tags[k]).close == i }
spec fn blank(b: u8) -> u8 { if b == 10 || b == 13 { b } else { 32 } }
/// The masked byte at i.
#[verifier::opaque]
spec fn shown(s: Seq<u8>, tags: Seq<Tag>, i: int) -> u8 {
    if is_ruby(tags, i) { s[i] } else if is_close(tags, i) { 59u8 } else { blank(s[i]) }
}
#[verifier::opaque]
spec fn tags_ok(s: Seq<u8>, tags: Seq<Tag>, end: int) -> bool {
    forall|k: int| 0 <= k < tags.len() ==> {
        let t = #[trigger] tags[k];
        &&& 2 <= t.bs < t.be <= t.close && t.close + 2 <= end <= s.len()
        &&& s[t.bs - 1] < 0x80 && s[t.be] < 0x80 && s[t.close] == 37
    }
}
#[verifier::opaque]
spec fn masked_ok(s: Seq<u8>, m: Seq<u8>, tags: Seq<Tag>) -> bool {
    m.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] m[i] == shown(s, tags, i)
}

proof fn find2_spec(s: Seq<u8>, a: u8, b: u8, from: int)
    requires 0 <= from
    ensures match find2(s, a, b, from) {
        Some(i) => from <= i && two(s, a, b, i) && forall|j: int| from <= j < i ==> !two(s, a, b, j),
        None => forall|j: int| from <= j ==> !two(s, a, b, j),
    }
    decreases s.len() - from
{
    if from + 1 >= s.len() {} else if s[from] == a && s[from + 1] == b {} else {
        find2_spec(s, a, b, from + 1);
        assert(!two(s, a, b, from));
    }
}
/// A search in the tail of s is find2.
proof fn found_is_find2(s: Seq<u8>, from: int, a: u8, b: u8, r: Option<usize>)
    requires 0 <= from <= s.len(), found(s.subrange(from, s.len() as int), seq![a, b], r)
    ensures match r { Some(i) => find2(s, a, b, from) == Some(from + i) && two(s, a, b, from + i), None => find2(s, a, b, from) is None }
{
    let h = s.subrange(from, s.len() as int);
    let n = seq![a, b];
    assert forall|j: int| 0 <= j implies is_at(h, n, j) == two(s, a, b, from + j) by {
        if j + 2 <= h.len() {
            assert(h.subrange(j, j + 2)[0] == s[from + j]);
            assert(h.subrange(j, j + 2)[1] == s[from + j + 1]);
            if two(s, a, b, from + j) { assert(h.subrange(j, j + 2) =~= n); }
            if is_at(h, n, j) { assert(h.subrange(j, j + 2) =~= n); assert(n[0] == a && n[1] == b); }
        }
    }
    find2_spec(s, a, b, from);
    match r {
        Some(i) => {
            assert(two(s, a, b, from + i));
            match find2(s, a, b, from) {
                Some(k) => { if k < from + i { assert(!is_at(h, n, k - from)); } },
                None => {},
            }
        },
        None => {
            match find2(s, a, b, from) { Some(k) => { assert(!is_at(h, n, k - from)); }, None => {} }
        },
    }
}
proof fn scan_step(s: Seq<u8>, c: int)
    requires 0 <= c <= s.len()
    ensures ({
        let o = find2(s, 60u8, 37u8, c);
        match o {
            None => scan(s, c) == (Seq::<Tag>::empty(), None::<int>),
            Some(open) => {
                let from = if open + 3 <= s.len() { open + 3 } else { s.len() as int };
                c <= open && two(s, 60u8, 37u8, open) && match find2(s, 37u8, 62u8, from) {
                    None => scan(s, c) == (Seq::<Tag>::empty(), Some(open)),
                    Some(close) => from <= close && two(s, 37u8, 62u8, close) && scan(s, c) == (match tag(s, open, close) { Some(t) => (seq![t] + scan(s, close + 2).0, scan(s, close + 2).1), None => scan(s, close + 2) }),
                }
            }
        }
    })
{
    reveal_with_fuel(scan, 1);
    find2_spec(s, 60u8, 37u8, c);
    match find2(s, 60u8, 37u8, c) { Some(open) => { find2_spec(s, 37u8, 62u8, if open + 3 <= s.len() { open + 3 } else { s.len() as int }); }, None => {} }
}
/// Masking keeps the text valid UTF-8.
proof fn masked_is_utf8(s: Seq<u8>, m: Seq<u8>, tags: Seq<Tag>, end: int)
    requires valid_utf8(s), tags_ok(s, tags, end), masked_ok(s, m, tags)
    ensures valid_utf8(m), m.len() == s.len()
{
    reveal(shown); reveal(masked_ok); reveal(tags_ok);
    assert forall|i: int| 1 <= i < s.len() && s[i - 1] >= 0x80 && #[trigger] s[i] >= 0x80 implies kept(s, m, i) == kept(s, m, i - 1) by {
        assert(m[i] == shown(s, tags, i)); assert(m[i - 1] == shown(s, tags, i - 1));
        if is_ruby(tags, i) {
            let k = choose|k: int| 0 <= k < tags.len() && (#[trigger] tags[k]).bs <= i < tags[k].be;
            assert(s[tags[k].bs - 1] < 0x80);
            assert(tags[k].bs <= i - 1 < tags[k].be);
            assert(is_ruby(tags, i - 1));
        }
        if is_ruby(tags, i - 1) {
            let k = choose|k: int| 0 <= k < tags.len() && (#[trigger] tags[k]).bs <= i - 1 < tags[k].be;
            assert(s[tags[k].be] < 0x80);
            assert(tags[k].bs <= i < tags[k].be);
            assert(is_ruby(tags, i));
        }
    }
    assert(rel(s, m)) by {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] m[i] == s[i] || m[i] < 0x80 by { assert(m[i] == shown(s, tags, i)); }
    }
    assert(s.subrange(0, s.len() as int) =~= s); assert(m.subrange(0, m.len() as int) =~= m);
    rel_valid(s, m, 0);
}
proof fn later(s: Seq<u8>, tags: Seq<Tag>, a: int, b: int)
    requires tags_ok(s, tags, a), a <= b <= s.len()
    ensures tags_ok(s, tags, b)
{ reveal(tags_ok); }
/// The bookkeeping of one more tag.
proof fn add_tag(s: Seq<u8>, m0: Seq<u8>, m1: Seq<u8>, tags: Seq<Tag>, t: Tag, cursor0: int)
    requires
        0 <= cursor0, tags_ok(s, tags, cursor0), masked_ok(s, m0, tags), cursor0 <= t.bs - 2, t.bs < t.be <= t.close, t.close + 2 <= s.len(),
        m1.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] m1[i] == (if i == t.close { 59u8 } else if t.bs <= i < t.be { s[i] } else { m0[i] }),
    ensures masked_ok(s, m1, tags.push(t)), s[t.bs - 1] < 0x80 && s[t.be] < 0x80 && s[t.close] == 37 ==> tags_ok(s, tags.push(t), t.close + 2)
{
    reveal(shown); reveal(masked_ok); reveal(tags_ok);
    let ts = tags.push(t);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] m1[i] == shown(s, ts, i) by {
        assert(m0[i] == shown(s, tags, i));
        assert(ts[tags.len() as int] == t);
        if is_ruby(tags, i) { let k = choose|k: int| 0 <= k < tags.len() && (#[trigger] tags[k]).bs <= i < tags[k].be; assert(ts[k] == tags[k]); assert(is_ruby(ts, i)); assert(i < cursor0); }
        if is_close(tags, i) { let k = choose|k: int| 0 <= k < tags.len() && (#[trigger] tags[k]).close == i; assert(ts[k] == tags[k]); assert(is_close(ts, i)); assert(i < cursor0); }
        if is_ruby(ts, i) { let k = choose|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]).bs <= i < ts[k].be; if k < tags.len() { assert(ts[k] == tags[k]); assert(is_ruby(tags, i)); } }
        if is_close(ts, i) { let k = choose|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]).close == i; if k < tags.len() { assert(ts[k] == tags[k]); assert(is_close(tags, i)); } }
    }
}

impl EmbeddedRuby {
//@fn crates/ruby-analysis/src/indexer/erb.rs :: EmbeddedRuby::source
//@ ret r
//@ spec
    ensures r@ == self.source@
//@end
//@fn crates/ruby-analysis/src/indexer/erb.rs :: EmbeddedRuby::unclosed_tag_offset
//@ ret r
//@ spec
    ensures r == self.unclosed_tag_offset
//@end
//@fn crates/ruby-analysis/src/indexer/erb.rs :: EmbeddedRuby::is_ruby_offset
//@ ret r
//@ rewrite? $x:e.iter().any(|$r:i| $c) ==> { let mut found__fresh = false; let mut idx__fresh: usize = 0; while idx__fresh < $x.len() && !found__fresh { let $r = &$x[idx__fresh]; if $c { found__fresh = true; } idx__fresh += 1; } found__fresh }
//@ spec
    ensures r == exists|k: int| 0 <= k < self.ruby_ranges@.len() && (#[trigger] self.ruby_ranges@[k]).start <= offset < self.ruby_ranges@[k].end
//@ loop 0
    invariant idx_1 <= self.ruby_ranges@.len(),
        found_1 == exists|k: int| 0 <= k < idx_1 && (#[trigger] self.ruby_ranges@[k]).start <= offset < self.ruby_ranges@[k].end
    decreases self.ruby_ranges@.len() - idx_1
//@end
}

//@fn crates/ruby-analysis/src/indexer/erb.rs :: find_bytes
//@ ret r
//@ rewrite? $h:e.windows($n:e.len()).position(|$w:i| $w == $n) ==> vp_position_window($h, $n)
//@ spec
    requires needle@.len() > 0
    ensures found(haystack@, needle@, r)
//@end

//@fn crates/ruby-analysis/src/indexer/erb.rs :: mask_erb
//@ ret r
//@ rewrite? for ($i:i, $x:i) in $v:e.iter().copied().enumerate() $b:b ==> let mut vp_k: usize = 0; while vp_k < $v.len() { let $i = vp_k; let $x = $v[vp_k]; vp_k += 1; $b }
//@ rewrite? let mut ruby_ranges = Vec::new(); ==> let mut ruby_ranges: Vec<Range<usize>> = Vec::new();
//@ rewrite? find_bytes($h, b"<%") ==> find_bytes($h, vp_bs2(b'<', b'%'))
//@ rewrite? find_bytes($h, b"%>") ==> find_bytes($h, vp_bs2(b'%', b'>'))
//@ rewrite? while let Some($x:i) = $e $b:b ==> loop { let Some($x) = $e else { vp_text!("proof { found_is_find2(s, cursor as int, 60u8, 37u8, None); scan_step(s, cursor as int); assert(tags + Seq::<Tag>::empty() =~= tags); }"); break; }; $b }
//@ rewrite? $x:e.saturating_add($n).min($m) ==> vp_min($x.saturating_add($n), $m)
//@ rewrite? $d:e[$a..$b].copy_from_slice($s) ==> vp_copy_range(&mut $d, $a, $b, $s)
//@ spec
    ensures
        // one byte of Ruby view for every byte of template
        encode_utf8(r.source@).len() == encode_utf8(template@).len(),
        masked_ok(encode_utf8(template@), encode_utf8(r.source@), scan(encode_utf8(template@), 0).0),
        // the Ruby ranges are exactly the bodies shown
        r.ruby_ranges@.len() == scan(encode_utf8(template@), 0).0.len(),
        forall|k: int| 0 <= k < r.ruby_ranges@.len() ==> (#[trigger] r.ruby_ranges@[k]).start == scan(encode_utf8(template@), 0).0[k].bs && r.ruby_ranges@[k].end == scan(encode_utf8(template@), 0).0[k].be,
        // the first unclosed tag is reported where it is
        match r.unclosed_tag_offset { Some(o) => scan(encode_utf8(template@), 0).1 == Some(o as int), None => scan(encode_utf8(template@), 0).1 is None },
//@ afterlet bytes
    let ghost s = encode_utf8(template@);
    proof { encode_utf8_valid_utf8(template@); assert(bytes@ == s); }
//@ loop 0
    invariant s == bytes@, s.len() == masked@.len(), vp_k <= s.len(),
        forall|i: int| 0 <= i < vp_k ==> #[trigger] masked@[i] == blank(s[i]),
        forall|i: int| vp_k <= i < s.len() ==> #[trigger] masked@[i] == 32,
    decreases s.len() - vp_k
//@ afterlet unclosed_tag_offset
    let ghost mut tags = Seq::<Tag>::empty();
    proof { reveal(shown); reveal(masked_ok); reveal(tags_ok); assert(masked_ok(s, masked@, tags)); assert(tags + scan(s, 0).0 =~= scan(s, 0).0); }
//@ loop 1
    invariant_except_break
        unclosed_tag_offset is None,
        scan(s, 0).0 == tags + scan(s, cursor as int).0, scan(s, 0).1 == scan(s, cursor as int).1,
    invariant
        s == bytes@, s == encode_utf8(template@), valid_utf8(s), 0 <= cursor <= s.len(), s.len() <= usize::MAX,
        tags_ok(s, tags, cursor as int), masked_ok(s, masked@, tags), masked@.len() == s.len(),
        ruby_ranges@.len() == tags.len(),
        forall|k: int| 0 <= k < tags.len() ==> (#[trigger] ruby_ranges@[k]).start == tags[k].bs && ruby_ranges@[k].end == tags[k].be,
    ensures
        scan(s, 0).0 == tags,
        match unclosed_tag_offset { Some(o) => scan(s, 0).1 == Some(o as int), None => scan(s, 0).1 is None },
    decreases s.len() - cursor
//@ afterlet open
    let ghost c0 = cursor as int;
    let ghost m0 = masked@;
    proof { found_is_find2(s, c0, 60u8, 37u8, Some(relative_open)); scan_step(s, c0); }
//@ afterlet search_start
    proof {
        assert(search_start == if open + 3 <= s.len() { open + 3 } else { s.len() as int });
    }
//@ before unclosed_tag_offset = Some
    proof { found_is_find2(s, search_start as int, 37u8, 62u8, None); assert(find2(s, 37u8, 62u8, search_start as int) is None); assert(scan(s, c0) == (Seq::<Tag>::empty(), Some(open as int))); assert(tags + Seq::<Tag>::empty() =~= tags); }
//@ after cursor = close
    proof {
        found_is_find2(s, search_start as int, 37u8, 62u8, Some(relative_close));
        assert(find2(s, 37u8, 62u8, search_start as int) == Some(close as int));
        assert(scan(s, c0) == (match tag(s, open as int, close as int) { Some(t) => (seq![t] + scan(s, close + 2).0, scan(s, close + 2).1), None => scan(s, close + 2) }));
        assert(s[open + 1] == 37 && s[close as int] == 37);
        later(s, tags, c0, close + 2);
        reveal(tag);
    }
//@ after ruby_ranges.push
    proof {
        let t = Tag { bs: body_start as int, be: body_end as int, close: close as int };
        assert(tag(s, open as int, close as int) == Some(t)) by { reveal(tag); }
        assert(s[t.bs - 1] < 0x80);
        add_tag(s, m0, masked@, tags, t, c0);
        assert(tags + (seq![t] + scan(s, close + 2).0) =~= tags.push(t) + scan(s, close + 2).0);
        tags = tags.push(t);
    }
//@ before let source
    proof { masked_is_utf8(s, masked@, tags, cursor as int); }
//@end
}
fn main() {}
