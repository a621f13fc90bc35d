// C13: semantic tokens decode to their places, selection ranges nest around the cursor.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
//@include prelude.vrs
//@include text.vrs
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
/// An internal `assert!` of the code: proved never to fire.
fn vp_check(c: bool) requires c {}
/// u32::try_from(n).expect(..): aborts on a text of 4 GiB or more
fn vp_u32(n: usize) -> (r: u32) ensures r == n { if n > u32::MAX as usize { vp_abort() } n as u32 }
/// the same elements, equally often
spec fn perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.to_multiset() == b.to_multiset() }
/// slice::sort_by_key with the key function and the order of its result type (assumed)
#[verifier::external_body]
fn vp_sort_by_key<T, K, F: Fn(&T) -> K>(v: &mut Vec<T>, f: F, key: Ghost<spec_fn(T) -> K>, le: Ghost<spec_fn(K, K) -> bool>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i],)), forall|x: T, k: K| #[trigger] f.ensures((&x,), k) ==> k == key@(x)
    ensures perm(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> le@(key@(#[trigger] final(v)@[i]), key@(#[trigger] final(v)@[j])) { unimplemented!() }
proof fn perm_mem<T>(a: Seq<T>, b: Seq<T>)
    requires perm(a, b)
    ensures a.len() == b.len(), forall|x: T| #[trigger] a.contains(x) <==> b.contains(x)
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|x: T| #[trigger] a.contains(x) <==> b.contains(x) by { assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); }
}

// ---- semantic tokens ----
//@enum crates/ruby-analysis/src/indexer/semantic_tokens.rs :: SemanticTokenKind ; derive Clone, Copy
//@enum crates/ruby-analysis/src/indexer/semantic_tokens.rs :: SemanticTokenModifierKind ; derive Clone, Copy
type SemanticTokenType = SemanticTokenKind;
type SemanticTokenModifier = SemanticTokenModifierKind;
//@struct crates/ruby-analysis/src/indexer/semantic_tokens.rs :: SemanticTokenData ; derive Clone, Copy
//@struct crates/ruby-analysis/src/indexer/semantic_tokens.rs :: PlacedToken ; derive Clone, Copy
type SemanticToken = SemanticTokenData;
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
impl TextRange {
//@fn crates/ruby-analysis/src/core/type_store.rs :: TextRange::new
//@ sig fn new(file_id: SourceFileId, start_byte: u32, end_byte: u32) -> (r: Self)
//@ rewrite? assert!($c:a, $m:a); ==> vp_check($c);
//@ spec
    requires start_byte <= end_byte
    ensures r.file_id == file_id, r.start_byte == start_byte, r.end_byte == end_byte
//@end
}
//@struct crates/ruby-analysis/src/core/source_position.rs :: SourcePosition ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/source_position.rs :: SourceRange ; derive Clone, Copy, PartialEq, Eq, Structural
impl SourcePosition {
//@fn crates/ruby-analysis/src/core/source_position.rs :: SourcePosition::new
//@ sig fn new(line: u32, character: u32) -> (r: Self)
//@ spec
    ensures r.line == line, r.character == character
//@end
}
impl SourceRange {
//@fn crates/ruby-analysis/src/core/source_position.rs :: SourceRange::new
//@ sig fn new(start: SourcePosition, end: SourcePosition) -> (r: Self)
//@ spec
    ensures r.start == start, r.end == end
//@end
}
/// the line table: proved under C01, with these contracts
#[verifier::external_body] pub struct SourceDocument { _p: u8 }
impl SourceDocument {
    uninterp spec fn of(&self, s: Seq<char>) -> bool;
    uninterp spec fn id(&self) -> SourceFileId;
    #[verifier::external_body] fn file_id(&self) -> (r: SourceFileId) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body] fn offset_to_line_character(&self, content: &str, offset: usize) -> (r: (u32, u32))
        requires self.of(content@), blen(content@) <= u32::MAX
        ensures exists|k: int| floor_idx(content@, offset as int, k) && #[trigger] pos_is(content@, k, r.0 as int, r.1 as int) { unimplemented!() }
    #[verifier::external_body] fn line_character_to_offset(&self, content: &str, line: u32, character: u32) -> (r: usize)
        requires self.of(content@), blen(content@) <= u32::MAX
        ensures r <= blen(content@), r == back(content@, line as int, character as int) { unimplemented!() }
}
/// where a line and column are in the text (C01 says which byte)
uninterp spec fn back(s: Seq<char>, line: int, character: int) -> int;
/// the editor position of a byte: its line, and the UTF-16 units before it on the line
spec fn place(d: RubyDocument, o: int) -> SourcePosition {
    let s = d.content@; let k = choose|k: int| #[trigger] floor_idx(s, o, k);
    SourcePosition { line: line_of(s, k) as u32, character: units(s, lstart(s, k), k) as u32 }
}
spec fn pos_le(a: SourcePosition, b: SourcePosition) -> bool { a.line < b.line || (a.line == b.line && a.character <= b.character) }
proof fn pos_small(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), blen(s) <= u32::MAX
    ensures 0 <= line_of(s, k) <= u32::MAX, 0 <= units(s, lstart(s, k), k) <= u32::MAX
{ starts_facts(s, k); off_mono_all(s); off_mono(s, 0, lstart(s, k)); units_facts(s, lstart(s, k), k); units_le_off(s, lstart(s, k), k); }
proof fn place_is(d: RubyDocument, o: int, k: int)
    requires floor_idx(d.content@, o, k), blen(d.content@) <= u32::MAX
    ensures place(d, o).line == line_of(d.content@, k), place(d, o).character == units(d.content@, lstart(d.content@, k), k)
{ let s = d.content@; let j = choose|j: int| #[trigger] floor_idx(s, o, j); floor_unique(s, o, j, k); pos_small(s, k); }
proof fn line_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures line_of(s, i) <= line_of(s, j), line_of(s, i) == line_of(s, j) ==> lstart(s, i) == lstart(s, j), 0 <= lstart(s, i) <= i
    decreases j
{ starts_facts(s, i); if i < j { line_mono(s, i, j - 1); } }
/// positions grow with offsets
proof fn place_mono(d: RubyDocument, a: int, b: int)
    requires d.ok(), 0 <= a
    ensures a <= b ==> pos_le(place(d, a), place(d, b))
{
    let s = d.content@;
    if a <= b {
        let i = floor_exists(s, a); let j = floor_exists(s, b);
        place_is(d, a, i); place_is(d, b, j); off_mono_all(s);
        if j < i { off_mono(s, j + 1, i); }
        line_mono(s, i, j);
        if line_of(s, i) == line_of(s, j) { units_mono(s, lstart(s, i), i, j); }
    }
}
//@struct crates/ruby-analysis/src/indexer/ruby_document.rs :: RubyDocument ; keep content,source
impl RubyDocument {
    /// its line table is that of its text, and the text is shorter than 4 GiB
    spec fn ok(&self) -> bool { self.source.of(self.content@) && blen(self.content@) <= u32::MAX }
//@fn crates/ruby-analysis/src/indexer/ruby_document.rs :: RubyDocument::analysis_file_id
//@ ret r
//@ spec
    ensures r == self.source.id()
//@end
//@fn crates/ruby-analysis/src/indexer/ruby_document.rs :: RubyDocument::offset_to_position
//@ ret r
//@ spec
    requires self.ok()
    ensures r == place(*self, offset as int)
//@ exit
    proof { let k = floor_exists(self.content@, offset as int); place_is(*self, offset as int, k);
        let j = choose|j: int| floor_idx(self.content@, offset as int, j) && #[trigger] pos_is(self.content@, j, line as int, character as int); floor_unique(self.content@, offset as int, j, k); }
//@end
//@fn crates/ruby-analysis/src/indexer/ruby_document.rs :: RubyDocument::position_to_offset
//@ ret r
//@ spec
    requires self.ok()
    ensures r == back(self.content@, position.line as int, position.character as int), r <= u32::MAX
//@end
//@fn crates/ruby-analysis/src/indexer/ruby_document.rs :: RubyDocument::position_to_analysis_offset
//@ ret r
//@ rewrite? u32::try_from($x:a).expect($m:a) ==> vp_u32($x)
//@ spec
    requires self.ok()
    ensures r == back(self.content@, position.line as int, position.character as int)
//@end
//@fn crates/ruby-analysis/src/indexer/ruby_document.rs :: RubyDocument::text_range_to_source_range
//@ ret r
//@ rewrite? assert_eq!($a:a, $b:a, $m:a); ==> vp_check($a == $b);
//@ spec
    requires self.ok(), range.file_id == self.source.id()
    ensures r.start == place(*self, range.start_byte as int), r.end == place(*self, range.end_byte as int)
//@end
}
#[verifier::external_body] pub struct Location { _p: u8 }
impl Location {
    pub uninterp spec fn a(&self) -> int;
    pub uninterp spec fn b(&self) -> int;
    /// the parser's locations run forwards
    pub open spec fn ok(&self) -> bool { self.a() <= self.b() }
    #[verifier::external_body] fn start_offset(&self) -> (r: usize) ensures r == self.a() { unimplemented!() }
    #[verifier::external_body] fn end_offset(&self) -> (r: usize) ensures r == self.b() { unimplemented!() }
}
//@struct crates/ruby-analysis/src/indexer/semantic_tokens.rs :: TokenVisitor
pub uninterp spec fn type_index(t: SemanticTokenType) -> u32;
pub uninterp spec fn modifier_bits(m: Seq<SemanticTokenModifier>) -> u32;
/// the legend's tables (compared with the legend by the executable contract)
impl TokenVisitor<'_> {
    #[verifier::external_body] fn token_type_to_index(&self, t: SemanticTokenType) -> (r: u32) ensures r == type_index(t) { unimplemented!() }
    #[verifier::external_body] fn token_modifiers_to_bitset(&self, m: &[SemanticTokenModifier]) -> (r: u32) ensures r == modifier_bits(m@) { unimplemented!() }
}
/// s[a..b].chars().map(UTF-16 length).sum::<u32>()
fn vp_units_of(s: &String, a: usize, b: usize) -> (r: u32)
    requires a <= b, boundary(s@, a as int), boundary(s@, b as int), blen(s@) <= u32::MAX
    ensures r == units(s@, idx_of(s@, a as int), idx_of(s@, b as int))
{
    proof { let i = idx_of(s@, a as int); let j = idx_of(s@, b as int); off_mono_all(s@); if j < i { off_mono(s@, j + 1, i); } units_sub(s@, i, j, j - i); units_le_off(s@, i, j); units_facts(s@, i, j); }
    vp_to_u32(vp_utf16_units(vp_substr(s, a, b)))
}
/// a token as the protocol's reader sees it
pub ghost struct Token { pub line: int, pub start: int, pub length: int, pub kind: int, pub bits: int }
spec fn token(t: PlacedToken) -> Token { Token { line: t.line as int, start: t.start as int, length: t.length as int, kind: t.token_type as int, bits: t.token_modifiers_bitset as int } }
/// the protocol: every token's place is relative to the one before it
spec fn decoded(s: Seq<SemanticToken>) -> Seq<Token> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let before = decoded(s.drop_last()); let t = s.last();
        let at = if before.len() == 0 { (0int, 0int) } else { (before.last().line, before.last().start) };
        before.push(Token { line: at.0 + t.delta_line, start: if t.delta_line == 0 { at.1 + t.delta_start } else { t.delta_start as int }, length: t.length as int, kind: t.token_type as int, bits: t.token_modifiers_bitset as int })
    }
}
spec fn placed(s: Seq<PlacedToken>) -> Seq<Token> { s.map_values(|t: PlacedToken| token(t)) }
spec fn in_order(s: Seq<Token>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).line < (#[trigger] s[j]).line || (s[i].line == s[j].line && s[i].start <= s[j].start) }
spec fn le2(x: (u32, u32), y: (u32, u32)) -> bool { x.0 < y.0 || (x.0 == y.0 && x.1 <= y.1) }
/// the token of a location: at its place, with its length, type and modifiers
spec fn token_is(t: PlacedToken, d: RubyDocument, a: int, b: int, kind: u32, bits: u32) -> bool {
    &&& t.line == place(d, a).line && t.start == place(d, a).character && t.token_type == kind && t.token_modifiers_bitset == bits
    &&& t.length == (if place(d, a).line == place(d, b).line { place(d, b).character - place(d, a).character } else { units(d.content@, idx_of(d.content@, a), idx_of(d.content@, b)) })
}
proof fn decoded_push(s: Seq<SemanticToken>, t: SemanticToken)
    ensures decoded(s.push(t)).len() == decoded(s).len() + 1, decoded(s.push(t)).drop_last() == decoded(s),
        decoded(s.push(t)).last() == (Token { line: (if decoded(s).len() == 0 { 0 } else { decoded(s).last().line }) + t.delta_line, start: if t.delta_line == 0 { (if decoded(s).len() == 0 { 0 } else { decoded(s).last().start }) + t.delta_start } else { t.delta_start as int }, length: t.length as int, kind: t.token_type as int, bits: t.token_modifiers_bitset as int })
{ assert(s.push(t).drop_last() =~= s); assert(decoded(s.push(t)).drop_last() =~= decoded(s)); }
proof fn placed_push(s: Seq<PlacedToken>, n: int)
    requires 0 <= n < s.len()
    ensures placed(s.take(n + 1)) == placed(s.take(n)).push(token(s[n])), n > 0 ==> placed(s.take(n)).last() == token(s[n - 1]), placed(s.take(n)).len() == n
{ assert(placed(s.take(n + 1)) =~= placed(s.take(n)).push(token(s[n]))); }
impl<'a> TokenVisitor<'a> {
//@fn crates/ruby-analysis/src/indexer/semantic_tokens.rs :: TokenVisitor::new
//@ sig fn new(document: &'a RubyDocument) -> (r: Self)
//@ spec
    ensures r.document == document, r.placed_tokens@.len() == 0
//@end
//@fn crates/ruby-analysis/src/indexer/semantic_tokens.rs :: TokenVisitor::add_token
//@ rewrite? trace!($c:a); ==>
//@ rewrite? self.document.content[start..end].chars().map(|c| if c.len_utf16() == 2 { 2 } else { 1 }).sum::<u32>() ==> vp_units_of(&self.document.content, start, end)
//@ spec
    requires location.ok(), old(self).document.ok(), boundary(old(self).document.content@, location.a()), boundary(old(self).document.content@, location.b())
    ensures final(self).document == old(self).document, final(self).placed_tokens@.len() == old(self).placed_tokens@.len() + 1, final(self).placed_tokens@.drop_last() == old(self).placed_tokens@,
        token_is(final(self).placed_tokens@.last(), *old(self).document, location.a(), location.b(), type_index(token_type), modifier_bits(modifiers@))
//@ entry
    proof { place_mono(*self.document, location.a(), location.b()); }
//@ exit
    proof { assert(self.placed_tokens@.drop_last() =~= old(self).placed_tokens@); }
//@end
//@fn crates/ruby-analysis/src/indexer/semantic_tokens.rs :: TokenVisitor::into_tokens
//@ sig fn into_tokens(self) -> (r: Vec<SemanticToken>)
//@ rewrite? self.placed_tokens.sort_by_key(|$t:i| $k:a); ==> let mut vp_placed = self.placed_tokens; vp_sort_by_key(&mut vp_placed, |$t: &PlacedToken| -> (u32, u32) { vp_clause!("ensures vp_r == place_key(*token)"); $k }, Ghost(|t: PlacedToken| place_key(t)), Ghost(|x: (u32, u32), y: (u32, u32)| le2(x, y)));
//@ rewrite? Vec::with_capacity($c:a) ==> Vec::new()
//@ rewrite? for $t:i in self.placed_tokens $b:b ==> let mut vp_i: usize = 0; while vp_i < vp_placed.len() { let $t = vp_placed[vp_i]; vp_text!("let ghost vp_before = tokens@"); $b vp_text!("proof { decoded_push(vp_before, tokens@.last()); assert(tokens@ =~= vp_before.push(tokens@.last())); placed_push(vp_placed@, vp_i as int); assert(decoded(tokens@) =~= placed(vp_placed@.take(vp_i + 1))); }"); vp_i += 1; }
//@ spec
    ensures exists|s: Seq<PlacedToken>| #[trigger] perm(self.placed_tokens@, s) && decoded(r@) == placed(s) && in_order(decoded(r@))
//@ loop 0
    invariant vp_i <= vp_placed@.len(), forall|i: int, j: int| 0 <= i < j < vp_placed@.len() ==> le2(place_key(#[trigger] vp_placed@[i]), place_key(#[trigger] vp_placed@[j])),
        decoded(tokens@) == placed(vp_placed@.take(vp_i as int)),
        vp_i == 0 ==> previous_line == 0 && previous_start == 0, vp_i > 0 ==> previous_line == vp_placed@[vp_i - 1].line && previous_start == vp_placed@[vp_i - 1].start,
    decreases vp_placed@.len() - vp_i
//@ exit
    proof { assert(vp_placed@.take(vp_placed@.len() as int) =~= vp_placed@); assert(perm(self.placed_tokens@, vp_placed@)); assert forall|i: int, j: int| 0 <= i < j < vp_placed@.len() implies le2(place_key(#[trigger] vp_placed@[i]), place_key(#[trigger] vp_placed@[j])) by {} }
//@end
}
/// the protocol's token type
pub struct LspToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
//@fn src/capabilities/semantic_tokens.rs :: lsp_token
//@ sig fn lsp_token(token: SemanticTokenData) -> (r: LspToken)
//@ rewrite? SemanticToken { $f:a } ==> LspToken { $f }
//@ spec
    ensures r.delta_line == token.delta_line, r.delta_start == token.delta_start, r.length == token.length, r.token_type == token.token_type, r.token_modifiers_bitset == token.token_modifiers_bitset
//@end

// ---- selection ranges ----
//@fn crates/ruby-analysis/src/indexer/selection_ranges.rs :: u32_offset
//@ ret r
//@ rewrite? u32::try_from($x:a).expect($m:a) ==> vp_u32($x)
//@ spec
    ensures r == offset
//@end
spec fn around(o: TextRange, i: TextRange) -> bool { o.start_byte <= i.start_byte && i.end_byte <= o.end_byte }
spec fn size(r: TextRange) -> int { r.end_byte - r.start_byte }
/// a candidate for a cursor: of the file, not empty, holding the cursor
spec fn holds(r: TextRange, f: SourceFileId, o: u32) -> bool { r.file_id == f && r.start_byte <= o < r.end_byte }
spec fn all_hold(s: Seq<TextRange>, f: SourceFileId, o: u32) -> bool { forall|i: int| 0 <= i < s.len() ==> holds(#[trigger] s[i], f, o) }
/// std::cmp::Reverse
#[derive(Clone, Copy)] pub struct VpReverse(pub u32);
fn vp_reverse(x: u32) -> (r: VpReverse) ensures r.0 == x { VpReverse(x) }
spec fn rank(r: TextRange) -> (u32, VpReverse, u32) { ((r.end_byte - r.start_byte) as u32, VpReverse(r.start_byte), r.end_byte) }
spec fn rank_le(x: (u32, VpReverse, u32), y: (u32, VpReverse, u32)) -> bool { x.0 < y.0 || (x.0 == y.0 && (x.1.0 > y.1.0 || (x.1.0 == y.1.0 && x.2 <= y.2))) }
spec fn ranked(s: Seq<TextRange>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> rank_le(rank(#[trigger] s[i]), rank(#[trigger] s[j])) }
/// Vec::dedup (assumed): equal neighbours become one
#[verifier::external_body]
fn vp_dedup(v: &mut Vec<TextRange>)
    ensures forall|x: TextRange| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x), forall|i: int| 0 <= i < final(v)@.len() - 1 ==> #[trigger] final(v)@[i] != final(v)@[i + 1], ranked(old(v)@) ==> ranked(final(v)@) { v.dedup() }
/// the answer for one cursor, given every syntax extent that holds it
spec fn chain_ok(all: Seq<TextRange>, f: SourceFileId, o: u32, c: Seq<TextRange>) -> bool {
    &&& c.len() > 0
    &&& all.len() == 0 ==> c == seq![TextRange { file_id: f, start_byte: o, end_byte: o }]
    &&& all.len() > 0 ==> forall|k: int| 0 <= k < c.len() ==> all.contains(#[trigger] c[k])
    // inner first, each strictly around the one before
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> around(#[trigger] c[j], #[trigger] c[i]) && c[i] != c[j]
    // none smaller than the first, and what is left out crosses one that is not
    &&& forall|x: TextRange| #[trigger] all.contains(x) ==> size(c[0]) <= size(x) && (c.contains(x) || exists|k: int| 0 <= k < c.len() && !around(x, #[trigger] c[k]) && !around(c[k], x))
}
/// the walk after `n` candidates
spec fn walked(s: Seq<TextRange>, n: int, c: Seq<TextRange>) -> bool {
    &&& 0 <= n <= s.len() && (n > 0 ==> c.len() > 0 && c[0] == s[0]) && (n == 0 ==> c.len() == 0)
    &&& forall|k: int| 0 <= k < c.len() ==> s.take(n).contains(#[trigger] c[k])
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> around(#[trigger] c[j], #[trigger] c[i]) && c[i] != c[j]
    &&& forall|m: int| 0 <= m < n ==> c.contains(#[trigger] s[m]) || exists|k: int| 0 <= k < c.len() && !around(s[m], #[trigger] c[k]) && !around(c[k], s[m])
}
spec fn distinct(s: Seq<TextRange>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
proof fn ranked_distinct(s: Seq<TextRange>, f: SourceFileId, o: u32)
    requires ranked(s), all_hold(s, f, o), forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] != s[i + 1]
    ensures distinct(s)
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] != #[trigger] s[j] by {
        assert(s[i] != s[i + 1]);
        if i + 1 < j { assert(rank_le(rank(s[i]), rank(s[i + 1]))); assert(rank_le(rank(s[i + 1]), rank(s[j]))); }
    }
}
proof fn walk_step(s: Seq<TextRange>, n: int, c: Seq<TextRange>, f: SourceFileId, o: u32)
    requires walked(s, n, c), n < s.len(), ranked(s), distinct(s), all_hold(s, f, o)
    ensures (c.len() == 0 || around(s[n], c.last())) ==> walked(s, n + 1, c.push(s[n])), !(c.len() == 0 || around(s[n], c.last())) ==> walked(s, n + 1, c)
{
    let x = s[n];
    assert(s.take(n + 1)[n] == x);
    assert forall|k: int| 0 <= k < c.len() implies s.take(n + 1).contains(#[trigger] c[k]) && c[k] != x && rank_le(rank(c[k]), rank(x)) by {
        assert(s.take(n).contains(c[k])); let m = choose|m: int| 0 <= m < n && s.take(n)[m] == c[k]; assert(s.take(n + 1)[m] == c[k]); assert(s[m] != s[n]); assert(rank_le(rank(s[m]), rank(s[n])));
    }
    if c.len() == 0 || around(x, c.last()) {
        let d = c.push(x);
        assert(s.take(n + 1).contains(x));
        assert forall|k: int| 0 <= k < d.len() implies s.take(n + 1).contains(#[trigger] d[k]) by { if k < c.len() { assert(d[k] == c[k]); } }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies around(#[trigger] d[j], #[trigger] d[i]) && d[i] != d[j] by { if j == c.len() { assert(d[i] == c[i]); if i < c.len() - 1 { assert(around(c[c.len() - 1], c[i])); } } else { assert(d[i] == c[i] && d[j] == c[j]); } }
        assert forall|m: int| 0 <= m < n + 1 implies d.contains(#[trigger] s[m]) || exists|k: int| 0 <= k < d.len() && !around(s[m], #[trigger] d[k]) && !around(d[k], s[m]) by {
            if m == n { assert(d[c.len() as int] == x); }
            else if c.contains(s[m]) { let k = choose|k: int| 0 <= k < c.len() && c[k] == s[m]; assert(d[k] == s[m]); }
            else { let k = choose|k: int| 0 <= k < c.len() && !around(s[m], #[trigger] c[k]) && !around(c[k], s[m]); assert(d[k] == c[k]); }
        }
    } else {
        let l = c[c.len() - 1];
        assert(holds(x, f, o)); 
        assert(s.take(n).contains(l)); let q = choose|q: int| 0 <= q < n && s.take(n)[q] == l; assert(s[q] == l); assert(holds(s[q], f, o));
        assert(!around(l, x));
        assert forall|m: int| 0 <= m < n + 1 implies c.contains(#[trigger] s[m]) || exists|k: int| 0 <= k < c.len() && !around(s[m], #[trigger] c[k]) && !around(c[k], s[m]) by {
            if m == n { assert(!around(s[m], c[c.len() - 1]) && !around(c[c.len() - 1], s[m])); }
        }
    }
}
proof fn walk_done(all: Seq<TextRange>, s: Seq<TextRange>, c: Seq<TextRange>, f: SourceFileId, o: u32)
    requires walked(s, s.len() as int, c), ranked(s), all_hold(s, f, o), forall|x: TextRange| #[trigger] s.contains(x) <==> all.contains(x), s.len() > 0
    ensures chain_ok(all, f, o, c), all.len() > 0
{
    assert(s.take(s.len() as int) =~= s); assert(s.contains(s[0]));
    assert forall|k: int| 0 <= k < c.len() implies all.contains(#[trigger] c[k]) by { assert(s.contains(c[k])); }
    assert forall|x: TextRange| #[trigger] all.contains(x) implies size(c[0]) <= size(x) && (c.contains(x) || exists|k: int| 0 <= k < c.len() && !around(x, #[trigger] c[k]) && !around(c[k], x)) by {
        assert(s.contains(x)); let m = choose|m: int| 0 <= m < s.len() && s[m] == x; assert(holds(s[0], f, o)); assert(holds(s[m], f, o)); if m > 0 { assert(rank_le(rank(s[0]), rank(s[m]))); }
    }
}
//@struct crates/ruby-analysis/src/indexer/selection_ranges.rs :: SelectionRangeCollector
/// candidates[i].push(x)
#[verifier::external_body]
fn vp_push_at(v: &mut Vec<Vec<TextRange>>, i: usize, x: TextRange)
    requires i < old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), forall|j: int| 0 <= j < old(v)@.len() && j != i ==> (#[trigger] final(v)@[j])@ == old(v)@[j]@, final(v)@[i as int]@ == old(v)@[i as int]@.push(x) { v[i].push(x) }
#[verifier::external_body]
fn vp_take_at(v: &mut Vec<Vec<TextRange>>, i: usize) -> (r: Vec<TextRange>)
    requires i < old(v)@.len()
    ensures r@ == old(v)@[i as int]@, final(v)@.len() == old(v)@.len(), forall|j: int| 0 <= j < old(v)@.len() && j != i ==> (#[trigger] final(v)@[j])@ == old(v)@[j]@ { std::mem::take(&mut v[i]) }
impl SelectionRangeCollector<'_> {
    /// one list per cursor, of extents that hold it
    spec fn wf(&self) -> bool { self.candidates@.len() == self.byte_offsets@.len() && forall|i: int| 0 <= i < self.byte_offsets@.len() ==> all_hold((#[trigger] self.candidates@[i])@, self.file_id, self.byte_offsets@[i]) }
//@fn crates/ruby-analysis/src/indexer/selection_ranges.rs :: SelectionRangeCollector::collect_location
//@ sig fn collect_location(&mut self, location: &Location)
//@ rewrite? for (index, offset) in self.byte_offsets.iter().copied().enumerate() $b:b ==> let mut vp_i: usize = 0; while vp_i < self.byte_offsets.len() { let index = vp_i; let offset = self.byte_offsets[vp_i]; vp_i += 1; $b }
//@ rewrite? self.candidates[$i:a].push($x:a) ==> vp_push_at(&mut self.candidates, $i, $x)
//@ spec
    requires old(self).wf(), location.ok()
    ensures final(self).wf(), final(self).byte_offsets == old(self).byte_offsets, final(self).file_id == old(self).file_id,
        forall|i: int| 0 <= i < old(self).byte_offsets@.len() ==> (#[trigger] final(self).candidates@[i])@ == collected(old(self).candidates@[i]@, old(self).file_id, location.a(), location.b(), old(self).byte_offsets@[i] as int)
//@ loop 0
    invariant vp_i <= self.byte_offsets@.len(), self.byte_offsets == old(self).byte_offsets, self.file_id == old(self).file_id, old(self).wf(), start == location.a(), end == location.b(), start < end,
        self.candidates@.len() == old(self).candidates@.len(),
        forall|i: int| 0 <= i < self.byte_offsets@.len() ==> (#[trigger] self.candidates@[i])@ == (if i < vp_i { collected(old(self).candidates@[i]@, old(self).file_id, location.a(), location.b(), old(self).byte_offsets@[i] as int) } else { old(self).candidates@[i]@ })
    decreases self.byte_offsets@.len() - vp_i
//@end
//@fn crates/ruby-analysis/src/indexer/selection_ranges.rs :: SelectionRangeCollector::finish
//@ sig fn finish(self) -> (r: Vec<Vec<TextRange>>)
//@ rewrite? self.candidates ==> vp_all
//@ rewrite? for (index, ranges) in vp_all.iter_mut().enumerate() $b:b ==> let mut vp_all = self.candidates; let mut vp_i: usize = 0; while vp_i < vp_all.len() { let index = vp_i; let mut vp_ranges = vp_take_at(&mut vp_all, vp_i); vp_text!("let ghost vp_in = vp_ranges@; proof { assert(vp_in == self.candidates@[vp_i as int]@); }"); let ranges = &mut vp_ranges; $b vp_text!("let ghost vp_k = vp_i as int; proof { assert(vp_in.len() == 0 ==> vp_ranges@ =~= seq![TextRange { file_id: self.file_id, start_byte: self.byte_offsets@[vp_k], end_byte: self.byte_offsets@[vp_k] }]); assert(chain_ok(vp_in, self.file_id, self.byte_offsets@[vp_k], vp_ranges@)); }"); vp_all.set(vp_i, vp_ranges); vp_i += 1; }
//@ rewrite? ranges.sort_by_key(|range| $k:b); ==> vp_sort_by_key(ranges, |range: &TextRange| -> (u32, VpReverse, u32) { vp_clause!("requires range.start_byte <= range.end_byte ensures vp_r == rank(*range)"); $k }, Ghost(|x: TextRange| rank(x)), Ghost(|x: (u32, VpReverse, u32), y: (u32, VpReverse, u32)| rank_le(x, y))); vp_text!("let ghost vp_sorted = ranges@; proof { perm_mem(vp_in, ranges@); all_held(vp_in, ranges@, self.file_id, self.byte_offsets@[index as int]); }");
//@ rewrite? ranges.dedup(); ==> vp_dedup(ranges); vp_text!("let ghost vp_s = ranges@; proof { all_held(vp_sorted, vp_s, self.file_id, self.byte_offsets@[index as int]); ranked_distinct(vp_s, self.file_id, self.byte_offsets@[index as int]); assert(vp_s.take(0) =~= Seq::empty()); }");
//@ rewrite? std::cmp::Reverse($x:a) ==> vp_reverse($x)
//@ rewrite? for range in ranges.drain(..) $b:b ==> let mut vp_j: usize = 0; while vp_j < ranges.len() { let range = ranges[vp_j]; vp_text!("proof { walk_step(vp_s, vp_j as int, chain@, self.file_id, self.byte_offsets@[index as int]); }"); vp_j += 1; $b }
//@ rewrite? let Some(inner) = chain.last() else $b:b; ==> let vp_none = chain.len() == 0; if vp_none $b let inner = chain[chain.len() - 1];
//@ rewrite? let mut chain = Vec::new(); ==> let mut chain: Vec<TextRange> = Vec::new();
//@ rewrite? if chain.is_empty() $b:b ==> vp_text!("proof { if vp_s.len() > 0 { walk_done(vp_in, vp_s, chain@, self.file_id, self.byte_offsets@[index as int]); } else { assert(vp_in.len() == 0) by { if vp_in.len() > 0 { assert(vp_in.contains(vp_in[0])); assert(vp_sorted.contains(vp_in[0])); assert(vp_s.contains(vp_in[0])); } } } }"); if chain.is_empty() $b
//@ rewrite? $x:e.is_empty() ==> ($x.len() == 0)
//@ spec
    requires self.wf()
    ensures r@.len() == self.byte_offsets@.len(), forall|i: int| 0 <= i < r@.len() ==> chain_ok(self.candidates@[i]@, self.file_id, self.byte_offsets@[i], (#[trigger] r@[i])@)
//@ loop 0
    invariant vp_i <= vp_all@.len(), self.wf(), vp_all@.len() == self.byte_offsets@.len(),
        forall|i: int| 0 <= i < vp_i ==> chain_ok(self.candidates@[i]@, self.file_id, self.byte_offsets@[i], (#[trigger] vp_all@[i])@),
        forall|i: int| vp_i <= i < vp_all@.len() ==> (#[trigger] vp_all@[i])@ == self.candidates@[i]@,
    decreases vp_all@.len() - vp_i
//@ loop 1
    invariant vp_j <= ranges@.len(), ranges@ == vp_s, walked(vp_s, vp_j as int, chain@), ranked(vp_s), distinct(vp_s), all_hold(vp_s, self.file_id, self.byte_offsets@[index as int])
    decreases ranges@.len() - vp_j
//@end
}
spec fn collected(s: Seq<TextRange>, f: SourceFileId, a: int, b: int, o: int) -> Seq<TextRange> { if a <= o < b { s.push(TextRange { file_id: f, start_byte: a as u32, end_byte: b as u32 }) } else { s } }
proof fn all_held(a: Seq<TextRange>, b: Seq<TextRange>, f: SourceFileId, o: u32)
    requires all_hold(a, f, o), forall|x: TextRange| #[trigger] b.contains(x) ==> a.contains(x)
    ensures all_hold(b, f, o)
{ assert forall|i: int| 0 <= i < b.len() implies holds(#[trigger] b[i], f, o) by { assert(b.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(holds(a[j], f, o)); } }
spec fn place_key(t: PlacedToken) -> (u32, u32) { (t.line, t.start) }

// ---- the answer ----
/// the protocol's types
#[derive(Clone, Copy)] pub struct Position { pub line: u32, pub character: u32 }
#[derive(Clone, Copy)] pub struct Range { pub start: Position, pub end: Position }
impl Position { fn new(line: u32, character: u32) -> (r: Self) ensures r.line == line, r.character == character { Position { line, character } } }
impl Range { fn new(start: Position, end: Position) -> (r: Self) ensures r.start == start, r.end == end { Range { start, end } } }
pub struct SelectionRange { pub range: Range, pub parent: Option<Box<SelectionRange>> }
spec fn lsp_at(p: SourcePosition) -> Position { Position { line: p.line, character: p.character } }
spec fn lsp_of(d: RubyDocument, r: TextRange) -> Range { Range { start: lsp_at(place(d, r.start_byte as int)), end: lsp_at(place(d, r.end_byte as int)) } }
//@fn src/utils/lsp.rs :: source_position
//@ sig fn source_position(position: Position) -> (r: SourcePosition)
//@ spec
    ensures r.line == position.line, r.character == position.character
//@end
//@fn src/utils/lsp.rs :: lsp_position
//@ ret r
//@ spec
    ensures r == lsp_at(position)
//@end
//@fn src/utils/lsp.rs :: lsp_range
//@ ret r
//@ spec
    ensures r.start == lsp_at(range.start), r.end == lsp_at(range.end)
//@end
//@fn src/utils/lsp.rs :: lsp_text_range
//@ ret r
//@ spec
    requires document.ok(), range.file_id == document.source.id()
    ensures r == lsp_of(*document, range)
//@end
spec fn listing(s: SelectionRange) -> Seq<Range> decreases s { seq![s.range] + (match s.parent { Some(p) => listing(*p), None => Seq::empty() }) }
fn vp_boxed(s: Option<SelectionRange>) -> (r: Option<Box<SelectionRange>>) ensures match s { Some(x) => r == Some(Box::new(x)), None => r is None } { match s { Some(x) => Some(Box::new(x)), None => None } }
spec fn ranges_of(d: RubyDocument, c: Seq<TextRange>) -> Seq<Range> { c.map_values(|r: TextRange| lsp_of(d, r)) }
spec fn listed(s: Option<SelectionRange>) -> Seq<Range> { match s { Some(x) => listing(x), None => Seq::empty() } }
//@fn src/capabilities/selection_ranges.rs :: selection_range_from_chain
//@ sig fn selection_range_from_chain(document: &RubyDocument, chain: Vec<TextRange>) -> (r: SelectionRange)
//@ rewrite? let mut nested = None; ==> let mut nested: Option<SelectionRange> = None;
//@ rewrite? for $r:i in chain.into_iter().rev() $b:b ==> let mut vp_n: usize = chain.len(); while vp_n > 0 { vp_n -= 1; let $r = chain[vp_n]; vp_text!("let ghost vp_old = listed(nested)"); $b vp_text!("proof { assert(ranges_of(*document, chain@.skip(vp_n as int)) =~= seq![lsp_of(*document, chain@[vp_n as int])] + ranges_of(*document, chain@.skip(vp_n + 1))); }"); }
//@ rewrite? nested.map(Box::new) ==> vp_boxed(nested)
//@ rewrite? nested.expect($m:a) ==> nested.unwrap()
//@ spec
    requires chain@.len() > 0, document.ok(), forall|i: int| 0 <= i < chain@.len() ==> (#[trigger] chain@[i]).file_id == document.source.id()
    ensures listing(r) == ranges_of(*document, chain@)
//@ loop 0
    invariant vp_n <= chain@.len(), document.ok(), forall|i: int| 0 <= i < chain@.len() ==> (#[trigger] chain@[i]).file_id == document.source.id(), listed(nested) == ranges_of(*document, chain@.skip(vp_n as int)), vp_n < chain@.len() ==> nested is Some
    decreases vp_n
//@ exit
    proof { assert(chain@.skip(0) =~= chain@); }
//@end
} // verus!
fn main() {}
