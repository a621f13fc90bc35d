// C10: the Java class-file reader.
use vstd::prelude::*;
verus! {
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
// ---- what is assumed of the standard library ----
/// the UTF-8 encoding of a text
uninterp spec fn enc(s: Seq<char>) -> Seq<u8>;
/// the text of a sequence of UTF-16 units, if it has one
uninterp spec fn from_units(u: Seq<u16>) -> Option<Seq<char>>;
/// the name `argN`
uninterp spec fn arg_name(n: int) -> Seq<char>;
#[verifier::external_body] proof fn slice_bound(s: &[u8]) ensures s@.len() <= isize::MAX {}
#[verifier::external_body] proof fn same_text(a: &str, b: &str) ensures a@ == b@ ==> a == b {}
#[verifier::external_body] fn vp_from_utf16(u: &Vec<u16>) -> (r: Option<String>)
    ensures match r { Some(s) => from_units(u@) == Some(s@), None => from_units(u@) is None } { String::from_utf16(u).ok() }
#[verifier::external_body] fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] fn vp_copy(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] fn vp_bytes(s: &str) -> (r: &[u8]) ensures r@ == enc(s@), r@.len() <= isize::MAX { s.as_bytes() }
#[verifier::external_body] fn vp_arg(n: usize) -> (r: String) ensures r@ == arg_name(n as int) { format!("arg{n}") }
#[verifier::external_body] fn vp_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// slicing a text at places next to an ASCII byte (never inside a character)
#[verifier::external_body] fn vp_slice(s: &str, i: usize, j: usize) -> (r: String)
    requires i <= j <= enc(s@).len(), i == 0 || enc(s@)[i - 1] < 0x80, j == enc(s@).len() || enc(s@)[j as int] < 0x80
    ensures enc(r@) == enc(s@).subrange(i as int, j as int) { s[i..j].to_string() }
/// no allocation is larger than a 16-bit count
#[verifier::external_body] fn vp_vec<T>(n: usize) -> (r: Vec<T>) requires n <= 0xffff ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
#[verifier::external_body] fn vp_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
fn vp_at(b: &[u8], i: usize) -> (r: Option<u8>) ensures r == (if i < b@.len() { Some(b@[i as int]) } else { None }) { if i < b.len() { Some(b[i]) } else { None } }
fn vp_byte_is(o: Option<&u8>, k: u8) -> (r: bool) ensures r == (o is Some && *o->0 == k) { match o { Some(x) => *x == k, None => false } }
fn vp_opt_is(o: Option<u8>, k: u8) -> (r: bool) ensures r == (o == Some(k)) { match o { Some(x) => x == k, None => false } }
fn vp_usize(n: u32) -> (r: usize) ensures r == n { n as usize }
fn vp_min16(a: u16, b: u16) -> (r: u16) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
fn vp_u16(a: u8, b: u8) -> (r: u16) ensures r == a as int * 256 + b as int { (a as u16) * 256 + b as u16 }
fn vp_u32(a: u8, b: u8, c: u8, d: u8) -> (r: u32) ensures r == ((a as int * 256 + b as int) * 256 + c as int) * 256 + d as int { ((a as u32 * 256 + b as u32) * 256 + c as u32) * 256 + d as u32 }
#[verifier::external_body] struct VpNames { _p: u8 }
/// HashSet<String>
impl VpNames {
    uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] fn new() -> (r: VpNames) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: String) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
// ---- reading ----
spec fn room(b: Seq<u8>, o: int, n: int) -> bool { 0 <= o && 0 <= n && o + n <= b.len() }
spec fn be2(b: Seq<u8>, o: int) -> int { b[o] * 256 + b[o + 1] }
spec fn be4(b: Seq<u8>, o: int) -> int { ((b[o] * 256 + b[o + 1]) * 256 + b[o + 2]) * 256 + b[o + 3] }
spec fn piece(b: Seq<u8>, o: int, n: int) -> Seq<u8> { b.subrange(o, o + n) }
//@enum crates/jvm-metadata/src/classfile.rs :: MetadataError
//@struct crates/jvm-metadata/src/classfile.rs :: ClassLimits ; derive Clone, Copy
//@struct crates/jvm-metadata/src/classfile.rs :: Cursor
spec fn moved(a: &Cursor, b: &Cursor) -> bool { b.bytes@ == a.bytes@ && b.ok() }
impl<'a> Cursor<'a> {
    spec fn ok(&self) -> bool { self.offset <= self.bytes@.len() <= isize::MAX }
    spec fn b(&self) -> Seq<u8> { self.bytes@ }
    spec fn o(&self) -> int { self.offset as int }
//@fn crates/jvm-metadata/src/classfile.rs :: Cursor::new
//@ ret r
//@ spec
    ensures r.ok(), r.bytes@ == bytes@, r.offset == 0
//@ entry
    proof { slice_bound(bytes); }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: Cursor::u1
//@ ret r
//@ spec
    requires old(self).ok()
    ensures moved(old(self), final(self)), match r { Ok(v) => room(old(self).b(), old(self).o(), 1) && v == old(self).b()[old(self).o()] && final(self).o() == old(self).o() + 1, Err(_) => !room(old(self).b(), old(self).o(), 1) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: Cursor::u2
//@ ret r
//@ rewrite? u16::from_be_bytes([$a, $b]) ==> vp_u16($a, $b)
//@ spec
    requires old(self).ok()
    ensures moved(old(self), final(self)), match r { Ok(v) => room(old(self).b(), old(self).o(), 2) && v == be2(old(self).b(), old(self).o()) && final(self).o() == old(self).o() + 2, Err(_) => !room(old(self).b(), old(self).o(), 2) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: Cursor::u4
//@ ret r
//@ rewrite? u32::from_be_bytes([$a, $b, $c, $d]) ==> vp_u32($a, $b, $c, $d)
//@ spec
    requires old(self).ok()
    ensures moved(old(self), final(self)), match r { Ok(v) => room(old(self).b(), old(self).o(), 4) && v == be4(old(self).b(), old(self).o()) && final(self).o() == old(self).o() + 4, Err(_) => !room(old(self).b(), old(self).o(), 4) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: Cursor::take
//@ ret r
//@ rewrite? $x:e.ok_or($z)? ==> match $x { Some(vp_v) => vp_v, None => return Err($z) }
//@ spec
    requires old(self).ok()
    ensures moved(old(self), final(self)), match r { Ok(v) => room(old(self).b(), old(self).o(), length as int) && v@ == piece(old(self).b(), old(self).o(), length as int) && final(self).o() == old(self).o() + length, Err(_) => !room(old(self).b(), old(self).o(), length as int) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: Cursor::is_finished
//@ ret r
//@ spec
    ensures r == (self.offset == self.bytes@.len())
//@end
}
// ---- modified UTF-8 (JVMS 4.4.7) ----
spec fn cont(b: Seq<u8>, o: int) -> bool { o < b.len() && 0x80 <= b[o] < 0xc0 }
spec fn units(b: Seq<u8>, o: int, acc: Seq<u16>) -> Option<Seq<u16>> decreases b.len() - o {
    if o >= b.len() { Some(acc) }
    else if 1 <= b[o] < 0x80 { units(b, o + 1, acc.push(b[o] as u16)) }
    else if b[o] == 0xc0 { if o + 1 < b.len() && b[o + 1] == 0x80 { units(b, o + 2, acc.push(0)) } else { None } }
    else if 0xc2 <= b[o] < 0xe0 { if cont(b, o + 1) { units(b, o + 2, acc.push(((b[o] - 0xc0) * 64 + (b[o + 1] - 0x80)) as u16)) } else { None } }
    else if 0xe0 <= b[o] < 0xf0 {
        if cont(b, o + 1) && cont(b, o + 2) && (b[o] == 0xe0 ==> b[o + 1] >= 0xa0) { units(b, o + 3, acc.push(((b[o] - 0xe0) * 4096 + (b[o + 1] - 0x80) * 64 + (b[o + 2] - 0x80)) as u16)) } else { None }
    } else { None }
}
/// the text of an encoded string: None when malformed, Some(None) when it has unpaired surrogates
spec fn text(b: Seq<u8>) -> Option<Option<Seq<char>>> { match units(b, 0, Seq::empty()) { None => None, Some(u) => Some(from_units(u)) } }
proof fn bits()
    ensures forall|s: u8| (#[trigger] (s & 0xc0) == 0x80) == (0x80 <= s < 0xc0),
        forall|f: u8, s: u8| 0xc2 <= f < 0xe0 && 0x80 <= s < 0xc0 ==> (#[trigger] ((((f & 0x1f) as u16) << 6) | ((s & 0x3f) as u16))) as int == (f - 0xc0) * 64 + (s - 0x80),
        forall|f: u8, s: u8, t: u8| 0xe0 <= f < 0xf0 && 0x80 <= s < 0xc0 && 0x80 <= t < 0xc0 ==> (#[trigger] ((((f & 0x0f) as u16) << 12) | (((s & 0x3f) as u16) << 6) | ((t & 0x3f) as u16))) as int == (f - 0xe0) * 4096 + (s - 0x80) * 64 + (t - 0x80),
{
    assert forall|s: u8| (#[trigger] (s & 0xc0) == 0x80) == (0x80 <= s < 0xc0) by { assert(((s & 0xc0) == 0x80) == (0x80 <= s && s < 0xc0)) by (bit_vector); }
    assert forall|f: u8, s: u8| 0xc2 <= f < 0xe0 && 0x80 <= s < 0xc0 implies (#[trigger] ((((f & 0x1f) as u16) << 6) | ((s & 0x3f) as u16))) as int == (f - 0xc0) * 64 + (s - 0x80) by {
        assert((((f & 0x1f) as u16) << 6) | ((s & 0x3f) as u16) == ((f - 0xc0) as u16) * 64 + ((s - 0x80) as u16)) by (bit_vector) requires 0xc2 <= f, f < 0xe0, 0x80 <= s, s < 0xc0; }
    assert forall|f: u8, s: u8, t: u8| 0xe0 <= f < 0xf0 && 0x80 <= s < 0xc0 && 0x80 <= t < 0xc0 implies (#[trigger] ((((f & 0x0f) as u16) << 12) | (((s & 0x3f) as u16) << 6) | ((t & 0x3f) as u16))) as int == (f - 0xe0) * 4096 + (s - 0x80) * 64 + (t - 0x80) by {
        assert((((f & 0x0f) as u16) << 12) | (((s & 0x3f) as u16) << 6) | ((t & 0x3f) as u16) == ((f - 0xe0) as u16) * 4096 + ((s - 0x80) as u16) * 64 + ((t - 0x80) as u16)) by (bit_vector) requires 0xe0 <= f, f < 0xf0, 0x80 <= s, s < 0xc0, 0x80 <= t, t < 0xc0; }
}
//@fn crates/jvm-metadata/src/classfile.rs :: decode_modified_utf8
//@ ret r
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? $x:e != Some(&$k:l) ==> !vp_byte_is($x, $k)
//@ rewrite? $x:e.ok_or($z)? ==> match $x { Some(vp_v) => vp_v, None => return Err($z) }
//@ rewrite? u16::from($x:a) ==> (($x) as u16)
//@ rewrite? String::from_utf16(&utf16).ok() ==> vp_from_utf16(&utf16)
//@ spec
    requires bytes@.len() <= 0xffff
    ensures match r { Ok(Some(s)) => text(bytes@) == Some(Some(s@)), Ok(None) => text(bytes@) == Some(None::<Seq<char>>), Err(_) => text(bytes@) is None }
//@ entry
    proof { bits(); }
//@ loop 0
    invariant offset <= bytes@.len() <= 0xffff, units(bytes@, offset as int, utf16@) == units(bytes@, 0, Seq::empty()),
        forall|s: u8| (#[trigger] (s & 0xc0) == 0x80) == (0x80 <= s < 0xc0),
        forall|f: u8, s: u8| 0xc2 <= f < 0xe0 && 0x80 <= s < 0xc0 ==> (#[trigger] ((((f & 0x1f) as u16) << 6) | ((s & 0x3f) as u16))) as int == (f - 0xc0) * 64 + (s - 0x80),
        forall|f: u8, s: u8, t: u8| 0xe0 <= f < 0xf0 && 0x80 <= s < 0xc0 && 0x80 <= t < 0xc0 ==> (#[trigger] ((((f & 0x0f) as u16) << 12) | (((s & 0x3f) as u16) << 6) | ((t & 0x3f) as u16))) as int == (f - 0xe0) * 4096 + (s - 0x80) * 64 + (t - 0x80),
    decreases bytes@.len() - offset
//@end
// ---- descriptors (JVMS 4.3) ----
spec fn prim(c: u8) -> bool { c == 66 || c == 67 || c == 68 || c == 70 || c == 73 || c == 74 || c == 83 || c == 90 }
spec fn brackets(b: Seq<u8>, o: int) -> int decreases b.len() - o { if 0 <= o < b.len() && b[o] == 91 { 1 + brackets(b, o + 1) } else { 0 } }
spec fn semicolon(b: Seq<u8>, o: int) -> int decreases b.len() - o { if 0 <= o < b.len() && b[o] != 59 { semicolon(b, o + 1) } else { o } }
/// where the type at o ends: B C D F I J S Z, L..; , [type with at most 255 dimensions, V where allowed
spec fn base_end(b: Seq<u8>, o: int, void: bool) -> Option<int> {
    if o >= b.len() { None } else if prim(b[o]) || (b[o] == 86 && void) { Some(o + 1) }
    else if b[o] == 76 { let e = semicolon(b, o + 1); if e < b.len() && e > o + 1 { Some(e + 1) } else { None } } else { None }
}
spec fn ty_end(b: Seq<u8>, o: int, void: bool) -> Option<int> { let d = brackets(b, o); if d > 255 { None } else { base_end(b, o + d, void && d == 0) } }
//@enum crates/jvm-metadata/src/descriptor.rs :: JvmType
//@struct crates/jvm-metadata/src/descriptor.rs :: MethodDescriptor
//@struct crates/jvm-metadata/src/descriptor.rs :: DescriptorCursor
//@const crates/jvm-metadata/src/descriptor.rs :: MAX_ARRAY_DIMENSIONS
/// the descriptor of a type
spec fn shown(t: JvmType) -> Seq<u8> decreases t {
    match t {
        JvmType::Byte => seq![66u8], JvmType::Char => seq![67u8], JvmType::Double => seq![68u8], JvmType::Float => seq![70u8], JvmType::Int => seq![73u8],
        JvmType::Long => seq![74u8], JvmType::Short => seq![83u8], JvmType::Boolean => seq![90u8], JvmType::Void => seq![86u8],
        JvmType::Object(n) => seq![76u8] + enc(n@) + seq![59u8], JvmType::Array(e) => seq![91u8] + shown(*e),
    }
}
spec fn shown_all(v: Seq<JvmType>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| shown(v[i])) }
spec fn params(b: Seq<u8>, o: int, acc: Seq<Seq<u8>>) -> Option<(Seq<Seq<u8>>, int)> decreases b.len() - o {
    if o < 0 || o >= b.len() { None } else if b[o] == 41 { Some((acc, o + 1)) } else {
        match ty_end(b, o, false) { Some(e) => if e > o { params(b, e, acc.push(b.subrange(o, e))) } else { None }, None => None } }
}
/// the parameter and return descriptors of a method descriptor
spec fn method_ty(b: Seq<u8>) -> Option<(Seq<Seq<u8>>, Seq<u8>)> {
    if b.len() == 0 || b[0] != 40 { None } else { match params(b, 1, Seq::empty()) { None => None, Some((p, o)) => if ty_end(b, o, true) == Some(b.len() as int) { Some((p, b.subrange(o, b.len() as int))) } else { None } } }
}
#[verifier::opaque] spec fn field_ty(b: Seq<u8>) -> bool { ty_end(b, 0, false) == Some(b.len() as int) }
proof fn brackets_bound(b: Seq<u8>, o: int)
    requires 0 <= o <= b.len()
    ensures 0 <= brackets(b, o) <= b.len() - o, forall|i: int| o <= i < o + brackets(b, o) ==> #[trigger] b[i] == 91, o + brackets(b, o) < b.len() ==> b[o + brackets(b, o)] != 91
    decreases b.len() - o
{ if o < b.len() && b[o] == 91 { brackets_bound(b, o + 1); } }
proof fn semicolon_bound(b: Seq<u8>, o: int)
    requires 0 <= o <= b.len()
    ensures o <= semicolon(b, o) <= b.len(), semicolon(b, o) < b.len() ==> b[semicolon(b, o)] == 59
    decreases b.len() - o
{ if o < b.len() && b[o] != 59 { semicolon_bound(b, o + 1); } }
impl<'a> DescriptorCursor<'a> {
    spec fn ok(&self) -> bool { self.bytes@ == enc(self.source@) && self.offset <= self.bytes@.len() <= isize::MAX }
//@fn crates/jvm-metadata/src/descriptor.rs :: DescriptorCursor::new
//@ ret r
//@ rewrite? source.as_bytes() ==> vp_bytes(source)
//@ spec
    ensures r.ok(), r.source@ == source@, r.offset == 0
//@end
//@fn crates/jvm-metadata/src/descriptor.rs :: DescriptorCursor::peek
//@ ret r
//@ rewrite? self.bytes.get(self.offset).copied() ==> vp_at(self.bytes, self.offset)
//@ spec
    ensures r == (if self.offset < self.bytes@.len() { Some(self.bytes@[self.offset as int]) } else { None })
//@end
//@fn crates/jvm-metadata/src/descriptor.rs :: DescriptorCursor::take
//@ ret r
//@ spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).source == old(self).source, final(self).bytes == old(self).bytes,
        match r { Some(b) => old(self).offset < old(self).bytes@.len() && b == old(self).bytes@[old(self).offset as int] && final(self).offset == old(self).offset + 1, None => old(self).offset == old(self).bytes@.len() && final(self).offset == old(self).offset }
//@end
//@fn crates/jvm-metadata/src/descriptor.rs :: DescriptorCursor::is_finished
//@ ret r
//@ spec
    ensures r == (self.offset == self.bytes@.len())
//@end
//@fn crates/jvm-metadata/src/descriptor.rs :: DescriptorCursor::parse_type
//@ ret r
//@ rewrite? $x:e.is_some_and(|byte| $c:a) ==> match $x { Some(byte) => $c, None => false }
//@ rewrite? $x:e != Some($k:l) ==> !vp_opt_is($x, $k)
//@ rewrite? $x:e == Some($k:l) ==> vp_opt_is($x, $k)
//@ rewrite? self.source[$i:a..$j:a].to_string() ==> vp_slice(self.source, $i, $j)
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).source == old(self).source, final(self).bytes == old(self).bytes,
        match r { Ok(t) => ty_end(old(self).bytes@, old(self).offset as int, allow_void) == Some(final(self).offset as int) && shown(t) == old(self).bytes@.subrange(old(self).offset as int, final(self).offset as int) && final(self).offset > old(self).offset && (allow_void || !(t is Void)),
            Err(_) => ty_end(old(self).bytes@, old(self).offset as int, allow_void) is None }
    decreases old(self).bytes@.len() - old(self).offset
//@ entry
    let ghost vp_o = self.offset as int; let ghost vp_b = self.bytes@;
    proof { brackets_bound(vp_b, vp_o); if vp_o < vp_b.len() { semicolon_bound(vp_b, vp_o + 1); } }
//@ loop 0
    invariant self.ok(), self.source == old(self).source, self.bytes == old(self).bytes, vp_b == self.bytes@, vp_o + 1 <= self.offset <= vp_b.len(), start == vp_o + 1,
        semicolon(vp_b, self.offset as int) == semicolon(vp_b, vp_o + 1)
    decreases vp_b.len() - self.offset
//@ loop 1
    invariant self.ok(), self.source == old(self).source, self.bytes == old(self).bytes, vp_b == self.bytes@, self.offset == vp_o + dimensions, vp_o + 1 <= self.offset <= vp_b.len(), vp_b.len() <= isize::MAX, 0 <= vp_o,
        dimensions + brackets(vp_b, self.offset as int) == brackets(vp_b, vp_o)
    decreases vp_b.len() - self.offset
//@ loop 2
    invariant vp_i <= dimensions, self.ok(), self.source == old(self).source, self.bytes == old(self).bytes, vp_b == self.bytes@, dimensions == brackets(vp_b, vp_o), vp_o + dimensions < self.offset <= vp_b.len(), 0 <= vp_o,
        forall|i: int| vp_o <= i < vp_o + dimensions ==> #[trigger] vp_b[i] == 91,
        dimensions > 0, vp_i == 0 ==> !(ty is Void), vp_i > 0 ==> ty is Array, shown(ty) =~= vp_b.subrange(vp_o + dimensions - vp_i, self.offset as int)
    decreases dimensions - vp_i
//@end
}
//@fn crates/jvm-metadata/src/descriptor.rs :: parse_field_descriptor
//@ ret r
//@ spec
    ensures match r { Ok(t) => field_ty(enc(descriptor@)) && shown(t) == enc(descriptor@), Err(_) => !field_ty(enc(descriptor@)) }
//@ entry
    proof { reveal(field_ty); }
//@end
//@fn crates/jvm-metadata/src/descriptor.rs :: parse_method_descriptor
//@ ret r
//@ rewrite? $x:e != Some($k:l) ==> !vp_opt_is($x, $k)
//@ spec
    ensures match r { Ok(t) => method_ty(enc(descriptor@)) == Some((shown_all(t.parameters@), shown(t.returns))) && t.parameters@.len() <= isize::MAX && (forall|i: int| 0 <= i < t.parameters@.len() ==> !(#[trigger] t.parameters@[i] is Void)), Err(_) => method_ty(enc(descriptor@)) is None }
//@ entry
    broadcast use lem::views;
    let ghost vp_b = enc(descriptor@);
    proof { assert(shown_all(Seq::empty()) =~= Seq::<Seq<u8>>::empty()); }
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant_except_break cursor.offset >= 1, parameters@.len() < cursor.offset,
        params(cursor.bytes@, cursor.offset as int, shown_all(parameters@)) == params(cursor.bytes@, 1, Seq::empty())
    invariant forall|i: int| 0 <= i < parameters@.len() ==> !(#[trigger] parameters@[i] is Void), cursor.ok(), cursor.source@ == descriptor@, cursor.bytes@.len() > 0, cursor.bytes@[0] == 40, cursor.bytes@ == vp_b
    ensures parameters@.len() <= isize::MAX, params(vp_b, 1, Seq::empty()) == Some((shown_all(parameters@), cursor.offset as int))
    decreases cursor.bytes@.len() - cursor.offset
//@end
// ---- what a class file says ----
enum SEntry { Text(Option<Seq<char>>), Class(u16), Module(u16), Nothing }
struct SLocal { start: u16, slot: int, name: Seq<char> }
struct SInner { inner: Seq<char>, outer: Option<Seq<char>>, name: Option<Seq<char>>, flags: u16 }
struct SComp { name: Seq<char>, desc: Seq<char>, sig: Option<Seq<char>>, ann: Seq<Seq<char>> }
struct SMember { flags: u16, name: Seq<char>, desc: Seq<char>, sig: Option<Seq<char>>, exc: Seq<Seq<char>>, params: Seq<(Seq<char>, u16)>, ann: Seq<Seq<char>>, line: Option<u16> }
struct SClass { minor: u16, major: u16, flags: u16, name: Seq<char>, sup: Option<Seq<char>>, interfaces: Seq<Seq<char>>, fields: Seq<SMember>, methods: Seq<SMember>,
    source: Option<Seq<char>>, sig: Option<Seq<char>>, ann: Seq<Seq<char>>, inner: Seq<SInner>, comps: Seq<SComp>, module: Option<Seq<char>> }
//@struct crates/jvm-metadata/src/classfile.rs :: MemberInfo
//@struct crates/jvm-metadata/src/classfile.rs :: MethodParameter
//@struct crates/jvm-metadata/src/classfile.rs :: AnnotationInfo
//@struct crates/jvm-metadata/src/classfile.rs :: InnerClassInfo
//@struct crates/jvm-metadata/src/classfile.rs :: RecordComponentInfo
//@struct crates/jvm-metadata/src/classfile.rs :: ClassFile
//@struct crates/jvm-metadata/src/classfile.rs :: ClassParser
//@struct crates/jvm-metadata/src/classfile.rs :: CodeMetadata
//@struct crates/jvm-metadata/src/classfile.rs :: LocalVariableInfo
//@enum crates/jvm-metadata/src/classfile.rs :: MemberKind ; derive Clone, Copy, PartialEq, Eq, Structural
//@enum crates/jvm-metadata/src/classfile.rs :: ConstantPoolEntry
//@struct crates/jvm-metadata/src/classfile.rs :: ConstantPool
spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn v_entry(e: ConstantPoolEntry) -> SEntry { match e { ConstantPoolEntry::Utf8(t) => SEntry::Text(ostr(t)), ConstantPoolEntry::Class(i) => SEntry::Class(i), ConstantPoolEntry::Module(i) => SEntry::Module(i), _ => SEntry::Nothing } }
spec fn v_local(v: LocalVariableInfo) -> SLocal { SLocal { start: v.start_pc, slot: v.slot as int, name: v.name@ } }
spec fn v_inner(v: InnerClassInfo) -> SInner { SInner { inner: v.inner_class@, outer: ostr(v.outer_class), name: ostr(v.inner_name), flags: v.access_flags } }
spec fn v_comp(v: RecordComponentInfo) -> SComp { SComp { name: v.name@, desc: v.descriptor@, sig: ostr(v.signature), ann: anns(v.annotations@) } }
spec fn v_member(v: MemberInfo) -> SMember { SMember { flags: v.access_flags, name: v.name@, desc: v.descriptor@, sig: ostr(v.signature), exc: strs(v.exceptions@), params: mparams(v.parameters@), ann: anns(v.annotations@), line: v.first_line } }
spec fn v_class(v: ClassFile) -> SClass { SClass { minor: v.minor_version, major: v.major_version, flags: v.access_flags, name: v.name@, sup: ostr(v.super_name), interfaces: strs(v.interfaces@), fields: members_of(v.fields@), methods: members_of(v.methods@),
    source: ostr(v.source_file), sig: ostr(v.signature), ann: anns(v.annotations@), inner: inners(v.inner_classes@), comps: comps(v.record_components@), module: ostr(v.module_name) } }
spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn anns(v: Seq<AnnotationInfo>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].descriptor@) }
spec fn mparams(v: Seq<MethodParameter>) -> Seq<(Seq<char>, u16)> { Seq::new(v.len(), |i: int| (v[i].name@, v[i].access_flags)) }
spec fn vars(v: Seq<LocalVariableInfo>) -> Seq<SLocal> { Seq::new(v.len(), |i: int| v_local(v[i])) }
spec fn inners(v: Seq<InnerClassInfo>) -> Seq<SInner> { Seq::new(v.len(), |i: int| v_inner(v[i])) }
spec fn comps(v: Seq<RecordComponentInfo>) -> Seq<SComp> { Seq::new(v.len(), |i: int| v_comp(v[i])) }
spec fn members_of(v: Seq<MemberInfo>) -> Seq<SMember> { Seq::new(v.len(), |i: int| v_member(v[i])) }
spec fn slots(v: Seq<ConstantPoolEntry>) -> Seq<SEntry> { Seq::new(v.len(), |i: int| v_entry(v[i])) }
mod lem { use super::*;
pub(super) broadcast proof fn shown_push(v: Seq<JvmType>, t: JvmType) ensures shown_all(#[trigger] v.push(t)) == shown_all(v).push(shown(t)) { assert(shown_all(v.push(t)) =~= shown_all(v).push(shown(t))); }
pub(super) broadcast proof fn strs_push(v: Seq<String>, t: String) ensures strs(#[trigger] v.push(t)) == strs(v).push(t@) { assert(strs(v.push(t)) =~= strs(v).push(t@)); }
pub(super) broadcast proof fn strs_none(v: Seq<String>) requires v.len() == 0 ensures #[trigger] strs(v) == Seq::<Seq<char>>::empty() { assert(strs(v) =~= Seq::<Seq<char>>::empty()); }
pub(super) broadcast proof fn anns_push(v: Seq<AnnotationInfo>, t: AnnotationInfo) ensures anns(#[trigger] v.push(t)) == anns(v).push(t.descriptor@) { assert(anns(v.push(t)) =~= anns(v).push(t.descriptor@)); }
pub(super) broadcast proof fn anns_none(v: Seq<AnnotationInfo>) requires v.len() == 0 ensures #[trigger] anns(v) == Seq::<Seq<char>>::empty() { assert(anns(v) =~= Seq::<Seq<char>>::empty()); }
pub(super) broadcast proof fn mparams_push(v: Seq<MethodParameter>, t: MethodParameter) ensures mparams(#[trigger] v.push(t)) == mparams(v).push((t.name@, t.access_flags)) { assert(mparams(v.push(t)) =~= mparams(v).push((t.name@, t.access_flags))); }
pub(super) broadcast proof fn mparams_none(v: Seq<MethodParameter>) requires v.len() == 0 ensures #[trigger] mparams(v) == Seq::<(Seq<char>, u16)>::empty() { assert(mparams(v) =~= Seq::<(Seq<char>, u16)>::empty()); }
pub(super) broadcast proof fn vars_push(v: Seq<LocalVariableInfo>, t: LocalVariableInfo) ensures vars(#[trigger] v.push(t)) == vars(v).push(v_local(t)) { assert(vars(v.push(t)) =~= vars(v).push(v_local(t))); }
pub(super) broadcast proof fn vars_none(v: Seq<LocalVariableInfo>) requires v.len() == 0 ensures #[trigger] vars(v) == Seq::<SLocal>::empty() { assert(vars(v) =~= Seq::<SLocal>::empty()); }
pub(super) broadcast proof fn inners_push(v: Seq<InnerClassInfo>, t: InnerClassInfo) ensures inners(#[trigger] v.push(t)) == inners(v).push(v_inner(t)) { assert(inners(v.push(t)) =~= inners(v).push(v_inner(t))); }
pub(super) broadcast proof fn inners_none(v: Seq<InnerClassInfo>) requires v.len() == 0 ensures #[trigger] inners(v) == Seq::<SInner>::empty() { assert(inners(v) =~= Seq::<SInner>::empty()); }
pub(super) broadcast proof fn comps_push(v: Seq<RecordComponentInfo>, t: RecordComponentInfo) ensures comps(#[trigger] v.push(t)) == comps(v).push(v_comp(t)) { assert(comps(v.push(t)) =~= comps(v).push(v_comp(t))); }
pub(super) broadcast proof fn comps_none(v: Seq<RecordComponentInfo>) requires v.len() == 0 ensures #[trigger] comps(v) == Seq::<SComp>::empty() { assert(comps(v) =~= Seq::<SComp>::empty()); }
pub(super) broadcast proof fn members_of_push(v: Seq<MemberInfo>, t: MemberInfo) ensures members_of(#[trigger] v.push(t)) == members_of(v).push(v_member(t)) { assert(members_of(v.push(t)) =~= members_of(v).push(v_member(t))); }
pub(super) broadcast proof fn members_of_none(v: Seq<MemberInfo>) requires v.len() == 0 ensures #[trigger] members_of(v) == Seq::<SMember>::empty() { assert(members_of(v) =~= Seq::<SMember>::empty()); }
pub(super) broadcast proof fn slots_push(v: Seq<ConstantPoolEntry>, t: ConstantPoolEntry) ensures slots(#[trigger] v.push(t)) == slots(v).push(v_entry(t)) { assert(slots(v.push(t)) =~= slots(v).push(v_entry(t))); }
pub(super) broadcast proof fn slots_none(v: Seq<ConstantPoolEntry>) requires v.len() == 0 ensures #[trigger] slots(v) == Seq::<SEntry>::empty() { assert(slots(v) =~= Seq::<SEntry>::empty()); }
pub(super) broadcast proof fn anns_add(v: Seq<AnnotationInfo>, w: Seq<AnnotationInfo>) ensures anns(#[trigger] (v + w)) == anns(v) + anns(w) { assert(anns(v + w) =~= anns(v) + anns(w)); }
pub(super) broadcast proof fn vars_add(v: Seq<LocalVariableInfo>, w: Seq<LocalVariableInfo>) ensures vars(#[trigger] (v + w)) == vars(v) + vars(w) { assert(vars(v + w) =~= vars(v) + vars(w)); }
pub(super) broadcast group views { shown_push, strs_push, strs_none, anns_push, anns_none, mparams_push, mparams_none, vars_push, vars_none, inners_push, inners_none, comps_push, comps_none, members_of_push, members_of_none, slots_push, slots_none, anns_add, vars_add }
}

spec fn p_text(p: Seq<SEntry>, i: int) -> Option<Seq<char>> { if 0 < i < p.len() { match p[i] { SEntry::Text(t) => t, _ => None } } else { None } }
spec fn p_class(p: Seq<SEntry>, i: int) -> Option<Seq<char>> { if 0 < i < p.len() { match p[i] { SEntry::Class(n) => p_text(p, n as int), _ => None } } else { None } }
spec fn p_module(p: Seq<SEntry>, i: int) -> Option<Seq<char>> { if 0 < i < p.len() { match p[i] { SEntry::Module(n) => p_text(p, n as int), _ => None } } else { None } }
/// the bytes after the tag of a constant (JVMS 4.4) other than Utf8, Class, Module
spec fn tag_size(t: u8) -> int { if t == 3 || t == 4 || (9 <= t <= 12) || t == 17 || t == 18 { 4 } else if t == 5 || t == 6 { 8 } else if t == 8 || t == 16 || t == 20 { 2 } else if t == 15 { 3 } else { -1 } }
spec fn pool_rest(b: Seq<u8>, o: int, count: int, acc: Seq<SEntry>) -> Option<(Seq<SEntry>, int)> decreases b.len() - o {
    if acc.len() >= count { if acc.len() == count { Some((acc, o)) } else { None } }
    else if !room(b, o, 1) { None }
    else if b[o] == 1 {
        if !room(b, o + 1, 2) { None } else { let n = be2(b, o + 1); if !room(b, o + 3, n) { None } else { match text(piece(b, o + 3, n)) { None => None, Some(t) => pool_rest(b, o + 3 + n, count, acc.push(SEntry::Text(t))) } } }
    } else if b[o] == 7 || b[o] == 19 {
        if !room(b, o + 1, 2) { None } else { pool_rest(b, o + 3, count, acc.push(if b[o] == 7 { SEntry::Class(be2(b, o + 1) as u16) } else { SEntry::Module(be2(b, o + 1) as u16) })) }
    } else {
        let n = tag_size(b[o]);
        if n < 0 || !room(b, o + 1, n) { None } else { pool_rest(b, o + 1 + n, count, if n == 8 { acc.push(SEntry::Nothing).push(SEntry::Nothing) } else { acc.push(SEntry::Nothing) }) }
    }
}
#[verifier::opaque] spec fn s_pool(b: Seq<u8>, o: int, l: ClassLimits) -> Option<(Seq<SEntry>, int)> {
    if !room(b, o, 2) { None } else { let n = be2(b, o); if n == 0 || n > l.max_constant_pool_entries { None } else { pool_rest(b, o + 2, n, seq![SEntry::Nothing]) } }
}
spec fn closed<T>(x: Option<(T, int)>, b: Seq<u8>) -> Option<T> { match x { Some((v, o)) => if o == b.len() { Some(v) } else { None }, None => None } }
spec fn classes(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, acc: Seq<Seq<char>>) -> Option<(Seq<Seq<char>>, int)> decreases n {
    if n <= 0 { Some((acc, o)) } else if !room(b, o, 2) { None } else { match p_class(p, be2(b, o)) { None => None, Some(c) => classes(b, o + 2, n - 1, p, acc.push(c)) } }
}
/// a count not above a limit
spec fn counted(b: Seq<u8>, o: int, max: int) -> bool { room(b, o, 2) && be2(b, o) <= max }
#[verifier::opaque] spec fn s_exceptions(b: Seq<u8>, p: Seq<SEntry>, l: ClassLimits) -> Option<Seq<Seq<char>>> { if !counted(b, 0, l.max_members as int) { None } else { closed(classes(b, 2, be2(b, 0), p, Seq::empty()), b) } }
spec fn mp(b: Seq<u8>, o: int, i: int, n: int, p: Seq<SEntry>, acc: Seq<(Seq<char>, u16)>) -> Option<(Seq<(Seq<char>, u16)>, int)> decreases n - i {
    if i >= n { Some((acc, o)) } else if !room(b, o, 4) { None } else { match (if be2(b, o) == 0 { Some(arg_name(i)) } else { p_text(p, be2(b, o)) }) { None => None, Some(t) => mp(b, o + 4, i + 1, n, p, acc.push((t, be2(b, o + 2) as u16))) } }
}
#[verifier::opaque] spec fn s_mparams(b: Seq<u8>, p: Seq<SEntry>, l: ClassLimits) -> Option<Seq<(Seq<char>, u16)>> { if !room(b, 0, 1) || b[0] > l.max_members { None } else { closed(mp(b, 1, 0, b[0] as int, p, Seq::empty()), b) } }
spec fn annotation(b: Seq<u8>, o: int, p: Seq<SEntry>, l: ClassLimits, d: int) -> Option<(Seq<char>, int)> decreases b.len() - o, 0int {
    if d > l.max_annotation_depth || !room(b, o, 4) || be2(b, o + 2) > l.max_annotations { None }
    else { match p_text(p, be2(b, o)) { None => None, Some(t) => if !field_ty(enc(t)) { None } else { match pairs(b, o + 4, be2(b, o + 2), p, l, d) { None => None, Some(e) => Some((t, e)) } } } }
}
spec fn pairs(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, d: int) -> Option<int> decreases b.len() - o, 1int {
    if n <= 0 { Some(o) } else if !room(b, o, 2) || p_text(p, be2(b, o)) is None { None }
    else { match value(b, o + 2, p, l, d) { None => None, Some(e) => if o < e <= b.len() { pairs(b, e, n - 1, p, l, d) } else { None } } }
}
spec fn value(b: Seq<u8>, o: int, p: Seq<SEntry>, l: ClassLimits, d: int) -> Option<int> decreases b.len() - o, 0int {
    if !room(b, o, 1) { None } else { let t = b[o];
        if t == 66 || t == 67 || t == 68 || t == 70 || t == 73 || t == 74 || t == 83 || t == 90 || t == 115 || t == 99 { if room(b, o + 1, 2) { Some(o + 3) } else { None } }
        else if t == 101 { if room(b, o + 1, 4) { Some(o + 5) } else { None } }
        else if t == 64 { match annotation(b, o + 1, p, l, d + 1) { None => None, Some((_, e)) => Some(e) } }
        else if t == 91 { if d > l.max_annotation_depth || !counted(b, o + 1, l.max_annotations as int) { None } else { values(b, o + 3, be2(b, o + 1), p, l, d + 1) } }
        else { None } }
}
spec fn values(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, d: int) -> Option<int> decreases b.len() - o, 1int {
    if n <= 0 { Some(o) } else { match value(b, o, p, l, d) { None => None, Some(e) => if o < e <= b.len() { values(b, e, n - 1, p, l, d) } else { None } } }
}
spec fn annotation_list(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, acc: Seq<Seq<char>>) -> Option<(Seq<Seq<char>>, int)> decreases n {
    if n <= 0 { Some((acc, o)) } else { match annotation(b, o, p, l, 0) { None => None, Some((t, e)) => annotation_list(b, e, n - 1, p, l, acc.push(t)) } }
}
#[verifier::opaque] spec fn s_annotations(b: Seq<u8>, p: Seq<SEntry>, l: ClassLimits) -> Option<Seq<Seq<char>>> { if !counted(b, 0, l.max_annotations as int) { None } else { closed(annotation_list(b, 2, be2(b, 0), p, l, Seq::empty()), b) } }
spec fn least(a: Option<u16>, b: u16) -> Option<u16> { match a { None => Some(b), Some(x) => if x <= b { a } else { Some(b) } } }
spec fn lines(b: Seq<u8>, o: int, n: int, acc: Option<u16>) -> Option<(Option<u16>, int)> decreases n { if n <= 0 { Some((acc, o)) } else if !room(b, o, 4) { None } else { lines(b, o + 4, n - 1, least(acc, be2(b, o + 2) as u16)) } }
#[verifier::opaque] spec fn s_lines(b: Seq<u8>, l: ClassLimits) -> Option<Option<u16>> { if !counted(b, 0, l.max_members as int) { None } else { closed(lines(b, 2, be2(b, 0), None), b) } }
spec fn variables(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, acc: Seq<SLocal>) -> Option<(Seq<SLocal>, int)> decreases n {
    if n <= 0 { Some((acc, o)) } else if !room(b, o, 10) { None } else { match (p_text(p, be2(b, o + 4)), p_text(p, be2(b, o + 6))) {
        (Some(t), Some(d)) => if !field_ty(enc(d)) { None } else { variables(b, o + 10, n - 1, p, acc.push(SLocal { start: be2(b, o) as u16, slot: be2(b, o + 8), name: t })) }, _ => None } }
}
#[verifier::opaque] spec fn s_locals(b: Seq<u8>, p: Seq<SEntry>, l: ClassLimits) -> Option<Seq<SLocal>> { if !counted(b, 0, l.max_members as int) { None } else { closed(variables(b, 2, be2(b, 0), p, Seq::empty()), b) } }
/// the name and the bytes of the attribute at o
spec fn attr(b: Seq<u8>, o: int, p: Seq<SEntry>, l: ClassLimits) -> Option<(Seq<char>, Seq<u8>)> {
    if !room(b, o, 6) || be4(b, o + 2) > l.max_attribute_bytes || !room(b, o + 6, be4(b, o + 2)) { None } else { match p_text(p, be2(b, o)) { None => None, Some(t) => Some((t, piece(b, o + 6, be4(b, o + 2)))) } }
}
spec fn attr_end(b: Seq<u8>, o: int) -> int { o + 6 + be4(b, o + 2) }
spec fn c_attrs(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, line: Option<u16>, vars: Seq<SLocal>) -> Option<((Option<u16>, Seq<SLocal>), int)> decreases n {
    if n <= 0 { Some(((line, vars), o)) } else { match attr(b, o, p, l) { None => None, Some((t, a)) => { let e = attr_end(b, o);
        if t == "LineNumberTable"@ { match s_lines(a, l) { None => None, Some(x) => c_attrs(b, e, n - 1, p, l, (match x { None => line, Some(y) => least(line, y) }), vars) } }
        else if t == "LocalVariableTable"@ { match s_locals(a, p, l) { None => None, Some(x) => c_attrs(b, e, n - 1, p, l, line, vars + x) } }
        else { c_attrs(b, e, n - 1, p, l, line, vars) } } } }
}
/// first line, variables, attributes seen
#[verifier::opaque] spec fn s_code(b: Seq<u8>, p: Seq<SEntry>, l: ClassLimits, seen: int) -> Option<((Option<u16>, Seq<SLocal>), int)> {
    if !room(b, 0, 8) || be4(b, 4) > l.max_attribute_bytes || !room(b, 8, be4(b, 4)) { None } else { let e = 8 + be4(b, 4);
        if !counted(b, e, l.max_members as int) || !room(b, e + 2, 8 * be2(b, e)) { None } else { let f = e + 2 + 8 * be2(b, e);
            if !room(b, f, 2) || seen + be2(b, f) > l.max_attributes { None } else { match closed(c_attrs(b, f + 2, be2(b, f), p, l, None, Seq::empty()), b) { None => None, Some(x) => Some((x, seen + be2(b, f))) } } } }
}
spec fn s_signature(b: Seq<u8>, p: Seq<SEntry>) -> Option<Seq<char>> { if b.len() != 2 { None } else { p_text(p, be2(b, 0)) } }
spec fn inner(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, acc: Seq<SInner>) -> Option<(Seq<SInner>, int)> decreases n {
    if n <= 0 { Some((acc, o)) } else if !room(b, o, 8) { None } else {
        let x = p_class(p, be2(b, o)); let y = p_class(p, be2(b, o + 2)); let z = p_text(p, be2(b, o + 4));
        if x is None || (be2(b, o + 2) != 0 && y is None) || (be2(b, o + 4) != 0 && z is None) { None }
        else { inner(b, o + 8, n - 1, p, acc.push(SInner { inner: x->0, outer: if be2(b, o + 2) == 0 { None } else { y }, name: if be2(b, o + 4) == 0 { None } else { z }, flags: be2(b, o + 6) as u16 })) } }
}
#[verifier::opaque] spec fn s_inner(b: Seq<u8>, p: Seq<SEntry>, l: ClassLimits) -> Option<Seq<SInner>> { if !counted(b, 0, l.max_members as int) { None } else { closed(inner(b, 2, be2(b, 0), p, Seq::empty()), b) } }
spec fn r_attrs(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, names: Set<Seq<char>>, sig: Option<Seq<char>>, ann: Seq<Seq<char>>) -> Option<((Option<Seq<char>>, Seq<Seq<char>>), int)> decreases n {
    if n <= 0 { Some(((sig, ann), o)) } else { match attr(b, o, p, l) { None => None, Some((t, a)) => { let e = attr_end(b, o);
        if t == "Signature"@ { if names.contains(t) { None } else { match s_signature(a, p) { None => None, Some(x) => r_attrs(b, e, n - 1, p, l, names.insert(t), Some(x), ann) } } }
        else if t == "RuntimeVisibleAnnotations"@ || t == "RuntimeInvisibleAnnotations"@ { match s_annotations(a, p, l) { None => None, Some(x) => r_attrs(b, e, n - 1, p, l, names, sig, ann + x) } }
        else { r_attrs(b, e, n - 1, p, l, names, sig, ann) } } } }
}
spec fn component_list(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, seen: int, acc: Seq<SComp>) -> Option<((Seq<SComp>, int), int)> decreases n {
    if n <= 0 { Some(((acc, seen), o)) } else if !room(b, o, 6) || seen + be2(b, o + 4) > l.max_attributes { None } else { match (p_text(p, be2(b, o)), p_text(p, be2(b, o + 2))) {
        (Some(t), Some(d)) => if !field_ty(enc(d)) { None } else { match r_attrs(b, o + 6, be2(b, o + 4), p, l, Set::empty(), None, Seq::empty()) { None => None,
            Some(((sig, ann), e)) => component_list(b, e, n - 1, p, l, seen + be2(b, o + 4), acc.push(SComp { name: t, desc: d, sig, ann })) } }, _ => None } }
}
#[verifier::opaque] spec fn s_components(b: Seq<u8>, p: Seq<SEntry>, l: ClassLimits, seen: int) -> Option<(Seq<SComp>, int)> { if !counted(b, 0, l.max_members as int) { None } else { closed(component_list(b, 2, be2(b, 0), p, l, seen, Seq::empty()), b) } }
spec fn requirements(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>) -> Option<int> decreases n {
    if n <= 0 { Some(o) } else if !room(b, o, 6) || (be2(b, o + 4) != 0 && p_text(p, be2(b, o + 4)) is None) { None } else { requirements(b, o + 6, n - 1, p) }
}
spec fn pairs2(b: Seq<u8>, o: int, n: int) -> Option<int> decreases n { if n <= 0 { Some(o) } else if !room(b, o, 2) { None } else { pairs2(b, o + 2, n - 1) } }
spec fn exports(b: Seq<u8>, o: int, n: int, max: int) -> Option<int> decreases n {
    if n <= 0 { Some(o) } else if !room(b, o, 4) || !counted(b, o + 4, max) { None } else { match pairs2(b, o + 6, be2(b, o + 4)) { None => None, Some(e) => exports(b, e, n - 1, max) } }
}
spec fn s_exports(b: Seq<u8>, o: int, max: int) -> Option<int> { if !counted(b, o, max) { None } else { exports(b, o + 2, be2(b, o), max) } }
spec fn provides(b: Seq<u8>, o: int, n: int, max: int) -> Option<int> decreases n {
    if n <= 0 { Some(o) } else if !room(b, o, 2) || !counted(b, o + 2, max) { None } else { match pairs2(b, o + 4, be2(b, o + 2)) { None => None, Some(e) => provides(b, e, n - 1, max) } }
}
spec fn named(x: Option<int>, b: Seq<u8>, t: Seq<char>) -> Option<Seq<char>> { if x == Some(b.len() as int) { Some(t) } else { None } }
spec fn uses_rest(b: Seq<u8>, r: Option<int>, max: int) -> Option<int> { match r { None => None, Some(g) => if !counted(b, g, max) { None } else { provides(b, g + 2, be2(b, g), max) } } }
spec fn requires_rest(b: Seq<u8>, r: Option<int>, max: int) -> Option<int> {
    match r { None => None, Some(d) => match s_exports(b, d, max) { None => None, Some(e) => match s_exports(b, e, max) { None => None, Some(f) => if !counted(b, f, max) { None } else { uses_rest(b, pairs2(b, f + 2, be2(b, f)), max) } } } }
}
#[verifier::opaque] spec fn s_module(b: Seq<u8>, p: Seq<SEntry>, l: ClassLimits) -> Option<Seq<char>> {
    let max = l.max_members as int;
    if !room(b, 0, 6) || (be2(b, 4) != 0 && p_text(p, be2(b, 4)) is None) || !counted(b, 6, max) { None } else { match p_module(p, be2(b, 0)) { None => None, Some(t) => named(requires_rest(b, requirements(b, 8, be2(b, 6), p), max), b, t) } }
}
struct MAcc { names: Set<Seq<char>>, sig: Option<Seq<char>>, exc: Seq<Seq<char>>, params: Seq<(Seq<char>, u16)>, ann: Seq<Seq<char>>, line: Option<u16>, vars: Seq<SLocal> }
spec fn m_zero() -> MAcc { MAcc { names: Set::empty(), sig: None, exc: Seq::empty(), params: Seq::empty(), ann: Seq::empty(), line: None, vars: Seq::empty() } }
spec fn m_step(t: Seq<char>, a: Seq<u8>, p: Seq<SEntry>, l: ClassLimits, seen: int, x: MAcc) -> Option<(MAcc, int)> {
    if t == "RuntimeVisibleAnnotations"@ || t == "RuntimeInvisibleAnnotations"@ { match s_annotations(a, p, l) { None => None, Some(v) => Some((MAcc { ann: x.ann + v, ..x }, seen)) } }
    else if t == "Signature"@ || t == "Exceptions"@ || t == "MethodParameters"@ || t == "Code"@ {
        if x.names.contains(t) { None } else { let y = MAcc { names: x.names.insert(t), ..x };
            if t == "Signature"@ { match s_signature(a, p) { None => None, Some(v) => Some((MAcc { sig: Some(v), ..y }, seen)) } }
            else if t == "Exceptions"@ { match s_exceptions(a, p, l) { None => None, Some(v) => Some((MAcc { exc: v, ..y }, seen)) } }
            else if t == "MethodParameters"@ { match s_mparams(a, p, l) { None => None, Some(v) => Some((MAcc { params: v, ..y }, seen)) } }
            else { match s_code(a, p, l, seen) { None => None, Some(((line, vars), s2)) => Some((MAcc { line, vars, ..y }, s2)) } } }
    } else { Some((x, seen)) }
}
spec fn m_attrs(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, seen: int, x: MAcc) -> Option<((MAcc, int), int)> decreases n {
    if n <= 0 { Some(((x, seen), o)) } else { match attr(b, o, p, l) { None => None, Some((t, a)) => match m_step(t, a, p, l, seen, x) { None => None, Some((y, s2)) => m_attrs(b, attr_end(b, o), n - 1, p, l, s2, y) } } }
}
/// the variable that holds a slot when the method starts
spec fn first_local(v: Seq<SLocal>, i: int, slot: int) -> Option<Seq<char>> decreases v.len() - i {
    if i < 0 || i >= v.len() { None } else if v[i].slot == slot && v[i].start == 0 { Some(v[i].name) } else { first_local(v, i + 1, slot) }
}
spec fn width(t: Seq<u8>) -> int { if t == seq![74u8] || t == seq![68u8] { 2 } else { 1 } }
spec fn fill(types: Seq<Seq<u8>>, i: int, slot: int, v: Seq<SLocal>, acc: Seq<(Seq<char>, u16)>) -> Seq<(Seq<char>, u16)> decreases types.len() - i {
    if i < 0 || i >= types.len() { acc } else { fill(types, i + 1, slot + width(types[i]), v, if i >= acc.len() { acc.push((match first_local(v, 0, slot) { Some(t) => t, None => arg_name(i) }, 0u16)) } else { acc }) }
}
spec fn s_params(flags: u16, d: Seq<char>, given: Seq<(Seq<char>, u16)>, v: Seq<SLocal>) -> Option<Seq<(Seq<char>, u16)>> {
    match method_ty(enc(d)) { None => None, Some((types, _)) => if given.len() > types.len() { None } else { Some(fill(types, 0, if flags & 0x0008 == 0 { 1 } else { 0 }, v, given)) } }
}
spec fn s_members(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, method: bool, seen: int, acc: Seq<SMember>) -> Option<((Seq<SMember>, int), int)> decreases n, 1int {
    if n <= 0 { Some(((acc, seen), o)) } else if !room(b, o, 8) || seen + be2(b, o + 6) > l.max_attributes { None } else { match (p_text(p, be2(b, o + 2)), p_text(p, be2(b, o + 4))) {
        (Some(t), Some(d)) => if (if method { method_ty(enc(d)) is None } else { !field_ty(enc(d)) }) { None } else { m_after(b, n, p, l, method, acc, be2(b, o) as u16, t, d, m_attrs(b, o + 8, be2(b, o + 6), p, l, seen + be2(b, o + 6), m_zero())) }, _ => None } }
}
spec fn m_after(b: Seq<u8>, n: int, p: Seq<SEntry>, l: ClassLimits, method: bool, acc: Seq<SMember>, flags: u16, t: Seq<char>, d: Seq<char>, r: Option<((MAcc, int), int)>) -> Option<((Seq<SMember>, int), int)> decreases n, 0int {
    if n <= 0 { None } else { match r { None => None, Some(((x, s2), e)) => match (if method { s_params(flags, d, x.params, x.vars) } else { Some(x.params) }) { None => None,
        Some(ps) => s_members(b, e, n - 1, p, l, method, s2, acc.push(SMember { flags, name: t, desc: d, sig: x.sig, exc: x.exc, params: ps, ann: x.ann, line: x.line })) } } }
}
#[verifier::opaque] spec fn all_members(b: Seq<u8>, o: int, p: Seq<SEntry>, l: ClassLimits, method: bool, seen: int) -> Option<((Seq<SMember>, int), int)> { if !counted(b, o, l.max_members as int) { None } else { s_members(b, o + 2, be2(b, o), p, l, method, seen, Seq::empty()) } }
struct KAcc { names: Set<Seq<char>>, source: Option<Seq<char>>, sig: Option<Seq<char>>, ann: Seq<Seq<char>>, inner: Seq<SInner>, comps: Seq<SComp>, module: Option<Seq<char>> }
spec fn k_zero() -> KAcc { KAcc { names: Set::empty(), source: None, sig: None, ann: Seq::empty(), inner: Seq::empty(), comps: Seq::empty(), module: None } }
spec fn k_step(t: Seq<char>, a: Seq<u8>, p: Seq<SEntry>, l: ClassLimits, seen: int, x: KAcc) -> Option<(KAcc, int)> {
    if t == "RuntimeVisibleAnnotations"@ || t == "RuntimeInvisibleAnnotations"@ { match s_annotations(a, p, l) { None => None, Some(v) => Some((KAcc { ann: x.ann + v, ..x }, seen)) } }
    else if t == "SourceFile"@ || t == "Signature"@ || t == "InnerClasses"@ || t == "Record"@ || t == "Module"@ {
        if x.names.contains(t) { None } else { let y = KAcc { names: x.names.insert(t), ..x };
            if t == "SourceFile"@ { match s_signature(a, p) { None => None, Some(v) => Some((KAcc { source: Some(v), ..y }, seen)) } }
            else if t == "Signature"@ { match s_signature(a, p) { None => None, Some(v) => Some((KAcc { sig: Some(v), ..y }, seen)) } }
            else if t == "InnerClasses"@ { match s_inner(a, p, l) { None => None, Some(v) => Some((KAcc { inner: v, ..y }, seen)) } }
            else if t == "Record"@ { match s_components(a, p, l, seen) { None => None, Some((v, s2)) => Some((KAcc { comps: v, ..y }, s2)) } }
            else { match s_module(a, p, l) { None => None, Some(v) => Some((KAcc { module: Some(v), ..y }, seen)) } } }
    } else { Some((x, seen)) }
}
spec fn k_attrs(b: Seq<u8>, o: int, n: int, p: Seq<SEntry>, l: ClassLimits, seen: int, x: KAcc) -> Option<((KAcc, int), int)> decreases n {
    if n <= 0 { Some(((x, seen), o)) } else { match attr(b, o, p, l) { None => None, Some((t, a)) => match k_step(t, a, p, l, seen, x) { None => None, Some((y, s2)) => k_attrs(b, attr_end(b, o), n - 1, p, l, s2, y) } } }
}
struct SHead { minor: u16, major: u16, flags: u16, name: Seq<char>, sup: Option<Seq<char>> }
spec fn class_end(b: Seq<u8>, h: SHead, interfaces: Seq<Seq<char>>, fields: Seq<SMember>, methods: Seq<SMember>, r: Option<((KAcc, int), int)>) -> Option<SClass> {
    match closed(r, b) { None => None, Some((x, _)) => Some(SClass { minor: h.minor, major: h.major, flags: h.flags, name: h.name, sup: h.sup, interfaces, fields, methods, source: x.source, sig: x.sig, ann: x.ann, inner: x.inner, comps: x.comps, module: x.module }) }
}
spec fn class_rest(b: Seq<u8>, h: SHead, p: Seq<SEntry>, l: ClassLimits, r: Option<(Seq<Seq<char>>, int)>) -> Option<SClass> {
    match r { None => None, Some((interfaces, e)) => match all_members(b, e, p, l, false, 0) { None => None, Some(((fields, s1), f)) => match all_members(b, f, p, l, true, s1) { None => None, Some(((methods, s2), g)) =>
        if !room(b, g, 2) || s2 + be2(b, g) > l.max_attributes { None } else { class_end(b, h, interfaces, fields, methods, k_attrs(b, g + 2, be2(b, g), p, l, s2 + be2(b, g), k_zero())) } } } }
}
spec fn class_body(b: Seq<u8>, o: int, p: Seq<SEntry>, l: ClassLimits) -> Option<SClass> {
    if !room(b, o, 6) || !counted(b, o + 6, l.max_members as int) { None } else {
        let name = p_class(p, be2(b, o + 2)); let sup = p_class(p, be2(b, o + 4));
        if name is None || (be2(b, o + 4) != 0 && sup is None) { None } else {
            class_rest(b, SHead { minor: be2(b, 4) as u16, major: be2(b, 6) as u16, flags: be2(b, o) as u16, name: name->0, sup: if be2(b, o + 4) == 0 { None } else { sup } }, p, l, classes(b, o + 8, be2(b, o + 6), p, Seq::empty())) } }
}
/// what a class file says, or None when it is malformed or beyond a limit
spec fn s_class(b: Seq<u8>, l: ClassLimits) -> Option<SClass> {
    if b.len() > l.max_class_bytes || !room(b, 0, 8) || be4(b, 0) != 0xcafebabe { None } else { match s_pool(b, 8, l) { None => None, Some((p, o)) => class_body(b, o, p, l) } }
}
proof fn names()
    ensures "Signature"@.len() == 9, "Exceptions"@.len() == 10, "MethodParameters"@.len() == 16, "RuntimeVisibleAnnotations"@.len() == 25, "RuntimeInvisibleAnnotations"@.len() == 27, "Code"@.len() == 4,
        "SourceFile"@.len() == 10, "InnerClasses"@.len() == 12, "Record"@.len() == 6, "Module"@.len() == 6, "LineNumberTable"@.len() == 15, "LocalVariableTable"@.len() == 18, "Record"@[0] == 'R', "Module"@[0] == 'M',
        forall|a: &str| (#[trigger] a@ == "Signature"@ ==> a == "Signature") && (a@ == "Exceptions"@ ==> a == "Exceptions") && (a@ == "MethodParameters"@ ==> a == "MethodParameters") && (a@ == "RuntimeVisibleAnnotations"@ ==> a == "RuntimeVisibleAnnotations") && (a@ == "RuntimeInvisibleAnnotations"@ ==> a == "RuntimeInvisibleAnnotations") && (a@ == "Code"@ ==> a == "Code") && (a@ == "SourceFile"@ ==> a == "SourceFile") && (a@ == "InnerClasses"@ ==> a == "InnerClasses") && (a@ == "Record"@ ==> a == "Record") && (a@ == "Module"@ ==> a == "Module")
{
    reveal_strlit("Signature"); reveal_strlit("Exceptions"); reveal_strlit("MethodParameters"); reveal_strlit("RuntimeVisibleAnnotations"); reveal_strlit("RuntimeInvisibleAnnotations"); reveal_strlit("Code");
    reveal_strlit("SourceFile"); reveal_strlit("InnerClasses"); reveal_strlit("Record"); reveal_strlit("Module"); reveal_strlit("LineNumberTable"); reveal_strlit("LocalVariableTable");
    assert forall|a: &str| (#[trigger] a@ == "Signature"@ ==> a == "Signature") && (a@ == "Exceptions"@ ==> a == "Exceptions") && (a@ == "MethodParameters"@ ==> a == "MethodParameters") && (a@ == "RuntimeVisibleAnnotations"@ ==> a == "RuntimeVisibleAnnotations") && (a@ == "RuntimeInvisibleAnnotations"@ ==> a == "RuntimeInvisibleAnnotations") && (a@ == "Code"@ ==> a == "Code") && (a@ == "SourceFile"@ ==> a == "SourceFile") && (a@ == "InnerClasses"@ ==> a == "InnerClasses") && (a@ == "Record"@ ==> a == "Record") && (a@ == "Module"@ ==> a == "Module") by { same_text(a, "Signature"); same_text(a, "Exceptions"); same_text(a, "MethodParameters"); same_text(a, "RuntimeVisibleAnnotations"); same_text(a, "RuntimeInvisibleAnnotations"); same_text(a, "Code"); same_text(a, "SourceFile"); same_text(a, "InnerClasses"); same_text(a, "Record"); same_text(a, "Module"); }
}
proof fn width_is(t: JvmType) ensures width(shown(t)) == (if t is Long || t is Double { 2int } else { 1 })
{
    let s = shown(t);
    assert(seq![74u8].len() == 1 && seq![74u8][0] == 74 && seq![68u8][0] == 68);
    assert(s.len() > 0 && s[0] == (match t { JvmType::Byte => 66u8, JvmType::Char => 67, JvmType::Double => 68, JvmType::Float => 70, JvmType::Int => 73, JvmType::Long => 74, JvmType::Short => 83, JvmType::Boolean => 90, JvmType::Void => 86, JvmType::Object(_) => 76, JvmType::Array(_) => 91 }));
}
impl ConstantPool {
    spec fn p(&self) -> Seq<SEntry> { slots(self.entries@) }
//@fn crates/jvm-metadata/src/classfile.rs :: ConstantPool::entry
//@ ret r
//@ rewrite? usize::from($x:a) ==> (($x) as usize)
//@ rewrite? $x:e.ok_or($z) ==> match $x { Some(vp_v) => Ok(vp_v), None => Err($z) }
//@ spec
    ensures match r { Ok(e) => 0 < index < self.p().len() && v_entry(*e) == self.p()[index as int], Err(_) => !(0 < index < self.p().len()) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ConstantPool::utf8
//@ ret r
//@ rewrite? => Ok($v:i), ==> => Ok($v.as_str()),
//@ spec
    ensures match r { Ok(t) => p_text(self.p(), index as int) == Some(t@), Err(_) => p_text(self.p(), index as int) is None }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ConstantPool::class_name
//@ ret r
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ spec
    ensures match r { Ok(t) => p_class(self.p(), index as int) == Some(t@), Err(_) => p_class(self.p(), index as int) is None }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ConstantPool::module_name
//@ ret r
//@ spec
    ensures match r { Ok(t) => p_module(self.p(), index as int) == Some(t@), Err(_) => p_module(self.p(), index as int) is None }
//@end
}
//@fn crates/jvm-metadata/src/classfile.rs :: require_unique_attribute
//@ sig fn require_unique_attribute(seen: &mut VpNames, name: &str) -> (r: Result<(), MetadataError>)
//@ rewrite? $x:i.insert($k:i.to_string()) ==> $x.insert(vp_string($k))
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ spec
    ensures match r { Ok(_) => !old(seen)@.contains(name@) && final(seen)@ == old(seen)@.insert(name@), Err(_) => old(seen)@.contains(name@) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: require_finished
//@ ret r
//@ spec
    ensures r is Ok == (cursor.offset == cursor.bytes@.len())
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: parse_signature_attribute
//@ ret r
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ spec
    ensures match r { Ok(t) => s_signature(bytes@, constant_pool.p()) == Some(t@), Err(_) => s_signature(bytes@, constant_pool.p()) is None }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: bounded_nested_count
//@ ret r
//@ rewrite? usize::from($x:a) ==> (($x) as usize)
//@ spec
    requires old(cursor).ok()
    ensures moved(old(cursor), final(cursor)), match r { Ok(n) => counted(old(cursor).b(), old(cursor).o(), maximum as int) && n == be2(old(cursor).b(), old(cursor).o()) && final(cursor).o() == old(cursor).o() + 2, Err(_) => !counted(old(cursor).b(), old(cursor).o(), maximum as int) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: parse_annotation
//@ ret r
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ rewrite? crate::descriptor::parse_field_descriptor(&$x:i).map_err(|_| $z:a)? ==> match parse_field_descriptor($x.as_str()) { Ok(vp_v) => vp_v, Err(_) => return Err($z) }
//@ rewrite? crate::descriptor::parse_field_descriptor($x:i).map_err(|_| $z:a)? ==> match parse_field_descriptor($x) { Ok(vp_v) => vp_v, Err(_) => return Err($z) }
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    requires old(cursor).ok(), depth <= old(cursor).offset
    ensures moved(old(cursor), final(cursor)), match r { Ok(a) => annotation(old(cursor).b(), old(cursor).o(), constant_pool.p(), limits, depth as int) == Some((a.descriptor@, final(cursor).o())) && final(cursor).o() > old(cursor).o(), Err(_) => annotation(old(cursor).b(), old(cursor).o(), constant_pool.p(), limits, depth as int) is None }
    decreases old(cursor).bytes@.len() - old(cursor).offset, 0int
//@ entry
    let ghost vp_o = cursor.o(); let ghost vp_b = cursor.b();
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= pair_count, cursor.ok(), cursor.b() == vp_b, vp_b == old(cursor).b(), vp_o == old(cursor).o(), depth <= vp_o, vp_o < cursor.o(),
        annotation(vp_b, vp_o, constant_pool.p(), limits, depth as int) == (match pairs(vp_b, cursor.o(), pair_count - vp_i, constant_pool.p(), limits, depth as int) { None => None, Some(vp_e) => Some((descriptor@, vp_e)) })
    decreases pair_count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: skip_annotation_value
//@ ret r
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    requires old(cursor).ok(), depth <= old(cursor).offset
    ensures moved(old(cursor), final(cursor)), match r { Ok(_) => value(old(cursor).b(), old(cursor).o(), constant_pool.p(), limits, depth as int) == Some(final(cursor).o()) && final(cursor).o() > old(cursor).o(), Err(_) => value(old(cursor).b(), old(cursor).o(), constant_pool.p(), limits, depth as int) is None }
    decreases old(cursor).bytes@.len() - old(cursor).offset, 0int
//@ entry
    let ghost vp_o = cursor.o(); let ghost vp_b = cursor.b();
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == vp_b, vp_b == old(cursor).b(), vp_o == old(cursor).o(), depth <= vp_o, vp_o < cursor.o(),
        values(vp_b, cursor.o(), count - vp_i, constant_pool.p(), limits, depth + 1) == value(vp_b, vp_o, constant_pool.p(), limits, depth as int)
    decreases count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: parse_first_line
//@ ret r
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ rewrite? $x:i.map_or($l:i, |current: u16| current.min($l)) ==> match $x { None => $l, Some(current) => vp_min16(current, $l) }
//@ spec
    ensures match r { Ok(x) => s_lines(bytes@, limits) == Some(x), Err(_) => s_lines(bytes@, limits) is None }
//@ entry
    proof { reveal(s_lines); }
    broadcast use lem::views;
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == bytes@, closed(lines(bytes@, cursor.o(), count - vp_i, first_line), bytes@) == s_lines(bytes@, limits)
    decreases count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: parse_local_variables
//@ ret r
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ rewrite? crate::descriptor::parse_field_descriptor(&$x:i).map_err(|_| $z:a)? ==> match parse_field_descriptor($x.as_str()) { Ok(vp_v) => vp_v, Err(_) => return Err($z) }
//@ rewrite? crate::descriptor::parse_field_descriptor($x:i).map_err(|_| $z:a)? ==> match parse_field_descriptor($x) { Ok(vp_v) => vp_v, Err(_) => return Err($z) }
//@ rewrite? usize::from($x:a) ==> (($x) as usize)
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    ensures match r { Ok(x) => s_locals(bytes@, constant_pool.p(), limits) == Some(vars(x@)), Err(_) => s_locals(bytes@, constant_pool.p(), limits) is None }
//@ entry
    proof { reveal(s_locals); }
    broadcast use lem::views;
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == bytes@, closed(variables(bytes@, cursor.o(), count - vp_i, constant_pool.p(), vars(locals@)), bytes@) == s_locals(bytes@, constant_pool.p(), limits)
    decreases count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: parse_module_exports_or_opens
//@ ret r
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    requires old(cursor).ok()
    ensures moved(old(cursor), final(cursor)), match r { Ok(_) => s_exports(old(cursor).b(), old(cursor).o(), maximum as int) == Some(final(cursor).o()), Err(_) => s_exports(old(cursor).b(), old(cursor).o(), maximum as int) is None }
//@ entry
    let ghost vp_o = cursor.o(); let ghost vp_b = cursor.b();
//@ loopstart 0
    broadcast use lem::views; let ghost vp_n = count - vp_i;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == vp_b, vp_b == old(cursor).b(), vp_o == old(cursor).o(), exports(vp_b, cursor.o(), count - vp_i, maximum as int) == s_exports(vp_b, vp_o, maximum as int)
    decreases count - vp_i
//@ loopstart 1
    broadcast use lem::views;
//@ loop 1
    invariant vp_i <= target_count, cursor.ok(), cursor.b() == vp_b, vp_b == old(cursor).b(), vp_o == old(cursor).o(), s_exports(vp_b, vp_o, maximum as int) == (match pairs2(vp_b, cursor.o(), target_count - vp_i) { None => None, Some(vp_e) => exports(vp_b, vp_e, vp_n - 1, maximum as int) })
    decreases target_count - vp_i
//@end
impl<'a> ClassParser<'a> {
    spec fn same(a: &Self, b: &Self) -> bool { b.limits == a.limits && b.cursor.bytes@ == a.cursor.bytes@ && b.cursor.ok() }
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::new
//@ ret r
//@ spec
    ensures r.cursor.ok(), r.cursor.b() == bytes@, r.cursor.o() == 0, r.limits == limits, r.attributes_seen == 0
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::bounded_count
//@ ret r
//@ rewrite? usize::from($x:a) ==> (($x) as usize)
//@ spec
    requires old(self).cursor.ok()
    ensures Self::same(old(self), final(self)), final(self).attributes_seen == old(self).attributes_seen, match r { Ok(n) => counted(old(self).cursor.b(), old(self).cursor.o(), old(self).limits.max_members as int) && n == be2(old(self).cursor.b(), old(self).cursor.o()) && final(self).cursor.o() == old(self).cursor.o() + 2, Err(_) => !counted(old(self).cursor.b(), old(self).cursor.o(), old(self).limits.max_members as int) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::record_attribute_count
//@ ret r
//@ rewrite? $x:e.ok_or($z)? ==> match $x { Some(vp_v) => vp_v, None => return Err($z) }
//@ spec
    ensures final(self).limits == old(self).limits, final(self).cursor == old(self).cursor, match r { Ok(_) => old(self).attributes_seen + count <= old(self).limits.max_attributes && final(self).attributes_seen == old(self).attributes_seen + count, Err(_) => old(self).attributes_seen + count > old(self).limits.max_attributes }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::bounded_attribute_count
//@ ret r
//@ rewrite? usize::from($x:a) ==> (($x) as usize)
//@ spec
    requires old(self).cursor.ok()
    ensures Self::same(old(self), final(self)), match r { Ok(n) => room(old(self).cursor.b(), old(self).cursor.o(), 2) && n == be2(old(self).cursor.b(), old(self).cursor.o()) && old(self).attributes_seen + n <= old(self).limits.max_attributes && final(self).attributes_seen == old(self).attributes_seen + n && final(self).cursor.o() == old(self).cursor.o() + 2, Err(_) => !room(old(self).cursor.b(), old(self).cursor.o(), 2) || old(self).attributes_seen + be2(old(self).cursor.b(), old(self).cursor.o()) > old(self).limits.max_attributes }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::bounded_attribute_count_from
//@ ret r
//@ rewrite? usize::from($x:a) ==> (($x) as usize)
//@ spec
    requires old(cursor).ok()
    ensures moved(old(cursor), final(cursor)), final(self).limits == old(self).limits, final(self).cursor == old(self).cursor, match r { Ok(n) => room(old(cursor).b(), old(cursor).o(), 2) && n == be2(old(cursor).b(), old(cursor).o()) && old(self).attributes_seen + n <= old(self).limits.max_attributes && final(self).attributes_seen == old(self).attributes_seen + n && final(cursor).o() == old(cursor).o() + 2, Err(_) => !room(old(cursor).b(), old(cursor).o(), 2) || old(self).attributes_seen + be2(old(cursor).b(), old(cursor).o()) > old(self).limits.max_attributes }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::attribute_bytes
//@ ret r
//@ rewrite? usize::try_from($x:e).map_err(|_| $z:a)? ==> vp_usize($x)
//@ spec
    requires old(self).cursor.ok()
    ensures Self::same(old(self), final(self)), final(self).attributes_seen == old(self).attributes_seen, match r { Ok(v) => room(old(self).cursor.b(), old(self).cursor.o(), 4) && be4(old(self).cursor.b(), old(self).cursor.o()) <= old(self).limits.max_attribute_bytes && room(old(self).cursor.b(), old(self).cursor.o() + 4, be4(old(self).cursor.b(), old(self).cursor.o())) && v@ == piece(old(self).cursor.b(), old(self).cursor.o() + 4, be4(old(self).cursor.b(), old(self).cursor.o())) && final(self).cursor.o() == old(self).cursor.o() + 4 + be4(old(self).cursor.b(), old(self).cursor.o()), Err(_) => !room(old(self).cursor.b(), old(self).cursor.o(), 4) || be4(old(self).cursor.b(), old(self).cursor.o()) > old(self).limits.max_attribute_bytes || !room(old(self).cursor.b(), old(self).cursor.o() + 4, be4(old(self).cursor.b(), old(self).cursor.o())) }
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_exceptions
//@ ret r
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    ensures match r { Ok(x) => s_exceptions(bytes@, constant_pool.p(), self.limits) == Some(strs(x@)), Err(_) => s_exceptions(bytes@, constant_pool.p(), self.limits) is None }
//@ entry
    proof { reveal(s_exceptions); }
    broadcast use lem::views;
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == bytes@, closed(classes(bytes@, cursor.o(), count - vp_i, constant_pool.p(), strs(exceptions@)), bytes@) == s_exceptions(bytes@, constant_pool.p(), self.limits)
    decreases count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_method_parameters
//@ ret r
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? usize::from($x:a) ==> (($x) as usize)
//@ rewrite? format!("arg{index}") ==> vp_arg(index)
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ rewrite? for $i:i in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { let $i = vp_i; vp_i += 1; $b }
//@ spec
    ensures match r { Ok(x) => s_mparams(bytes@, constant_pool.p(), self.limits) == Some(mparams(x@)), Err(_) => s_mparams(bytes@, constant_pool.p(), self.limits) is None }
//@ entry
    proof { reveal(s_mparams); }
    broadcast use lem::views;
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == bytes@, closed(mp(bytes@, cursor.o(), vp_i as int, count as int, constant_pool.p(), mparams(parameters@)), bytes@) == s_mparams(bytes@, constant_pool.p(), self.limits)
    decreases count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_annotations
//@ ret r
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    ensures match r { Ok(x) => s_annotations(bytes@, constant_pool.p(), self.limits) == Some(anns(x@)), Err(_) => s_annotations(bytes@, constant_pool.p(), self.limits) is None }
//@ entry
    proof { reveal(s_annotations); }
    broadcast use lem::views;
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == bytes@, closed(annotation_list(bytes@, cursor.o(), count - vp_i, constant_pool.p(), self.limits, anns(annotations@)), bytes@) == s_annotations(bytes@, constant_pool.p(), self.limits)
    decreases count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_inner_classes
//@ ret r
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    ensures match r { Ok(x) => s_inner(bytes@, constant_pool.p(), self.limits) == Some(inners(x@)), Err(_) => s_inner(bytes@, constant_pool.p(), self.limits) is None }
//@ entry
    proof { reveal(s_inner); }
    broadcast use lem::views;
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == bytes@, closed(inner(bytes@, cursor.o(), count - vp_i, constant_pool.p(), inners(classes@)), bytes@) == s_inner(bytes@, constant_pool.p(), self.limits)
    decreases count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_code_metadata
//@ ret r
//@ rewrite? usize::try_from($x:e).map_err(|_| $z:a)? ==> vp_usize($x)
//@ rewrite? $x:e.ok_or($z)? ==> match $x { Some(vp_v) => vp_v, None => return Err($z) }
//@ rewrite? name == $k:l ==> vp_is(name, $k)
//@ rewrite? $x:i.map_or($l:i, |current: u16| current.min($l)) ==> match $x { None => $l, Some(current) => vp_min16(current, $l) }
//@ rewrite? $v:i.extend($w:a) ==> vp_extend(&mut $v, $w)
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    ensures final(self).limits == old(self).limits, final(self).cursor == old(self).cursor,
        match r { Ok(x) => s_code(bytes@, constant_pool.p(), old(self).limits, old(self).attributes_seen as int) == Some(((x.first_line, vars(x.local_variables@)), final(self).attributes_seen as int)), Err(_) => s_code(bytes@, constant_pool.p(), old(self).limits, old(self).attributes_seen as int) is None }
//@ entry
    proof { reveal(s_code); }
    broadcast use lem::views; proof { names(); }
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= attribute_count, cursor.ok(), cursor.b() == bytes@, self.limits == old(self).limits, self.cursor == old(self).cursor,
        s_code(bytes@, constant_pool.p(), old(self).limits, old(self).attributes_seen as int) == (match closed(c_attrs(bytes@, cursor.o(), attribute_count - vp_i, constant_pool.p(), self.limits, first_line, vars(local_variables@)), bytes@) { None => None, Some(vp_x) => Some((vp_x, self.attributes_seen as int)) })
    decreases attribute_count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_record_components
//@ ret r
//@ rewrite? usize::try_from($x:e).map_err(|_| $z:a)? ==> vp_usize($x)
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ rewrite? crate::descriptor::parse_field_descriptor(&$x:i).map_err(|_| $z:a)? ==> match parse_field_descriptor($x.as_str()) { Ok(vp_v) => vp_v, Err(_) => return Err($z) }
//@ rewrite? crate::descriptor::parse_field_descriptor($x:i).map_err(|_| $z:a)? ==> match parse_field_descriptor($x) { Ok(vp_v) => vp_v, Err(_) => return Err($z) }
//@ rewrite? std::collections::HashSet::new() ==> VpNames::new()
//@ rewrite? $v:i.extend($w:a) ==> vp_extend(&mut $v, $w)
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    ensures final(self).limits == old(self).limits, final(self).cursor == old(self).cursor,
        match r { Ok(x) => s_components(bytes@, constant_pool.p(), old(self).limits, old(self).attributes_seen as int) == Some((comps(x@), final(self).attributes_seen as int)), Err(_) => s_components(bytes@, constant_pool.p(), old(self).limits, old(self).attributes_seen as int) is None }
//@ entry
    proof { reveal(s_components); }
    broadcast use lem::views; proof { names(); }
//@ loopstart 0
    broadcast use lem::views; let ghost vp_n = count - vp_i;
//@ loop 0
    invariant vp_i <= count, cursor.ok(), cursor.b() == bytes@, self.limits == old(self).limits, self.cursor == old(self).cursor,
        closed(component_list(bytes@, cursor.o(), count - vp_i, constant_pool.p(), self.limits, self.attributes_seen as int, comps(components@)), bytes@) == s_components(bytes@, constant_pool.p(), old(self).limits, old(self).attributes_seen as int)
    decreases count - vp_i
//@ loopstart 1
    broadcast use lem::views; proof { names(); }
//@ loop 1
    invariant vp_i <= attribute_count, cursor.ok(), cursor.b() == bytes@, self.limits == old(self).limits, self.cursor == old(self).cursor,
        s_components(bytes@, constant_pool.p(), old(self).limits, old(self).attributes_seen as int) == (match r_attrs(bytes@, cursor.o(), attribute_count - vp_i, constant_pool.p(), self.limits, unique_attributes@, ostr(signature), anns(annotations@)) { None => None, Some(((vp_g, vp_a), vp_e)) => closed(component_list(bytes@, vp_e, vp_n - 1, constant_pool.p(), self.limits, self.attributes_seen as int, comps(components@).push(SComp { name: name@, desc: descriptor@, sig: vp_g, ann: vp_a })), bytes@) })
    decreases attribute_count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_module_name
//@ ret r
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ spec
    ensures match r { Ok(x) => s_module(bytes@, constant_pool.p(), self.limits) == Some(x@), Err(_) => s_module(bytes@, constant_pool.p(), self.limits) is None }
//@ entry
    proof { reveal(s_module); }
//@ loop 0
    invariant vp_i <= requires_count, cursor.ok(), cursor.b() == bytes@, named(requires_rest(bytes@, requirements(bytes@, cursor.o(), requires_count - vp_i, constant_pool.p()), self.limits.max_members as int), bytes@, name@) == s_module(bytes@, constant_pool.p(), self.limits)
    decreases requires_count - vp_i
//@ loop 1
    invariant vp_i <= uses_count, cursor.ok(), cursor.b() == bytes@, named(uses_rest(bytes@, pairs2(bytes@, cursor.o(), uses_count - vp_i), self.limits.max_members as int), bytes@, name@) == s_module(bytes@, constant_pool.p(), self.limits)
    decreases uses_count - vp_i
//@ loopstart 2
    let ghost vp_n = provides_count - vp_i;
//@ loop 2
    invariant vp_i <= provides_count, cursor.ok(), cursor.b() == bytes@, named(provides(bytes@, cursor.o(), provides_count - vp_i, self.limits.max_members as int), bytes@, name@) == s_module(bytes@, constant_pool.p(), self.limits)
    decreases provides_count - vp_i
//@ loop 3
    invariant vp_i <= implementation_count, cursor.ok(), cursor.b() == bytes@, named(match pairs2(bytes@, cursor.o(), implementation_count - vp_i) { None => None, Some(vp_e) => provides(bytes@, vp_e, vp_n - 1, self.limits.max_members as int) }, bytes@, name@) == s_module(bytes@, constant_pool.p(), self.limits)
    decreases implementation_count - vp_i
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_constant_pool
//@ ret r
//@ rewrite? usize::from($x:a) ==> (($x) as usize)
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ spec
    requires old(self).cursor.ok()
    ensures Self::same(old(self), final(self)), final(self).attributes_seen == old(self).attributes_seen, match r { Ok(x) => s_pool(old(self).cursor.b(), old(self).cursor.o(), old(self).limits) == Some((x.p(), final(self).cursor.o())), Err(_) => s_pool(old(self).cursor.b(), old(self).cursor.o(), old(self).limits) is None }
//@ entry
    proof { reveal(s_pool); }
    broadcast use lem::views;
    proof { assert(Seq::<SEntry>::empty().push(SEntry::Nothing) =~= seq![SEntry::Nothing]); }
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant self.cursor.ok(), self.cursor.b() == old(self).cursor.b(), self.limits == old(self).limits, self.attributes_seen == old(self).attributes_seen, index == entries@.len(), count <= 0xffff, index <= count + 1,
        pool_rest(self.cursor.b(), self.cursor.o(), count as int, slots(entries@)) == s_pool(old(self).cursor.b(), old(self).cursor.o(), old(self).limits)
    decreases count + 1 - index
//@end
//@fn crates/jvm-metadata/src/classfile.rs :: ClassParser::parse_members
//@ ret r
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? local_variables.iter().filter(|local| $p:a).min_by_key(|local| $k:a).filter(|local| $q:a).map(|local| $m:a) ==> { let mut vp_best: Option<usize> = None; let mut vp_j: usize = 0; while vp_j < local_variables.len() { { let local = &local_variables[vp_j]; if $p { vp_best = match vp_best { None => Some(vp_j), Some(vp_b) => if { let vp_k = $k; let local = &local_variables[vp_b]; vp_k < $k } { Some(vp_j) } else { Some(vp_b) } }; } } vp_j += 1; } match vp_best { None => None, Some(vp_b) => { let local = &local_variables[vp_b]; if $q { Some($m) } else { None } } } }
//@ rewrite? $x:e.clone() ==> vp_copy(&$x)
//@ rewrite? for ($i:i, $t:i) in $v:e.iter().enumerate() $b:b ==> let mut vp_i: usize = 0; while vp_i < $v.len() { let $i = vp_i; let $t = &$v[vp_i]; vp_i += 1; $b }
//@ rewrite? for $i:i in $a:e..$c:e $b:b ==> let mut vp_i: usize = $a; while vp_i < $c { let $i = vp_i; vp_i += 1; $b }
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ rewrite? crate::descriptor::JvmType::Long ==> JvmType::Long
//@ rewrite? crate::descriptor::JvmType::Double ==> JvmType::Double
//@ rewrite? crate::descriptor::JvmType::Byte ==> JvmType::Byte
//@ rewrite? crate::descriptor::JvmType::Char ==> JvmType::Char
//@ rewrite? crate::descriptor::JvmType::Float ==> JvmType::Float
//@ rewrite? crate::descriptor::JvmType::Int ==> JvmType::Int
//@ rewrite? crate::descriptor::JvmType::Short ==> JvmType::Short
//@ rewrite? crate::descriptor::JvmType::Boolean ==> JvmType::Boolean
//@ rewrite? crate::descriptor::JvmType::Object ==> JvmType::Object
//@ rewrite? crate::descriptor::JvmType::Array ==> JvmType::Array
//@ rewrite? crate::descriptor::JvmType::Void ==> JvmType::Void
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ rewrite? crate::descriptor::parse_field_descriptor(&$x:i).map_err(|_| $z:a)? ==> match parse_field_descriptor($x.as_str()) { Ok(vp_v) => vp_v, Err(_) => return Err($z) }
//@ rewrite? crate::descriptor::parse_method_descriptor(&$x:i).map_err(|_| $z:a)? ==> match parse_method_descriptor($x.as_str()) { Ok(vp_v) => vp_v, Err(_) => return Err($z) }
//@ rewrite? std::collections::HashSet::new() ==> VpNames::new()
//@ rewrite? $v:i.extend($w:a) ==> vp_extend(&mut $v, $w)
//@ rewrite? format!("arg{index}") ==> vp_arg(index)
//@ rewrite? $x:i.unwrap_or_else(|| $y:a) ==> match $x { Some(vp_v) => vp_v, None => $y }
//@ spec
    requires old(self).cursor.ok()
    ensures Self::same(old(self), final(self)), match r { Ok(x) => all_members(old(self).cursor.b(), old(self).cursor.o(), constant_pool.p(), old(self).limits, kind == MemberKind::Method, old(self).attributes_seen as int) == Some(((members_of(x@), final(self).attributes_seen as int), final(self).cursor.o())), Err(_) => all_members(old(self).cursor.b(), old(self).cursor.o(), constant_pool.p(), old(self).limits, kind == MemberKind::Method, old(self).attributes_seen as int) is None }
//@ entry
    proof { reveal(all_members); }
    broadcast use lem::views; proof { names(); }
//@ loopstart 0
    broadcast use lem::views; let ghost vp_n = count - vp_i;
//@ loop 0
    invariant vp_i <= count, self.cursor.ok(), self.cursor.b() == old(self).cursor.b(), self.limits == old(self).limits, s_members(self.cursor.b(), self.cursor.o(), count - vp_i, constant_pool.p(), self.limits, kind == MemberKind::Method, self.attributes_seen as int, members_of(members@)) == all_members(old(self).cursor.b(), old(self).cursor.o(), constant_pool.p(), old(self).limits, kind == MemberKind::Method, old(self).attributes_seen as int)
    decreases count - vp_i
//@ loopstart 1
    broadcast use lem::views; proof { names(); }
//@ loop 1
    invariant vp_i <= attribute_count, vp_n > 0, self.cursor.ok(), self.cursor.b() == old(self).cursor.b(), self.limits == old(self).limits, m_after(self.cursor.b(), vp_n, constant_pool.p(), self.limits, kind == MemberKind::Method, members_of(members@), access_flags, name@, descriptor@, m_attrs(self.cursor.b(), self.cursor.o(), attribute_count - vp_i, constant_pool.p(), self.limits, self.attributes_seen as int,
            MAcc { names: unique_attributes@, sig: ostr(signature), exc: strs(exceptions@), params: mparams(parameters@), ann: anns(annotations@), line: first_line, vars: vars(local_variables@) })) == all_members(old(self).cursor.b(), old(self).cursor.o(), constant_pool.p(), old(self).limits, kind == MemberKind::Method, old(self).attributes_seen as int)
    decreases attribute_count - vp_i
//@ loopstart 2
    broadcast use lem::views; proof { width_is(method_descriptor.parameters@[vp_i as int]); }
//@ loop 2
    invariant vp_i <= method_descriptor.parameters@.len() <= isize::MAX, vp_n > 0, self.cursor.ok(), self.cursor.b() == old(self).cursor.b(), self.limits == old(self).limits, slot <= 1 + 2 * vp_i, forall|i: int| 0 <= i < method_descriptor.parameters@.len() ==> !(#[trigger] method_descriptor.parameters@[i] is Void),
        vp_i <= parameters@.len() <= method_descriptor.parameters@.len(),
        s_members(self.cursor.b(), self.cursor.o(), vp_n - 1, constant_pool.p(), self.limits, kind == MemberKind::Method, self.attributes_seen as int, members_of(members@).push(SMember { flags: access_flags, name: name@, desc: descriptor@, sig: ostr(signature), exc: strs(exceptions@), params: fill(shown_all(method_descriptor.parameters@), vp_i as int, slot as int, vars(local_variables@), mparams(parameters@)), ann: anns(annotations@), line: first_line })) == all_members(old(self).cursor.b(), old(self).cursor.o(), constant_pool.p(), old(self).limits, kind == MemberKind::Method, old(self).attributes_seen as int)
    decreases method_descriptor.parameters@.len() - vp_i
//@ loopstart 3
    broadcast use lem::views;
//@ loop 3
    invariant vp_j <= local_variables@.len(), vp_best is Some ==> vp_best->0 < local_variables@.len() && local_variables@[vp_best->0 as int].slot == slot,
        first_local(vars(local_variables@), 0, slot as int) == (if vp_best is Some && local_variables@[vp_best->0 as int].start_pc == 0 { Some(local_variables@[vp_best->0 as int].name@) } else { first_local(vars(local_variables@), vp_j as int, slot as int) })
    decreases local_variables@.len() - vp_j
//@ loop 4
    invariant vp_i >= method_descriptor.parameters@.len(), vp_n > 0, self.cursor.ok(), self.cursor.b() == old(self).cursor.b(), self.limits == old(self).limits, s_members(self.cursor.b(), self.cursor.o(), vp_n - 1, constant_pool.p(), self.limits, kind == MemberKind::Method, self.attributes_seen as int, members_of(members@).push(SMember { flags: access_flags, name: name@, desc: descriptor@, sig: ostr(signature), exc: strs(exceptions@), params: mparams(parameters@), ann: anns(annotations@), line: first_line })) == all_members(old(self).cursor.b(), old(self).cursor.o(), constant_pool.p(), old(self).limits, kind == MemberKind::Method, old(self).attributes_seen as int)
    decreases 0int
//@end
}
//@fn crates/jvm-metadata/src/classfile.rs :: parse_class
//@ ret r
//@ rewrite? Vec::with_capacity($n:a) ==> vp_vec($n)
//@ rewrite? $x:e.to_string() ==> vp_string($x)
//@ rewrite? std::collections::HashSet::new() ==> VpNames::new()
//@ rewrite? $v:i.extend($w:a) ==> vp_extend(&mut $v, $w)
//@ rewrite? for _ in 0..$n:i $b:b ==> let mut vp_i: usize = 0; while vp_i < $n { vp_i += 1; $b }
//@ spec
    ensures match r { Ok(x) => s_class(bytes@, limits) == Some(v_class(x)), Err(_) => s_class(bytes@, limits) is None }
//@ entry
    broadcast use lem::views; proof { names(); }
//@ loopstart 0
    broadcast use lem::views;
//@ loop 0
    invariant vp_i <= interface_count, parser.cursor.ok(), parser.cursor.b() == bytes@, parser.limits == limits, parser.attributes_seen == 0,
        class_rest(bytes@, SHead { minor: minor_version, major: major_version, flags: access_flags, name: name@, sup: ostr(super_name) }, constant_pool.p(), limits, classes(bytes@, parser.cursor.o(), interface_count - vp_i, constant_pool.p(), strs(interfaces@))) == s_class(bytes@, limits)
    decreases interface_count - vp_i
//@ loopstart 1
    broadcast use lem::views; proof { names(); }
//@ loop 1
    invariant vp_i <= class_attribute_count, parser.cursor.ok(), parser.cursor.b() == bytes@, parser.limits == limits,
        class_end(bytes@, SHead { minor: minor_version, major: major_version, flags: access_flags, name: name@, sup: ostr(super_name) }, strs(interfaces@), members_of(fields@), members_of(methods@),
            k_attrs(bytes@, parser.cursor.o(), class_attribute_count - vp_i, constant_pool.p(), limits, parser.attributes_seen as int,
                KAcc { names: unique_attributes@, source: ostr(source_file), sig: ostr(signature), ann: anns(annotations@), inner: inners(inner_classes@), comps: comps(record_components@), module: ostr(module_name) })) == s_class(bytes@, limits)
    decreases class_attribute_count - vp_i
//@end
fn main() {}
}
