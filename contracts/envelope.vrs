global size_of usize == 8;
pub struct VpError;
#[verifier::external_body]
fn vp_err() -> VpError { unimplemented!() }
fn vp_u64(x: usize) -> (r: u64) ensures r == x { x as u64 }
fn vp_usize(x: u64) -> (r: usize) ensures r == x { x as usize }
/// Little-endian integers as the standard library writes and reads them.
spec fn le(x: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le(x / 256, (n - 1) as nat) } }
spec fn unle(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * unle(s.skip(1)) } }
proof fn le_len(x: nat, n: nat) ensures le(x, n).len() == n decreases n { if n > 0 { le_len(x / 256, (n - 1) as nat); } }
spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
proof fn le_round(x: nat, n: nat) requires x < pow256(n) ensures unle(le(x, n)) == x, le(x, n).len() == n decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        assert(x / 256 < pow256(m)) by (nonlinear_arith) requires x < 256 * pow256(m);
        le_round(x / 256, m);
        assert(le(x, n).skip(1) =~= le(x / 256, m));
        assert(x == x % 256 + 256 * (x / 256)) by (nonlinear_arith);
    }
}
proof fn pow8() ensures pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{ reveal_with_fuel(pow256, 9); }
/// Any byte container.
trait VpBytes { spec fn b(&self) -> Seq<u8>; }
impl VpBytes for [u8] { spec fn b(&self) -> Seq<u8> { self@ } }
impl VpBytes for Vec<u8> { spec fn b(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VpBytes for [u8; N] { spec fn b(&self) -> Seq<u8> { self@ } }
impl<S: VpBytes + ?Sized> VpBytes for &S { spec fn b(&self) -> Seq<u8> { (**self).b() } }
#[verifier::external_body]
fn vp_extend<S: VpBytes + ?Sized>(v: &mut Vec<u8>, s: &S) ensures final(v)@ == old(v)@ + s.b() { unimplemented!() }
#[verifier::external_body]
fn vp_le32_bytes(x: u32) -> (r: [u8; 4]) ensures r@ == le(x as nat, 4) { x.to_le_bytes() }
#[verifier::external_body]
fn vp_le64_bytes(x: u64) -> (r: [u8; 8]) ensures r@ == le(x as nat, 8) { x.to_le_bytes() }
#[verifier::external_body]
fn vp_le32<S: VpBytes + ?Sized>(v: &S, a: usize, b: usize) -> (r: u32) requires b <= v.b().len(), a + 4 == b ensures r == unle(v.b().subrange(a as int, b as int)) { unimplemented!() }
#[verifier::external_body]
fn vp_le64<S: VpBytes + ?Sized>(v: &S, a: usize, b: usize) -> (r: u64) requires b <= v.b().len(), a + 8 == b ensures r == unle(v.b().subrange(a as int, b as int)) { unimplemented!() }
#[verifier::external_body]
fn vp_array32<S: VpBytes + ?Sized>(v: &S, a: usize, b: usize) -> (r: [u8; 32]) requires b <= v.b().len(), a + 32 == b ensures r@ == v.b().subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
fn vp_slice<S: VpBytes + ?Sized>(v: &S, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= v.b().len() ensures r@ == v.b().subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
fn vp_from<S: VpBytes + ?Sized>(v: &S, a: usize) -> (r: &[u8]) requires a <= v.b().len() ensures r@ == v.b().skip(a as int) { unimplemented!() }
#[verifier::external_body]
fn vp_same<S: VpBytes + ?Sized, T: VpBytes + ?Sized>(a: &S, b: &T) -> (r: bool) ensures r == (a.b() == b.b()) { unimplemented!() }
#[verifier::external_body]
fn vp_drain_prefix(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int) { unimplemented!() }
/// A pre-allocation: the amount must be one the reader is entitled to ask for.
fn vp_with_capacity(n: usize, Ghost(most): Ghost<nat>) -> (r: Vec<u8>) requires n <= most ensures r@ == Seq::<u8>::empty() { Vec::new() }
/// SHA-256.
pub uninterp spec fn sha(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
fn vp_sha<S: VpBytes + ?Sized>(s: &S) -> (r: [u8; 32]) ensures r@ == sha(s.b()) { unimplemented!() }
/// zstd: what a compressed stream yields, and whether it ends properly.
pub uninterp spec fn unz(s: Seq<u8>) -> (Seq<u8>, bool);
#[verifier::external_body]
fn vp_compress<S: VpBytes + ?Sized>(s: &S, level: i32) -> (r: Result<Vec<u8>, VpError>) ensures r is Ok ==> unz(r->Ok_0@) == (s.b(), true) { unimplemented!() }
pub struct VpDecoder { pub src: Ghost<Seq<u8>> }
#[verifier::external_body]
fn vp_decoder(s: &[u8]) -> (r: Result<VpDecoder, VpError>) ensures r is Ok, r->Ok_0.src@ == s@ { unimplemented!() }
/// decoder.take(limit).read_to_end(out)
#[verifier::external_body]
fn vp_read_limited(d: VpDecoder, limit: u64, out: &mut Vec<u8>) -> (r: Result<usize, VpError>)
    ensures unz(d.src@).1 ==> r is Ok,
        r is Ok ==> final(out)@ == old(out)@ + (if limit < unz(d.src@).0.len() { unz(d.src@).0.take(limit as int) } else { unz(d.src@).0 }) && (limit < unz(d.src@).0.len() || unz(d.src@).1 || limit == unz(d.src@).0.len())
{ unimplemented!() }

//@const src/persistent_cache.rs :: ENVELOPE_SCHEMA
//@const src/persistent_cache.rs :: ENVELOPE_HEADER_BYTES
//@const src/persistent_cache.rs :: MAX_COMPRESSED_ENTRY_BYTES
//@const src/persistent_cache.rs :: MAX_LOGICAL_ENTRY_BYTES
//@const src/persistent_cache.rs :: MAX_COMPILED_WASM_LOGICAL_ENTRY_BYTES
//@const src/persistent_cache.rs :: COMPILED_WASM_PAYLOAD_SCHEMA
//@const src/persistent_cache.rs :: COMPILED_WASM_PAYLOAD_HEADER_BYTES

// ---- what a stored file means ----
spec fn field(s: Seq<u8>, a: int, b: int) -> nat { unle(s.subrange(a, b)) }
/// The file is complete, of this kind, of this format, as long as it declares, and its payload has the recorded checksum.
spec fn decodes(magic: Seq<u8>, most: int, s: Seq<u8>) -> Option<Seq<u8>> {
    let p = unz(s.skip(60));
    if s.len() >= 60 && s.take(8) == magic && field(s, 8, 12) == ENVELOPE_SCHEMA && field(s, 12, 20) <= most
        && field(s, 20, 28) <= MAX_COMPRESSED_ENTRY_BYTES && s.len() == 60 + field(s, 20, 28)
        && p.0.len() == field(s, 12, 20) && sha(p.0) == s.subrange(28, 60) { Some(p.0) } else { None }
}
spec fn envelope(magic: Seq<u8>, p: Seq<u8>, z: Seq<u8>) -> Seq<u8> {
    magic + le(ENVELOPE_SCHEMA as nat, 4) + le(p.len(), 8) + le(z.len(), 8) + sha(p) + z
}
/// PROPERTY: what was published comes back byte for byte.
proof fn published_comes_back(magic: Seq<u8>, most: int, p: Seq<u8>, z: Seq<u8>)
    requires magic.len() == 8, p.len() <= most, p.len() <= u64::MAX, unz(z) == (p, true), z.len() <= MAX_COMPRESSED_ENTRY_BYTES, sha(p).len() == 32
    ensures decodes(magic, most, envelope(magic, p, z)) == Some(p), unz(envelope(magic, p, z).skip(60)).1
{
    let e = envelope(magic, p, z);
    pow8(); le_round(ENVELOPE_SCHEMA as nat, 4); le_round(p.len(), 8); le_round(z.len(), 8);
    assert(e.take(8) =~= magic);
    assert(e.subrange(8, 12) =~= le(ENVELOPE_SCHEMA as nat, 4));
    assert(e.subrange(12, 20) =~= le(p.len(), 8));
    assert(e.subrange(20, 28) =~= le(z.len(), 8));
    assert(e.subrange(28, 60) =~= sha(p));
    assert(e.skip(60) =~= z);
}
/// PROPERTY: any file is either reported or yields a payload with the recorded checksum; where the record is
/// intact (and SHA-256 has no collision with p) that is exactly what was published.
proof fn damage_is_noticed(magic: Seq<u8>, most: int, p: Seq<u8>, f: Seq<u8>)
    ensures decodes(magic, most, f) is Some ==> {
        &&& f.take(8) == magic
        &&& f.len() == 60 + field(f, 20, 28)
        &&& f.subrange(28, 60) == sha(p) && (forall|q: Seq<u8>| sha(q) == sha(p) ==> q == p) ==> decodes(magic, most, f) == Some(p)
    }
{ }
proof fn truncation_is_noticed(magic: Seq<u8>, most: int, f: Seq<u8>, n: int)
    requires decodes(magic, most, f) is Some, 0 <= n < f.len()
    ensures decodes(magic, most, f.take(n)) is None
{ let g = f.take(n); if n >= 60 { assert(g.subrange(20, 28) =~= f.subrange(20, 28)); } }
proof fn extension_is_noticed(magic: Seq<u8>, most: int, f: Seq<u8>, x: Seq<u8>)
    requires decodes(magic, most, f) is Some, x.len() > 0
    ensures decodes(magic, most, f + x) is None
{ let g = f + x; assert(g.subrange(20, 28) =~= f.subrange(20, 28)); }
/// PROPERTY: one kind of product is never read as another.
proof fn kinds_do_not_mix(a: Seq<u8>, b: Seq<u8>, most: int, f: Seq<u8>)
    requires a != b
    ensures !(decodes(a, most, f) is Some && decodes(b, most, f) is Some)
{ }

//@fn src/persistent_cache.rs :: encoded_payload_logical_len
//@ sig fn encoded_payload_logical_len(encoded: &[u8]) -> (r: Result<u64, VpError>)
//@ rewrite? return Err(anyhow!($m:a)) ==> return Err(vp_err())
//@ rewrite? u64::from_le_bytes($v:i[$a..$b].try_into().map_err($c)?) ==> vp_le64($v, $a, $b)
//@ spec
    ensures encoded@.len() >= 20 ==> r is Ok && r->Ok_0 == field(encoded@, 12, 20), encoded@.len() < 20 ==> r is Err
//@end
//@fn src/persistent_cache.rs :: encode_envelope
//@ sig fn encode_envelope(magic: &[u8; 8], max_logical_entry_bytes: u64, payload: &[u8]) -> (r: Result<Vec<u8>, VpError>)
//@ rewrite? u64::try_from($x:e).map_err($c)? ==> vp_u64($x)
//@ rewrite? return Err(anyhow!($m:a)) ==> return Err(vp_err())
//@ rewrite? zstd::stream::encode_all($p, $l).context($c)? ==> match vp_compress($p, $l) { Ok(v) => v, Err(e) => return Err(e) }
//@ rewrite? Vec::with_capacity($x:a.checked_add($y).ok_or_else($c)?,) ==> vp_with_capacity(match $x.checked_add($y) { Some(n) => n, None => return Err(vp_err()) }, vp_text!("Ghost(60 + compressed@.len())"))
//@ rewrite? encoded.extend_from_slice(magic) ==> vp_extend(&mut encoded, magic)
//@ rewrite? encoded.extend_from_slice(&Sha256::digest($x)) ==> vp_extend(&mut encoded, &vp_sha($x))
//@ rewrite? encoded.extend_from_slice(&ENVELOPE_SCHEMA.to_le_bytes()) ==> vp_extend(&mut encoded, &vp_le32_bytes(ENVELOPE_SCHEMA))
//@ rewrite? encoded.extend_from_slice(&$x:i.to_le_bytes()) ==> vp_extend(&mut encoded, &vp_le64_bytes($x))
//@ rewrite? encoded.extend_from_slice(&compressed) ==> vp_extend(&mut encoded, &compressed)
//@ spec
    ensures r is Ok ==> payload@.len() <= max_logical_entry_bytes && r->Ok_0@.len() >= 60 && r->Ok_0@ == envelope(magic@, payload@, r->Ok_0@.skip(60)) && unz(r->Ok_0@.skip(60)) == (payload@, true)
//@ exit
    proof { pow8(); le_len(ENVELOPE_SCHEMA as nat, 4); le_len(logical_len as nat, 8); le_len(compressed_len as nat, 8); assert(encoded@.skip(60) =~= compressed@); }
//@end
//@fn src/persistent_cache.rs :: decode_envelope
//@ sig fn decode_envelope(magic: &[u8; 8], max_logical_entry_bytes: u64, encoded: &[u8]) -> (r: Result<Vec<u8>, VpError>)
//@ rewrite? return Err(anyhow!($m:a)) ==> return Err(vp_err())
//@ rewrite? &encoded[..$n] != magic ==> !vp_same(vp_slice(encoded, 0, $n), magic)
//@ rewrite? u32::from_le_bytes($v:i[$a..$b].try_into().map_err($c)?,) ==> vp_le32($v, $a, $b)
//@ rewrite? u64::from_le_bytes($v:i[$a..$b].try_into().map_err($c)?,) ==> vp_le64($v, $a, $b)
//@ rewrite? encoded_payload_logical_len(encoded)? ==> match encoded_payload_logical_len(encoded) { Ok(v) => v, Err(e) => return Err(e) }
//@ rewrite? usize::try_from($x:e).map_err($c)? ==> vp_usize($x)
//@ rewrite? $x:e.checked_add($y).ok_or_else($c)? ==> match $x.checked_add($y) { Some(n) => n, None => return Err(vp_err()) }
//@ rewrite? zstd::stream::read::Decoder::new(&encoded[$a..]).context($c)? ==> match vp_decoder(vp_from(encoded, $a)) { Ok(v) => v, Err(e) => return Err(e) }
//@ rewrite? Vec::with_capacity($n) ==> vp_with_capacity($n, Ghost(max_logical_entry_bytes as nat))
//@ rewrite? decoder.take(limit).read_to_end(&mut payload).context($c)?; ==> match vp_read_limited(decoder, limit, &mut payload) { Ok(v) => {}, Err(e) => return Err(e) }
//@ rewrite? u64::try_from($x:e).ok() != Some($y) ==> vp_u64($x) != $y
//@ rewrite? &encoded[$a..$b] ==> vp_slice(encoded, $a, $b)
//@ rewrite? Sha256::digest($x) ==> vp_sha($x)
//@ rewrite? actual_checksum.as_slice() != expected_checksum ==> !vp_same(&actual_checksum, expected_checksum)
//@ spec
    requires max_logical_entry_bytes <= MAX_LOGICAL_ENTRY_BYTES
    ensures
        // accepted: exactly the payload the envelope describes
        r is Ok ==> decodes(magic@, max_logical_entry_bytes as int, encoded@) == Some(r->Ok_0@),
        // and a proper envelope is accepted
        (decodes(magic@, max_logical_entry_bytes as int, encoded@) is Some && unz(encoded@.skip(60)).1) ==> r is Ok
//@ entry
    broadcast use vstd::seq_lib::group_seq_properties;
//@end
