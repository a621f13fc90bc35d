// C08: stored products: the envelope and the compiled-Wasm payload.
use vstd::prelude::*;
verus! {
//@include envelope.vrs
//@struct src/persistent_cache.rs :: CompiledWasmProductKey
//@enum src/persistent_cache.rs :: PersistentProductKind ; derive Clone, Copy
// ---- compiled Wasm payload ----
spec fn wasm_decodes(k: CompiledWasmProductKey, s: Seq<u8>) -> Option<Seq<u8>> {
    if s.len() >= 92 && field(s, 0, 4) == COMPILED_WASM_PAYLOAD_SCHEMA && field(s, 4, 12) == k.source_length && s.subrange(12, 44) == k.source_sha256@
        && field(s, 44, 52) == k.compiler_identity && s.len() == 92 + field(s, 52, 60) && sha(s.skip(92)) == s.subrange(60, 92) { Some(s.skip(92)) } else { None }
}
spec fn wasm_encoded(k: CompiledWasmProductKey, a: Seq<u8>) -> Seq<u8> {
    le(COMPILED_WASM_PAYLOAD_SCHEMA as nat, 4) + le(k.source_length as nat, 8) + k.source_sha256@ + le(k.compiler_identity as nat, 8) + le(a.len(), 8) + sha(a) + a
}
/// PROPERTY: an artifact comes back under the key it was published for, and under no key of another module or compiler.
proof fn artifact_belongs_to_its_key(k: CompiledWasmProductKey, l: CompiledWasmProductKey, a: Seq<u8>)
    requires a.len() <= u64::MAX, sha(a).len() == 32
    ensures wasm_decodes(k, wasm_encoded(k, a)) == Some(a),
        wasm_decodes(l, wasm_encoded(k, a)) is Some ==> l.source_length == k.source_length && l.source_sha256@ == k.source_sha256@ && l.compiler_identity == k.compiler_identity
{
    let e = wasm_encoded(k, a);
    pow8(); le_round(COMPILED_WASM_PAYLOAD_SCHEMA as nat, 4); le_round(k.source_length as nat, 8); le_round(k.compiler_identity as nat, 8); le_round(a.len(), 8);
    assert(e.subrange(0, 4) =~= le(COMPILED_WASM_PAYLOAD_SCHEMA as nat, 4));
    assert(e.subrange(4, 12) =~= le(k.source_length as nat, 8));
    assert(e.subrange(12, 44) =~= k.source_sha256@);
    assert(e.subrange(44, 52) =~= le(k.compiler_identity as nat, 8));
    assert(e.subrange(52, 60) =~= le(a.len(), 8));
    assert(e.subrange(60, 92) =~= sha(a));
    assert(e.skip(92) =~= a);
}
//@fn src/persistent_cache.rs :: encode_compiled_wasm_payload
//@ sig fn encode_compiled_wasm_payload(key: &CompiledWasmProductKey, artifact: &[u8]) -> (r: Result<Vec<u8>, VpError>)
//@ rewrite? u64::try_from($x:e).map_err($c)? ==> vp_u64($x)
//@ rewrite? $x:e.checked_add($y).ok_or_else($c)? ==> match $x.checked_add($y) { Some(n) => n, None => return Err(vp_err()) }
//@ rewrite? Vec::with_capacity($n) ==> vp_with_capacity($n, vp_text!("Ghost(92 + artifact@.len())"))
//@ rewrite? payload.extend_from_slice(&COMPILED_WASM_PAYLOAD_SCHEMA.to_le_bytes()) ==> vp_extend(&mut payload, &vp_le32_bytes(COMPILED_WASM_PAYLOAD_SCHEMA))
//@ rewrite? payload.extend_from_slice(&$x:e.to_le_bytes()) ==> vp_extend(&mut payload, &vp_le64_bytes($x))
//@ rewrite? payload.extend_from_slice(&Sha256::digest($x)) ==> vp_extend(&mut payload, &vp_sha($x))
//@ rewrite? payload.extend_from_slice($x) ==> vp_extend(&mut payload, $x)
//@ spec
    ensures r is Ok ==> r->Ok_0@ == wasm_encoded(*key, artifact@)
//@end
//@fn src/persistent_cache.rs :: decode_compiled_wasm_payload
//@ sig fn decode_compiled_wasm_payload(key: &CompiledWasmProductKey, mut payload: Vec<u8>) -> (r: Result<Vec<u8>, VpError>)
//@ rewrite? return Err(anyhow!($m:a)) ==> return Err(vp_err())
//@ rewrite? u32::from_le_bytes($v:i[$a..$b].try_into().map_err($c)?,) ==> vp_le32(&$v, $a, $b)
//@ rewrite? u64::from_le_bytes($v:i[$a..$b].try_into().map_err($c)?,) ==> vp_le64(&$v, $a, $b)
//@ rewrite? payload[$a..$b].try_into().map_err($c)?; ==> vp_array32(&payload, $a, $b);
//@ rewrite? source_sha256 != key.source_sha256 ==> !vp_same(&source_sha256, &key.source_sha256)
//@ rewrite? u64::try_from($x:i).expect("") ==> vp_u64($x)
//@ rewrite? $x:e.checked_add($y).ok_or_else($c)? ==> match $x.checked_add($y) { Some(n) => n, None => return Err(vp_err()) }
//@ rewrite? u64::try_from($x:e).ok() != Some($y) ==> vp_u64($x) != $y
//@ rewrite? &payload[$a..$b] ==> vp_slice(&payload, $a, $b)
//@ rewrite? Sha256::digest(&payload[$a..]) ==> vp_sha(vp_from(&payload, $a))
//@ rewrite? actual_artifact_sha256.as_slice() != expected_artifact_sha256 ==> !vp_same(&actual_artifact_sha256, expected_artifact_sha256)
//@ rewrite? payload.drain(..$n); ==> vp_drain_prefix(&mut payload, $n);
//@ spec
    ensures r is Ok <==> wasm_decodes(*key, payload@) is Some, r is Ok ==> Some(r->Ok_0@) == wasm_decodes(*key, payload@)
//@end
//@fn src/persistent_cache.rs :: validate_cache_id
//@ sig fn validate_cache_id(cache_id: &VpText) -> (r: Result<(), VpError>)
//@ rewrite? return Err(anyhow!($m:a)) ==> return Err(vp_err())
//@ rewrite? cache_id.bytes().all(|byte| $p:a) ==> { let mut all = true; let mut k: usize = 0; while k < cache_id.len() { let byte = cache_id.at(k); if !($p) { all = false; break; } k = k + 1; } all }
//@ rewrite? ($a..=$b).contains(&$x) ==> ($a <= $x && $x <= $b)
//@ rewrite? byte.is_ascii_digit() ==> (48 <= byte && byte <= 57)
//@ spec
    ensures r is Ok <==> cache_id@.len() == 64 && forall|i: int| 0 <= i < 64 ==> hex(#[trigger] cache_id@[i])
//@ loop 0
    invariant_except_break all
    invariant k <= cache_id@.len(), forall|i: int| 0 <= i < k ==> hex(#[trigger] cache_id@[i])
    ensures all ==> k == cache_id@.len(), !all ==> k < cache_id@.len() && !hex(cache_id@[k as int])
    decreases cache_id@.len() - k
//@end
spec fn hex(b: u8) -> bool { (48 <= b && b <= 57) || (97 <= b && b <= 102) }
/// The bytes of a `&str`.
pub struct VpText { pub v: Vec<u8> }
impl VpText {
    spec fn view(&self) -> Seq<u8> { self.v@ }
    fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    fn at(&self, i: usize) -> (r: u8) requires i < self@.len() ensures r == self@[i as int] { self.v[i] }
}
fn main() {}
}
