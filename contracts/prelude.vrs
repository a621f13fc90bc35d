// ---- assumed contracts on the standard library (listed in every evidence file) ----
pub assume_specification<'a, T> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>) where T: Copy
  ensures r == (match o { Some(x) => Some(*x), None => None });
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
  ensures r.is_ok() == valid_utf8(v@), r.is_ok() ==> encode_utf8(r->Ok_0@) == v@;
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == encode_utf8(s@).len();
#[verifier::external_body]
fn vp_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { a.min(b) }
#[verifier::external_body]
fn vp_copy_range(dst: &mut Vec<u8>, a: usize, b: usize, src: &[u8])
  requires a <= b <= old(dst)@.len(), src@.len() == b - a
  ensures final(dst)@.len() == old(dst)@.len(), forall|i: int| 0 <= i < old(dst)@.len() ==> #[trigger] final(dst)@[i] == (if a <= i < b { src@[i - a] } else { old(dst)@[i] })
{ dst[a..b].copy_from_slice(src) }
