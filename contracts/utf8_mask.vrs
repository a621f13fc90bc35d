// Masking lemma: bytes kept or replaced by ASCII, whole non-ASCII runs at a time, stay valid UTF-8.
proof fn ascii_step(m: Seq<u8>)
  requires m.len() > 0, m[0] < 0x80, valid_utf8(m.subrange(1, m.len() as int)),
  ensures valid_utf8(m)
{
  assert(valid_first_scalar(m));
  assert(length_of_first_scalar(m) == 1);
  assert(pop_first_scalar(m) =~= m.subrange(1, m.len() as int));
}
spec fn kept(s: Seq<u8>, m: Seq<u8>, i: int) -> bool { m[i] == s[i] }
spec fn rel(s: Seq<u8>, m: Seq<u8>) -> bool {
  &&& s.len() == m.len()
  &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] m[i] == s[i] || m[i] < 0x80
  &&& forall|i: int| 1 <= i < s.len() && s[i-1] >= 0x80 && #[trigger] s[i] >= 0x80 ==> kept(s,m,i) == kept(s,m,i-1)
}
proof fn rel_valid(s: Seq<u8>, m: Seq<u8>, i: int)
  requires rel(s, m), 0 <= i <= s.len(), valid_utf8(s.subrange(i, s.len() as int)),
  ensures valid_utf8(m.subrange(i, m.len() as int))
  decreases s.len() - i
{
  let a = s.subrange(i, s.len() as int);
  let b = m.subrange(i, m.len() as int);
  if a.len() == 0 { assert(b =~= Seq::<u8>::empty()); assert(valid_utf8(b)); }
  else {
    let l = length_of_first_scalar(a) as int;
    assert(valid_first_scalar(a));
    assert(1 <= l <= 4 && l <= a.len());
    assert(pop_first_scalar(a) =~= s.subrange(i + l, s.len() as int));
    rel_valid(s, m, i + l);
    assert(forall|k: int| 0 <= k < l ==> a[k] == s[i + k]);
    if l == 1 { 
      assert(a[0] < 0x80);
      assert(b[0] == m[i]); assert(m[i] < 0x80);
      assert(b.subrange(1, b.len() as int) =~= m.subrange(i+1, m.len() as int));
      ascii_step(b);
    } else {
      assert(s[i] >= 0x80);
      assert(s[i+1] >= 0x80);
      if l >= 3 { assert(s[i+2] >= 0x80); }
      if l >= 4 { assert(s[i+3] >= 0x80); }
      if m[i] == s[i] {
         assert(kept(s,m,i)); assert(kept(s,m,i+1));
         if l >= 3 { assert(kept(s,m,i+2)); }
         if l >= 4 { assert(kept(s,m,i+3)); }
         assert(forall|k: int| 0 <= k < l ==> b[k] == a[k]);
         assert(valid_first_scalar(b));
         assert(length_of_first_scalar(b) == l);
         assert(pop_first_scalar(b) =~= m.subrange(i + l, m.len() as int));
      } else {
         assert(!kept(s,m,i)); assert(!kept(s,m,i+1));
         if l >= 4 { assert(!kept(s,m,i+2)); assert(!kept(s,m,i+3)); assert(m[i+3]<0x80);
             let d = m.subrange(i+3, m.len() as int);
             assert(d.subrange(1, d.len() as int) =~= m.subrange(i+4, m.len() as int)); ascii_step(d); }
         if l >= 3 { assert(!kept(s,m,i+2)); assert(m[i+2]<0x80); let d = m.subrange(i+2, m.len() as int);
             assert(d.subrange(1, d.len() as int) =~= m.subrange(i+3, m.len() as int)); ascii_step(d); }
         let d = m.subrange(i+1, m.len() as int);
         assert(d.subrange(1, d.len() as int) =~= m.subrange(i+2, m.len() as int)); ascii_step(d);
         assert(b.subrange(1, b.len() as int) =~= d); ascii_step(b);
      }
    }
  }
}
