spec fn after_newline(s: Seq<char>, k: int) -> bool { k > 0 && s[k - 1] == '\n' }
/// what a search for the offset of char k in the table can find
#[verifier::opaque]
spec fn hit_or_miss(t: Seq<int>, s: Seq<char>, k: int) -> bool {
    let l = line_of(s, k);
    &&& forall|i: int| 0 <= i < t.len() && #[trigger] t[i] == off(s, k) ==> if i > 0 && !after_newline(s, k) { i - 1 == l } else { i == l }
    &&& 0 <= l < t.len() && t[l] <= off(s, k) && (l + 1 < t.len() ==> t[l + 1] >= off(s, k))
    &&& t[l] == off(s, lstart(s, k))
}
proof fn search_facts(t: Seq<int>, s: Seq<char>, k: int)
    requires table_ok(t, s), 0 <= k <= s.len()
    ensures hit_or_miss(t, s, k), 0 <= lstart(s, k) <= k, 0 <= line_of(s, k) <= k, off(s, lstart(s, k)) <= off(s, k) <= blen(s), off(s, 0) == 0
{
    reveal(hit_or_miss);
    let n = s.len() as int; let all = starts(s, n); let l = line_of(s, k);
    starts_facts(s, k); starts_facts(s, n); table_lookup(s, k); table_lookup(s, n); table_sorted(t, s); off_mono_all(s);
    assert(t[l] == off(s, all[l]));
    off_mono(s, all[l], k);
    assert forall|i: int| 0 <= i < t.len() && #[trigger] t[i] == off(s, k) implies if i > 0 && !after_newline(s, k) { i - 1 == l } else { i == l } by {
        if i < l { assert(t[i] < t[l]); }
        else if i == l { off_injective(s, all[l], k); }
        else if i < all.len() { assert(t[i] == off(s, all[i])); off_mono(s, k, all[i]); }
        else { assert(i == all.len()); off_injective(s, k, n); off_mono(s, all.last(), n); }
    }
    if l + 1 < t.len() { if l + 1 < all.len() { assert(t[l + 1] == off(s, all[l + 1])); off_mono(s, k, all[l + 1]); } else { off_mono(s, k, n); } }
}
