// C11: argument diagnostics follow Ruby's calling rules.
use vstd::prelude::*;
verus! {
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
/// An internal `assert!` of the code: proved never to fire.
fn vp_check(c: bool) requires c {}
#[verifier::external_body]
fn vp_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@, s@.len() <= isize::MAX { s.chars().collect() }
#[verifier::external_body]
fn vp_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn vp_len(s: &str) -> (r: usize) ensures r == bytes(s@) { s.len() }
uninterp spec fn bytes(s: Seq<char>) -> nat;
#[verifier::external_body]
fn vp_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
fn vp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
fn vp_unit(b: bool) -> (r: usize) ensures r == (if b { 1int } else { 0 }) { if b { 1 } else { 0 } }
#[verifier::external_body]
fn vp_zeros(n: usize) -> (r: Vec<usize>) ensures r@.len() == n { vec![0; n] }
/// (0..=n).collect()
#[verifier::external_body]
fn vp_upto(n: usize) -> (r: Vec<usize>) ensures r@.len() == n + 1, forall|i: int| 0 <= i <= n ==> #[trigger] r@[i] == i { (0..=n).collect() }
#[verifier::external_body]
fn vp_string(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }

// ---- edit distance ----
spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
/// fewest insertions, deletions and replacements turning the first i chars of a into the first j of b
spec fn lev(a: Seq<char>, b: Seq<char>, i: int, j: int) -> int decreases i + j {
    if i <= 0 { if j <= 0 { 0 } else { j } } else if j <= 0 { i } else {
        min(min(lev(a, b, i - 1, j) + 1, lev(a, b, i, j - 1) + 1), lev(a, b, i - 1, j - 1) + (if a[i - 1] != b[j - 1] { 1int } else { 0 }))
    }
}
spec fn edits(a: Seq<char>, b: Seq<char>) -> int { lev(a, b, a.len() as int, b.len() as int) }
proof fn lev_bound(a: Seq<char>, b: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j
    ensures 0 <= lev(a, b, i, j) <= i + j
    decreases i + j
{ if i > 0 && j > 0 { lev_bound(a, b, i - 1, j); lev_bound(a, b, i, j - 1); lev_bound(a, b, i - 1, j - 1); } }
proof fn lev_same(a: Seq<char>, i: int)
    requires 0 <= i <= a.len()
    ensures lev(a, a, i, i) == 0
    decreases i
{ if i > 0 { lev_same(a, i - 1); lev_bound(a, a, i - 1, i); lev_bound(a, a, i, i - 1); } }

//@fn crates/ruby-analysis/src/engine/diagnostic_helpers.rs :: suggestion_threshold
//@ ret r
//@ spec
    ensures r == (if name_len <= 2 { 0int } else if name_len <= 8 { 2 } else { 3 })
//@end
//@fn crates/ruby-analysis/src/engine/diagnostic_helpers.rs :: levenshtein
//@ ret r
//@ rewrite? a == b ==> vp_str_eq(a, b)
//@ rewrite? $x:i.is_empty() ==> vp_is_empty($x)
//@ rewrite? $x:i.chars().count() ==> vp_chars($x).len()
//@ rewrite? $x:i.chars().collect::<Vec<_>>() ==> vp_chars($x)
//@ rewrite? (0..=$n:a).collect::<Vec<_>>() ==> vp_upto($n)
//@ rewrite? vec![0; $n:a] ==> vp_zeros($n)
//@ rewrite? usize::from($x:a) ==> vp_unit($x)
//@ rewrite? ($x:a).min($y:a).min($z:a) ==> vp_min(vp_min($x, $y), $z)
//@ rewrite? for ($i:i, $c:i) in a.chars().enumerate() $b:b ==> let vp_a = vp_chars(a); let mut vp_i: usize = 0; while vp_i < vp_a.len() { let $i = vp_i; let $c = vp_a[vp_i]; vp_i += 1; $b }
//@ rewrite? for ($j:i, $c:i) in b_chars.iter().enumerate() $b:b ==> let mut vp_j: usize = 0; while vp_j < b_chars.len() { let $j = vp_j; let $c = &b_chars[vp_j]; vp_j += 1; $b }
//@ spec
    ensures r == edits(a@, b@)
//@ entry
    proof { lev_bound(a@, b@, a@.len() as int, b@.len() as int); lev_same(a@, a@.len() as int); }
//@ loop 0
    invariant vp_i <= vp_a@.len(), vp_a@ == a@, b_chars@ == b@, a@.len() <= isize::MAX, b@.len() <= isize::MAX, previous@.len() == b@.len() + 1, current@.len() == b@.len() + 1,
        forall|j: int| 0 <= j <= b@.len() ==> #[trigger] previous@[j] == lev(a@, b@, vp_i as int, j)
    decreases vp_a@.len() - vp_i
//@ loop 1
    invariant vp_j <= b_chars@.len(), 0 < vp_i <= vp_a@.len(), i + 1 == vp_i, ca == a@[i as int], vp_a@ == a@, b_chars@ == b@, a@.len() <= isize::MAX, b@.len() <= isize::MAX, previous@.len() == b@.len() + 1, current@.len() == b@.len() + 1,
        forall|j: int| 0 <= j <= b@.len() ==> #[trigger] previous@[j] == lev(a@, b@, i as int, j),
        forall|j: int| 0 <= j <= vp_j ==> #[trigger] current@[j] == lev(a@, b@, i + 1, j)
    decreases b_chars@.len() - vp_j
//@ loopstart 1
    proof { lev_bound(a@, b@, i as int, vp_j as int); lev_bound(a@, b@, i as int, vp_j + 1); lev_bound(a@, b@, i + 1, vp_j as int); }
//@end
spec fn names(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// the keyword to suggest: the first declared one closest to the given one, if close enough
spec fn suggests(target: Seq<char>, declared: Seq<Seq<char>>, r: Option<Seq<char>>) -> bool {
    let t = if bytes(target) <= 2 { 0int } else if bytes(target) <= 8 { 2 } else { 3 };
    match r {
        None => t == 0 || forall|i: int| 0 <= i < declared.len() ==> edits(#[trigger] declared[i], target) > t,
        Some(s) => t > 0 && exists|k: int| 0 <= k < declared.len() && s == #[trigger] declared[k] && edits(s, target) <= t
            && (forall|i: int| 0 <= i < declared.len() ==> edits(s, target) <= edits(#[trigger] declared[i], target))
            && (forall|i: int| 0 <= i < k ==> edits(s, target) < edits(#[trigger] declared[i], target)),
    }
}
spec fn best_so_far(target: Seq<char>, declared: Seq<Seq<char>>, n: int, t: int, r: Option<(String, usize)>) -> bool {
    match r {
        None => forall|i: int| 0 <= i < n ==> edits(#[trigger] declared[i], target) > t,
        Some((s, d)) => d == edits(s@, target) && d <= t && exists|k: int| 0 <= k < n && s@ == #[trigger] declared[k]
            && (forall|i: int| 0 <= i < n ==> d <= edits(#[trigger] declared[i], target))
            && (forall|i: int| 0 <= i < k ==> d < edits(#[trigger] declared[i], target)),
    }
}
proof fn best_step(target: Seq<char>, d: Seq<Seq<char>>, n: int, t: int, b: Option<(String, usize)>, c: Option<(String, usize)>)
    requires best_so_far(target, d, n, t, b), 0 <= n < d.len(),
        (c == b && (edits(d[n], target) > t || (b is Some && (b->0).1 <= edits(d[n], target))))
        || (c is Some && (c->0).0@ == d[n] && (c->0).1 == edits(d[n], target) <= t && (b is Some ==> (b->0).1 > edits(d[n], target)))
    ensures best_so_far(target, d, n + 1, t, c)
{
    if b is Some {
        let m = (b->0).1;
        let k = choose|k: int| 0 <= k < n && (b->0).0@ == #[trigger] d[k] && (forall|i: int| 0 <= i < n ==> m <= edits(#[trigger] d[i], target)) && (forall|i: int| 0 <= i < k ==> m < edits(#[trigger] d[i], target));
        assert(0 <= k < n + 1 && (b->0).0@ == d[k]);
    }
    if c != b { assert((c->0).0@ == d[n]); }
}
//@fn crates/ruby-analysis/src/engine/diagnostic_helpers.rs :: closest_keyword
//@ ret r
//@ rewrite? target.len() ==> vp_len(target)
//@ rewrite? for $c:i in declared $b:b ==> let mut vp_k: usize = 0; while vp_k < declared.len() { let $c = &declared[vp_k]; vp_text!("let ghost vp_b = best; proof { assert(names(declared@)[vp_k as int] == candidate@); }"); vp_k += 1; $b vp_text!("proof { best_step(target@, names(declared@), vp_k - 1, threshold as int, vp_b, best); }"); }
//@ rewrite? continue; ==> vp_text!("proof { best_step(target@, names(declared@), vp_k - 1, threshold as int, vp_b, best); }"); continue;
//@ rewrite? candidate.clone() ==> vp_string(candidate)
//@ rewrite? best.map(|$p:a| name) ==> match best { Some($p) => Some(name), None => None }
//@ spec
    ensures suggests(target@, names(declared@), match r { Some(s) => Some(s@), None => None })
//@ loop 0
    invariant vp_k <= declared@.len(), best_so_far(target@, names(declared@), vp_k as int, threshold as int, best)
    decreases declared@.len() - vp_k
//@end

// ---- the shape of a method and of a call ----
//@enum crates/ruby-analysis/src/core/method_store.rs :: MethodParamKind ; derive Clone, Copy
//@struct crates/ruby-analysis/src/core/method_store.rs :: MethodParamFact
//@struct crates/ruby-analysis/src/engine/diagnostic_helpers.rs :: MethodArity
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/reference_store.rs :: KeywordArgCandidate
//@struct crates/ruby-analysis/src/core/reference_store.rs :: MethodCallSignatureCandidate
spec fn count(ps: Seq<MethodParamFact>, p: spec_fn(MethodParamKind) -> bool) -> int decreases ps.len() { if ps.len() == 0 { 0 } else { count(ps.drop_last(), p) + (if p(ps.last().kind) { 1int } else { 0 }) } }
spec fn named(ps: Seq<MethodParamFact>, p: spec_fn(MethodParamKind) -> bool) -> Seq<Seq<char>> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else if p(ps.last().kind) { named(ps.drop_last(), p).push(ps.last().name@) } else { named(ps.drop_last(), p) } }
spec fn req() -> spec_fn(MethodParamKind) -> bool { |k: MethodParamKind| k is Required }
spec fn opt() -> spec_fn(MethodParamKind) -> bool { |k: MethodParamKind| k is Optional }
spec fn rest() -> spec_fn(MethodParamKind) -> bool { |k: MethodParamKind| k is Rest || k is AnonymousRest || k is Forwarding }
spec fn kwrest() -> spec_fn(MethodParamKind) -> bool { |k: MethodParamKind| k is KeywordRest || k is AnonymousKeywordRest }
spec fn reqkw() -> spec_fn(MethodParamKind) -> bool { |k: MethodParamKind| k is RequiredKeyword }
spec fn optkw() -> spec_fn(MethodParamKind) -> bool { |k: MethodParamKind| k is OptionalKeyword }
/// the shape says exactly what the parameters say
spec fn shape(a: MethodArity, ps: Seq<MethodParamFact>) -> bool {
    &&& a.required == count(ps, req()) && a.optional == count(ps, opt())
    &&& a.has_rest == (count(ps, rest()) > 0) && a.has_kwrest == (count(ps, kwrest()) > 0)
    &&& names(a.required_keywords@) == named(ps, reqkw()) && names(a.optional_keywords@) == named(ps, optkw())
    &&& 0 <= a.required + a.optional <= ps.len()
}
proof fn count_nat(ps: Seq<MethodParamFact>, p: spec_fn(MethodParamKind) -> bool) ensures 0 <= count(ps, p) <= ps.len() decreases ps.len() { if ps.len() > 0 { count_nat(ps.drop_last(), p); } }
impl MethodArity {
//@fn crates/ruby-analysis/src/engine/diagnostic_helpers.rs :: MethodArity::from_params
//@ ret r
//@ rewrite? for param in params $b:b ==> let mut vp_k: usize = 0; while vp_k < params.len() { let param = &params[vp_k]; vp_text!("let ghost vp_o = arity"); vp_k += 1; $b vp_text!("proof { let t = params@.take(vp_k as int); assert(t.drop_last() =~= params@.take(vp_k - 1)); assert(t.last() == *param); assert(names(arity.required_keywords@) =~= named(t, reqkw())); assert(names(arity.optional_keywords@) =~= named(t, optkw())); count_nat(t.drop_last(), rest()); count_nat(t.drop_last(), kwrest()); }"); }
//@ rewrite? param.name.clone() ==> vp_string(&param.name)
//@ spec
    ensures shape(r, params@), r.required + r.optional <= usize::MAX
//@ rewrite? let mut arity = $x:a; ==> let mut arity = $x; vp_text!("proof { let t = params@.take(0); assert(t =~= Seq::empty()); assert(names(arity.required_keywords@) =~= named(t, reqkw())); assert(names(arity.optional_keywords@) =~= named(t, optkw())); }");
//@ exit
    proof { assert(params@.take(params@.len() as int) =~= params@); }
//@ loop 0
    invariant vp_k <= params@.len(), shape(arity, params@.take(vp_k as int))
    decreases params@.len() - vp_k
//@end
}
/// Ruby raises ArgumentError for this many positional arguments (splat: at least this many)
spec fn wrong(n: int, splat: bool, ps: Seq<MethodParamFact>) -> bool {
    (!splat && n < count(ps, req())) || (count(ps, rest()) == 0 && n > count(ps, req()) + count(ps, opt()))
}
//@fn crates/ruby-analysis/src/engine/diagnostic_helpers.rs :: arity_mismatch
//@ ret r
//@ rewrite? max.map(|max| $c:a).unwrap_or(false) ==> match max { Some(max) => $c, None => false }
//@ spec
    requires arity.required + arity.optional <= usize::MAX
    ensures r is Some <==> (!signature.has_positional_splat && signature.positional_count < arity.required) || (!arity.has_rest && signature.positional_count > arity.required + arity.optional),
        r matches Some((lo, hi, got)) ==> lo == arity.required && hi == (if arity.has_rest { None } else { Some((arity.required + arity.optional) as usize) }) && got == signature.positional_count
//@end

// ---- what is reported for a call ----
//@enum crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticSeverity
//@struct crates/ruby-analysis/src/core/diagnostic_store.rs :: DiagnosticFact
//@struct crates/ruby-analysis/src/core/method_store.rs :: MethodFact ; drop fqn, owner, range, name_range, params, delegate_receiver, visibility, availability, documentation, return_type_label, higher_order
impl MethodFact {
//@fn crates/ruby-analysis/src/core/method_store.rs :: MethodFact::has_complete_parameter_shape
//@ ret r
//@ spec
    ensures r == self.parameter_shape_complete
//@end
}
/// HashMap<SourceFileId, Vec<_>> written only by entry(file).or_default().push(x): what was pushed, in order
#[verifier::external_body]
struct VpByFile { _x: Vec<u8> }
impl VpByFile {
    uninterp spec fn view(&self) -> Seq<(SourceFileId, DiagnosticFact)>;
    #[verifier::external_body]
    fn vp_push(&mut self, f: SourceFileId, d: DiagnosticFact) ensures final(self)@ == old(self)@.push((f, d)) { unimplemented!() }
}
/// any text: messages are not looked at
#[verifier::external_body]
fn vp_text() -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vp_diag(range: TextRange, severity: DiagnosticSeverity, code: &str, message: String) -> (r: DiagnosticFact) ensures r.range == range, r.code@ == code@ { unimplemented!() }
#[verifier::external_body]
fn vp_sig(s: &MethodCallSignatureCandidate) -> (r: MethodCallSignatureCandidate) ensures r == *s { unimplemented!() }
/// a.iter().chain(b.iter()).cloned().collect()
#[verifier::external_body]
fn vp_both(a: &Vec<String>, b: &Vec<String>) -> (r: Vec<String>) ensures names(r@) == names(a@) + names(b@) { unimplemented!() }
#[verifier::external_body]
fn vp_has(v: &Vec<String>, s: &String) -> (r: bool) ensures r == names(v@).contains(s@) { v.contains(s) }
spec fn given(v: Seq<KeywordArgCandidate>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].name@) }
/// required.iter().filter(|k| !supplied.contains(k)).cloned().collect()
#[verifier::external_body]
fn vp_missing(required: &Vec<String>, supplied: &Vec<KeywordArgCandidate>) -> (r: Vec<String>)
    ensures r@.len() == 0 <==> forall|i: int| 0 <= i < required@.len() ==> given(supplied@).contains(#[trigger] names(required@)[i]) { unimplemented!() }
spec fn declares(ps: Seq<MethodParamFact>) -> bool { count(ps, kwrest()) > 0 || named(ps, reqkw()).len() > 0 || named(ps, optkw()).len() > 0 }
/// Ruby raises ArgumentError for the positional arguments, whatever the unknown values are
spec fn positional_wrong(s: MethodCallSignatureCandidate, ps: Seq<MethodParamFact>) -> bool {
    let n = s.positional_count + (if !declares(ps) && s.has_nonempty_keyword_hash { 1int } else { 0 });
    let splat = s.has_positional_splat || (!declares(ps) && s.has_keyword_splat);
    wrong(n, splat, ps) && (declares(ps) && s.trailing_positional_may_be_options_hash ==> wrong(n - 1, splat, ps))
}
type Report = (TextRange, Seq<char>);
spec fn unknown(kws: Seq<KeywordArgCandidate>, declared: Seq<Seq<char>>) -> Seq<Report> decreases kws.len() {
    if kws.len() == 0 { Seq::empty() } else if declared.contains(kws.last().name@) { unknown(kws.drop_last(), declared) } else { unknown(kws.drop_last(), declared).push((kws.last().range, "unknown-kwarg"@)) }
}
spec fn positional_part(s: MethodCallSignatureCandidate, ps: Seq<MethodParamFact>, at: TextRange) -> Seq<Report> { if positional_wrong(s, ps) { seq![(at, "wrong-arity"@)] } else { Seq::empty() } }
spec fn unknown_part(s: MethodCallSignatureCandidate, ps: Seq<MethodParamFact>) -> Seq<Report> {
    if declares(ps) && count(ps, kwrest()) == 0 && !s.has_keyword_splat { unknown(s.keyword_args@, named(ps, reqkw()) + named(ps, optkw())) } else { Seq::empty() }
}
spec fn missing_part(s: MethodCallSignatureCandidate, ps: Seq<MethodParamFact>, at: TextRange) -> Seq<Report> {
    if !s.has_keyword_splat && !s.has_positional_splat && !s.trailing_positional_may_be_options_hash && exists|i: int| 0 <= i < named(ps, reqkw()).len() && !given(s.keyword_args@).contains(#[trigger] named(ps, reqkw())[i]) { seq![(at, "missing-kwarg"@)] } else { Seq::empty() }
}
/// exactly these were reported, each in the file of its own range
spec fn reported(a: Seq<(SourceFileId, DiagnosticFact)>, b: Seq<(SourceFileId, DiagnosticFact)>, e: Seq<Report>) -> bool {
    &&& b.len() == a.len() + e.len() && b.take(a.len() as int) == a
    &&& forall|i: int| 0 <= i < e.len() ==> { let x = #[trigger] b[a.len() + i]; x.0 == x.1.range.file_id && x.1.range == e[i].0 && x.1.code@ == e[i].1 }
}
proof fn reported_push(a: Seq<(SourceFileId, DiagnosticFact)>, b: Seq<(SourceFileId, DiagnosticFact)>, e: Seq<Report>, d: DiagnosticFact, r: Report)
    requires reported(a, b, e), d.range == r.0, d.code@ == r.1
    ensures reported(a, b.push((r.0.file_id, d)), e.push(r))
{ let c = b.push((r.0.file_id, d)); assert(c.take(a.len() as int) =~= b.take(a.len() as int)); assert forall|i: int| 0 <= i < e.push(r).len() implies { let x = #[trigger] c[a.len() + i]; x.0 == x.1.range.file_id && x.1.range == e.push(r)[i].0 && x.1.code@ == e.push(r)[i].1 } by { if i < e.len() { assert(c[a.len() + i] == b[a.len() + i]); } } }
struct AnalysisEngine { _x: u8 }
impl AnalysisEngine {
//@fn crates/ruby-analysis/src/engine/diagnostics.rs :: AnalysisEngine::push_signature_diagnostics
//@ sig fn push_signature_diagnostics(&self, fact: &MethodFact, signature: Option<&MethodCallSignatureCandidate>, diagnostic_range: TextRange, diagnostics_by_file: &mut VpByFile)
//@ rewrite? if log::log_enabled!($x:a) $b:b ==>
//@ rewrite? assert!($c:a); ==> vp_check($c);
//@ rewrite? $x:e.clone() ==> vp_sig(&$x)
//@ rewrite? arity.required_keywords.iter().chain(arity.optional_keywords.iter()).cloned().collect::<Vec<_>>() ==> vp_both(&arity.required_keywords, &arity.optional_keywords)
//@ rewrite? declared.contains(&kwarg.name) ==> vp_has(&declared, &kwarg.name)
//@ rewrite? format!($x:a) ==> vp_text()
//@ rewrite? message.push_str($x:a); ==> message = vp_text();
//@ rewrite? let supplied = $x:e.iter().map($f:a).collect::<Vec<_>>(); ==> let supplied = &$x;
//@ rewrite? $x:e.iter().filter(|kwarg| !supplied.contains(&kwarg.as_str())).cloned().collect::<Vec<_>>() ==> vp_missing(&$x, supplied)
//@ rewrite? missing.sort(); ==>
//@ rewrite? let kw_list = $x:a; ==>
//@ rewrite? diagnostics_by_file.entry($f:a).or_default().push(DiagnosticFact::new($r:a, crate::core::DiagnosticSeverity::Warning, $c:l, $m:a)) ==> vp_text!("let ghost vp_b = diagnostics_by_file@"); let vp_r = $r; let vp_d = vp_diag(vp_r, DiagnosticSeverity::Warning, $c, $m); diagnostics_by_file.vp_push($f, vp_d); vp_text!("proof { let r = (vp_r, vp_d.code@); reported_push(vp_base, vp_b, vp_e, vp_d, r); vp_e = vp_e.push(r); }")
//@ rewrite? for kwarg in &signature.keyword_args $b:b ==> vp_text!("let ghost vp_e0 = vp_e; proof { assert(signature.keyword_args@.take(0) =~= Seq::empty()); assert(vp_e0 + unknown(signature.keyword_args@.take(0), names(declared@)) =~= vp_e0); }"); let mut vp_k: usize = 0; while vp_k < signature.keyword_args.len() { let kwarg = &signature.keyword_args[vp_k]; vp_text!("let ghost vp_u = unknown(signature.keyword_args@.take(vp_k as int), names(declared@)); proof { let t = signature.keyword_args@.take(vp_k + 1); assert(t.drop_last() =~= signature.keyword_args@.take(vp_k as int)); assert(t.last() == *kwarg); assert(forall|r: Report| (vp_e0 + vp_u).push(r) =~= vp_e0 + vp_u.push(r)); }"); vp_k += 1; $b } vp_text!("proof { assert(signature.keyword_args@.take(vp_k as int) =~= signature.keyword_args@); }");
//@ spec
    requires signature matches Some(s) ==> s.positional_count < usize::MAX && (s.trailing_positional_may_be_options_hash ==> s.positional_count > 0)
    ensures signature is None || !fact.parameter_shape_complete ==> final(diagnostics_by_file)@ == old(diagnostics_by_file)@,
        fact.parameter_shape_complete ==> (signature matches Some(s) ==> reported(old(diagnostics_by_file)@, final(diagnostics_by_file)@, positional_part(*s, fact.param_facts@, diagnostic_range) + unknown_part(*s, fact.param_facts@) + missing_part(*s, fact.param_facts@, diagnostic_range)))
//@ entry
    let ghost vp_base = diagnostics_by_file@; let ghost mut vp_e: Seq<Report> = Seq::empty(); proof { assert(vp_base.take(vp_base.len() as int) =~= vp_base); }
//@ exit
    proof { let (s, ps) = (*signature, fact.param_facts@); count_nat(ps, rest()); count_nat(ps, kwrest()); let n = names(arity.required_keywords@); assert(n =~= named(ps, reqkw())); assert(forall|i: int| 0 <= i < n.len() ==> #[trigger] named(ps, reqkw())[i] == arity.required_keywords@[i]@); assert(mismatch is Some <==> positional_wrong(s, ps)); assert(vp_e =~= positional_part(s, ps, diagnostic_range) + unknown_part(s, ps) + missing_part(s, ps, diagnostic_range)); }
//@ loop 0
    invariant vp_k <= signature.keyword_args@.len(), reported(vp_base, diagnostics_by_file@, vp_e), vp_e == vp_e0 + unknown(signature.keyword_args@.take(vp_k as int), names(declared@))
    decreases signature.keyword_args@.len() - vp_k
//@end
}
}
fn main() {}
