// C09: unions of types are canonical, and unknown is never hidden.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::seq_lib::*;
use vstd::set_lib::*;
verus! {
#[verifier::external_body] struct FullyQualifiedName { _p: u8 }
#[verifier::external_body] struct LiteralValue { _p: u8 }
#[verifier::external_body] struct LiteralKey { _p: u8 }
//@enum crates/ruby-analysis/src/core/ruby_type.rs :: RubyType
//@enum crates/ruby-analysis/src/core/shape_type.rs :: ShapeFieldPresence
//@enum crates/ruby-analysis/src/core/shape_type.rs :: ShapeExactness ; derive Clone, Copy, PartialEq, Eq, Structural
//@enum crates/ruby-analysis/src/core/shape_type.rs :: ShapeStability ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/shape_type.rs :: ShapeField
//@struct crates/ruby-analysis/src/core/shape_type.rs :: ShapeRest
//@struct crates/ruby-analysis/src/core/shape_type.rs :: ShapeType ; subst Box<[ShapeField]> ==> Vec<ShapeField>
//@const crates/ruby-analysis/src/core/shape_type.rs :: MAX_SHAPE_UNION_VARIANTS

// ---- what a type is, as a value ----
enum Ty { Unknown, Union(Seq<Ty>), Array(Seq<Ty>), Hash(Seq<Ty>, Seq<Ty>), Shape(int), Other(int) }
/// the identity, under the derived equality, of a type whose parts this contract does not look at
uninterp spec fn name_of(t: RubyType) -> int;
spec fn v(t: RubyType) -> Ty decreases t, 0int {
    match t {
        RubyType::Unknown => Ty::Unknown, RubyType::Union(m) => Ty::Union(vs(m)), RubyType::Array(m) => Ty::Array(vs(m)), RubyType::Hash(k, x) => Ty::Hash(vs(k), vs(x)),
        RubyType::Shape(_) => Ty::Shape(name_of(t)),
        _ => Ty::Other(name_of(t)),
    }
}
spec fn vs(m: Vec<RubyType>) -> Seq<Ty> decreases m, 1int { Seq::new(m@.len(), |i: int| if 0 <= i < m@.len() { v(m@[i]) } else { Ty::Unknown }) }
spec fn tys(m: Seq<RubyType>) -> Seq<Ty> { Seq::new(m.len(), |i: int| v(m[i])) }
proof fn vs_tys(m: Vec<RubyType>) ensures vs(m) == tys(m@) { assert(vs(m) =~= tys(m@)); }

// ---- the derived comparisons (assumed): equality is equality of values, the order is a strict total order on values ----
uninterp spec fn lt(a: Ty, b: Ty) -> bool;
#[verifier::external_body] proof fn lt_irreflexive(a: Ty) ensures !lt(a, a) {}
#[verifier::external_body] proof fn lt_transitive(a: Ty, b: Ty, c: Ty) requires lt(a, b), lt(b, c) ensures lt(a, c) {}
#[verifier::external_body] proof fn lt_total(a: Ty, b: Ty) ensures a == b || lt(a, b) || lt(b, a) {}
impl PartialEqSpecImpl for RubyType {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &RubyType) -> bool { v(*self) == v(*o) }
}
impl PartialEq for RubyType { #[verifier::external_body] fn eq(&self, o: &RubyType) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for RubyType {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, o: &RubyType) -> Option<core::cmp::Ordering> {
        Some(if v(*self) == v(*o) { core::cmp::Ordering::Equal } else if lt(v(*self), v(*o)) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater })
    }
}
impl PartialOrd for RubyType { #[verifier::external_body] fn partial_cmp(&self, o: &RubyType) -> Option<core::cmp::Ordering> { unimplemented!() } }
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i].eq_spec(x);
trait VpCopy: Sized { spec fn same_as(&self, o: Self) -> bool; fn vp_copy(&self) -> (r: Self) ensures self.same_as(r); }
impl VpCopy for RubyType { spec fn same_as(&self, o: RubyType) -> bool { v(*self) == v(o) } #[verifier::external_body] fn vp_copy(&self) -> (r: RubyType) { unimplemented!() } }
impl VpCopy for Vec<RubyType> { spec fn same_as(&self, o: Vec<RubyType>) -> bool { tys(self@) == tys(o@) } #[verifier::external_body] fn vp_copy(&self) -> (r: Vec<RubyType>) { unimplemented!() } }

// ---- sorted sequences ----
spec fn ordered(s: Seq<Ty>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] == s[j] || lt(#[trigger] s[i], #[trigger] s[j]) }
spec fn strict(s: Seq<Ty>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i], #[trigger] s[j]) }
/// `Vec::sort`: the same elements, in order (assumed)
#[verifier::external_body] fn vp_sort(x: &mut Vec<RubyType>) ensures ordered(tys(final(x)@)), tys(final(x)@).to_set() == tys(old(x)@).to_set(), tys(final(x)@).len() == tys(old(x)@).len() { unimplemented!() }
/// `Vec::dedup`: of every run of equal neighbours, one (assumed)
#[verifier::external_body] fn vp_dedup(x: &mut Vec<RubyType>) ensures tys(final(x)@) == dedup(tys(old(x)@)) { unimplemented!() }
spec fn dedup(s: Seq<Ty>) -> Seq<Ty> decreases s.len() {
    if s.len() < 2 { s } else if s.last() == s[s.len() - 2] { dedup(s.drop_last()) } else { dedup(s.drop_last()).push(s.last()) }
}
proof fn dedup_ok(s: Seq<Ty>) requires ordered(s) ensures strict(dedup(s)), dedup(s).to_set() == s.to_set(), s.len() > 0 ==> dedup(s).len() > 0 && dedup(s).last() == s.last() decreases s.len() {
    if s.len() >= 2 {
        let h = s.drop_last(); let d = dedup(h);
        assert(ordered(h)) by { assert forall|i: int, j: int| 0 <= i < j < h.len() implies h[i] == h[j] || lt(h[i], h[j]) by { assert(s[i] == s[j] || lt(s[i], s[j])); } }
        dedup_ok(h);
        assert(h.last() == s[s.len() - 2]);
        assert(s =~= h.push(s.last()));
        if s.last() == h.last() {
            assert(h.to_set().contains(h.last())) by { assert(h[h.len() - 1] == h.last()); }
            assert(s.to_set() =~= h.to_set()) by { assert forall|x: Ty| s.to_set().contains(x) implies h.to_set().contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < h.len() { assert(h[i] == x); } } assert forall|x: Ty| h.to_set().contains(x) implies s.to_set().contains(x) by { let i = choose|i: int| 0 <= i < h.len() && h[i] == x; assert(s[i] == x); } }
        } else {
            let r = d.push(s.last());
            assert(lt(h.last(), s.last())) by { assert(s[s.len() - 2] == s[s.len() - 1] || lt(s[s.len() - 2], s[s.len() - 1])); }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt(r[i], r[j]) by {
                if j < d.len() { assert(lt(d[i], d[j])); } else if i < d.len() - 1 { assert(lt(d[i], d[d.len() - 1])); lt_transitive(r[i], d.last(), s.last()); }
            }
            push_set(d, s.last()); push_set(h, s.last());
        }
    } else if s.len() == 1 { assert(s.to_set() =~= dedup(s).to_set()); }
}
proof fn push_set(s: Seq<Ty>, t: Ty) ensures s.push(t).to_set() == s.to_set().insert(t) {
    let p = s.push(t);
    assert forall|x: Ty| #![auto] p.to_set().contains(x) == s.to_set().insert(t).contains(x) by {
        if p.to_set().contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; if i < s.len() { assert(s[i] == x); } }
        if s.to_set().contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(p[i] == x); }
        assert(p[s.len() as int] == t);
    }
    assert(p.to_set() =~= s.to_set().insert(t));
}
proof fn strict_unique(a: Seq<Ty>, b: Seq<Ty>) requires strict(a), strict(b), a.to_set() == b.to_set() ensures a == b decreases a.len() + b.len() {
    if a.len() == 0 { if b.len() > 0 { assert(b.to_set().contains(b[0])); assert(a.to_set().contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(a.to_set().contains(a[0])); assert(b.to_set().contains(a[0])); }
    else {
        let x = a.last(); let y = b.last();
        assert(a.to_set().contains(x)) by { assert(a[a.len() - 1] == x); } assert(b.to_set().contains(y)) by { assert(b[b.len() - 1] == y); }
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        if x != y { assert(lt(b[i], b[b.len() - 1])); assert(lt(a[j], a[a.len() - 1])); lt_transitive(x, y, x); lt_irreflexive(x); }
        let c = a.drop_last(); let d = b.drop_last();
        assert(a =~= c.push(x)); assert(b =~= d.push(x)); push_set(c, x); push_set(d, x);
        assert(!c.to_set().contains(x)) by { if c.to_set().contains(x) { let k = choose|k: int| 0 <= k < c.len() && c[k] == x; assert(lt(a[k], a[a.len() - 1])); lt_irreflexive(x); } }
        assert(!d.to_set().contains(x)) by { if d.to_set().contains(x) { let k = choose|k: int| 0 <= k < d.len() && d[k] == x; assert(lt(b[k], b[b.len() - 1])); lt_irreflexive(x); } }
        assert(c.to_set() =~= a.to_set().remove(x)); assert(d.to_set() =~= b.to_set().remove(x));
        assert(strict(c)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() implies lt(c[i], c[j]) by { assert(lt(a[i], a[j])); } }
        assert(strict(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies lt(d[i], d[j]) by { assert(lt(b[i], b[j])); } }
        strict_unique(c, d);
    }
}

// ---- the union of a set of alternatives ----
spec fn parts(t: Ty) -> Seq<Ty> { match t { Ty::Union(m) => m, _ => seq![t] } }
spec fn shapes(s: Seq<Ty>) -> int decreases s.len() { if s.len() == 0 { 0 } else { shapes(s.drop_last()) + if s.last() is Shape { 1int } else { 0 } } }
spec fn pack(d: Seq<Ty>) -> Ty { if shapes(d) > MAX_SHAPE_UNION_VARIANTS as int || d.len() == 0 { Ty::Unknown } else if d.len() == 1 { d[0] } else { Ty::Union(d) } }
/// `r` is the union of exactly the alternatives in `a`: unknown if one of them is, or if there are none or too many structural ones; a single one is itself
spec fn is_join(r: Ty, a: Set<Ty>) -> bool {
    if a.contains(Ty::Unknown) { r == Ty::Unknown } else { exists|d: Seq<Ty>| #[trigger] strict(d) && d.to_set() == a && r == pack(d) }
}
/// the alternatives of a collection: its members, and the members of its members that are unions
spec fn flat(s: Seq<Ty>) -> Seq<Ty> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + parts(s.last()) } }
spec fn all(s: Seq<Ty>) -> Set<Ty> { flat(s).to_set() }
spec fn among(s: Seq<Ty>, x: Ty) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] parts(s[i]).contains(x) }
proof fn all_means(s: Seq<Ty>, x: Ty) ensures all(s).contains(x) == among(s, x) decreases s.len() {
    if s.len() > 0 {
        let h = s.drop_last(); let f = flat(h); let p = parts(s.last()); let t = f + p;
        all_means(h, x);
        if all(s).contains(x) {
            let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
            if k < f.len() { assert(f[k] == x); assert(f.to_set().contains(x)); let i = choose|i: int| 0 <= i < h.len() && #[trigger] parts(h[i]).contains(x); assert(parts(s[i]).contains(x)); }
            else { assert(p[k - f.len()] == x); assert(parts(s[s.len() - 1]).contains(x)); }
        }
        if among(s, x) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] parts(s[i]).contains(x);
            if i < h.len() { assert(parts(h[i]).contains(x)); assert(f.to_set().contains(x)); let k = choose|k: int| 0 <= k < f.len() && f[k] == x; assert(t[k] == x); }
            else { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(t[f.len() + k] == x); }
        }
    }
}
proof fn flat_one(t: Ty) ensures flat(seq![t]) == parts(t) { reveal_with_fuel(flat, 3); let s = seq![t]; assert(s.drop_last() =~= Seq::empty()); assert(flat(s) =~= parts(t)); }
proof fn all_join(s: Seq<Ty>, t: Seq<Ty>) ensures all(s + t) == all(s).union(all(t)) {
    assert forall|x: Ty| all(s + t).contains(x) == (all(s).contains(x) || all(t).contains(x)) by {
        all_means(s + t, x); all_means(s, x); all_means(t, x);
        if among(s + t, x) { let i = choose|i: int| 0 <= i < (s + t).len() && #[trigger] parts((s + t)[i]).contains(x); if i < s.len() { assert(parts(s[i]).contains(x)); } else { assert(parts(t[i - s.len()]).contains(x)); } }
        if among(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] parts(s[i]).contains(x); assert(parts((s + t)[i]).contains(x)); }
        if among(t, x) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] parts(t[i]).contains(x); assert(parts((s + t)[i + s.len()]).contains(x)); }
    }
    assert(all(s + t) =~= all(s).union(all(t)));
}

// ---- what follows for every caller ----
/// the union is determined by its alternatives
proof fn join_unique(a: Ty, b: Ty, s: Set<Ty>) requires is_join(a, s), is_join(b, s) ensures a == b {
    if !s.contains(Ty::Unknown) {
        let d = choose|d: Seq<Ty>| #[trigger] strict(d) && d.to_set() == s && a == pack(d);
        let e = choose|d: Seq<Ty>| #[trigger] strict(d) && d.to_set() == s && b == pack(d);
        strict_unique(d, e);
    }
}
/// order and repetition of the members do not matter
proof fn any_order(s: Seq<Ty>, t: Seq<Ty>, a: Ty, b: Ty) requires s.to_set() == t.to_set(), is_join(a, all(s)), is_join(b, all(t)) ensures a == b {
    assert forall|x: Ty| all(s).contains(x) == all(t).contains(x) by { all_means(s, x); all_means(t, x);
        if among(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] parts(s[i]).contains(x); assert(s.to_set().contains(s[i])); assert(t.to_set().contains(s[i])); let k = choose|k: int| 0 <= k < t.len() && t[k] == s[i]; assert(parts(t[k]).contains(x)); }
        if among(t, x) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] parts(t[i]).contains(x); assert(t.to_set().contains(t[i])); assert(s.to_set().contains(t[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i]; assert(parts(s[k]).contains(x)); }
    }
    assert(all(s) =~= all(t)); join_unique(a, b, all(s));
}
/// a union never holds unknown, is never short, and never exceeds the documented number of structural alternatives
spec fn canonical(t: Ty) -> bool { t is Union ==> { let m = t->Union_0; m.len() >= 2 && strict(m) && !m.contains(Ty::Unknown) && shapes(m) <= MAX_SHAPE_UNION_VARIANTS as int } }
spec fn no_unions(a: Set<Ty>) -> bool { forall|t: Ty| a.contains(t) ==> !(t is Union) }
proof fn join_canonical(r: Ty, a: Set<Ty>) requires is_join(r, a), no_unions(a) ensures canonical(r) {
    if !a.contains(Ty::Unknown) {
        let d = choose|d: Seq<Ty>| #[trigger] strict(d) && d.to_set() == a && r == pack(d);
        if d.len() == 1 { assert(d.to_set().contains(d[0])); assert(a.contains(d[0])); }
        if d.contains(Ty::Unknown) { assert(d.to_set().contains(Ty::Unknown)); }
    }
}
/// one alternative is itself
proof fn join_single(r: Ty, t: Ty) requires is_join(r, all(seq![t])), !(t is Union) ensures r == t {
    let s = seq![t]; flat_one(t);
    assert(s.to_set().contains(t)) by { assert(s[0] == t); }
    if t != Ty::Unknown {
        assert forall|x: Ty| s.to_set().contains(x) implies x == t by {}
        assert(!all(s).contains(Ty::Unknown));
        let d = choose|d: Seq<Ty>| #[trigger] strict(d) && d.to_set() == all(s) && r == pack(d);
        assert(strict(s)); strict_unique(d, s); reveal_with_fuel(shapes, 3);
        assert(s.drop_last().len() == 0);
    } 
}
proof fn shapes_of(d: Seq<Ty>) ensures shapes(d) == d.filter(|t: Ty| t is Shape).len() decreases d.len() {
    reveal(Seq::filter); if d.len() > 0 { shapes_of(d.drop_last()); }
}
proof fn strict_no_dup(d: Seq<Ty>) requires strict(d) ensures d.no_duplicates() {
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { if i < j { assert(lt(d[i], d[j])); lt_irreflexive(d[i]); } else { assert(lt(d[j], d[i])); lt_irreflexive(d[i]); } }
}
/// more alternatives, no fewer structural ones
proof fn shapes_grow(d: Seq<Ty>, e: Seq<Ty>) requires strict(d), strict(e), d.to_set().subset_of(e.to_set()) ensures shapes(d) <= shapes(e), d.len() <= e.len() {
    let f = |t: Ty| t is Shape;
    shapes_of(d); shapes_of(e); strict_no_dup(d); strict_no_dup(e);
    let x = d.filter(f); let y = e.filter(f);
    assert(x.no_duplicates()) by { filter_no_dup(d); }
    assert(y.no_duplicates()) by { filter_no_dup(e); }
    assert(x.to_set().subset_of(y.to_set())) by { assert forall|t: Ty| x.to_set().contains(t) implies y.to_set().contains(t) by { filter_has(d, t); filter_has(e, t); assert(x.contains(t)); assert(d.contains(t)); assert(d.to_set().contains(t)); assert(e.to_set().contains(t)); } }
    x.unique_seq_to_set(); y.unique_seq_to_set(); d.unique_seq_to_set(); e.unique_seq_to_set();
    lemma_len_subset(x.to_set(), y.to_set()); lemma_len_subset(d.to_set(), e.to_set());
}
proof fn filter_has(d: Seq<Ty>, t: Ty) ensures d.filter(|t: Ty| t is Shape).contains(t) == (d.contains(t) && t is Shape) decreases d.len() {
    reveal(Seq::filter);
    if d.len() > 0 {
        let h = d.drop_last(); let l = d.last(); let f = |t: Ty| t is Shape; filter_has(h, t);
        assert(d.contains(t) == (h.contains(t) || t == l)) by { if d.contains(t) { let i = choose|i: int| 0 <= i < d.len() && d[i] == t; if i < h.len() { assert(h[i] == t); } } if h.contains(t) { let i = choose|i: int| 0 <= i < h.len() && h[i] == t; assert(d[i] == t); } assert(d[d.len() - 1] == l); }
        let g = h.filter(f);
        if l is Shape { assert(d.filter(f) =~= g.push(l)); if g.contains(t) { let i = choose|i: int| 0 <= i < g.len() && g[i] == t; assert(g.push(l)[i] == t); } assert(g.push(l)[g.len() as int] == l); if g.push(l).contains(t) { let i = choose|i: int| 0 <= i < g.push(l).len() && g.push(l)[i] == t; if i < g.len() { assert(g[i] == t); } } }
    }
}
proof fn filter_no_dup(d: Seq<Ty>) requires d.no_duplicates() ensures d.filter(|t: Ty| t is Shape).no_duplicates() decreases d.len() {
    reveal(Seq::filter);
    if d.len() > 0 {
        let h = d.drop_last(); let f = |t: Ty| t is Shape;
        assert(h.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && i != j implies h[i] != h[j] by { assert(d[i] != d[j]); } }
        filter_no_dup(h); filter_has(h, d.last());
        assert(!h.contains(d.last())) by { if h.contains(d.last()) { let i = choose|i: int| 0 <= i < h.len() && h[i] == d.last(); assert(d[i] != d[d.len() - 1]); } }
        let g = h.filter(f);
        if d.last() is Shape { assert(d.filter(f) =~= g.push(d.last())); assert forall|i: int, j: int| 0 <= i < g.len() + 1 && 0 <= j < g.len() + 1 && i != j implies g.push(d.last())[i] != g.push(d.last())[j] by { if i < g.len() && j < g.len() { assert(g[i] != g[j]); } else if i < g.len() { assert(g.contains(g[i])); } else { assert(g.contains(g[j])); } } }
    }
}
spec fn no_nested(s: Seq<Ty>) -> bool { no_unions(all(s)) }
/// joining part of the alternatives first makes no difference
proof fn regrouped(s: Seq<Ty>, t: Seq<Ty>, inner: Ty, a: Ty, b: Ty)
    requires no_nested(s), no_nested(t), s.len() > 0, all(s).len() > 0, is_join(inner, all(s)), is_join(a, all(seq![inner] + t)), is_join(b, all(s + t))
    ensures a == b
{
    let i = seq![inner]; flat_one(inner);
    all_join(i, t); all_join(s, t);
    if all(s).contains(Ty::Unknown) {
        assert(i[0] == Ty::Unknown); assert(flat(i)[0] == Ty::Unknown); assert(all(i).contains(Ty::Unknown)); assert(a == Ty::Unknown); assert(b == Ty::Unknown);
    } else {
        let d = choose|d: Seq<Ty>| #[trigger] strict(d) && d.to_set() == all(s) && inner == pack(d);
        d.lemma_cardinality_of_set(); assert(d.len() > 0);
        if shapes(d) > MAX_SHAPE_UNION_VARIANTS as int {
            assert(flat(i)[0] == Ty::Unknown); assert(all(i).contains(Ty::Unknown)); assert(a == Ty::Unknown);
            if !all(s + t).contains(Ty::Unknown) { let e = choose|e: Seq<Ty>| #[trigger] strict(e) && e.to_set() == all(s + t) && b == pack(e); shapes_grow(d, e); }
        } else {
            assert(d.to_set().contains(d[0]));
            assert(parts(inner) =~= d) by { if d.len() == 1 { assert(!(d[0] is Union)); } }
            assert(all(i) =~= all(s));
            join_unique(a, b, all(s + t));
        }
    }
}
// ---- the code ----
proof fn flat_two(a: Ty, b: Ty) ensures flat(seq![a, b]) == parts(a) + parts(b), all(seq![a, b]) == all(seq![a]).union(all(seq![b])) {
    flat_one(a); flat_one(b); let s = seq![a, b]; assert(s =~= seq![a].push(b)); assert(seq![a].push(b).drop_last() =~= seq![a]); assert(s =~= seq![a] + seq![b]); all_join(seq![a], seq![b]);
}
spec fn flatly(t: Ty) -> bool { t is Union ==> forall|i: int| 0 <= i < t->Union_0.len() ==> !(#[trigger] t->Union_0[i] is Union) }
spec fn wf(t: Ty) -> bool { flatly(t) && canonical(t) }
// ---- structural types ----
//@const crates/ruby-analysis/src/core/shape_type.rs :: MAX_SHAPE_FIELDS
//@const crates/ruby-analysis/src/core/shape_type.rs :: MAX_SHAPE_DEPTH
//@enum crates/ruby-analysis/src/core/shape_type.rs :: ShapeConstructionError
uninterp spec fn key_of(k: LiteralKey) -> int;
spec fn key_lt(a: int, b: int) -> bool { a < b }
impl PartialEqSpecImpl for LiteralKey {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &LiteralKey) -> bool { key_of(*self) == key_of(*o) }
}
impl PartialEq for LiteralKey { #[verifier::external_body] fn eq(&self, o: &LiteralKey) -> bool { unimplemented!() } }
impl LiteralKey { #[verifier::external_body] fn vp_key(&self) -> (r: LiteralKey) ensures key_of(r) == key_of(*self) { unimplemented!() } }
spec fn keys(m: Seq<ShapeField>) -> Seq<int> { m.map_values(|f: ShapeField| key_of(f.key)) }
spec fn sorted_keys(m: Seq<ShapeField>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> key_of(#[trigger] m[i].key) < key_of(#[trigger] m[j].key) }
/// `fields.sort_by(|left, right| left.key.cmp(&right.key))`: the same fields, in key order (assumed)
#[verifier::external_body] fn vp_sort_fields(x: &mut Vec<ShapeField>) ensures permuted(final(x)@, old(x)@), forall|i: int, j: int| 0 <= i < j < final(x)@.len() ==> key_of(#[trigger] final(x)@[i].key) <= key_of(#[trigger] final(x)@[j].key) { unimplemented!() }
spec fn perm(a: Seq<ShapeField>, b: Seq<ShapeField>, p: Seq<int>, q: Seq<int>) -> bool {
    a.len() == b.len() && p.len() == a.len() && q.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] p[i] < a.len() && a[i] == b[p[i]] && q[p[i]] == i) && (forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] q[i] < a.len() && p[q[i]] == i)
}
spec fn permuted(a: Seq<ShapeField>, b: Seq<ShapeField>) -> bool { exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(a, b, p, q) }
spec fn distinct(m: Seq<ShapeField>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> key_of(#[trigger] m[i].key) != key_of(#[trigger] m[j].key) }
spec fn proven(m: Seq<ShapeField>) -> bool { forall|i: int| 0 <= i < m.len() ==> !RubyType::unknown_part((#[trigger] m[i]).value) }
spec fn apart(m: Seq<ShapeField>) -> bool { forall|i: int| 1 <= i < m.len() ==> key_of(#[trigger] m[i - 1].key) != key_of(m[i].key) }
proof fn apart_is_sorted(m: Seq<ShapeField>) requires forall|i: int, j: int| 0 <= i < j < m.len() ==> key_of(#[trigger] m[i].key) <= key_of(#[trigger] m[j].key) ensures apart(m) ==> sorted_keys(m), apart(m) == distinct(m) {
    if apart(m) { assert forall|i: int, j: int| 0 <= i < j < m.len() implies key_of(#[trigger] m[i].key) < key_of(#[trigger] m[j].key) by { assert(key_of(m[i + 1 - 1].key) != key_of(m[i + 1].key)); assert(key_of(m[i].key) <= key_of(m[i + 1].key)); if i + 1 < j { assert(key_of(m[i + 1].key) <= key_of(m[j].key)); } } }
    if distinct(m) { assert forall|i: int| 1 <= i < m.len() implies key_of(#[trigger] m[i - 1].key) != key_of(m[i].key) by { assert(key_of(m[i - 1].key) != key_of(m[i].key)); } }
}
proof fn deepest_is(m: Seq<ShapeField>, n: nat) requires n <= m.len() ensures forall|i: int| 0 <= i < n ==> deep((#[trigger] m[i]).value) <= deepest(m, n), deepest(m, n) == 0 || exists|i: int| 0 <= i < n && deep((#[trigger] m[i]).value) == deepest(m, n) decreases n {
    if n > 0 { deepest_is(m, (n - 1) as nat); if deepest(m, n) != 0 { if deep(m[n - 1].value) == deepest(m, n) {} else { let i = choose|i: int| 0 <= i < n - 1 && deep((#[trigger] m[i]).value) == deepest(m, (n - 1) as nat); assert(deep(m[i].value) == deepest(m, n)); } } }
}
proof fn permuted_alike(a: Seq<ShapeField>, b: Seq<ShapeField>) requires permuted(a, b) ensures a.len() == b.len(), distinct(a) == distinct(b), proven(a) == proven(b), deepest(a, a.len()) == deepest(b, b.len()) {
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(a, b, p, q);
    assert forall|i: int| 0 <= i < b.len() implies b[i] == a[q[i]] by { assert(0 <= q[i] < a.len()); assert(a[q[i]] == b[p[q[i]]]); }
    if distinct(b) { assert forall|i: int, j: int| 0 <= i < j < a.len() implies key_of(#[trigger] a[i].key) != key_of(#[trigger] a[j].key) by { let x = p[i]; let y = p[j]; assert(q[x] == i && q[y] == j); assert(a[i] == b[x] && a[j] == b[y]); if x < y { assert(key_of(b[x].key) != key_of(b[y].key)); } else { assert(key_of(b[y].key) != key_of(b[x].key)); } } }
    if distinct(a) { assert forall|i: int, j: int| 0 <= i < j < b.len() implies key_of(#[trigger] b[i].key) != key_of(#[trigger] b[j].key) by { let x = q[i]; let y = q[j]; assert(p[x] == i && p[y] == j); assert(b[i] == a[x] && b[j] == a[y]); if x < y { assert(key_of(a[x].key) != key_of(a[y].key)); } else { assert(key_of(a[y].key) != key_of(a[x].key)); } } }
    if proven(b) { assert forall|i: int| 0 <= i < a.len() implies !RubyType::unknown_part((#[trigger] a[i]).value) by { assert(a[i] == b[p[i]]); } }
    if proven(a) { assert forall|i: int| 0 <= i < b.len() implies !RubyType::unknown_part((#[trigger] b[i]).value) by { assert(b[i] == a[q[i]]); } }
    deepest_is(a, a.len()); deepest_is(b, b.len());
    let x = deepest(a, a.len()); let y = deepest(b, b.len());
    if x != 0 { let i = choose|i: int| 0 <= i < a.len() && deep((#[trigger] a[i]).value) == x; assert(deep(b[p[i]].value) == x); }
    if y != 0 { let i = choose|i: int| 0 <= i < b.len() && deep((#[trigger] b[i]).value) == y; assert(deep(a[q[i]].value) == y); }
}
fn vp_u8(x: usize) -> (r: u8) requires x <= 255 ensures r == x { x as u8 }
fn vp_larger(a: usize, b: usize) -> (r: usize) ensures r == larger(a as nat, b as nat) { if b > a { b } else { a } }
spec fn larger(a: nat, b: nat) -> nat { if b > a { b } else { a } }
/// how many structural types are nested in a type
spec fn deep(t: RubyType) -> nat decreases t, 0nat { match t { RubyType::Shape(s) => s.depth as nat, RubyType::Array(m) => deeps(m, m@.len()), RubyType::Union(m) => deeps(m, m@.len()), RubyType::Hash(k, x) => larger(deeps(k, k@.len()), deeps(x, x@.len())), _ => 0 } }
spec fn deeps(m: Vec<RubyType>, n: nat) -> nat decreases m, n { if n == 0 || n > m@.len() { 0 } else { larger(deeps(m, (n - 1) as nat), deep(m@[n - 1])) } }
spec fn deepest(m: Seq<ShapeField>, n: nat) -> nat decreases n { if n == 0 || n > m.len() { 0 } else { larger(deepest(m, (n - 1) as nat), deep(m[n - 1].value)) } }
spec fn depth_under(m: Seq<ShapeField>, rest: Option<ShapeRest>) -> nat { let d = deepest(m, m.len()); match rest { Some(r) => larger(larger(d, deep(r.key)), deep(r.value)), None => d } }
spec fn acceptable(m: Seq<ShapeField>, rest: Option<ShapeRest>, e: ShapeExactness) -> bool {
    &&& m.len() <= MAX_SHAPE_FIELDS &&& (e is Exact ==> rest is None)
    &&& distinct(m) &&& proven(m)
    &&& (rest matches Some(r) ==> !RubyType::unknown_part(r.key) && !RubyType::unknown_part(r.value))
    &&& 1 + depth_under(m, rest) <= MAX_SHAPE_DEPTH
}
mod lem { use super::*;
pub(super) broadcast proof fn tys_push(s: Seq<RubyType>, t: RubyType) ensures tys(#[trigger] s.push(t)) == tys(s).push(v(t)) { assert(tys(s.push(t)) =~= tys(s).push(v(t))); }
pub(super) broadcast proof fn union_view(t: RubyType) ensures t is Union ==> #[trigger] v(t) == Ty::Union(tys(t->Union_0@)), v(t) is Union == t is Union, v(t) is Unknown == t is Unknown, v(t) is Shape == t is Shape { match t { RubyType::Union(m) => vs_tys(m), _ => {} } }
pub(super) broadcast proof fn tys_len(s: Seq<RubyType>) ensures (#[trigger] tys(s)).len() == s.len() {}
pub(super) broadcast proof fn tys_at(s: Seq<RubyType>, i: int) requires 0 <= i < s.len() ensures #[trigger] tys(s)[i] == v(s[i]) {}
pub(super) broadcast proof fn tys_at2(s: Seq<RubyType>, i: int) requires 0 <= i < s.len() ensures #[trigger] v(s[i]) == tys(s)[i] {}
pub(super) broadcast proof fn tys_one(s: Seq<RubyType>) requires s.len() == 1 ensures #[trigger] tys(s) == seq![v(s[0])] { assert(tys(s) =~= seq![v(s[0])]); }
pub(super) broadcast proof fn tys_two(s: Seq<RubyType>) requires s.len() == 2 ensures #[trigger] tys(s) == seq![v(s[0]), v(s[1])] { assert(tys(s) =~= seq![v(s[0]), v(s[1])]); }
pub(super) broadcast proof fn tys_remove(s: Seq<RubyType>, i: int) requires 0 <= i < s.len() ensures tys(#[trigger] s.remove(i)) == tys(s).remove(i) { assert(tys(s.remove(i)) =~= tys(s).remove(i)); }
pub(super) broadcast proof fn flat_push(s: Seq<Ty>, t: Ty) ensures #[trigger] flat(s.push(t)) == (if t is Union { flat(s) + t->Union_0 } else { flat(s).push(t) }) { assert(s.push(t).drop_last() =~= s); assert(flat(s) + seq![t] =~= flat(s).push(t)); }
pub(super) broadcast proof fn take_all(s: Seq<Ty>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub(super) broadcast proof fn without_push(s: Seq<Ty>, x: Ty, t: Ty) ensures #[trigger] without(s.push(x), t) == (if x == t { without(s, t) } else { without(s, t).push(x) }) { assert(s.push(x).drop_last() =~= s); }
pub(super) broadcast proof fn shapes_push(s: Seq<Ty>, t: Ty) ensures #[trigger] shapes(s.push(t)) == shapes(s) + if t is Shape { 1int } else { 0 } { assert(s.push(t).drop_last() =~= s); }
pub(super) broadcast proof fn has_unknown(s: Seq<RubyType>) ensures #[trigger] tys(s).to_set().contains(Ty::Unknown) == exists|i: int| 0 <= i < s.len() && #[trigger] PartialEqSpec::eq_spec(&s[i], &RubyType::Unknown) {
    let t = tys(s);
    if t.to_set().contains(Ty::Unknown) { let i = choose|i: int| 0 <= i < t.len() && t[i] == Ty::Unknown; assert(PartialEqSpec::eq_spec(&s[i], &RubyType::Unknown)); }
    if exists|i: int| 0 <= i < s.len() && #[trigger] PartialEqSpec::eq_spec(&s[i], &RubyType::Unknown) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] PartialEqSpec::eq_spec(&s[i], &RubyType::Unknown); assert(t[i] == Ty::Unknown); }
}
pub(super) broadcast proof fn dedup_strict(s: Seq<Ty>) requires #[trigger] ordered(s) ensures strict(dedup(s)), dedup(s).to_set() == s.to_set() { dedup_ok(s); }
pub(super) broadcast group views { tys_push, union_view, tys_len, tys_at, tys_at2, tys_remove, tys_one, tys_two, take_all, flat_push, without_push, shapes_push, has_unknown, dedup_strict }
}
/// `Vec::extend` by another vector
fn vp_extend(x: &mut Vec<RubyType>, y: Vec<RubyType>) ensures tys(final(x)@) == tys(old(x)@) + tys(y@) { let ghost g = y@; let mut y = y; x.append(&mut y); proof { assert(tys(x@) =~= tys(old(x)@) + tys(g)); } }
proof fn join_of(d: Seq<Ty>) requires strict(d), !d.contains(Ty::Unknown) ensures is_join(pack(d), d.to_set()) {
    if d.to_set().contains(Ty::Unknown) { assert(d.contains(Ty::Unknown)); }
}
proof fn join_one(t: Ty) requires !(t is Union) ensures is_join(t, all(seq![t])) {
    flat_one(t); let s = seq![t]; assert(s[0] == t); assert(s.to_set().contains(t));
    if t != Ty::Unknown { reveal_with_fuel(shapes, 3); assert(s.drop_last().len() == 0); assert(strict(s)); join_of(s); assert(pack(s) == t); }
}
proof fn join_none() ensures is_join(Ty::Unknown, all(Seq::empty())) { let e = Seq::<Ty>::empty(); assert(flat(e) =~= e); assert(strict(e)); assert(!e.to_set().contains(Ty::Unknown)); assert(pack(e) == Ty::Unknown); }
proof fn join_same(t: Ty) requires wf(t) ensures is_join(t, all(seq![t])) {
    flat_one(t); if t is Union { join_of(t->Union_0); } else { join_one(t); }
}
proof fn join_two(x: Ty, y: Ty) requires !(x is Union), !(y is Union), !(x is Unknown), !(y is Unknown), lt(x, y) ensures is_join(Ty::Union(seq![x, y]), all(seq![x, y])), all(seq![x, y]) == all(seq![y, x]) {
    let d = seq![x, y]; assert(strict(d)); flat_two(x, y); flat_two(y, x); assert(parts(x) + parts(y) =~= d);
    reveal_with_fuel(shapes, 4); assert(d.drop_last() =~= seq![x]); assert(d.drop_last().drop_last().len() == 0);
    join_of(d); assert(all(seq![x, y]) =~= all(seq![y, x]));
}
proof fn flat_plain(s: Seq<Ty>) requires forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Union) ensures flat(s) == s decreases s.len() {
    if s.len() > 0 { let h = s.drop_last(); assert forall|i: int| 0 <= i < h.len() implies !(#[trigger] h[i] is Union) by { assert(h[i] == s[i]); } flat_plain(h); assert(flat(s) =~= s); } else { assert(flat(s) =~= s); }
}
spec fn without(s: Seq<Ty>, t: Ty) -> Seq<Ty> decreases s.len() { if s.len() == 0 { s } else if s.last() == t { without(s.drop_last(), t) } else { without(s.drop_last(), t).push(s.last()) } }
proof fn without_ok(s: Seq<Ty>, t: Ty) ensures without(s, t).to_set() == s.to_set().remove(t), (forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Union)) ==> forall|i: int| 0 <= i < without(s, t).len() ==> !(#[trigger] without(s, t)[i] is Union) decreases s.len() {
    if s.len() > 0 { let h = s.drop_last(); without_ok(h, t); assert(s =~= h.push(s.last())); push_set(h, s.last()); push_set(without(h, t), s.last()); assert(forall|i: int| 0 <= i < h.len() ==> h[i] == s[i]); }
    assert(without(s, t).to_set() =~= s.to_set().remove(t));
}
proof fn taken_away(a: Ty, b: Ty) ensures
    flatly(a) && a is Union ==> all(without(a->Union_0, b)) == parts(a).to_set().remove(b),
    !(a is Union) && a != b ==> is_join(a, parts(a).to_set().remove(b)),
    !(a is Union) && a == b ==> is_join(Ty::Unknown, parts(a).to_set().remove(b)),
{
    let p = parts(a); without_ok(p, b); flat_one(a);
    if a is Union { if flatly(a) { flat_plain(without(p, b)); } }
    else { join_one(a); join_none(); if a == b { assert(p.to_set().remove(b) =~= Set::empty()); assert(all(Seq::<Ty>::empty()) =~= Set::empty()); } else { assert(p.to_set().remove(b) =~= p.to_set()); } }
}
/// whether a class is NilClass, by its name
uninterp spec fn nil_name(f: FullyQualifiedName) -> bool;
#[verifier::external_body] fn vp_nil_name(f: &FullyQualifiedName) -> (r: bool) ensures r == nil_name(*f) { unimplemented!() }
spec fn not_nil(m: Seq<RubyType>) -> Seq<RubyType> decreases m.len() { if m.len() == 0 { m } else { let h = not_nil(m.drop_last()); match m.last() { RubyType::Class(f) => if nil_name(f) { h } else { h.push(m.last()) }, _ => h.push(m.last()) } } }
/// `x.chain(once(y))`, `once(x).chain(once(y)).chain(z)`, and the next element of a sequence
fn vp_chain(x: Vec<RubyType>, y: RubyType) -> (r: Vec<RubyType>) ensures tys(r@) == tys(x@).push(v(y)) { broadcast use lem::views; let mut x = x; x.push(y); x }
fn vp_after2(x: RubyType, y: RubyType, z: Vec<RubyType>) -> (r: Vec<RubyType>) ensures tys(r@) == seq![v(x), v(y)] + tys(z@) { broadcast use lem::views; let mut r = Vec::new(); r.push(x); r.push(y); vp_extend(&mut r, z); proof { assert(tys(r@) =~= seq![v(x), v(y)] + tys(z@)); } r }
fn vp_next(x: &mut Vec<RubyType>) -> (r: Option<RubyType>) ensures old(x)@.len() == 0 ==> r is None && final(x)@ == old(x)@, old(x)@.len() > 0 ==> r is Some && v(r->Some_0) == tys(old(x)@)[0] && tys(final(x)@) == tys(old(x)@).skip(1) {
    broadcast use lem::views; if x.len() == 0 { None } else { let ghost g = x@; let r = x.remove(0); proof { assert(tys(g).remove(0) =~= tys(g).skip(1)); } Some(r) }
}
impl RubyType {
/// NilClass, whatever it is
uninterp spec fn nil() -> Ty;
#[verifier::external_body] fn nil_class() -> (r: RubyType) ensures v(r) == Self::nil(), v(r) is Other { unimplemented!() }
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::union
//@ sig fn union(types: Vec<RubyType>) -> (r: Self)
//@ rewrite? for $t:i in types $b:b ==> let mut vp_types = types; vp_text!("let ghost vp_all = tys(vp_types@); proof { assert(vp_all.take(0) =~= Seq::empty()); }"); let mut vp_k: usize = 0; let vp_n = vp_types.len(); while vp_k < vp_n { vp_text!("proof { assert(tys(vp_types@)[0] == vp_all[vp_k as int]); }"); let $t = vp_types.remove(0); vp_text!("let ghost vp_v = tys(type_vec@); proof { assert(vp_all.take(vp_k + 1) =~= vp_all.take(vp_k as int).push(vp_all[vp_k as int])); assert(flat(vp_all.take(vp_k as int).push(vp_all[vp_k as int])) == flat(vp_all.take(vp_k + 1))); }"); vp_k += 1; $b } vp_text!("proof { assert(vp_all.take(vp_k as int) =~= vp_all); }");
//@ rewrite? type_vec.extend($x:a) ==> vp_extend(&mut type_vec, $x)
//@ rewrite? type_vec.sort() ==> vp_sort(&mut type_vec)
//@ rewrite? type_vec.dedup() ==> vp_dedup(&mut type_vec)
//@ rewrite? type_vec.iter().filter(|$t:i| $c:a).count() ==> { let mut vp_c: usize = 0; let mut vp_k: usize = 0; while vp_k < type_vec.len() { let $t = &type_vec[vp_k]; if $c { vp_c += 1; } vp_k += 1; } vp_c }
//@ rewrite? type_vec.into_iter().next().unwrap() ==> type_vec.remove(0)
//@ spec
    ensures is_join(v(r), all(tys(types@)))
//@ entry
    broadcast use lem::views;
//@ loop 0
    invariant vp_k <= vp_n, vp_n == vp_all.len(), vp_all == tys(types@), tys(vp_types@) == vp_all.skip(vp_k as int), tys(type_vec@) == flat(vp_all.take(vp_k as int)),
    decreases vp_n - vp_k
//@ loopstart 0
    broadcast use lem::views;
//@ loopstart 1
    broadcast use lem::views;
    proof { assert(tys(type_vec@).take(vp_k + 1) =~= tys(type_vec@).take(vp_k as int).push(tys(type_vec@)[vp_k as int])); }
//@ loop 1
    invariant vp_k <= type_vec@.len(), vp_c <= vp_k, vp_c == shapes(tys(type_vec@).take(vp_k as int)),
    decreases type_vec@.len() - vp_k
//@end
spec fn unknown_part(t: RubyType) -> bool decreases t {
    match t {
        RubyType::Unknown => true,
        RubyType::Union(m) => exists|i: int| 0 <= i < m@.len() && Self::unknown_part(#[trigger] m@[i]),
        RubyType::Array(m) => exists|i: int| 0 <= i < m@.len() && Self::unknown_part(#[trigger] m@[i]),
        RubyType::Hash(k, x) => (exists|i: int| 0 <= i < k@.len() && Self::unknown_part(#[trigger] k@[i])) || (exists|i: int| 0 <= i < x@.len() && Self::unknown_part(#[trigger] x@[i])),
        RubyType::Shape(s) => (exists|i: int| 0 <= i < s.fields@.len() && Self::unknown_part((#[trigger] s.fields@[i]).value)) || match s.rest { Some(r) => Self::unknown_part(r.key) || Self::unknown_part(r.value), None => false },
        _ => false,
    }
}
spec fn unknown_or_member(t: RubyType) -> bool { t is Unknown || Self::unknown_member(t) }
/// a union somewhere in the type has unknown for a member
spec fn unknown_member(t: RubyType) -> bool decreases t {
    match t {
        RubyType::Union(m) => exists|i: int| 0 <= i < m@.len() && (v(#[trigger] m@[i]) is Unknown || Self::unknown_member(m@[i])),
        RubyType::Array(m) => exists|i: int| 0 <= i < m@.len() && Self::unknown_member(#[trigger] m@[i]),
        RubyType::Hash(k, x) => (exists|i: int| 0 <= i < k@.len() && Self::unknown_member(#[trigger] k@[i])) || (exists|i: int| 0 <= i < x@.len() && Self::unknown_member(#[trigger] x@[i])),
        RubyType::Shape(s) => (exists|i: int| 0 <= i < s.fields@.len() && Self::unknown_member((#[trigger] s.fields@[i]).value)) || match s.rest { Some(r) => Self::unknown_member(r.key) || Self::unknown_member(r.value), None => false },
        _ => false,
    }
}
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::contains_unknown
//@ sig fn contains_unknown(ruby_type: &RubyType) -> (r: bool)
//@ rewrite? member == &RubyType::Unknown ==> *member == RubyType::Unknown
//@ rewrite? $x:e.iter().any(Self::$f:i) ==> $x.iter().any(|vp_e| Self::$f(vp_e))
//@ rewrite? $x:e.iter().any(|$t:i| $c:a) ==> ({ let mut vp_any = false; let mut vp_k: usize = 0; while vp_k < $x.len() { let $t = &$x[vp_k]; if $c { vp_any = true; } vp_k += 1; } vp_any })
//@ rewrite? $x:e.is_some_and(|$t:i| $c:a) ==> (match $x { Some($t) => $c, None => false })
//@ spec
    ensures r == Self::unknown_part(*ruby_type)
    decreases ruby_type
//@ loop 0
    invariant vp_k <= elements@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_part(#[trigger] elements@[i])), decreases_to!(*ruby_type => *elements), 
    decreases elements@.len() - vp_k
//@ loop 1
    invariant vp_k <= keys@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_part(#[trigger] keys@[i])), decreases_to!(*ruby_type => *keys), 
    decreases keys@.len() - vp_k
//@ loop 2
    invariant vp_k <= values@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_part(#[trigger] values@[i])), decreases_to!(*ruby_type => *values), 
    decreases values@.len() - vp_k
//@ loop 3
    invariant vp_k <= shape.fields@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_part((#[trigger] shape.fields@[i]).value)), decreases_to!(*ruby_type => shape.fields), 
    decreases shape.fields@.len() - vp_k
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::nested_union_contains_unknown
//@ sig fn nested_union_contains_unknown(ruby_type: &RubyType) -> (r: bool)
//@ rewrite? member == &RubyType::Unknown ==> *member == RubyType::Unknown
//@ rewrite? $x:e.iter().any(Self::$f:i) ==> $x.iter().any(|vp_e| Self::$f(vp_e))
//@ rewrite? $x:e.iter().any(|$t:i| $c:a) ==> ({ let mut vp_any = false; let mut vp_k: usize = 0; while vp_k < $x.len() { let $t = &$x[vp_k]; if $c { vp_any = true; } vp_k += 1; } vp_any })
//@ rewrite? $x:e.is_some_and(|$t:i| $c:a) ==> (match $x { Some($t) => $c, None => false })
//@ spec
    ensures r == Self::unknown_member(*ruby_type)
    decreases ruby_type
//@ loop 0
    invariant vp_k <= members@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && (v(#[trigger] members@[i]) is Unknown || Self::unknown_member(members@[i]))), decreases_to!(*ruby_type => *members), 
    decreases members@.len() - vp_k
//@ loop 1
    invariant vp_k <= elements@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_member(#[trigger] elements@[i])), decreases_to!(*ruby_type => *elements), 
    decreases elements@.len() - vp_k
//@ loop 2
    invariant vp_k <= keys@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_member(#[trigger] keys@[i])), decreases_to!(*ruby_type => *keys), 
    decreases keys@.len() - vp_k
//@ loop 3
    invariant vp_k <= values@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_member(#[trigger] values@[i])), decreases_to!(*ruby_type => *values), 
    decreases values@.len() - vp_k
//@ loop 4
    invariant vp_k <= shape.fields@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_member((#[trigger] shape.fields@[i]).value)), decreases_to!(*ruby_type => shape.fields), 
    decreases shape.fields@.len() - vp_k
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::union_members_contain_unknown
//@ sig fn union_members_contain_unknown(ruby_type: &RubyType) -> (r: bool)
//@ rewrite? member == &RubyType::Unknown ==> *member == RubyType::Unknown
//@ rewrite? $x:e.iter().any(Self::$f:i) ==> $x.iter().any(|vp_e| Self::$f(vp_e))
//@ rewrite? $x:e.iter().any(|$t:i| $c:a) ==> ({ let mut vp_any = false; let mut vp_k: usize = 0; while vp_k < $x.len() { let $t = &$x[vp_k]; if $c { vp_any = true; } vp_k += 1; } vp_any })
//@ rewrite? $x:e.is_some_and(|$t:i| $c:a) ==> (match $x { Some($t) => $c, None => false })
//@ spec
    ensures r == Self::unknown_or_member(*ruby_type)
    decreases ruby_type
//@ loop 0
    invariant vp_k <= members@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && (v(#[trigger] members@[i]) is Unknown || Self::unknown_member(members@[i]))), decreases_to!(*ruby_type => *members), 
    decreases members@.len() - vp_k
//@ loop 1
    invariant vp_k <= elements@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_member(#[trigger] elements@[i])), decreases_to!(*ruby_type => *elements), 
    decreases elements@.len() - vp_k
//@ loop 2
    invariant vp_k <= keys@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_member(#[trigger] keys@[i])), decreases_to!(*ruby_type => *keys), 
    decreases keys@.len() - vp_k
//@ loop 3
    invariant vp_k <= values@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_member(#[trigger] values@[i])), decreases_to!(*ruby_type => *values), 
    decreases values@.len() - vp_k
//@ loop 4
    invariant vp_k <= shape.fields@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::unknown_member((#[trigger] shape.fields@[i]).value)), decreases_to!(*ruby_type => shape.fields), 
    decreases shape.fields@.len() - vp_k
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::optional
//@ sig fn optional(inner: RubyType) -> (r: Self)
//@ rewrite? $x:i.into_iter().chain(std::iter::once($y:a)) ==> vp_chain($x, $y)
//@ spec
    ensures inner is Unknown ==> r is Unknown, flatly(v(inner)) ==> is_join(v(r), all(seq![v(inner), Self::nil()]))
//@ entry
    broadcast use lem::views;
//@ exit
    proof { let a = v(inner); let n = Self::nil(); flat_two(a, n); flat_two(n, a); lt_total(a, n); if a is Union { if flatly(a) { flat_plain(a->Union_0.push(n)); let p = a->Union_0.push(n); assert(flat(p) == p); assert(parts(a) + parts(n) =~= p); } } else if !(a is Unknown) { if a == n { join_one(a); assert(all(seq![a, n]) =~= all(seq![a])); } else if lt(a, n) { join_two(a, n); } else { join_two(n, a); } } }
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::canonical_union_members
//@ sig fn canonical_union_members(types: Vec<RubyType>) -> (r: Vec<RubyType>)
//@ rewrite? let mut types = types.into_iter(); ==> let mut types = types; vp_text!("let ghost vp_in = tys(types@); ");
//@ rewrite? types.next() ==> vp_next(&mut types)
//@ rewrite? std::iter::once($x:a).chain(std::iter::once($y:a)).chain($z:i) ==> vp_after2($x, $y, $z)
//@ rewrite? RubyType::union([$x:i]) ==> RubyType::union(vec![$x])
//@ spec
    ensures exists|u: Ty| #[trigger] is_join(u, all(tys(types@))) && tys(r@) == parts(u)
//@ entry
    broadcast use lem::views;
    proof { let s = tys(types@); join_none(); if s.len() == 0 { assert(s =~= Seq::empty()); } else if s.len() == 1 { assert(s =~= seq![s[0]]); if !(s[0] is Union) { join_one(s[0]); } } else { assert(s =~= seq![s[0], s[1]] + s.skip(1).skip(1)); assert(s.skip(1)[0] == s[1]); } }
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::union_from_proven
//@ sig fn union_from_proven<T, F: Fn(T) -> Option<RubyType>>(alternatives: Vec<T>, resolve: F) -> (r: Option<RubyType>)
//@ rewrite? for $t:i in alternatives $b:b ==> let mut vp_alt = alternatives; vp_text!("let ghost vp_all = vp_alt@;"); let mut vp_k: usize = 0; let vp_n = vp_alt.len(); while vp_k < vp_n { let $t = vp_alt.remove(0); vp_k += 1; $b } 
//@ spec
    requires forall|t: T| #[trigger] resolve.requires((t,))
    ensures r matches Some(x) ==> alternatives@.len() > 0 && exists|o: Seq<RubyType>| o.len() == alternatives@.len() && (forall|i: int| 0 <= i < o.len() ==> resolve.ensures((alternatives@[i],), Some(#[trigger] o[i])) && !(o[i] is Unknown)) && is_join(v(x), all(tys(o))),
        r is None ==> alternatives@.len() == 0 || exists|i: int| 0 <= i < alternatives@.len() && (resolve.ensures((#[trigger] alternatives@[i],), None) || exists|u: RubyType| resolve.ensures((alternatives@[i],), Some(u)) && u is Unknown)
//@ entry
    broadcast use lem::views;
//@ loop 0
    invariant vp_k <= vp_n, vp_n == vp_all.len(), vp_all == alternatives@, vp_alt@ == vp_all.skip(vp_k as int), resolved@.len() == vp_k, forall|t: T| #[trigger] resolve.requires((t,)),
        forall|i: int| 0 <= i < vp_k ==> resolve.ensures((alternatives@[i],), Some(#[trigger] resolved@[i])) && !(resolved@[i] is Unknown),
    decreases vp_n - vp_k
//@ loopstart 0
    broadcast use lem::views;
    proof { assert(vp_alt@[0] == alternatives@[vp_k as int]); }
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::union_with
//@ sig fn union_with(&self, other: &RubyType) -> (r: RubyType)
//@ rewrite? self == other ==> *self == *other
//@ rewrite? $x:i.clone() ==> $x.vp_copy()
//@ rewrite? $x:i.extend($y:a) ==> vp_extend(&mut $x, $y)
//@ rewrite? RubyType::union([$x:a, $y:a]) ==> RubyType::union(vec![$x, $y])
//@ spec
    ensures wf(v(*self)) && wf(v(*other)) ==> is_join(v(r), all(seq![v(*self), v(*other)])), (*self is Unknown || *other is Unknown) ==> r is Unknown
//@ entry
    broadcast use lem::views;
    proof { let a = v(*self); let b = v(*other); flat_two(a, b); flat_two(b, a); assert(all(seq![a, b]) =~= all(seq![b, a]));
        if wf(a) { join_same(a); if a == b { assert(all(seq![a, b]) =~= all(seq![a])); } }
        if wf(a) && wf(b) { flat_plain(parts(a)); flat_plain(parts(b)); flat_plain(parts(a) + parts(b)); assert(parts(a).push(b) =~= parts(a) + seq![b]); assert(parts(b).push(a) =~= parts(b) + seq![a]); flat_plain(parts(b) + parts(a)); if !(b is Union) { flat_plain(parts(a).push(b)); } if !(a is Union) { flat_plain(parts(b).push(a)); } } }
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::subtract
//@ sig fn subtract(&self, other: &RubyType) -> (r: RubyType)
//@ rewrite? let filtered: Vec<RubyType> = $x:i.iter().filter(|$t:i| $c:a).cloned().collect(); ==> let mut filtered: Vec<RubyType> = Vec::new(); let mut vp_k: usize = 0; while vp_k < $x.len() { let $t = &&$x[vp_k]; vp_text!("proof { assert(tys(types@).take(vp_k + 1) =~= tys(types@).take(vp_k as int).push(tys(types@)[vp_k as int])); }"); if $c { filtered.push($x[vp_k].vp_copy()); } vp_k += 1; }
//@ rewrite? *t != other ==> **t != *other
//@ rewrite? t == other ==> *t == *other
//@ rewrite? $x:i.clone() ==> $x.vp_copy()
//@ spec
    ensures flatly(v(*self)) && wf(v(*self)) ==> is_join(v(r), parts(v(*self)).to_set().remove(v(*other)))
//@ entry
    broadcast use lem::views;
    proof { taken_away(v(*self), v(*other)); }
//@ loop 0
    invariant vp_k <= types@.len(), tys(filtered@) == without(tys(types@).take(vp_k as int), v(*other)),
    decreases types@.len() - vp_k
//@ loopstart 0
    broadcast use lem::views;
//@end
spec fn nilable(t: RubyType) -> bool decreases t {
    match t { RubyType::Class(f) => nil_name(f), RubyType::Union(m) => exists|i: int| 0 <= i < m@.len() && Self::nilable(#[trigger] m@[i]), _ => false }
}
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::is_nilable
//@ sig fn is_nilable(&self) -> (r: bool)
//@ rewrite? fqn.to_string() == "NilClass" ==> vp_nil_name(fqn)
//@ rewrite? $x:e.iter().any(|$t:i| $c:a) ==> ({ let mut vp_any = false; let mut vp_k: usize = 0; while vp_k < $x.len() { let $t = &$x[vp_k]; if $c { vp_any = true; } vp_k += 1; } vp_any })
//@ spec
    ensures r == Self::nilable(*self)
    decreases self
//@ loop 0
    invariant vp_k <= types@.len(), vp_any == (exists|i: int| 0 <= i < vp_k && Self::nilable(#[trigger] types@[i])), decreases_to!(*self => *types),
    decreases types@.len() - vp_k
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::make_nilable
//@ sig fn make_nilable(self) -> (r: RubyType)
//@ spec
    ensures Self::nilable(self) ==> r == self, self is Unknown ==> r is Unknown, !Self::nilable(self) && flatly(v(self)) ==> is_join(v(r), all(seq![v(self), Self::nil()]))
//@end
//@fn crates/ruby-analysis/src/core/ruby_type.rs :: RubyType::remove_nil
//@ sig fn remove_nil(self) -> (r: RubyType)
//@ rewrite? fqn.to_string() == "NilClass" ==> vp_nil_name(fqn)
//@ rewrite? RubyType::Class(fqn) if vp_nil_name(fqn) ==> RubyType::Class(ref fqn) if vp_nil_name(fqn)
//@ rewrite? matches!($t:i, RubyType::Class(ref fqn) if vp_nil_name(fqn)) ==> (match $t { RubyType::Class(fqn) => vp_nil_name(fqn), _ => false })
//@ rewrite? RubyType::Union(mut types) ==> RubyType::Union(types)
//@ rewrite? types.retain(|$t:i| $c:a); ==> let mut vp_types = types; vp_text!("let ghost vp_all = vp_types@;"); let mut types: Vec<RubyType> = Vec::new(); let mut vp_k: usize = 0; let vp_n = vp_types.len(); while vp_k < vp_n { let vp_t = vp_types.remove(0); vp_text!("proof { assert(vp_t == vp_all[vp_k as int]); assert(vp_all.take(vp_k + 1).drop_last() =~= vp_all.take(vp_k as int)); }"); vp_k += 1; let vp_keep = { let $t = &vp_t; $c }; if vp_keep { types.push(vp_t); } } vp_text!("proof { assert(vp_all.take(vp_k as int) =~= vp_all); }");
//@ spec
    ensures self matches RubyType::Union(m) ==> is_join(v(r), all(tys(not_nil(m@)))), self matches RubyType::Class(f) ==> nil_name(f) ==> r is Unknown, !(self is Union) && !Self::nilable(self) ==> r == self
//@ entry
    broadcast use lem::views;
//@ loop 0
    invariant vp_k <= vp_n, vp_n == vp_all.len(), vp_types@ == vp_all.skip(vp_k as int), types@ == not_nil(vp_all.take(vp_k as int)),
    decreases vp_n - vp_k
//@end
}
impl ShapeField {
//@fn crates/ruby-analysis/src/core/shape_type.rs :: ShapeField::value
//@ sig fn value(&self) -> (r: &RubyType)
//@ spec
    ensures *r == self.value
//@end
}
impl ShapeRest {
//@fn crates/ruby-analysis/src/core/shape_type.rs :: ShapeRest::key
//@ sig fn key(&self) -> (r: &RubyType)
//@ spec
    ensures *r == self.key
//@end
//@fn crates/ruby-analysis/src/core/shape_type.rs :: ShapeRest::value
//@ sig fn value(&self) -> (r: &RubyType)
//@ spec
    ensures *r == self.value
//@end
}
impl ShapeType {
//@fn crates/ruby-analysis/src/core/shape_type.rs :: ShapeType::fields
//@ sig fn fields(&self) -> (r: &Vec<ShapeField>)
//@ spec
    ensures *r == self.fields
//@end
//@fn crates/ruby-analysis/src/core/shape_type.rs :: ShapeType::rest
//@ sig fn rest(&self) -> (r: Option<&ShapeRest>)
//@ rewrite? self.rest.as_deref() ==> match &self.rest { Some(vp_r) => Some(&**vp_r), None => None }
//@ spec
    ensures (r is Some) == (self.rest is Some), r matches Some(x) ==> *x == *self.rest->Some_0
//@end
//@fn crates/ruby-analysis/src/core/shape_type.rs :: ShapeType::depth
//@ sig fn depth(&self) -> (r: usize)
//@ rewrite? usize::from($x:a) ==> ($x as usize)
//@ spec
    ensures r == self.depth
//@end
//@fn crates/ruby-analysis/src/core/shape_type.rs :: ShapeType::try_new
//@ sig fn try_new(fields: Vec<ShapeField>, rest: Option<ShapeRest>, exactness: ShapeExactness, stability: ShapeStability) -> (r: Result<Self, ShapeConstructionError>)
//@ rewrite? fields.into_iter().collect::<Vec<_>>() ==> fields
//@ rewrite? fields.sort_by(|left, right| left.key.cmp(&right.key)); ==> vp_text!("let ghost vp_in = fields@;"); vp_sort_fields(&mut fields); vp_text!("proof { permuted_alike(fields@, vp_in); apart_is_sorted(fields@); }");
//@ rewrite? $x:i.windows(2).find(|$p:i| $c:a).map(|$q:i| $m:a) ==> ({ let mut vp_f = None; let mut vp_k: usize = 1; while vp_k < $x.len() { if vp_f.is_none() { let $p = [&$x[vp_k - 1], &$x[vp_k]]; if $c { vp_f = Some({ let $q = $p; $m }); } } vp_k += 1; } vp_f })
//@ rewrite? if let Some($u:i) = $x:i.iter().find(|$t:i| $c:a) $b:b ==> let mut vp_f: Option<usize> = None; let mut vp_k: usize = 0; while vp_k < $x.len() { if vp_f.is_none() { let $t = &$x[vp_k]; if $c { vp_f = Some(vp_k); } } vp_k += 1; } if let Some(vp_i) = vp_f { let $u = &$x[vp_i]; $b }
//@ rewrite? $x:i.iter().map(|$t:i| $d:a).chain($r:i.as_ref().into_iter().flat_map(|$s:i| { [$a:a, $b:a] })).max().unwrap_or(0) ==> ({ let mut vp_m: usize = 0; let mut vp_k: usize = 0; while vp_k < $x.len() { let $t = &$x[vp_k]; let vp_d = $d; if vp_d > vp_m { vp_m = vp_d; } vp_k += 1; } match $r.as_ref() { Some($s) => { let vp_d = $a; if vp_d > vp_m { vp_m = vp_d; } let vp_d = $b; if vp_d > vp_m { vp_m = vp_d; } } None => {} } vp_m })
//@ rewrite? $x:e.is_some_and(|$t:i| $c:a) ==> (match $x { Some($t) => $c, None => false })
//@ rewrite? $x:i.checked_add($n:l).ok_or($e:a)? ==> (match $x.checked_add($n) { Some(vp_s) => vp_s, None => return Err($e) })
//@ rewrite? $x:i.into_boxed_slice() ==> $x
//@ rewrite? $x:i.map(Box::new) ==> (match $x { Some(vp_r) => Some(Box::new(vp_r)), None => None })
//@ rewrite? u8::try_from($x:a).expect($m:l) ==> vp_u8($x)
//@ rewrite? $x:e.key.clone() ==> $x.key.vp_key()
//@ spec
    ensures (r is Ok) == acceptable(fields@, rest, exactness),
        r matches Ok(s) ==> sorted_keys(s.fields@) && permuted(s.fields@, fields@) && (s.rest is Some) == (rest is Some) && (rest matches Some(x) ==> *s.rest->Some_0 == x)
            && s.exactness == exactness && s.stability == stability && s.depth == 1 + depth_under(fields@, rest) && !RubyType::unknown_part(RubyType::Shape(Box::new(s)))
//@ loop 0
    invariant 1 <= vp_k, (vp_f is None) == (forall|i: int| 1 <= i < vp_k && i < fields@.len() ==> key_of(#[trigger] fields@[i - 1].key) != key_of(fields@[i].key)),
    decreases fields@.len() - vp_k
//@ loop 1
    invariant vp_k <= fields@.len(), (vp_f is None) == (forall|i: int| 0 <= i < vp_k ==> !RubyType::unknown_part((#[trigger] fields@[i]).value)), vp_f matches Some(i) ==> i < fields@.len(),
    decreases fields@.len() - vp_k
//@ loop 2
    invariant vp_k <= fields@.len(), vp_m == deepest(fields@, vp_k as nat),
    decreases fields@.len() - vp_k
//@end
}
//@fn crates/ruby-analysis/src/core/shape_type.rs :: shape_depth_in_type
//@ sig fn shape_depth_in_type(ruby_type: &RubyType) -> (r: usize)
//@ rewrite? keys.iter().chain(values.iter()).map($f:i).max().unwrap_or(0) ==> vp_larger(keys.iter().map($f).max().unwrap_or(0), values.iter().map($f).max().unwrap_or(0))
//@ rewrite? $x:i.iter().map($f:i).max().unwrap_or(0) ==> ({ let mut vp_m: usize = 0; let mut vp_k: usize = 0; while vp_k < $x.len() { let vp_d = $f(&$x[vp_k]); if vp_d > vp_m { vp_m = vp_d; } vp_k += 1; } vp_m })
//@ spec
    ensures r == deep(*ruby_type)
    decreases ruby_type
//@ loop 0
    invariant vp_k <= types@.len(), vp_m == deeps(*types, vp_k as nat), decreases_to!(*ruby_type => *types),
    decreases types@.len() - vp_k
//@ loop 1
    invariant vp_k <= keys@.len(), vp_m == deeps(*keys, vp_k as nat), decreases_to!(*ruby_type => *keys),
    decreases keys@.len() - vp_k
//@ loop 2
    invariant vp_k <= values@.len(), vp_m == deeps(*values, vp_k as nat), decreases_to!(*ruby_type => *values),
    decreases values@.len() - vp_k
//@end
fn main() {}
}
