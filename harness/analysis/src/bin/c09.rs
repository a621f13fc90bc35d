//! C09 on the compiled code: unions of types against a set-of-members oracle, and structural types.
use ruby_analysis::core::{FullyQualifiedName, LiteralKey, LiteralValue, RubyType, ShapeExactness, ShapeField, ShapeFieldPresence, ShapeRest, ShapeStability, ShapeType, MAX_SHAPE_DEPTH, MAX_SHAPE_FIELDS, MAX_SHAPE_UNION_VARIANTS};
use std::collections::BTreeSet;
use vcommon::{Rng, Run};

type R = Result<(), String>;
fn fqn(s: &str) -> FullyQualifiedName { FullyQualifiedName::try_from(s).unwrap() }
fn key(rng: &mut Rng) -> LiteralKey { let s = *rng.pick(&["a", "b", "c", "kind", "NilClass"]); if rng.chance(2, 3) { LiteralKey::symbol(s) } else { LiteralKey::string(s) } }
/// a type with no union at its top; `unknown` allows Unknown anywhere below
fn atom(rng: &mut Rng, d: usize, unknown: bool) -> RubyType {
    match rng.below(if d == 0 { 8 } else { 12 }) {
        0 | 1 => RubyType::class(*rng.pick(&["String", "Integer", "NilClass", "TrueClass", "A::B", "Symbol"])),
        2 => RubyType::Module(fqn(*rng.pick(&["String", "M", "Kernel", "NilClass"]))),
        3 => RubyType::ClassReference(fqn(*rng.pick(&["String", "NilClass", "Zed"]))),
        4 => RubyType::ModuleReference(fqn(*rng.pick(&["M", "NilClass"]))),
        5 => RubyType::Literal(Box::new(LiteralValue::symbol(*rng.pick(&["a", "b", "NilClass"])))),
        6 => RubyType::Literal(Box::new(LiteralValue::string(*rng.pick(&["a", "b"])))),
        7 => if rng.chance(1, 2) { RubyType::nil_class() } else { RubyType::float() },
        8 => RubyType::Array(members(rng, d - 1, unknown)),
        9 => RubyType::Hash(members(rng, d - 1, unknown), members(rng, d - 1, unknown)),
        _ => shape(rng, d - 1),
    }
}
fn members(rng: &mut Rng, d: usize, unknown: bool) -> Vec<RubyType> {
    if unknown && rng.chance(1, 5) { return vec![RubyType::Unknown]; }
    let n = rng.range(1, 3) as usize; let s: BTreeSet<RubyType> = (0..n).map(|_| atom(rng, d, unknown)).collect(); s.into_iter().collect()
}
fn shape(rng: &mut Rng, d: usize) -> RubyType {
    let mut keys = BTreeSet::new(); for _ in 0..rng.below(4) { keys.insert(key(rng)); }
    let fields: Vec<_> = keys.into_iter().map(|k| { let v = value(rng, d); if rng.chance(2, 3) { ShapeField::required(k, v) } else { ShapeField::optional(k, v) } }).collect();
    let open = rng.chance(1, 2); let rest = if open && rng.chance(1, 2) { Some(ShapeRest::new(RubyType::symbol(), value(rng, d))) } else { None };
    RubyType::Shape(Box::new(ShapeType::try_new(fields, rest, if open { ShapeExactness::Open } else { ShapeExactness::Exact }, *rng.pick(&[ShapeStability::Frozen, ShapeStability::TrackedMutable])).unwrap()))
}
/// a canonical type without Unknown
fn value(rng: &mut Rng, d: usize) -> RubyType { let n = if rng.chance(2, 3) { 1 } else { rng.range(1, 3) as usize }; canonical((0..n).map(|_| atom(rng, d, false)).collect()) }
/// the oracle: what a union of these members is
fn canonical(all: Vec<RubyType>) -> RubyType {
    let mut s = BTreeSet::new();
    for t in all { match t { RubyType::Unknown => return RubyType::Unknown, RubyType::Union(v) => { if v.contains(&RubyType::Unknown) { return RubyType::Unknown } s.extend(v) } t => { s.insert(t); } } }
    if s.is_empty() || s.iter().filter(|t| matches!(t, RubyType::Shape(_))).count() > 8 { return RubyType::Unknown; }
    if s.len() == 1 { s.into_iter().next().unwrap() } else { RubyType::Union(s.into_iter().collect()) }
}
fn parts(t: &RubyType) -> Vec<RubyType> { match t { RubyType::Union(v) => v.clone(), t => vec![t.clone()] } }
fn shuffle(rng: &mut Rng, v: &mut Vec<RubyType>) { for i in (1..v.len()).rev() { let j = rng.below(i + 1); v.swap(i, j); } }
fn is(what: &str, got: &RubyType, want: &RubyType) -> R { if got == want { Ok(()) } else { Err(format!("{what} gave {got:?}, must be {want:?}")) } }
/// two values that are one by the derived order are one by equality, and the listing is strictly ascending
fn ordered(t: &RubyType) -> R { if let RubyType::Union(v) = t { if v.len() < 2 || v.windows(2).any(|w| w[0] >= w[1]) || v.iter().any(|m| matches!(m, RubyType::Union(_) | RubyType::Unknown)) { return Err(format!("not canonical: {t:?}")) } } Ok(()) }
fn nil(t: &RubyType) -> bool { *t == RubyType::nil_class() }
fn union_laws(rng: &mut Rng, v: &[RubyType]) -> R {
    let want = canonical(v.to_vec());
    let got = RubyType::union(v.to_vec()); is("union", &got, &want)?; ordered(&got)?;
    for _ in 0..2 {
        // another order, with repetitions and other nesting
        let mut w = v.to_vec(); for _ in 0..rng.below(3) { if !w.is_empty() { let x = rng.pick(&w).clone(); w.push(x) } } shuffle(rng, &mut w);
        let mut groups: Vec<Vec<RubyType>> = vec![]; for x in w { if groups.is_empty() || rng.chance(1, 2) { groups.push(vec![]) } let k = rng.below(groups.len()); groups[k].push(x); }
        let groups: Vec<_> = groups.into_iter().filter(|g| !g.is_empty()).collect();
        if groups.iter().flatten().count() > 0 { is("a regrouped union", &RubyType::union(groups.iter().map(|g| RubyType::union(g.clone()))), &want)?; }
        let mut fold = None; for g in groups.iter().flatten() { fold = Some(match fold { None => g.clone(), Some(f) => RubyType::union_with(&f, g) }); }
        if let Some(f) = fold { if groups.iter().flatten().count() > 1 { is("joining one by one", &f, &want)?; } }
    }
    let m = RubyType::canonical_union_members(v.to_vec());
    let wm = if v.is_empty() { vec![RubyType::Unknown] } else { parts(&want) };
    if m != wm { return Err(format!("members {m:?}, must be {wm:?}")) }
    is("union of one", &RubyType::union([got.clone()]), &want)?;
    // resolved alternatives
    let bad = v.contains(&RubyType::Unknown);
    let mut calls = 0;
    let p = RubyType::union_from_proven(v.to_vec(), |t| { calls += 1; Some(t) });
    let wp = if bad || v.is_empty() { None } else { Some(want.clone()) };
    if p != wp { return Err(format!("union_from_proven gave {p:?}, must be {wp:?}")) }
    if !v.is_empty() { let k = rng.below(v.len()); let mut i = 0; let q = RubyType::union_from_proven(v.to_vec(), |t| { i += 1; if i == k + 1 { None } else { Some(t) } }); if q.is_some() { return Err(format!("alternative {k} is unresolved, yet the union is {q:?}")) } }
    if got.is_nilable() != parts(&want).iter().any(nil) { return Err(format!("is_nilable({got:?}) is {}", got.is_nilable())) }
    for m in parts(&want) { if want != RubyType::Unknown && !m.is_subtype_of(&want) { return Err(format!("{m:?} is not within {want:?}")) } }
    Ok(())
}
fn pair_laws(a: &RubyType, b: &RubyType) -> R {
    let want = canonical(vec![a.clone(), b.clone()]);
    is("union_with", &a.union_with(b), &want)?; is("union_with, the other way", &b.union_with(a), &want)?;
    let with_nil = if *a == RubyType::Unknown { RubyType::Unknown } else { canonical(vec![a.clone(), RubyType::nil_class()]) };
    is("optional", &RubyType::optional(a.clone()), &with_nil)?; is("make_nilable", &a.clone().make_nilable(), &with_nil)?;
    let without: Vec<_> = parts(a).into_iter().filter(|t| !nil(t)).collect();
    is("remove_nil", &a.clone().remove_nil(), &canonical(without))?;
    let less: Vec<_> = parts(a).into_iter().filter(|t| t != b).collect();
    if !matches!(b, RubyType::Union(_)) { is("subtract", &a.subtract(b), &canonical(less))?; }
    let sup = a.common_supertype(b);
    let ws = if a.is_subtype_of(b) { b.clone() } else if b.is_subtype_of(a) { a.clone() } else { want.clone() };
    is("common_supertype", &sup, &ws)?;
    if (*a == RubyType::Unknown) != (*b == RubyType::Unknown) && sup != RubyType::Unknown { return Err(format!("a supertype with unknown is {sup:?}")) }
    if *a == RubyType::Unknown && *b != RubyType::Unknown && (a.is_subtype_of(b) || b.is_subtype_of(a)) { return Err("unknown counted as a subtype".into()) }
    if let RubyType::Union(v) = a { if a != b && a.is_subtype_of(b) != v.iter().all(|t| t.is_subtype_of(b)) { return Err(format!("{a:?} within {b:?}: {}", a.is_subtype_of(b))) } }
    else if let RubyType::Union(v) = b { if a.is_subtype_of(b) != v.iter().any(|t| a.is_subtype_of(t)) { return Err(format!("{a:?} within {b:?}: {}", a.is_subtype_of(b))) } }
    let (wa, wb) = (a.widen_literals(), b.widen_literals());
    is("widening a union", &want.widen_literals(), &canonical(vec![wa.clone(), wb]))?; is("widening twice", &wa.widen_literals(), &wa)?;
    if literal(&wa) { return Err(format!("{wa:?} keeps a literal")) }
    Ok(())
}
fn children(t: &RubyType) -> Vec<&RubyType> {
    match t { RubyType::Array(v) | RubyType::Union(v) => v.iter().collect(), RubyType::Hash(k, v) => k.iter().chain(v).collect(),
        RubyType::Shape(s) => s.fields().iter().map(|f| f.value()).chain(s.rest().into_iter().flat_map(|r| [r.key(), r.value()])).collect(), _ => vec![] }
}
fn any(t: &RubyType, p: &dyn Fn(&RubyType) -> bool) -> bool { p(t) || children(t).into_iter().any(|c| any(c, p)) }
fn literal(t: &RubyType) -> bool { any(t, &|x| matches!(x, RubyType::Literal(_))) }
/// any tree at all, canonical or not
fn wild(rng: &mut Rng, d: usize) -> RubyType {
    let list = |rng: &mut Rng| (0..rng.below(3)).map(|_| wild(rng, d.saturating_sub(1))).collect::<Vec<_>>();
    match rng.below(if d == 0 { 2 } else { 6 }) { 0 => RubyType::Unknown, 1 => atom(rng, d.min(1), true), 2 => RubyType::Array(list(rng)), 3 => RubyType::Hash(list(rng), list(rng)), 4 => RubyType::Union(list(rng)), _ => atom(rng, d, true) }
}
fn unknown_found(t: &RubyType) -> R {
    let u = any(t, &|x| *x == RubyType::Unknown);
    if RubyType::contains_unknown(t) != u { return Err(format!("contains_unknown({t:?}) is {}", !u)) }
    let m = *t == RubyType::Unknown || any(t, &|x| matches!(x, RubyType::Union(v) if v.contains(&RubyType::Unknown)));
    if RubyType::union_members_contain_unknown(t) != m { return Err(format!("union_members_contain_unknown({t:?}) is {}", !m)) }
    Ok(())
}
fn depth(t: &RubyType) -> usize { children(t).into_iter().map(depth).max().unwrap_or(0) + matches!(t, RubyType::Shape(_)) as usize }
/// a structural type is built exactly from proven, distinct, bounded parts, whatever their order
fn shape_laws(rng: &mut Rng) -> R {
    let n = if rng.chance(1, 6) { rng.range(31, 34) as usize } else { rng.below(5) };
    let mut fields: Vec<(LiteralKey, RubyType, bool)> = (0..n).map(|i| { let k = if n > 5 { LiteralKey::symbol(format!("k{i}")) } else { key(rng) }; (k, if rng.chance(1, 4) { wild(rng, 2) } else { value(rng, 2) }, rng.chance(1, 2)) }).collect();
    if rng.chance(1, 4) { let mut t = value(rng, 0); for _ in 0..rng.range(5, 10) { let f = ShapeField::required(key(rng), if rng.chance(1, 3) { RubyType::array_of(t.clone()) } else { t.clone() }); match ShapeType::try_new([f], None, ShapeExactness::Exact, ShapeStability::Frozen) { Ok(s) => t = RubyType::Shape(Box::new(s)), Err(_) => break } } fields.push((LiteralKey::symbol("deep"), t, true)); }
    let rest = rng.chance(1, 3).then(|| (if rng.chance(1, 4) { wild(rng, 2) } else { value(rng, 1) }, if rng.chance(1, 4) { wild(rng, 2) } else { value(rng, 1) }));
    let exact = rng.chance(1, 2);
    let make = |f: &[(LiteralKey, RubyType, bool)]| ShapeType::try_new(f.iter().map(|(k, v, r)| if *r { ShapeField::required(k.clone(), v.clone()) } else { ShapeField::optional(k.clone(), v.clone()) }), rest.clone().map(|(k, v)| ShapeRest::new(k, v)), if exact { ShapeExactness::Exact } else { ShapeExactness::Open }, ShapeStability::Frozen);
    let keys: BTreeSet<_> = fields.iter().map(|f| f.0.clone()).collect();
    let un = |t: &RubyType| any(t, &|x| *x == RubyType::Unknown);
    let deep = 1 + fields.iter().map(|f| depth(&f.1)).chain(rest.iter().flat_map(|(k, v)| [depth(k), depth(v)])).max().unwrap_or(0);
    let ok = fields.len() <= 32 && keys.len() == fields.len() && !fields.iter().any(|f| un(&f.1)) && !rest.as_ref().is_some_and(|(k, v)| un(k) || un(v)) && !(exact && rest.is_some()) && deep <= 8;
    let s = make(&fields);
    if s.is_ok() != ok { return Err(format!("built: {}, must be {ok}: {fields:?} {rest:?} exact {exact} depth {deep}", s.is_ok())) }
    let Ok(s) = s else { return Ok(()) };
    let mut w = fields.clone(); for i in (1..w.len()).rev() { let j = rng.below(i + 1); w.swap(i, j); }
    if make(&w).ok().as_ref() != Some(&s) { return Err(format!("another order of fields gives another shape: {fields:?}")) }
    if s.depth() != deep || s.fields().len() != fields.len() { return Err(format!("depth {} of {deep}", s.depth())) }
    for (k, v, r) in &fields { match s.field(k) { Some(f) if f.value() == v && f.is_required() == *r && (f.presence() == ShapeFieldPresence::Required) == *r => {} x => return Err(format!("field {k} is {x:?}")) } }
    for k in ["zz", ""] { if s.field(&LiteralKey::symbol(k)).is_some() { return Err(format!("field {k:?} was invented")) } }
    let t = RubyType::Shape(Box::new(s.clone()));
    if un(&t) || RubyType::contains_unknown(&t) { return Err("a shape over unknown evidence".into()) }
    if any(&t, &|x| matches!(x, RubyType::Array(v) if v.is_empty())) || any(&t, &|x| matches!(x, RubyType::Hash(k, v) if k.is_empty() || v.is_empty())) || any(&t, &|x| matches!(x, RubyType::Union(v) if v.is_empty())) { return Ok(()) }
    // the ordinary Hash view hides nothing
    let mut ks: Vec<_> = fields.iter().map(|f| match &f.0 { LiteralKey::Symbol(_) => RubyType::symbol(), LiteralKey::String(_) => RubyType::string() }).collect();
    let mut vs: Vec<_> = fields.iter().map(|f| f.1.widen_literals()).collect();
    match &rest { Some((k, v)) => { ks.push(k.widen_literals()); vs.push(v.widen_literals()) } None if !exact => { ks.push(RubyType::Unknown); vs.push(RubyType::Unknown) } None => {} }
    let one = |v: Vec<RubyType>| if v.len() == 1 && !matches!(v[0], RubyType::Union(_)) { v } else { parts(&canonical(v)) };
    is("generic_hash_type", &s.generic_hash_type(), &RubyType::Hash(one(ks), one(vs)))
}
fn main() {
    let mut run = Run::start();
    run.rule("seeded lists of canonical types (classes, modules, references, literals, collections, shapes, Unknown) joined in other orders, repetitions and groupings, compared with the set of their members; pairs for union_with, optional, make_nilable, remove_nil, subtract, common_supertype, subtyping against members, widening; any tree for the unknown detectors; structural types from seeded fields, over and within the limits");
    if MAX_SHAPE_UNION_VARIANTS != 8 || MAX_SHAPE_FIELDS != 32 || MAX_SHAPE_DEPTH != 8 { run.case("C09 documented limits", &0, true, || "limits".into(), || Err(format!("{MAX_SHAPE_UNION_VARIANTS} {MAX_SHAPE_FIELDS} {MAX_SHAPE_DEPTH}"))); }
    for _ in 0..run.scale(40_000, 600_000) {
        let k = if run.rng.chance(1, 4) { run.rng.range(7, 14) as usize } else { run.rng.below(6) };
        let many = run.rng.chance(1, 4);
        let v: Vec<RubyType> = (0..k).map(|_| { if run.rng.chance(1, 25) { RubyType::Unknown } else if many { shape(&mut run.rng, 1) } else if run.rng.chance(1, 4) { let n = run.rng.below(4); let u = canonical((0..n).map(|_| atom(&mut run.rng, 1, true)).collect()); u } else { atom(&mut run.rng, 2, true) } }).collect();
        let mut r = Rng::new(run.rng.next());
        run.case("C09 unions", &v, v.len() > 1, || format!("{v:?}"), || union_laws(&mut r, &v));
        let (a, b) = (canonical((0..run.rng.range(1, 4)).map(|_| atom(&mut run.rng, 2, true)).collect()), if run.rng.chance(1, 10) { RubyType::Unknown } else { canonical((0..run.rng.range(1, 4)).map(|_| atom(&mut run.rng, 2, true)).collect()) });
        let (a, b) = if run.rng.chance(1, 2) { (b, a) } else { (a, b) };
        run.case("C09 pairs", &(&a, &b), true, || format!("{a:?} and {b:?}"), || pair_laws(&a, &b));
        let t = wild(&mut run.rng, 4);
        run.case("C09 unknown is found", &t, true, || format!("{t:?}"), || unknown_found(&t));
        let seed = run.rng.next(); let mut r = Rng::new(seed);
        run.case("C09 structural types", &seed, true, || format!("seed {seed}"), || shape_laws(&mut r));
        if run.stop() { break; }
    }
    run.finish()
}
