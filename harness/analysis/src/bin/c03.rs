//! C03 on the compiled code: histories of add, replace-file and remove-file over every fact store,
//! compared after every step with a plain list of the facts that should be there.
use ruby_analysis::core::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use vcommon::{Rng, Run};

type R = Result<(), String>;
const FILES: u32 = 4;
const NAMES: u32 = 4;

fn bag<T: Debug>(v: impl IntoIterator<Item = T>) -> Vec<String> {
    let mut s: Vec<String> = v.into_iter().map(|x| format!("{x:?}")).collect();
    s.sort();
    s
}
fn same<T: Debug>(what: &str, got: impl IntoIterator<Item = T>, want: impl IntoIterator<Item = T>) -> R {
    let (g, w) = (bag(got), bag(want));
    if g == w { Ok(()) } else { Err(format!("{what}: got {g:?}, expected {w:?}")) }
}
fn eq<T: PartialEq + Debug>(what: &str, g: T, w: T) -> R {
    if g == w { Ok(()) } else { Err(format!("{what}: got {g:?}, expected {w:?}")) }
}
fn ordered<T: Debug, K: Ord>(what: &str, v: &[T], key: impl Fn(&T) -> K) -> R {
    if v.windows(2).all(|w| key(&w[0]) <= key(&w[1])) { Ok(()) } else { Err(format!("{what} is not in file and source order: {v:?}")) }
}
fn fid(rng: &mut Rng) -> SourceFileId { SourceFileId(rng.below(FILES as usize) as u32) }
fn name(rng: &mut Rng) -> FqnId { FqnId(rng.below(NAMES as usize) as u32) }
fn range(rng: &mut Rng, f: SourceFileId) -> TextRange {
    // mostly a handful of colliding places, now and then the far ends of the number range
    let a = match rng.below(40) { 0 => u32::MAX - 3, 1 => 0x8000_0000, 2 => 0x7fff_ffff, _ => rng.below(4) as u32 };
    TextRange::new(f, a, a + rng.below(3) as u32)
}
fn key4(r: TextRange) -> (SourceFileId, u32, u32) { (r.file_id, r.start_byte, r.end_byte) }
fn key3(r: TextRange) -> (u32, u32) { (r.start_byte, r.end_byte) }
fn files() -> impl Iterator<Item = SourceFileId> { (0..FILES + 1).map(SourceFileId) }
fn names() -> impl Iterator<Item = FqnId> { (0..NAMES + 1).map(FqnId) }

trait Store: Default {
    type Fact: Clone + Debug;
    const NAME: &'static str;
    fn gen(rng: &mut Rng, f: SourceFileId) -> Self::Fact;
    fn file(f: &Self::Fact) -> SourceFileId;
    fn add(&mut self, f: Self::Fact);
    const ADDS: bool;
    fn replace(&mut self, f: SourceFileId, v: Vec<Self::Fact>);
    /// false: no remove operation of its own
    fn remove(&mut self, f: SourceFileId) -> bool;
    fn check(&self, m: &[Self::Fact], only_replaced: bool) -> R;
    fn tidy(&mut self);
}
fn of<F: Clone>(m: &[F], p: impl Fn(&F) -> bool) -> Vec<F> { m.iter().filter(|f| p(f)).cloned().collect() }

impl Store for SymbolStore {
    type Fact = StoredSymbolFact;
    const NAME: &'static str = "SymbolStore";
    const ADDS: bool = true;
    fn gen(rng: &mut Rng, f: SourceFileId) -> StoredSymbolFact {
        let k = *rng.pick(&[SymbolKind::Class, SymbolKind::Module, SymbolKind::Constant]);
        StoredSymbolFact::new(name(rng), k, range(rng, f))
    }
    fn file(f: &StoredSymbolFact) -> SourceFileId { f.range.file_id }
    fn add(&mut self, f: StoredSymbolFact) { SymbolStore::add(self, f) }
    fn replace(&mut self, f: SourceFileId, v: Vec<StoredSymbolFact>) { self.replace_file(f, v) }
    fn remove(&mut self, f: SourceFileId) -> bool { self.remove_file(f); true }
    fn tidy(&mut self) { self.shrink_to_fit() }
    fn check(&self, m: &[StoredSymbolFact], _: bool) -> R {
        same("all_facts", self.all_facts(), m.to_vec())?;
        eq("fact_count", self.fact_count(), m.len())?;
        for n in names() {
            let g = self.facts_for(n);
            ordered("facts_for", &g, |f| (key4(f.range), f.kind))?;
            same("facts_for", g, of(m, |f| f.fqn == n))?;
        }
        for f in files() {
            let g = self.facts_in_file(f);
            ordered("facts_in_file", &g, |f| (key3(f.range), f.kind))?;
            same("facts_in_file", g, of(m, |x| x.range.file_id == f))?;
        }
        let want: BTreeSet<FqnId> = m.iter().filter(|f| f.kind != SymbolKind::Constant).map(|f| f.fqn).collect();
        eq("known_namespace_fqns", self.known_namespace_fqns().into_iter().collect::<BTreeSet<_>>(), want)
    }
}
fn meths() -> [RubyMethod; 3] { ["alpha", "alps", "beta"].map(|n| RubyMethod::new(n).unwrap()) }
impl Store for MethodStore {
    type Fact = StoredMethodFact;
    const NAME: &'static str = "MethodStore";
    const ADDS: bool = true;
    fn gen(rng: &mut Rng, f: SourceFileId) -> StoredMethodFact {
        let m = if rng.chance(1, 5) { None } else { Some(*rng.pick(&meths())) };
        let mut x = StoredMethodFact::new(name(rng), name(rng), m, range(rng, f));
        if rng.chance(1, 3) { x.documentation = Some(format!("d{}", rng.below(2))); }
        x
    }
    fn file(f: &StoredMethodFact) -> SourceFileId { f.range.file_id }
    fn add(&mut self, f: StoredMethodFact) { MethodStore::add(self, f) }
    fn replace(&mut self, f: SourceFileId, v: Vec<StoredMethodFact>) { self.replace_file(f, v) }
    fn remove(&mut self, f: SourceFileId) -> bool { self.remove_file(f); true }
    fn tidy(&mut self) { self.shrink_to_fit() }
    fn check(&self, m: &[StoredMethodFact], _: bool) -> R {
        same("all_facts", self.all_facts(), m.to_vec())?;
        eq("fact_count", self.fact_count(), m.len())?;
        for n in names() {
            let g = self.facts_for(n);
            ordered("facts_for", &g, |f| (key4(f.range), f.owner))?;
            same("facts_for", g, of(m, |f| f.fqn == n))?;
            for p in ["", "al", "alps", "b", "z"] {
                let g = self.facts_matching_owner(n, p);
                ordered("facts_matching_owner", &g, |f| (key4(f.range), f.fqn))?;
                same("facts_matching_owner", g, of(m, |f| f.owner == n && f.method.is_some_and(|x| x.as_str().starts_with(p))))?;
            }
            for x in meths() {
                let g = self.facts_matching_owner_name(n, &x);
                ordered("facts_matching_owner_name", &g, |f| (key4(f.range), f.fqn))?;
                same("facts_matching_owner_name", g, of(m, |f| f.owner == n && f.method == Some(x)))?;
            }
            let want: BTreeSet<&str> = m.iter().filter(|f| f.owner == n).filter_map(|f| f.method).map(|x| x.as_str()).collect();
            same("method_names_for_owner", self.method_names_for_owner(n), want)?;
        }
        for f in files() {
            let g = self.facts_in_file(f);
            ordered("facts_in_file", &g, |f| key3(f.range))?;
            same("facts_in_file", g, of(m, |x| x.range.file_id == f))?;
        }
        Ok(())
    }
}
fn sev(rng: &mut Rng) -> DiagnosticSeverity { *rng.pick(&[DiagnosticSeverity::Error, DiagnosticSeverity::Warning, DiagnosticSeverity::Information, DiagnosticSeverity::Hint]) }
fn sev_rank(s: DiagnosticSeverity) -> u8 {
    match s { DiagnosticSeverity::Error => 0, DiagnosticSeverity::Warning => 1, DiagnosticSeverity::Information => 2, DiagnosticSeverity::Hint => 3 }
}
impl Store for DiagnosticStore {
    type Fact = DiagnosticFact;
    const NAME: &'static str = "DiagnosticStore";
    const ADDS: bool = true;
    fn gen(rng: &mut Rng, f: SourceFileId) -> DiagnosticFact {
        DiagnosticFact { range: range(rng, f), severity: sev(rng), code: (*rng.pick(&["a", "b", ""])).into(), message: (*rng.pick(&["m", "n"])).into() }
    }
    fn file(f: &DiagnosticFact) -> SourceFileId { f.range.file_id }
    fn add(&mut self, f: DiagnosticFact) { DiagnosticStore::add(self, f) }
    fn replace(&mut self, f: SourceFileId, v: Vec<DiagnosticFact>) { self.replace_file(f, v) }
    fn remove(&mut self, f: SourceFileId) -> bool { self.remove_file(f); true }
    fn tidy(&mut self) { self.shrink_to_fit() }
    fn check(&self, m: &[DiagnosticFact], _: bool) -> R {
        same("all_facts", self.all_facts(), m.to_vec())?;
        eq("fact_count", self.fact_count(), m.len())?;
        same("file_ids", self.file_ids(), m.iter().map(|f| f.range.file_id).collect::<BTreeSet<_>>())?;
        for f in files() {
            let g = self.facts_in_file(f);
            ordered("facts_in_file", &g, |f| (key3(f.range), sev_rank(f.severity), f.code.clone(), f.message.clone()))?;
            eq("facts_for_file", bag(self.facts_for_file(f)), bag(&g))?;
            same("facts_in_file", g, of(m, |x| x.range.file_id == f))?;
        }
        Ok(())
    }
}
impl Store for DiagnosticCandidateStore {
    type Fact = DiagnosticCandidate;
    const NAME: &'static str = "DiagnosticCandidateStore";
    const ADDS: bool = false;
    fn gen(rng: &mut Rng, f: SourceFileId) -> DiagnosticCandidate {
        let k = if rng.chance(1, 2) {
            DiagnosticCandidateKind::RaiseNonException { arg_repr: format!("{}", rng.below(3)), arg: if rng.chance(1, 2) { RaiseArgCandidate::StringLiteral } else { RaiseArgCandidate::Unknown } }
        } else {
            DiagnosticCandidateKind::BadSplat { operator: "*".into(), arg_repr: format!("{}", rng.below(3)), expected: "e".into() }
        };
        DiagnosticCandidate::new(range(rng, f), k)
    }
    fn file(f: &DiagnosticCandidate) -> SourceFileId { f.range.file_id }
    fn add(&mut self, _: DiagnosticCandidate) {}
    fn replace(&mut self, f: SourceFileId, v: Vec<DiagnosticCandidate>) { self.replace_file(f, v) }
    fn remove(&mut self, _: SourceFileId) -> bool { false }
    fn tidy(&mut self) { self.shrink_to_fit() }
    fn check(&self, m: &[DiagnosticCandidate], _: bool) -> R {
        same("all_candidates", self.all_candidates(), m.to_vec())?;
        same("iter_candidates", self.iter_candidates().cloned(), m.to_vec())?;
        eq("candidate_count", self.candidate_count(), m.len())?;
        same("file_ids", self.file_ids(), m.iter().map(|f| f.range.file_id).collect::<BTreeSet<_>>())?;
        for f in files() {
            let g = self.candidates_in_file(f);
            ordered("candidates_in_file", &g, |f| (key3(f.range), matches!(f.kind, DiagnosticCandidateKind::BadSplat { .. })))?;
            same("candidates_in_file", g, of(m, |x| x.range.file_id == f))?;
        }
        Ok(())
    }
}
impl Store for ReferenceStore {
    type Fact = (FqnId, ReferenceFact);
    const NAME: &'static str = "ReferenceStore";
    const ADDS: bool = true;
    fn gen(rng: &mut Rng, f: SourceFileId) -> Self::Fact {
        let caller = if rng.chance(1, 3) { None } else { Some(name(rng)) };
        (name(rng), ReferenceFact::method(range(rng, f), caller, *rng.pick(&[MethodReferenceAccess::Normal, MethodReferenceAccess::ExplicitReceiver])))
    }
    fn file(f: &Self::Fact) -> SourceFileId { f.1.range.file_id }
    fn add(&mut self, f: Self::Fact) { self.add_sorted(f.0, f.1) }
    fn replace(&mut self, f: SourceFileId, v: Vec<Self::Fact>) { self.replace_file(f, v) }
    fn remove(&mut self, f: SourceFileId) -> bool { self.remove_file(f); true }
    fn tidy(&mut self) { self.shrink_to_fit() }
    fn check(&self, m: &[Self::Fact], _: bool) -> R {
        same("all_facts", self.all_facts(), m.iter().map(|f| f.1.clone()))?;
        same("iter_facts_with_targets", self.iter_facts_with_targets().map(|(t, f)| (t, f.clone())), m.to_vec())?;
        eq("fact_count", self.fact_count(), m.len())?;
        for n in names() {
            let g = self.facts_for(n).to_vec();
            ordered("facts_for", &g, |f| key4(f.range))?;
            same("facts_for", g, of(m, |f| f.0 == n).into_iter().map(|f| f.1))?;
            same("facts_for_caller", self.facts_for_caller(n), of(m, |f| f.1.caller == Some(n)).into_iter().map(|f| f.1))?;
        }
        for f in files() {
            same("facts_in_file", self.facts_in_file(f), of(m, |x| x.1.range.file_id == f).into_iter().map(|f| f.1))?;
            for a in 0..4 {
                for b in a..a + 3 {
                    let r = TextRange::new(f, a, b);
                    same("targets_for_exact_range", self.targets_for_exact_range(r), m.iter().filter(|x| x.1.range == r).map(|x| x.0).collect::<BTreeSet<_>>())?;
                }
            }
        }
        Ok(())
    }
}
impl Store for ReferenceCandidateStore {
    type Fact = StoredReferenceCandidate;
    const NAME: &'static str = "ReferenceCandidateStore";
    const ADDS: bool = false;
    fn gen(rng: &mut Rng, f: SourceFileId) -> Self::Fact {
        let r = range(rng, f);
        let l = ConstLookupId(rng.below(3) as u32);
        match rng.below(3) {
            0 => StoredReferenceCandidate::constant(r, l),
            1 => StoredReferenceCandidate::resolved(r, name(rng), if rng.chance(1, 2) { Some(name(rng)) } else { None }),
            _ => StoredReferenceCandidate::method(
                r, l, NamespaceKind::Instance, *rng.pick(&meths()), rng.chance(1, 2), MethodReferenceAccess::Normal,
                if rng.chance(1, 2) { Some(name(rng)) } else { None }, None, if rng.chance(1, 3) { Some(range(rng, f)) } else { None }, None,
            ),
        }
    }
    fn file(f: &Self::Fact) -> SourceFileId { f.range.file_id }
    fn add(&mut self, _: Self::Fact) {}
    fn replace(&mut self, f: SourceFileId, v: Vec<Self::Fact>) { self.replace_file(f, v) }
    fn remove(&mut self, _: SourceFileId) -> bool { false }
    fn tidy(&mut self) { self.shrink_to_fit() }
    fn check(&self, m: &[Self::Fact], _: bool) -> R {
        same("all_candidates", self.all_candidates(), m.to_vec())?;
        same("iter_candidates", self.iter_candidates().map(|c| c.range()), m.iter().map(|c| c.range))?;
        eq("candidate_count", self.candidate_count(), m.len())?;
        let kinds = |p: fn(&StoredReferenceCandidateKind) -> bool| m.iter().filter(|c| p(&c.kind)).count();
        let s = self.stats();
        eq("stats", (s.constants, s.methods, s.resolved), (
            kinds(|k| matches!(k, StoredReferenceCandidateKind::Constant { .. })),
            kinds(|k| matches!(k, StoredReferenceCandidateKind::Method { .. })),
            kinds(|k| matches!(k, StoredReferenceCandidateKind::Resolved { .. })),
        ))?;
        eq("file_ids", self.file_ids(), m.iter().map(|f| f.range.file_id).collect::<BTreeSet<_>>().into_iter().collect())?;
        for f in files() {
            let g = self.candidates_in_file(f);
            ordered("candidates_in_file", &g, |f| key3(f.range))?;
            same("candidates_in_file", g, of(m, |x| x.range.file_id == f))?;
        }
        for x in meths() {
            same("method_candidates_named", self.method_candidates_named(x).map(|c| c.range),
                m.iter().filter(|c| matches!(&c.kind, StoredReferenceCandidateKind::Method { method, .. } if *method == x)).map(|c| c.range))?;
        }
        Ok(())
    }
}
fn fq(n: u32) -> FullyQualifiedName { FullyQualifiedName::try_from(["A", "B", "C", "D", "E"][n as usize]).unwrap() }
fn subjects() -> Vec<TypeSubject> {
    let mut v = vec![
        TypeSubject::Local { scope_id: 0, name: "x".into() },
        TypeSubject::Local { scope_id: 1, name: "x".into() },
        TypeSubject::InstanceVariable { owner: fq(0), name: "@x".into() },
        TypeSubject::ClassVariable { owner: fq(0), name: "@@x".into() },
        TypeSubject::GlobalVariable("$x".into()),
        TypeSubject::MethodReturn(fq(0)),
        TypeSubject::MethodReturn(fq(1)),
        TypeSubject::Parameter { method: fq(0), name: "x".into() },
        TypeSubject::Constant(fq(0)),
    ];
    for f in 0..FILES {
        for a in 0..4 {
            for b in a..a + 3 {
                v.push(TypeSubject::Expression(TextRange::new(SourceFileId(f), a, b)));
            }
        }
    }
    v
}
impl Store for TypeStore {
    type Fact = TypeFact;
    const NAME: &'static str = "TypeStore";
    const ADDS: bool = true;
    fn gen(rng: &mut Rng, f: SourceFileId) -> TypeFact {
        let r = range(rng, f);
        let s = if rng.chance(1, 3) { TypeSubject::Expression(r) } else { subjects()[rng.below(9)].clone() };
        let t = match rng.below(4) { 0 => RubyType::Unknown, 1 => RubyType::string(), 2 => RubyType::integer(), _ => RubyType::Array(vec![RubyType::string()]) };
        TypeFact::new(s, t, r, *rng.pick(&[TypeProvenance::Literal, TypeProvenance::Inferred, TypeProvenance::Yard]))
    }
    fn file(f: &TypeFact) -> SourceFileId { f.range.file_id }
    fn add(&mut self, f: TypeFact) { TypeStore::add(self, f) }
    fn replace(&mut self, f: SourceFileId, v: Vec<TypeFact>) { self.replace_file(f, v) }
    fn remove(&mut self, f: SourceFileId) -> bool { self.remove_file(f); true }
    fn tidy(&mut self) { self.shrink_to_fit() }
    fn check(&self, m: &[TypeFact], only_replaced: bool) -> R {
        same("all_facts", self.all_facts(), m.to_vec())?;
        eq("fact_count", self.fact_count(), m.len())?;
        for f in files() {
            let g = self.facts_in_file(f);
            if only_replaced { ordered("facts_in_file", &g, |f| key3(f.range))?; }
            same("facts_in_file", g, of(m, |x| x.range.file_id == f))?;
        }
        same("method_return_types", self.method_return_types().map(|(n, t)| (n.clone(), t.clone())),
            m.iter().filter_map(|f| match &f.subject { TypeSubject::MethodReturn(n) => Some((n.clone(), f.ruby_type.clone())), _ => None }))?;
        same("known_method_return_types", self.known_method_return_types().map(|(n, t)| (n.clone(), t.clone())),
            m.iter().filter(|f| f.ruby_type != RubyType::Unknown).filter_map(|f| match &f.subject { TypeSubject::MethodReturn(n) => Some((n.clone(), f.ruby_type.clone())), _ => None }))?;
        for s in subjects() {
            let want = of(m, |f| f.subject == s);
            let g = self.facts_for(&s);
            if only_replaced { ordered("facts_for", &g, |f| key4(f.range))?; }
            same("facts_for", g, want.clone())?;
            match self.latest_non_unknown_type_with_range(&s) {
                None => eq("latest_non_unknown_type_with_range is none", want.iter().all(|f| f.ruby_type == RubyType::Unknown), true)?,
                Some((t, r)) => {
                    let known: Vec<_> = want.iter().filter(|f| f.ruby_type != RubyType::Unknown).collect();
                    eq("latest_non_unknown_type_with_range", known.iter().any(|f| f.range == r && f.ruby_type == *t) && known.iter().all(|f| key4(f.range) <= key4(r)), true)?
                }
            }
            for f in files() {
                for o in [0, 2, 9] {
                    let here: Vec<_> = want.iter().filter(|x| x.range.file_id == f && x.range.start_byte <= o).collect();
                    let last = here.iter().map(|x| x.range.start_byte).max();
                    let w: BTreeSet<String> = here.iter().filter(|x| Some(x.range.start_byte) == last).map(|x| format!("{:?} {:?}", x.ruby_type, x.provenance)).collect();
                    let g: BTreeSet<String> = match self.type_at(&s, f, o) {
                        TypeResolution::Unresolved => BTreeSet::new(),
                        TypeResolution::Resolved(x) => [format!("{:?} {:?}", x.ruby_type, x.provenance)].into(),
                        TypeResolution::Ambiguous(v) => {
                            if v.len() < 2 { return Err("type_at is ambiguous with fewer than two".into()); }
                            v.iter().map(|x| format!("{:?} {:?}", x.ruby_type, x.provenance)).collect()
                        }
                    };
                    eq("type_at", g, w)?;
                }
            }
        }
        Ok(())
    }
}
#[derive(Clone, Debug)]
enum G { Node(StoredGraphNodeFact), Edge(StoredGraphEdgeFact), Open(StoredUnresolvedGraphEdgeFact) }
fn kind(rng: &mut Rng) -> GraphEdgeKind { *rng.pick(&[GraphEdgeKind::Superclass, GraphEdgeKind::Superclass, GraphEdgeKind::Include, GraphEdgeKind::Prepend, GraphEdgeKind::Extend, GraphEdgeKind::ExecutionContextApplication]) }
fn prov(rng: &mut Rng) -> GraphEdgeProvenance { *rng.pick(&[GraphEdgeProvenance::Explicit, GraphEdgeProvenance::Explicit, GraphEdgeProvenance::ImplicitObject]) }
impl Store for SemanticGraph {
    type Fact = G;
    const NAME: &'static str = "SemanticGraph";
    const ADDS: bool = true;
    fn gen(rng: &mut Rng, f: SourceFileId) -> G {
        let r = range(rng, f);
        match rng.below(4) {
            0 => G::Node(StoredGraphNodeFact::new(name(rng), *rng.pick(&[GraphNodeKind::Class, GraphNodeKind::Module]), r)),
            1 => G::Open(StoredUnresolvedGraphEdgeFact::new(name(rng), ConstLookupId(rng.below(3) as u32), kind(rng), r).with_provenance(prov(rng))),
            _ => G::Edge(StoredGraphEdgeFact::new(name(rng), name(rng), kind(rng), r).with_provenance(prov(rng))),
        }
    }
    fn file(f: &G) -> SourceFileId { match f { G::Node(x) => x.range.file_id, G::Edge(x) => x.range.file_id, G::Open(x) => x.range.file_id } }
    fn add(&mut self, f: G) { match f { G::Node(x) => self.add_node(x), G::Edge(x) => self.add_edge(x), G::Open(x) => self.add_unresolved_edge(x) } }
    fn replace(&mut self, f: SourceFileId, v: Vec<G>) {
        let (mut n, mut e, mut u) = (vec![], vec![], vec![]);
        for x in v { match x { G::Node(x) => n.push(x), G::Edge(x) => e.push(x), G::Open(x) => u.push(x) } }
        self.replace_file(f, n, e, u)
    }
    fn remove(&mut self, f: SourceFileId) -> bool { self.remove_file(f); true }
    fn tidy(&mut self) {
        self.shrink_to_fit();
        // unresolved edges are taken out to be resolved and those that stay unresolved put back
        for e in self.take_unresolved_edges() { self.add_unresolved_edge(e); }
    }
    fn check(&self, m: &[G], _: bool) -> R {
        let n: Vec<_> = m.iter().filter_map(|x| if let G::Node(x) = x { Some(*x) } else { None }).collect();
        let e: Vec<_> = m.iter().filter_map(|x| if let G::Edge(x) = x { Some(*x) } else { None }).collect();
        let u: Vec<_> = m.iter().filter_map(|x| if let G::Open(x) = x { Some(*x) } else { None }).collect();
        same("all_nodes", self.all_nodes(), n.clone())?;
        same("all_edges", self.all_edges(), e.clone())?;
        same("unresolved_edges", self.unresolved_edges(), u.clone())?;
        eq("counts", (self.node_count(), self.edge_count()), (n.len(), e.len()))?;
        for f in files() {
            same("nodes_in_file", self.nodes_in_file(f), of(&n, |x| x.range.file_id == f))?;
            same("edges_in_file", self.edges_in_file(f), of(&e, |x| x.range.file_id == f))?;
            same("unresolved_edges_in_file", self.unresolved_edges_in_file(f), of(&u, |x| x.range.file_id == f))?;
        }
        for k in names() {
            let g = self.nodes_for(k);
            ordered("nodes_for", &g, |x| key4(x.range))?;
            same("nodes_for", g, of(&n, |x| x.fqn == k))?;
            let from = self.edges_from(k);
            ordered("edges_from", &from, |x| (key4(x.range), x.kind, x.provenance, x.target))?;
            same("edges_from", from, of(&e, |x| x.source == k))?;
            let to = self.edges_to(k);
            ordered("edges_to", &to, |x| (x.source, key4(x.range), x.kind))?;
            same("edges_to", to, of(&e, |x| x.target == k))?;
            eq("has_unresolved_explicit_superclass", self.has_unresolved_explicit_superclass(k),
                u.iter().any(|x| x.source == k && x.kind == GraphEdgeKind::Superclass && x.provenance == GraphEdgeProvenance::Explicit))?;
            let sup = of(&e, |x| x.source == k && x.kind == GraphEdgeKind::Superclass);
            let explicit = sup.iter().any(|x| x.provenance == GraphEdgeProvenance::Explicit);
            let sup = of(&sup, |x| !explicit || x.provenance == GraphEdgeProvenance::Explicit);
            let targets: BTreeSet<FqnId> = sup.iter().map(|x| x.target).collect();
            match (self.superclass_resolution(k), targets.len()) {
                (StoredSuperclassResolution::Missing, 0) => {}
                (StoredSuperclassResolution::Unique(x), 1) => {
                    if !bag(&sup).contains(&format!("{x:?}")) || sup.iter().any(|y| key4(y.range) < key4(x.range)) { return Err(format!("superclass_resolution of {k:?}: {x:?} is not the first of {sup:?}")); }
                }
                (StoredSuperclassResolution::Ambiguous, n) if n > 1 => {}
                (got, _) => return Err(format!("superclass_resolution of {k:?}: {got:?} for {sup:?}")),
            }
        }
        Ok(())
    }
}
#[derive(Clone, Debug)]
enum Op<F> { Add(F), Replace(SourceFileId, Vec<F>), Remove(SourceFileId), Tidy }
/// the facts of every file, in the order they were given
fn play<S: Store>(ops: &[Op<S::Fact>]) -> R {
    let mut s = S::default();
    let mut m: BTreeMap<SourceFileId, Vec<S::Fact>> = BTreeMap::new();
    let mut added = false;
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Add(f) => { s.add(f.clone()); m.entry(S::file(f)).or_default().push(f.clone()); added = true; }
            Op::Replace(f, v) => { s.replace(*f, v.clone()); m.insert(*f, v.clone()); }
            Op::Remove(f) => if s.remove(*f) { m.remove(f); },
            Op::Tidy => s.tidy(),
        }
        let all: Vec<S::Fact> = m.values().flatten().cloned().collect();
        s.check(&all, !added).map_err(|e| format!("after step {}: {e}", i + 1))?;
    }
    // the same files indexed in the opposite order hold the same
    let mut t = S::default();
    for (f, v) in m.iter().rev() { t.replace(*f, v.clone()); }
    let all: Vec<S::Fact> = m.values().flatten().cloned().collect();
    t.check(&all, true).map_err(|e| format!("fresh store: {e}"))
}
fn histories<S: Store>(run: &mut Run, n: usize) {
    for k in 0..n {
        let len = if k % 3 == 0 { run.rng.range(1, 5) } else { run.rng.range(4, 24) };
        let adds = S::ADDS && !run.rng.chance(1, 3);
        let mut ops = vec![];
        for _ in 0..len {
            let f = fid(&mut run.rng);
            ops.push(match run.rng.below(10) {
                0..=3 if adds => Op::Add(S::gen(&mut run.rng, f)),
                0..=6 => {
                    let n = if run.rng.chance(1, 5) { 0 } else if run.rng.chance(1, 60) { run.rng.range(20, 90) } else { run.rng.below(7) };
                    Op::Replace(f, (0..n).map(|_| S::gen(&mut run.rng, f)).collect())
                }
                7 | 8 => Op::Remove(f),
                _ => Op::Tidy,
            });
        }
        let key = format!("{ops:?}");
        run.case(&format!("C03 {}", S::NAME), &key, ops.len() > 1, || format!("{} history {ops:?}", S::NAME), || play::<S>(&ops));
        if run.stop() { return; }
    }
}
fn main() {
    let mut run = Run::start();
    run.rule("seeded histories of add, replace-file, remove-file and shrink over 4 files, 4 names and short overlapping ranges (ties and slot reuse forced), up to 24 steps, for SymbolStore, MethodStore, DiagnosticStore, DiagnosticCandidateStore, ReferenceStore, ReferenceCandidateStore, TypeStore and SemanticGraph; after every step every public lookup is compared with the plain list of facts, and at the end with a store filled in the opposite file order");
    let n = run.scale(4000, 60000);
    histories::<SymbolStore>(&mut run, n);
    histories::<MethodStore>(&mut run, n);
    histories::<DiagnosticStore>(&mut run, n);
    histories::<DiagnosticCandidateStore>(&mut run, n);
    histories::<ReferenceStore>(&mut run, n);
    histories::<ReferenceCandidateStore>(&mut run, n);
    histories::<SemanticGraph>(&mut run, n);
    histories::<TypeStore>(&mut run, n / 4);
    run.finish()
}
