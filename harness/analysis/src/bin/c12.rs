//! C12 on the compiled code: file identities over path spellings, and engine histories of registering,
//! snapshotting, conditionally re-registering and committing facts, against a plain model.
use ruby_analysis::core::*;
use ruby_analysis::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use vcommon::{catches, Rng, Run};

type R = Result<(), String>;
/// What a path names: absolute or not, then its parts (`.` and doubled or trailing separators name nothing,
/// except a leading `.`); written from the POSIX rules, not from the code.
fn parts(p: &[u8]) -> (bool, Vec<Vec<u8>>) {
    let abs = p.first() == Some(&b'/');
    let mut v = vec![];
    for (i, s) in p.split(|b| *b == b'/').enumerate() {
        if s.is_empty() || (s == b"." && (abs || i > 0)) { continue; }
        v.push(s.to_vec());
    }
    (abs, v)
}
fn path(b: &[u8]) -> PathBuf { PathBuf::from(OsString::from_vec(b.to_vec())) }
fn spelling(rng: &mut Rng) -> Vec<u8> {
    const SEG: [&[u8]; 16] = [b"a", b"A", b"b", b"a.rb", b"a.RB", b"..", b".", b"", b" a", b"a ", "\u{e9}".as_bytes(), "e\u{301}".as_bytes(), b"\xff", b"a%20b", b"a b", b"a\\b"];
    let mut p = vec![];
    if rng.chance(1, 2) { p.push(b'/'); if rng.chance(1, 6) { p.push(b'/'); } }
    for k in 0..rng.below(4) {
        if k > 0 { p.push(b'/'); if rng.chance(1, 8) { p.push(b'/'); } }
        p.extend_from_slice(SEG[if rng.chance(1, 2) { rng.below(4) } else { rng.below(16) }]);
    }
    if rng.chance(1, 6) { p.push(b'/'); }
    p
}
fn show(p: &[u8]) -> String { String::from_utf8_lossy(p).into_owned() }

fn spellings(list: &[Vec<u8>]) -> R {
    let mut ids = FileIdMap::new();
    let mut known: BTreeMap<(bool, Vec<Vec<u8>>), SourceFileId> = BTreeMap::new();
    let mut used = BTreeMap::new();
    for p in list {
        let key = parts(p);
        let before = ids.get(path(p));
        if before != known.get(&key).copied() { return Err(format!("get({:?}) gave {before:?}, expected {:?}", show(p), known.get(&key))); }
        let id = ids.get_or_insert(path(p));
        match known.get(&key) {
            Some(k) if *k != id => return Err(format!("{:?} had identity {k:?} and now has {id:?}", show(p))),
            Some(_) => {}
            None => {
                if let Some(o) = used.insert(id, key.clone()) { return Err(format!("{:?} shares identity {id:?} with {o:?}", show(p))); }
                known.insert(key.clone(), id);
            }
        }
        if ids.len() != known.len() || ids.is_empty() { return Err(format!("len {} after {} paths", ids.len(), known.len())); }
        if list.len() < 100 { check(&ids, &known)?; if ids.len() % 3 == 0 { ids.shrink_to_fit(); } }
    }
    check(&ids, &known)?;
    check(&ids.clone(), &known)
}
fn check(ids: &FileIdMap, known: &BTreeMap<(bool, Vec<Vec<u8>>), SourceFileId>) -> R {
    use std::os::unix::ffi::OsStrExt;
    for (k, i) in known {
        let Some(p) = ids.path(*i) else { return Err(format!("identity {i:?} has no path")) };
        let got = parts(p.as_os_str().as_bytes());
        if got != *k { return Err(format!("identity {i:?} was made for {k:?} and answers {got:?}")); }
        if ids.get(p) != Some(*i) { return Err(format!("{p:?} does not lead back to {i:?}")); }
    }
    Ok(())
}

#[derive(Debug, Clone, Hash)]
enum Op { Register(usize, usize, usize, usize), Snapshot(usize), RegisterIf(usize, usize, usize, usize), Commit(usize, Vec<usize>), CommitThrough(usize, Vec<usize>), Clone, Swap }
const PATHS: [&str; 6] = ["/w/a.rb", "/w//a.rb", "/w/./b.rb", "/w/b.rb", "/w/A.rb", "/w/c.rb/"];
const TEXTS: [&str; 6] = ["", "x = 1\n", "x = 2\n", "x = 1\r\n", "s = \"é\"\n", "s = \"è\"\n"];
const KINDS: [SourceKind; 3] = [SourceKind::Project, SourceKind::Excluded, SourceKind::Gem];
fn fqns() -> Vec<FullyQualifiedName> {
    let c = |s: &str| RubyConstant::new(s).unwrap();
    let m = |s: &str| RubyMethod::new(s).unwrap();
    vec![
        FullyQualifiedName::namespace(vec![c("A")]), FullyQualifiedName::singleton_namespace(vec![c("A")]), FullyQualifiedName::constant(vec![c("A")]),
        FullyQualifiedName::namespace(vec![c("A"), c("B")]), FullyQualifiedName::namespace(vec![c("B")]), FullyQualifiedName::method(vec![c("A")], m("b")),
        FullyQualifiedName::method(vec![c("A")], m("b?")), FullyQualifiedName::method(vec![c("A"), c("B")], m("b")), FullyQualifiedName::local_variable("b".into()).unwrap(),
        FullyQualifiedName::instance_variable("@b".into()).unwrap(), FullyQualifiedName::class_variable("@@b".into()).unwrap(), FullyQualifiedName::global_variable("$b".into()).unwrap(),
    ]
}
#[derive(Clone, PartialEq, Debug)]
struct Text { id: SourceFileId, text: usize, kind: usize, pkg: usize, rev: u64 }
type Commits = BTreeMap<SourceFileId, Vec<(usize, u32)>>;
struct World { e: AnalysisEngine, tag: usize, files: BTreeMap<(bool, Vec<Vec<u8>>), Text>, facts: Commits }
struct Snap { s: SourceFileSnapshot, tag: usize, path: usize, rev: u64 }
fn key(p: usize) -> (bool, Vec<Vec<u8>>) { parts(PATHS[p].as_bytes()) }

/// the package a gem file was registered under: none, version 1, version 2
fn package(n: usize) -> Option<LibraryPackageId> { match n { 1 => Some(LibraryPackageId::new("g", "1")), 2 => Some(LibraryPackageId::new("g", "2")), _ => None } }
fn register(w: &mut World, clock: &mut u64, p: usize, t: usize, k: usize, id: SourceFileId, gem: usize) -> R {
    if let Some(f) = w.files.iter().find(|(o, f)| **o != key(p) && f.id == id) { return Err(format!("{} shares identity {id:?} with {:?}", PATHS[p], f.0)); }
    let e = w.files.entry(key(p)).or_insert(Text { id, text: usize::MAX, kind: 0, pkg: 0, rev: 0 });
    if e.id != id { return Err(format!("{} had identity {:?} and now has {id:?}", PATHS[p], e.id)); }
    if (e.text, e.kind, e.pkg) != (t, k, gem) { *clock += 1; e.text = t; e.kind = k; e.pkg = gem; e.rev = *clock; }
    Ok(())
}
fn facts(id: SourceFileId, ns: &[usize], at: u32) -> FileFacts {
    let all = fqns();
    let mut f = FileFacts::default();
    for (i, n) in ns.iter().enumerate() { f.symbols.push(SymbolFact::new(all[*n].clone(), SymbolKind::Constant, TextRange::new(id, at + i as u32, at + i as u32 + 1))); }
    f
}
fn audit(w: &World, snaps: &[Snap]) -> R {
    for p in 0..PATHS.len() {
        let m = w.files.get(&key(p));
        let id = w.e.file_id(PATHS[p]);
        if id != m.map(|m| m.id) { return Err(format!("file_id({}) = {id:?}, expected {:?}", PATHS[p], m.map(|m| m.id))); }
        let now = w.e.source_snapshot_for_path(PATHS[p]);
        if now.is_some() != m.is_some() { return Err(format!("snapshot of {}: {now:?}", PATHS[p])); }
        for s in snaps {
            let same = s.tag == w.tag && key(s.path) == key(p) && m.map(|m| m.rev) == Some(s.rev);
            if (now == Some(s.s)) != same { return Err(format!("snapshot of {} {} one taken of {} when its text was {}", PATHS[p], if same { "differs from" } else { "equals" }, PATHS[s.path], if same { "the same" } else { "another" })); }
        }
        if let Some(m) = m {
            let Some(f) = w.e.file(m.id) else { return Err(format!("{:?} has no file", m.id)) };
            if parts(f.path.to_str().unwrap().as_bytes()) != key(p) || f.id != m.id || f.kind != KINDS[m.kind] || f.library_package != package(m.pkg) { return Err(format!("record of {} is {f:?}, expected {m:?}", PATHS[p])); }
            for (i, t) in TEXTS.iter().enumerate() { if w.e.file_content_matches(m.id, t) != (i == m.text) { return Err(format!("file_content_matches({}, {t:?}) is {}", PATHS[p], i != m.text)); } }
        }
    }
    for (n, fqn) in fqns().iter().enumerate() {
        let mut want: Vec<(u32, u32)> = w.facts.iter().flat_map(|(f, v)| v.iter().filter(|x| x.0 == n).map(|x| (f.0, x.1))).collect();
        let mut got: Vec<(u32, u32)> = vec![];
        for s in w.e.symbol_facts_for(fqn) {
            if s.fqn != *fqn || format!("{:?}", s.fqn) != format!("{fqn:?}") { return Err(format!("asked for {fqn:?}, got {:?}", s.fqn)); }
            got.push((s.range.file_id.0, s.range.start_byte));
        }
        want.sort(); got.sort();
        if want != got { return Err(format!("facts of {fqn:?}: {got:?}, expected {want:?}")); }
    }
    Ok(())
}
fn play(ops: &[Op]) -> R {
    let mut clock = 0;
    let mut tags = 1;
    let mut at = 0u32;
    let mut snaps: Vec<Snap> = vec![];
    let mut cur = World { e: AnalysisEngine::new(), tag: 0, files: BTreeMap::new(), facts: BTreeMap::new() };
    let mut other: Option<World> = None;
    for op in ops {
        match op {
            Op::Register(p, t, k, how) => {
                let gem = if *k == 2 { *how } else { 0 };
                let input = SourceFileInput { path: PATHS[*p].into(), content: TEXTS[*t].into(), kind: KINDS[*k] };
                let id = if let Some(g) = package(gem) { cur.e.register_gem_file(input, g) } else if *how == 1 { cur.e.register_file(input) } else { cur.e.register_file_borrowed(PATHS[*p].into(), TEXTS[*t], KINDS[*k]) };
                register(&mut cur, &mut clock, *p, *t, *k, id, gem)?;
            }
            Op::Snapshot(p) => if let Some(s) = cur.e.source_snapshot_for_path(PATHS[*p]) {
                let rev = cur.files.get(&key(*p)).map(|f| f.rev).ok_or(format!("snapshot of the unknown {}", PATHS[*p]))?;
                snaps.push(Snap { s, tag: cur.tag, path: *p, rev });
            },
            Op::RegisterIf(p, t, k, n) => {
                let want = if *n < snaps.len() { Some(n) } else { None };
                let expected = want.map(|n| snaps[*n].s);
                if want.is_some_and(|n| snaps[*n].tag != cur.tag) {
                    if catches(|| cur.e.register_file_borrowed_if_snapshot(PATHS[*p].into(), TEXTS[*t], KINDS[*k], expected)).is_ok() { return Err("a registration with another engine's snapshot went through".into()); }
                } else {
                    let m = cur.files.get(&key(*p)).map(|f| f.rev);
                    let ok = match want { None => m.is_none(), Some(n) => m == Some(snaps[*n].rev) && key(snaps[*n].path) == key(*p) };
                    let r = cur.e.register_file_borrowed_if_snapshot(PATHS[*p].into(), TEXTS[*t], KINDS[*k], expected);
                    if r.is_some() != ok { return Err(format!("conditional registration of {} {} although the text was {} the one expected", PATHS[*p], if ok { "refused" } else { "accepted" }, if ok { "" } else { "not" })); }
                    if let Some(s) = r {
                        let id = cur.e.file_id(PATHS[*p]).ok_or("lost")?;
                        register(&mut cur, &mut clock, *p, *t, *k, id, 0)?;
                        if cur.e.source_snapshot_for_path(PATHS[*p]) != Some(s) { return Err("a conditional registration returned a snapshot that is not the current one".into()); }
                        snaps.push(Snap { s, tag: cur.tag, path: *p, rev: cur.files[&key(*p)].rev });
                    }
                }
            }
            Op::Commit(n, ns) => if let Some(s) = snaps.get(*n) {
                at += 50;
                if s.tag != cur.tag {
                    if catches(|| cur.e.replace_facts_if_source_snapshot(s.s, FileFacts::default(), ResolveMode::Deferred)).is_ok() { return Err("facts collected from another engine's source were committed".into()); }
                } else {
                    let f = cur.files[&key(s.path)].clone();
                    let r = cur.e.replace_facts_if_source_snapshot(s.s, facts(f.id, ns, at), if at % 100 == 0 { ResolveMode::Immediate } else { ResolveMode::Deferred });
                    if r.is_some() != (f.rev == s.rev) { return Err(format!("facts collected from {} text of {} were {}", if f.rev == s.rev { "the current" } else { "an outdated" }, PATHS[s.path], if r.is_some() { "committed" } else { "refused" })); }
                    if r.is_some() { cur.facts.insert(f.id, ns.iter().enumerate().map(|(i, n)| (*n, at + i as u32)).collect()); }
                }
            },
            Op::CommitThrough(p, ns) => if let Some(f) = cur.files.get(&key(*p)).cloned() {
                at += 50;
                cur.e.replace_facts(f.id, facts(f.id, ns, at), ResolveMode::Deferred);
                cur.facts.insert(f.id, ns.iter().enumerate().map(|(i, n)| (*n, at + i as u32)).collect());
            },
            Op::Clone => { other = Some(World { e: cur.e.clone(), tag: tags, files: cur.files.clone(), facts: cur.facts.clone() }); tags += 1; }
            Op::Swap => if let Some(o) = other.as_mut() { std::mem::swap(o, &mut cur); },
        }
        audit(&cur, &snaps)?;
        if let Some(o) = &other { audit(o, &snaps)?; }
    }
    Ok(())
}
fn names(rng: &mut Rng) -> Vec<usize> { (0..rng.below(4)).map(|_| rng.below(12)).collect() }
fn main() {
    let mut run = Run::start();
    run.rule("file identities: seeded lists of up to 24 path spellings (case, spaces, dots, doubled and trailing separators, composed and decomposed accents, bytes outside UTF-8) and one list of 70,000 paths, against POSIX path parts; engine: seeded histories of up to 16 registrations, snapshots, conditional registrations, fact commits and engine clones over 6 spellings of 4 files, 6 texts, 3 kinds and 12 kinds of name, every public answer compared with the model after every step");
    let big: Vec<Vec<u8>> = (0..70_000).map(|i| format!("/big/{}/{}.rb", i % 300, i).into_bytes()).collect();
    run.case("C12 identities", &0, true, || "70,000 paths".into(), || spellings(&big));
    for _ in 0..run.scale(12_000, 200_000) {
        let n = run.rng.range(2, 24);
        let list: Vec<Vec<u8>> = (0..n).map(|_| spelling(&mut run.rng)).collect();
        run.case("C12 identities", &list, true, || format!("{:?}", list.iter().map(|p| show(p)).collect::<Vec<_>>()), || spellings(&list));
        if run.stop() { break; }
    }
    for _ in 0..run.scale(8_000, 300_000) {
        let n = run.rng.range(2, 16);
        let rng = &mut run.rng;
        let ops: Vec<Op> = (0..n).map(|_| match rng.below(14) {
            0..=3 => Op::Register(rng.below(6), rng.below(6), rng.below(3), rng.below(3)),
            4 | 5 => Op::Snapshot(rng.below(6)),
            6..=8 => Op::RegisterIf(rng.below(6), rng.below(6), rng.below(3), rng.below(5)),
            9 | 10 => Op::Commit(rng.below(5), names(rng)),
            11 => Op::CommitThrough(rng.below(6), names(rng)),
            12 => Op::Clone,
            _ => Op::Swap,
        }).collect();
        run.case("C12 engine", &ops, true, || format!("{ops:?}"), || play(&ops));
        if run.stop() { break; }
    }
    let _ = Path::new("");
    run.finish()
}
