//! C08 on the compiled code: the contract of contracts/C08.vrs and C08b.vrs on
//! stored compiled-Wasm products, with every file a scratch file of this run.
use ruby_fast_lsp::persistent_cache::{CompiledWasmProductKey as Key, PersistentCompiledWasmLookup as L, PersistentDerivedProductCache as Cache, PersistentJavaArtifactLookup as JL};
use ruby_fast_lsp::runtime::jruby::classpath::{discover_project_classpath, ClasspathArtifact, ClasspathInputs, ClasspathLimits};
use ruby_fast_lsp::runtime::jruby::java_catalog::{JavaArtifactProduct, JavaArtifactProductKey};
use ruby_fast_lsp_jvm_metadata::ArchiveLimits;
use sha2::{Digest, Sha256};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc};
use std::time::{Duration, SystemTime};
use vcommon::Run;

fn files(root: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p)
            } else if p.extension().map(|x| x != "lock").unwrap_or(true) {
                out.push(p)
            }
        }
    }
    out.sort();
    out
}
fn key(n: usize) -> Key {
    Key::new(&source(n), 7 + (n as u64) % 3)
}
fn source(n: usize) -> Vec<u8> {
    format!("module {n}").into_bytes()
}
fn hit(c: &Cache, k: &Key) -> Result<Option<Vec<u8>>, String> {
    match c.lookup_compiled_wasm_or_reserve(k).map_err(|e| format!("lookup failed: {e:#}"))? {
        L::Hit(x) => Ok(Some(x.as_ref().clone())),
        L::Reservation(_) => Ok(None),
    }
}
fn publish(c: &Cache, k: &Key, a: &[u8]) -> Result<(), String> {
    match c.lookup_compiled_wasm_or_reserve(k).map_err(|e| format!("lookup failed: {e:#}"))? {
        L::Hit(_) => Err("a hit for a product that is not stored".into()),
        L::Reservation(r) => r.publish(k, a).map_err(|e| format!("publish failed: {e:#}")),
    }
}
/// A second kind of product: the metadata of Java archives (here: archives without classes, told apart by their comments).
fn jars(dir: &Path, n: usize) -> Result<Vec<ClasspathArtifact>, String> {
    let p = |x: &str| dir.join(x);
    for x in ["proj", "jruby/bin", "jdk"] {
        std::fs::create_dir_all(p(x)).unwrap();
    }
    std::fs::write(p("jruby/bin/jruby"), b"").unwrap();
    for i in 0..n {
        let mut z = b"PK\x05\x06".to_vec();
        z.extend([0u8; 16]);
        z.extend((i as u16).to_le_bytes());
        z.extend(vec![b'c'; i]);
        std::fs::write(p(&format!("proj/a{i}.jar")), z).unwrap();
    }
    let c = discover_project_classpath(
        &ClasspathInputs {
            project_root: p("proj"),
            jruby_executable: p("jruby/bin/jruby"),
            java_home: p("jdk"),
            maven_repository: None,
            java_gem_roots: vec![],
            additional_classpath: vec!["*.jar".into()],
            additional_sources: vec![],
        },
        ClasspathLimits::default(),
    )
    .map_err(|e| format!("{e:?}"))?;
    Ok(c.artifacts)
}
fn jkey(a: &ClasspathArtifact) -> JavaArtifactProductKey {
    JavaArtifactProductKey::new(a, 17, ArchiveLimits::default())
}
fn jhit(c: &Cache, a: &ClasspathArtifact) -> Result<Option<Vec<u8>>, String> {
    match c.lookup_java_artifact_or_reserve(&jkey(a)).map_err(|e| format!("lookup failed: {e:#}"))? {
        JL::Hit(x) => Ok(Some(x.encode_persistent_payload().map_err(|e| e.to_string())?)),
        JL::Reservation(_) => Ok(None),
    }
}
fn jproduct(a: &ClasspathArtifact) -> Result<JavaArtifactProduct, String> {
    JavaArtifactProduct::build(a, &jkey(a), ArchiveLimits::default()).map_err(|e| format!("{e:?}"))
}
fn jpublish(c: &Cache, a: &ClasspathArtifact) -> Result<(), String> {
    match c.lookup_java_artifact_or_reserve(&jkey(a)).map_err(|e| format!("lookup failed: {e:#}"))? {
        JL::Hit(_) => Err("a hit for a product that is not stored".into()),
        JL::Reservation(r) => r.publish(&jproduct(a)?).map_err(|e| format!("publish failed: {e:#}")),
    }
}
fn noise(rng: &mut vcommon::Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| rng.next() as u8).collect()
}
struct Dir(PathBuf);
impl Dir {
    fn new(base: &Path, n: &mut usize) -> Dir {
        *n += 1;
        let p = base.join(format!("c08-{n}"));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn one_file(root: &Path) -> Result<PathBuf, String> {
    let f = files(root);
    if f.len() != 1 {
        return Err(format!("{} files after one publication: {f:?}", f.len()));
    }
    Ok(f[0].clone())
}
/// An envelope as the code writes it, every part at the caller's choice.
fn envelope(magic: &[u8], schema: u32, logical: u64, compressed: Option<u64>, sum: &[u8], z: &[u8]) -> Vec<u8> {
    let mut v = magic.to_vec();
    v.extend(schema.to_le_bytes());
    v.extend(logical.to_le_bytes());
    v.extend(compressed.unwrap_or(z.len() as u64).to_le_bytes());
    v.extend(sum);
    v.extend(z);
    v
}
fn inner(len: u64, sha: &[u8], id: u64, alen: u64, asum: &[u8], a: &[u8]) -> Vec<u8> {
    let mut v = 1u32.to_le_bytes().to_vec();
    v.extend(len.to_le_bytes());
    v.extend(sha);
    v.extend(id.to_le_bytes());
    v.extend(alen.to_le_bytes());
    v.extend(asum);
    v.extend(a);
    v
}
fn sha(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}
extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

fn main() {
    let mut run = Run::start();
    let base = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp/c08-scratch".into()));
    let base = std::fs::canonicalize(&base).unwrap_or(base);
    let mut n = 0usize;
    run.rule("Publish and read back through fresh cache instances; every single-byte change (3 values per byte), every truncation, extensions, files of other keys and kinds and hand-made consistent envelopes (wrong key, wrong lengths, wrong checksums) under the product's name; random publication histories against limits with chosen file times; two instances on one key; a publication whose write fails; a reader during a publication.");
    // ---- round trip, across instances
    let o = "what is published for a key comes back byte for byte, in this and in later sessions";
    let sizes = [0usize, 1, 2, 17, 255, 256, 4096, 100_000, 3_000_000];
    for (i, s) in sizes.iter().enumerate() {
        for kind in 0..3 {
            let a: Vec<u8> = match kind {
                0 => vec![0; *s],
                1 => noise(&mut run.rng, *s),
                _ => (0..*s).map(|x| (x / 7) as u8).collect(),
            };
            let d = Dir::new(&base, &mut n);
            run.case(o, &(s, kind), *s > 0, || format!("artifact {i}: {s} bytes, pattern {kind}"), || {
                let c = Cache::with_limits(d.0.clone(), 100, 1 << 30);
                publish(&c, &key(1), &a)?;
                for c in [c, Cache::with_limits(d.0.clone(), 100, 1 << 30)] {
                    match hit(&c, &key(1))? {
                        Some(b) if b == a => {}
                        Some(b) => return Err(format!("got {} other bytes", b.len())),
                        None => return Err("not found".into()),
                    }
                    if hit(&c, &key(2))?.is_some() {
                        return Err("found under another key".into());
                    }
                    if hit(&c, &Key::new(&source(1), 99))?.is_some() {
                        return Err("found for another compiler".into());
                    }
                    if c.compiled_wasm_snapshot().corruptions != 0 {
                        return Err("a good product counted as corrupt".into());
                    }
                }
                Ok(())
            });
        }
    }
    // ---- damage
    let o = "a damaged, cut, lengthened or foreign file never yields anything but the published product";
    for art in 0..run.scale(3, 8) {
        let a: Vec<u8> = match art {
            0 => b"compiled artifact".to_vec(),
            1 => vec![],
            _ => {
                let l = run.rng.range(20, 120);
                noise(&mut run.rng, l)
            }
        };
        let d = Dir::new(&base, &mut n);
        let root = d.0.clone();
        let k = key(1);
        let c = Cache::with_limits(root.clone(), 100, 1 << 30);
        let f = match publish(&c, &k, &a).and_then(|_| one_file(&root)) {
            Ok(f) => f,
            Err(e) => {
                run.fail(o, format!("publishing {} bytes: {e}", a.len()));
                break;
            }
        };
        let good = std::fs::read(&f).unwrap();
        // what another key's file looks like
        let d2 = Dir::new(&base, &mut n);
        let c2 = Cache::with_limits(d2.0.clone(), 100, 1 << 30);
        let other = publish(&c2, &key(2), b"other artifact").and_then(|_| one_file(&d2.0)).map(|p| std::fs::read(p).unwrap()).unwrap_or_default();
        let (src, id) = (source(1), 7 + 1);
        let z = |p: &[u8]| zstd::stream::encode_all(p, 3).unwrap();
        let mk = |p: Vec<u8>| envelope(&good[..8], 1, p.len() as u64, None, &sha(&p), &z(&p));
        let right = inner(src.len() as u64, &sha(&src), id, a.len() as u64, &sha(&a), &a);
        let mut variants: Vec<(String, Vec<u8>, bool)> = vec![];
        for i in 0..good.len() {
            for x in [1u8, 0x80, 0xff] {
                let mut g = good.clone();
                g[i] ^= x;
                variants.push((format!("byte {i} xor {x}"), g, false));
            }
            variants.push((format!("cut to {i} bytes"), good[..i].to_vec(), true));
        }
        for i in 1..10 {
            let mut g = good.clone();
            g.extend(noise(&mut run.rng, i));
            variants.push((format!("{i} bytes appended"), g, true));
        }
        let mut g = good.clone();
        g.extend(good.clone());
        variants.push(("written twice".into(), g, true));
        variants.push(("another key's file".into(), other, true));
        for m in [b"RFLSPG01", b"RFLSPJ01", b"RFLSPW02"] {
            let mut g = good.clone();
            g[..8].copy_from_slice(m);
            variants.push((format!("kind {}", String::from_utf8_lossy(m)), g, true));
        }
        // consistent envelopes around wrong payloads
        let alen = a.len() as u64;
        let bad = [
            ("source length", inner(src.len() as u64 + 1, &sha(&src), id, alen, &sha(&a), &a)),
            ("source checksum", inner(src.len() as u64, &sha(b"x"), id, alen, &sha(&a), &a)),
            ("compiler", inner(src.len() as u64, &sha(&src), id + 1, alen, &sha(&a), &a)),
            ("artifact longer than declared", inner(src.len() as u64, &sha(&src), id, alen, &sha(&[a.clone(), vec![1]].concat()), &[a.clone(), vec![1]].concat())),
            ("artifact shorter than declared", inner(src.len() as u64, &sha(&src), id, alen + 1, &sha(&a), &a)),
            ("declared length near the maximum", inner(src.len() as u64, &sha(&src), id, u64::MAX, &sha(&a), &a)),
            ("declared length overflowing", inner(src.len() as u64, &sha(&src), id, u64::MAX - 91, &sha(&a), &a)),
            ("artifact checksum", inner(src.len() as u64, &sha(&src), id, alen, &sha(&[a.clone(), vec![1]].concat()), &a)),
            ("header only", right[..91].to_vec()),
            ("empty payload", vec![]),
        ];
        for (w, p) in bad {
            variants.push((format!("payload with wrong {w}"), mk(p), true));
        }
        let mut sch = right.clone();
        sch[0] = 2;
        variants.push(("payload schema".into(), mk(sch), true));
        let l = right.len() as u64;
        let (zr, sr) = (z(&right), sha(&right));
        variants.push(("itself, rebuilt".into(), mk(right.clone()), false));
        variants.push(("envelope schema 2".into(), envelope(&good[..8], 2, l, None, &sr, &zr), true));
        for (w, l2) in [("longer", l + 1), ("shorter", l - 1), ("zero", 0), ("over the maximum", 65 << 20), ("huge", u64::MAX), ("2^63", 1 << 63)] {
            variants.push((format!("logical length {w}"), envelope(&good[..8], 1, l2, None, &sr, &zr), true));
        }
        for (w, c2) in [("longer", zr.len() as u64 + 1), ("shorter", zr.len() as u64 - 1), ("zero", 0), ("huge", u64::MAX), ("over the maximum", 257 << 20)] {
            variants.push((format!("compressed length {w}"), envelope(&good[..8], 1, l, Some(c2), &sr, &zr), true));
        }
        variants.push(("checksum of something else".into(), envelope(&good[..8], 1, l, None, &sha(b"y"), &zr), true));
        // a shorter payload whose checksum is right but which the stream continues past
        let longer = [right.clone(), vec![0; 5]].concat();
        variants.push(("stream continues past the declared end".into(), envelope(&good[..8], 1, l, None, &sr, &z(&longer)), true));
        for (w, g, must_reject) in &variants {
            if g == &good {
                continue;
            }
            let ok = run.case(o, &(art, w), true, || format!("artifact of {} bytes, stored file with {w}", a.len()), || {
                std::fs::write(&f, g).map_err(|e| e.to_string())?;
                let c = Cache::with_limits(root.clone(), 100, 1 << 30);
                match c.lookup_compiled_wasm_or_reserve(&k) {
                    Err(e) => return Err(format!("the lookup failed instead of offering to rebuild: {e:#}")),
                    Ok(L::Hit(b)) => {
                        if b.as_ref() != &a {
                            return Err(format!("a product of {} other bytes was returned", b.len()));
                        }
                        if *must_reject {
                            return Err("accepted".into());
                        }
                    }
                    Ok(L::Reservation(r)) => {
                        if f.exists() {
                            return Err("the damaged file is still in place".into());
                        }
                        if w == "itself, rebuilt" {
                            return Err("a good file was discarded".into());
                        }
                        r.publish(&k, &a).map_err(|e| format!("publishing anew failed: {e:#}"))?;
                        if hit(&c, &k)? != Some(a.clone()) {
                            return Err("the rebuilt product is not found".into());
                        }
                    }
                }
                Ok(())
            });
            if !ok {
                break;
            }
        }
        if run.stop() {
            break;
        }
    }
    // ---- identity
    let o = "a reservation for one key cannot store another key's product";
    {
        let d = Dir::new(&base, &mut n);
        run.case(o, &0, true, || "reserve key 1, publish as key 2".into(), || {
            let c = Cache::with_limits(d.0.clone(), 100, 1 << 30);
            match c.lookup_compiled_wasm_or_reserve(&key(1)).map_err(|e| e.to_string())? {
                L::Hit(_) => return Err("hit in an empty cache".into()),
                L::Reservation(r) => {
                    if r.publish(&key(2), b"x").is_ok() {
                        return Err("accepted".into());
                    }
                }
            }
            if !files(&d.0).is_empty() || hit(&c, &key(1))?.is_some() || hit(&c, &key(2))?.is_some() {
                return Err("something was stored".into());
            }
            Ok(())
        });
    }
    // ---- limits
    let o = "after every publication the store is within its limits; exactly the oldest products went, as few as needed";
    let jd = Dir::new(&base, &mut n);
    let archives = match jars(&jd.0, 24) {
        Ok(a) if a.len() == 24 => a,
        _ => vec![],
    };
    for h in 0..run.scale(60, 600) {
        let d = Dir::new(&base, &mut n);
        let max_entries = run.rng.range(1, 6);
        let max_bytes = *run.rng.pick(&[600u64, 1000, 2000, 1 << 30]);
        let steps = if h % 10 == 0 { 80 } else { 14 };
        let mut log = vec![format!("max_entries {max_entries}, max_bytes {max_bytes}")];
        let mut rng = vcommon::Rng::new(run.seed * 1000 + h as u64);
        let root = d.0.clone();
        let log2 = std::cell::RefCell::new(&mut log);
        let mut body = || -> Result<(), String> {
            let mut c = Cache::with_limits(root.clone(), max_entries, max_bytes);
            let t0 = SystemTime::now() - Duration::from_secs(1_000_000);
            // path -> (time, bytes)
            let mut model: std::collections::BTreeMap<PathBuf, (u64, u64)> = Default::default();
            for s in 0..steps {
                if rng.chance(1, 9) {
                    c = Cache::with_limits(root.clone(), max_entries, max_bytes);
                    log2.borrow_mut().push("new session".into());
                }
                if rng.chance(1, 12) {
                    // another tool's file, or an interrupted publication: not ours to evict
                    if let Some(p) = model.keys().next() {
                        let stray = p.parent().unwrap().join(".left.1.2.tmp");
                        std::fs::write(&stray, b"partial").unwrap();
                    }
                }
                let java = h % 2 == 1 && !archives.is_empty() && rng.chance(1, 2);
                let k = key(if rng.chance(1, 5) { rng.below(s + 1) } else { s });
                let jar = rng.below(archives.len().max(1));
                if (if java { jhit(&c, &archives[jar])? } else { hit(&c, &k)? }).is_some() {
                    log2.borrow_mut().push("hit".into());
                    continue;
                }
                let len = rng.range(0, 500);
                let a = noise(&mut rng, len);
                let before: Vec<PathBuf> = files(&root);
                if java {
                    jpublish(&c, &archives[jar])?;
                } else {
                    publish(&c, &k, &a)?;
                }
                let after = files(&root);
                let new: Vec<PathBuf> = after.iter().filter(|p| !before.contains(p)).cloned().collect();
                let fresh: Option<PathBuf> = new.first().cloned();
                log2.borrow_mut().push(if java { format!("publish archive {jar}") } else { format!("publish {len} bytes") });
                // the new file carries the present time, the newest of all
                let mut all = model.clone();
                let size_of_new = match &fresh {
                    Some(p) => std::fs::metadata(p).unwrap().len(),
                    None if java => max_bytes, // evicted at once
                    None => 60 + 93 + len as u64, // evicted at once: only possible when it alone exceeds the limit
                };
                let newpath = fresh.clone().unwrap_or_else(|| PathBuf::from("evicted"));
                all.insert(newpath.clone(), (u64::MAX, size_of_new));
                let mut order: Vec<(PathBuf, (u64, u64))> = all.clone().into_iter().collect();
                order.sort_by(|x, y| x.1 .0.cmp(&y.1 .0).then_with(|| x.0.cmp(&y.0)));
                let mut keep = order.clone();
                while keep.len() > max_entries || keep.iter().map(|x| x.1 .1).sum::<u64>() > max_bytes {
                    keep.remove(0);
                }
                let want: std::collections::BTreeSet<PathBuf> = keep.iter().map(|x| x.0.clone()).collect();
                let got: std::collections::BTreeSet<PathBuf> = after.iter().filter(|p| !p.to_string_lossy().ends_with(".tmp")).cloned().collect();
                let strays_before = before.iter().filter(|p| p.to_string_lossy().ends_with(".tmp")).count();
                let strays_after = after.iter().filter(|p| p.to_string_lossy().ends_with(".tmp")).count();
                if strays_after != strays_before {
                    return Err("a file that is not a product was removed or left behind".into());
                }
                if got != want && !(fresh.is_none() && !got.contains(&newpath) && size_of_new + 8 > max_bytes) {
                    return Err(format!("step {s}: kept {} products {got:?}, expected {} {want:?}", got.len(), want.len()));
                }
                if got.len() > max_entries || got.iter().map(|p| std::fs::metadata(p).unwrap().len()).sum::<u64>() > max_bytes {
                    return Err("over the limits".into());
                }
                model.retain(|p, _| got.contains(p));
                if let Some(p) = fresh {
                    // give it an old time of our choice (ties included)
                    let t = rng.below(8) as u64;
                    std::fs::File::options().write(true).open(&p).unwrap().set_modified(t0 + Duration::from_secs(t)).unwrap();
                    model.insert(p, (t, size_of_new));
                }
                let sum = c.summary().map_err(|e| e.to_string())?;
                if sum.entries != model.len() || sum.bytes != model.values().map(|x| x.1).sum::<u64>() {
                    return Err(format!("summary {} entries {} bytes, on disk {} entries", sum.entries, sum.bytes, model.len()));
                }
            }
            Ok(())
        };
        let r = vcommon::catches(|| body()).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        drop(body);
        run.count(&h, true);
        if let Err(e) = r {
            run.fail(o, format!("history: {log:?}\nwrong: {e}"));
        }
        if run.stop() {
            break;
        }
    }
    // ---- one owner per key
    let o = "one producer at a time per key; the others wait and find its product, or take over when it gives up";
    for variant in 0..run.scale(4, 12) {
        let d = Dir::new(&base, &mut n);
        let root = d.0.clone();
        run.case(o, &variant, true, || format!("two sessions, variant {variant}"), || {
            let a = Cache::with_limits(root.clone(), 10, 1 << 20);
            let L::Reservation(r) = a.lookup_compiled_wasm_or_reserve(&key(1)).map_err(|e| e.to_string())? else { return Err("hit in an empty cache".into()) };
            let (tx, rx) = mpsc::channel();
            let root2 = root.clone();
            let same = variant % 2 == 0;
            let a2 = a.clone();
            std::thread::spawn(move || {
                let b = if same { a2 } else { Cache::with_limits(root2, 10, 1 << 20) };
                // another key is free meanwhile
                let _ = tx.send(hit(&b, &key(1)));
            });
            if let Ok(x) = rx.recv_timeout(Duration::from_millis(150)) {
                // a second session counts the stored files first and waits with that
                return Err(format!("did not wait for the first producer: {x:?}"));
            }
            if variant % 4 < 2 {
                r.publish(&key(1), b"first").map_err(|e| e.to_string())?;
                match rx.recv_timeout(Duration::from_secs(20)) {
                    Ok(Ok(Some(x))) if x == b"first" => Ok(()),
                    x => Err(format!("after publication the other got {x:?}")),
                }
            } else {
                drop(r);
                match rx.recv_timeout(Duration::from_secs(20)) {
                    Ok(Ok(None)) => Ok(()),
                    x => Err(format!("after the first gave up the other got {x:?}")),
                }
            }
        });
    }
    // ---- interrupted publication
    let o = "a publication that fails midway leaves the old state: nothing under the product's name, no debris";
    unsafe {
        signal(SIGXFSZ, 1);
    }
    for cut in [0u64, 1, 8, 59, 60, 1000, 30_000] {
        let d = Dir::new(&base, &mut n);
        let root = d.0.clone();
        let a = noise(&mut run.rng, 60_000);
        run.case(o, &cut, true, || format!("the disk accepts {cut} bytes of a 60 kB product"), || {
            let c = Cache::with_limits(root.clone(), 10, 1 << 30);
            publish(&c, &key(5), b"neighbour")?;
            let before = files(&root);
            let L::Reservation(r) = c.lookup_compiled_wasm_or_reserve(&key(1)).map_err(|e| e.to_string())? else { return Err("hit".into()) };
            let mut old = [0u64; 2];
            let res = unsafe {
                getrlimit(RLIMIT_FSIZE, &mut old);
                let l = [cut, old[1]];
                setrlimit(RLIMIT_FSIZE, &l);
                let res = r.publish(&key(1), &a);
                setrlimit(RLIMIT_FSIZE, &old);
                res
            };
            if res.is_ok() {
                return Err("reported success".into());
            }
            if files(&root) != before {
                return Err(format!("files before {before:?} after {:?}", files(&root)));
            }
            let c = Cache::with_limits(root.clone(), 10, 1 << 30);
            if hit(&c, &key(5))? != Some(b"neighbour".to_vec()) {
                return Err("the neighbour is lost".into());
            }
            publish(&c, &key(1), &a)?;
            if hit(&c, &key(1))? != Some(a.clone()) {
                return Err("cannot be published afterwards".into());
            }
            if c.compiled_wasm_snapshot().corruptions != 0 {
                return Err("a partial file was visible".into());
            }
            Ok(())
        });
    }
    // ---- visibility during publication
    let o = "a reader never sees part of a product";
    for t in 0..run.scale(4, 20) {
        let d = Dir::new(&base, &mut n);
        let root = d.0.clone();
        let a = noise(&mut run.rng, 6_000_000);
        run.case(o, &t, true, || "6 MB product published while another thread reads its file".into(), || {
            let c = Cache::with_limits(root.clone(), 10, 1 << 30);
            publish(&c, &key(1), &a)?;
            let f = one_file(&root)?;
            let good = std::fs::read(&f).unwrap();
            c.clear().map_err(|e| e.to_string())?;
            let stop = Arc::new(AtomicBool::new(false));
            let (s2, f2, g2) = (stop.clone(), f.clone(), good.clone());
            let reader = std::thread::spawn(move || {
                let mut partial = None;
                while !s2.load(Ordering::Relaxed) {
                    if let Ok(x) = std::fs::metadata(&f2) {
                        if x.len() != g2.len() as u64 {
                            partial = Some(x.len());
                            break;
                        }
                    }
                }
                partial
            });
            let r = publish(&c, &key(1), &a);
            stop.store(true, Ordering::Relaxed);
            let p = reader.join().unwrap();
            r?;
            if let Some(p) = p {
                return Err(format!("{p} of {} bytes were visible under the product's name", good.len()));
            }
            if std::fs::read(&f).unwrap() != good {
                return Err("the file differs".into());
            }
            Ok(())
        });
    }
    // ---- rejection by the user of the product
    // ---- the same for archive metadata
    if !archives.is_empty() {
        let d = Dir::new(&base, &mut n);
        let root = d.0.clone();
        run.case("what is published for a key comes back byte for byte, in this and in later sessions", &"java", true, || "archive metadata".into(), || {
            let c = Cache::with_limits(root.clone(), 100, 1 << 30);
            for a in &archives {
                jpublish(&c, a)?;
            }
            for c in [c, Cache::with_limits(root.clone(), 100, 1 << 30)] {
                for a in &archives {
                    if jhit(&c, a)? != Some(jproduct(a)?.encode_persistent_payload().map_err(|e| e.to_string())?) {
                        return Err("other metadata, or none, for a published archive".into());
                    }
                }
            }
            Ok(())
        });
        let (d, e) = (Dir::new(&base, &mut n), Dir::new(&base, &mut n));
        let (root, other) = (d.0.clone(), e.0.clone());
        let o = "a damaged, cut, lengthened or foreign file never yields anything but the published product";
        let c = Cache::with_limits(root.clone(), 100, 1 << 30);
        let ready = jpublish(&c, &archives[1]).is_ok() && jpublish(&Cache::with_limits(other.clone(), 100, 1 << 30), &archives[2]).is_ok();
        if let (true, Ok(f), Ok(g)) = (ready, one_file(&root), one_file(&other)) {
            let good = std::fs::read(&f).unwrap();
            let foreign = std::fs::read(&g).unwrap();
            let mut bad: Vec<(String, Vec<u8>)> = vec![("another archive's product".into(), foreign)];
            for i in 0..good.len() {
                let mut b = good.clone();
                b[i] ^= 1 << (i % 8);
                bad.push((format!("byte {i} changed"), b));
                bad.push((format!("cut to {i} bytes"), good[..i].to_vec()));
            }
            for (what, b) in bad {
                run.case(o, &("java", &what), true, || format!("archive metadata, {what}"), || {
                    std::fs::write(&f, &b).unwrap();
                    match jhit(&c, &archives[1])? {
                        None => Ok(()),
                        Some(x) if Ok(x.clone()) == jproduct(&archives[1]).and_then(|p| p.encode_persistent_payload().map_err(|e| e.to_string())) && b != good => Ok(()),
                        Some(_) => Err("a damaged product was returned".into()),
                    }
                });
                if run.stop() {
                    break;
                }
            }
        }
    }
    let o = "invalidating a key removes exactly its product";
    {
        let d = Dir::new(&base, &mut n);
        run.case(o, &0, true, || "three products, one invalidated".into(), || {
            let c = Cache::with_limits(d.0.clone(), 10, 1 << 30);
            for i in 1..4 {
                publish(&c, &key(i), &[i as u8; 9])?;
            }
            if !c.invalidate_compiled_wasm(&key(2)).map_err(|e| e.to_string())? || c.invalidate_compiled_wasm(&key(2)).map_err(|e| e.to_string())? {
                return Err("wrong report".into());
            }
            for i in 1..4 {
                let w = if i == 2 { None } else { Some(vec![i as u8; 9]) };
                if hit(&c, &key(i))? != w {
                    return Err(format!("key {i}"));
                }
            }
            Ok(())
        });
    }
    run.finish()
}
