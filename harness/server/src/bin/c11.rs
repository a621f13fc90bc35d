//! C11 on the compiled code: generated method signatures and calls are checked by the real
//! command-line check session; what it reports per call is compared with Ruby's calling rules.
use ruby_fast_lsp::check::CheckSession;
use std::collections::BTreeMap;
use vcommon::{Rng, Run};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum P { Req, Multi, Opt, Rest, AnonRest, Fwd, ReqKw, OptKw, KwRest, AnonKwRest, NoKw, Block, AnonBlock }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum A { Lit(&'static str), Hash, Var, Splat, Kw(String), StrKey, KwSplat, BlockPass }
const KW: &[&str] = &["id", "name", "names", "label", "color", "colour", "timeout", "time_out", "verbose_mode", "verbose_node", "größe", "k"];

struct Case { params: Vec<(P, String)>, args: Vec<A> }

fn method(rng: &mut Rng) -> Vec<(P, String)> {
    let mut v = vec![];
    let mut n = 0;
    let mut nm = || { n += 1; format!("p{n}") };
    if rng.chance(1, 12) {
        for _ in 0..rng.below(3) { v.push((P::Req, nm())); }
        for _ in 0..rng.below(2) { v.push((P::Opt, nm())); }
        v.push((P::Fwd, "...".into()));
        return v;
    }
    for _ in 0..rng.below(4) { v.push((if rng.chance(1, 6) { P::Multi } else { P::Req }, nm())); }
    for _ in 0..rng.below(3) { v.push((P::Opt, nm())); }
    let rest = rng.chance(1, 4);
    if rest { v.push(if rng.chance(1, 2) { (P::Rest, nm()) } else { (P::AnonRest, "*".into()) }); }
    if rest || v.iter().any(|p| p.0 == P::Opt) {
        for _ in 0..rng.below(3) { v.push((if rng.chance(1, 6) { P::Multi } else { P::Req }, nm())); }
    }
    if rng.chance(1, 2) {
        let mut kws: Vec<&str> = KW.to_vec();
        rng.shuffle(&mut kws);
        for k in kws.iter().take(rng.below(4)) { v.push((if rng.chance(1, 2) { P::ReqKw } else { P::OptKw }, k.to_string())); }
        match rng.below(8) {
            0 => v.push((P::KwRest, nm())),
            1 => v.push((P::AnonKwRest, "**".into())),
            _ => {}
        }
    } else if rng.chance(1, 12) { v.push((P::NoKw, "**nil".into())); }
    match rng.below(8) { 0 => v.push((P::Block, nm())), 1 => v.push((P::AnonBlock, "&".into())), _ => {} }
    v
}
fn call(rng: &mut Rng, ps: &[(P, String)]) -> Vec<A> {
    let req = ps.iter().filter(|p| matches!(p.0, P::Req | P::Multi)).count();
    let opt = ps.iter().filter(|p| p.0 == P::Opt).count();
    let n = match rng.below(5) { 0 => rng.below(7), 1 => req + opt, 2 => req, 3 => (req + opt + 1).saturating_sub(rng.below(2)), _ => req.saturating_sub(rng.below(2)) };
    let mut v: Vec<A> = (0..n).map(|_| match rng.below(12) { 0 => A::Hash, 1 => A::Var, 2 => A::Lit("\"s\""), 3 => A::Lit(":sym"), 4 => A::Lit("nil"), 5 => A::Lit("[1]"), 6 => A::Lit("1.5"), 7 => A::Lit("1..2"), _ => A::Lit("1") }).collect();
    if rng.chance(1, 8) { let at = rng.below(v.len() + 1); v.insert(at, A::Splat); }
    let declared: Vec<String> = ps.iter().filter(|p| matches!(p.0, P::ReqKw | P::OptKw)).map(|p| p.1.clone()).collect();
    let mut kws: Vec<A> = vec![];
    for k in &declared { if rng.chance(3, 4) { kws.push(A::Kw(k.clone())); } }
    if rng.chance(1, 4) {
        let k = rng.pick(KW).to_string();
        // one edit away from a keyword every now and then
        let k = if rng.chance(1, 2) { mutate(rng, &k) } else { k };
        if !declared.contains(&k) { kws.push(A::Kw(k)); }
    }
    if rng.chance(1, 25) { kws.push(A::StrKey); }
    if rng.chance(1, 12) { kws.push(A::KwSplat); }
    if rng.chance(1, 3) { rng.shuffle(&mut kws); }
    v.extend(kws);
    if rng.chance(1, 15) { v.push(A::BlockPass); }
    v
}
fn mutate(rng: &mut Rng, k: &str) -> String {
    let mut c: Vec<char> = k.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let at = rng.below(c.len());
        match rng.below(3) {
            0 => c.insert(at + 1, *rng.pick(&['x', 'e', 'ü'])),
            1 if c.len() > 1 && at > 0 => { c.remove(at); }
            _ => c[at] = *rng.pick(&['q', 'a', 'z']),
        }
    }
    c.into_iter().collect()
}
fn def_text(name: &str, ps: &[(P, String)]) -> String {
    let v: Vec<String> = ps.iter().map(|(k, n)| match k {
        P::Req => n.clone(), P::Multi => format!("({n}a, {n}b)"), P::Opt => format!("{n} = 1"), P::Rest => format!("*{n}"), P::AnonRest => "*".into(),
        P::Fwd => "...".into(), P::ReqKw => format!("{n}:"), P::OptKw => format!("{n}: 1"), P::KwRest => format!("**{n}"), P::AnonKwRest => "**".into(),
        P::NoKw => "**nil".into(), P::Block => format!("&{n}"), P::AnonBlock => "&".into(),
    }).collect();
    format!("def {name}({}); 1; end", v.join(", "))
}
fn call_text(name: &str, args: &[A]) -> String {
    let v: Vec<String> = args.iter().map(|a| match a {
        A::Lit(s) => s.to_string(), A::Hash => "{ z: 1 }".into(), A::Var => "vv".into(), A::Splat => "*ss".into(), A::Kw(k) => format!("{k}: 1"),
        A::StrKey => "\"st\" => 1".into(), A::KwSplat => "**hh".into(), A::BlockPass => "&bb".into(),
    }).collect();
    format!("{name}({})", v.join(", "))
}
/// Ruby's rules, with what cannot be known about a value never counted against the call
fn expected(c: &Case) -> (Option<(usize, Option<usize>, usize)>, Vec<String>, Vec<String>) {
    let has = |ks: &[P]| c.params.iter().any(|p| ks.contains(&p.0));
    let req = c.params.iter().filter(|p| matches!(p.0, P::Req | P::Multi)).count();
    let opt = c.params.iter().filter(|p| p.0 == P::Opt).count();
    let rest = has(&[P::Rest, P::AnonRest, P::Fwd]);
    let kwrest = has(&[P::KwRest, P::AnonKwRest]);
    let reqkw: Vec<&String> = c.params.iter().filter(|p| p.0 == P::ReqKw).map(|p| &p.1).collect();
    let declared: Vec<&String> = c.params.iter().filter(|p| matches!(p.0, P::ReqKw | P::OptKw)).map(|p| &p.1).collect();
    let takes_kw = kwrest || !declared.is_empty();
    let given: Vec<&String> = c.args.iter().filter_map(|a| if let A::Kw(k) = a { Some(k) } else { None }).collect();
    let kwsplat = c.args.contains(&A::KwSplat);
    let splat = c.args.contains(&A::Splat);
    let positional: Vec<&A> = c.args.iter().filter(|a| matches!(a, A::Lit(_) | A::Hash | A::Var)).collect();
    let maybe_hash = matches!(positional.last(), Some(A::Hash | A::Var));
    let mut n = positional.len();
    let mut open = splat;
    if !takes_kw {
        if !given.is_empty() || c.args.contains(&A::StrKey) { n += 1; }
        open = open || kwsplat;
    }
    let bad = |n: usize| (!open && n < req) || (!rest && n > req + opt);
    let wrong = bad(n) && (!(takes_kw && maybe_hash) || bad(n - 1));
    let arity = wrong.then_some((req, if rest { None } else { Some(req + opt) }, n));
    let unknown = if takes_kw && !kwrest && !kwsplat { given.iter().filter(|k| !declared.contains(k)).map(|k| k.to_string()).collect() } else { vec![] };
    let mut missing: Vec<String> = if !kwsplat && !splat && !maybe_hash { reqkw.iter().filter(|k| !given.contains(k)).map(|k| k.to_string()).collect() } else { vec![] };
    missing.sort();
    (arity, unknown, missing)
}
/// edit distance, full table
fn dist(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut t = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() { for j in 0..=b.len() {
        t[i][j] = if i == 0 { j } else if j == 0 { i } else { (t[i - 1][j] + 1).min(t[i][j - 1] + 1).min(t[i - 1][j - 1] + (a[i - 1] != b[j - 1]) as usize) };
    } }
    t[a.len()][b.len()]
}
fn suggestion_ok(c: &Case, given: &str, got: Option<&str>) -> Result<(), String> {
    let declared: Vec<&String> = c.params.iter().filter(|p| matches!(p.0, P::ReqKw | P::OptKw)).map(|p| &p.1).collect();
    let limit = match given.len() { 0..=2 => 0, 3..=8 => 2, _ => 3 };
    let best = declared.iter().map(|d| dist(d, given)).min().filter(|d| limit > 0 && *d <= limit);
    match (got, best) {
        (None, None) => Ok(()),
        (Some(s), Some(b)) if declared.iter().any(|d| *d == s) && dist(s, given) == b => Ok(()),
        _ => Err(format!("suggested {got:?} for `{given}` among {declared:?}: closest within {limit} is at {best:?}")),
    }
}
fn ticked(m: &str) -> Vec<String> { m.split('`').skip(1).step_by(2).map(|s| s.to_string()).collect() }

fn compare(c: &Case, name: &str, got: &[(String, String)]) -> Result<(), String> {
    let (arity, unknown, missing) = expected(c);
    let of = |code: &str| got.iter().filter(|g| g.0 == code).map(|g| g.1.clone()).collect::<Vec<_>>();
    let want = arity.map(|(lo, hi, n)| (match hi { Some(h) if h == lo => format!("{lo}"), Some(h) => format!("{lo}..{h}"), None => format!("{lo}+") }, n));
    let w = of("wrong-arity");
    match (&want, w.as_slice()) {
        (None, []) => {}
        (Some((e, n)), [m]) if m.contains(&format!("expected {e}, got {n}")) && ticked(m).first().map(String::as_str) == Some(name) => {}
        _ => return Err(format!("wrong-arity reported {w:?}, expected {want:?}")),
    }
    let u = of("unknown-kwarg");
    let mut un: Vec<String> = u.iter().map(|m| ticked(m)[0].trim_end_matches(':').to_string()).collect();
    let mut ue = unknown.clone();
    un.sort(); ue.sort();
    if un != ue { return Err(format!("unknown keywords reported {u:?}, expected {unknown:?}")); }
    for m in &u {
        let t = ticked(m);
        suggestion_ok(c, t[0].trim_end_matches(':'), t.get(2).map(|s| s.trim_end_matches(':')))?;
    }
    let ms = of("missing-kwarg");
    let mn: Vec<String> = ms.iter().flat_map(|m| ticked(m).into_iter().skip(1)).map(|s| s.trim_end_matches(':').to_string()).collect();
    if mn != missing || ms.len() > 1 { return Err(format!("missing keywords reported {ms:?}, expected {missing:?}")); }
    Ok(())
}

fn main() {
    let mut run = Run::start();
    run.rule("A case is one generated method signature with one generated call, checked through the command-line session; it is non-trivial when the call's arguments or the signature's parameters are not both empty.");
    let rt = tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap();
    let dir = std::env::temp_dir().join(format!("vp-c11-{}", std::process::id()));
    let rounds = run.scale(12, 120);
    for round in 0..rounds {
        if run.stop() { break; }
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let mut rng = Rng::new(run.seed * 7919 + round as u64);
        let mut cases = vec![];
        let mut text = String::from("vv = gets\nss = gets\nhh = gets\nbb = gets\n");
        let mut line = 5u32;
        let mut at: BTreeMap<u32, usize> = BTreeMap::new();
        let mut forms = vec![];
        for k in 0..400 {
            let params = method(&mut rng);
            let name = format!("vp_m{k}");
            // plain method, instance method of a class, singleton method
            let form = rng.below(4);
            let d = def_text(&name, &params);
            let (head, recv) = match form {
                0 => (format!("class K{k}\n{d}\nend\n"), format!("K{k}.new.")),
                1 => (format!("class K{k}\n{}\nend\n", d.replacen("def ", "def self.", 1)), format!("K{k}.")),
                _ => (format!("{d}\n"), String::new()),
            };
            text.push_str(&head);
            line += head.matches('\n').count() as u32;
            for _ in 0..2 {
                let args = call(&mut rng, &params);
                let t = format!("{recv}{}\n", call_text(&name, &args));
                text.push_str(&t);
                at.insert(line, cases.len());
                line += 1;
                cases.push(Case { params: params.clone(), args });
                forms.push((name.clone(), format!("{head}{t}")));
            }
        }
        std::fs::write(dir.join("a.rb"), &text).unwrap();
        if let Ok(p) = std::env::var("VP_DUMP") { std::fs::write(p, &text).unwrap(); }
        let report = match vcommon::catches(|| rt.block_on(CheckSession::default().check_path(&dir))) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => { run.fail("the check session analyses the file", format!("{e:#}\n{text}")); break; }
            Err(e) => { run.fail("the check session analyses the file", format!("panicked: {e}\n{text}")); break; }
        };
        let mut got: BTreeMap<u32, Vec<(String, String)>> = BTreeMap::new();
        for d in &report.diagnostics {
            let code = d.code.clone().unwrap_or_default();
            if matches!(code.as_str(), "wrong-arity" | "unknown-kwarg" | "missing-kwarg") { got.entry(d.range.start.line).or_default().push((code, d.message.clone())); }
        }
        let stray: Vec<u32> = got.keys().filter(|l| !at.contains_key(l)).copied().collect();
        if !stray.is_empty() { run.fail("only calls are reported", format!("lines {stray:?} are not calls\n{text}")); break; }
        for (l, i) in &at {
            let c = &cases[*i];
            let empty = vec![];
            let g = got.get(l).unwrap_or(&empty);
            run.case("what is reported for a call is what Ruby would raise", &(&c.params, &c.args), !(c.params.is_empty() && c.args.is_empty()), || forms[*i].1.clone(), || compare(c, &forms[*i].0, g));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    run.finish()
}
