//! C02 on the compiled code: mask_erb against an independent tag reader.
use ruby_analysis::indexer::{mask_erb, RubyDocument};
use vcommon::Run;

struct Want {
    masked: Vec<u8>,
    ruby: Vec<bool>,
    unclosed: Option<usize>,
}
fn find(b: &[u8], p: &[u8; 2], from: usize) -> Option<usize> {
    (from..b.len().saturating_sub(1)).find(|i| b[*i] == p[0] && b[*i + 1] == p[1])
}
fn want(t: &str) -> Want {
    let b = t.as_bytes();
    let mut w = Want { masked: b.iter().map(|c| if *c == b'\n' || *c == b'\r' { *c } else { b' ' }).collect(), ruby: vec![false; b.len() + 3], unclosed: None };
    let mut at = 0;
    while let Some(open) = find(b, b"<%", at) {
        let Some(close) = find(b, b"%>", (open + 3).min(b.len())) else {
            w.unclosed = Some(open);
            break;
        };
        let mut s = open + 2;
        if b[s] != b'%' && b[s] != b'#' {
            if b[s] == b'-' {
                s += 1;
            }
            if b[s] == b'=' {
                s += 1;
            }
            let e = if close > s && b[close - 1] == b'-' { close - 1 } else { close };
            if s < e {
                for i in s..e {
                    w.masked[i] = b[i];
                    w.ruby[i] = true;
                }
                w.masked[close] = b';';
            }
        }
        at = close + 2;
    }
    w
}
fn check(t: &str) -> Result<(), String> {
    let w = want(t);
    let m = mask_erb(t);
    if m.source().as_bytes() != &w.masked[..] {
        return Err(format!("Ruby view {:?}, expected {:?}", m.source(), String::from_utf8_lossy(&w.masked)));
    }
    for o in 0..t.len() + 3 {
        if m.is_ruby_offset(o) != w.ruby[o] {
            return Err(format!("is_ruby_offset({o}) = {}, expected {}", m.is_ruby_offset(o), w.ruby[o]));
        }
    }
    if m.unclosed_tag_offset() != w.unclosed {
        return Err(format!("unclosed tag {:?}, expected {:?}", m.unclosed_tag_offset(), w.unclosed));
    }
    Ok(())
}
fn check_doc(t: &str, prev: &str) -> Result<(), String> {
    let w = want(t);
    let mut d = RubyDocument::new(url::Url::parse("file:///w/a.html.erb").unwrap(), prev.to_string(), 1);
    d.update(t.to_string(), 2);
    if d.analysis_content().as_bytes() != &w.masked[..] {
        return Err(format!("RubyDocument Ruby view {:?}, expected {:?}", d.analysis_content(), String::from_utf8_lossy(&w.masked)));
    }
    for o in 0..=t.len() {
        if t.is_char_boundary(o) {
            let got = d.is_ruby_position(d.offset_to_position(o));
            if got != w.ruby[o] {
                return Err(format!("is_ruby_position at offset {o} = {got}, expected {}", w.ruby[o]));
            }
        }
    }
    let p = RubyDocument::new(url::Url::parse("file:///w/a.rb").unwrap(), t.to_string(), 1);
    if p.analysis_content() != t || !p.is_ruby_position(p.offset_to_position(0)) {
        return Err("a plain Ruby file is shown masked".into());
    }
    Ok(())
}
fn main() {
    let mut run = Run::start();
    run.rule("every template up to 7 (8 thorough) symbols over {<, %, >, -, =, #, newline, a} and up to 5 (6) over {<%, %>, <%=, <%-, -%>, <%#, <%%, é, CR, newline, x, space}; seeded longer mixes; oracle: independent tag reader; also through RubyDocument with a replaced text");
    let mut prev = String::from("<% x %>");
    for (al, max) in [
        (vec!["<", "%", ">", "-", "=", "#", "\n", "a"], run.scale(6, 8)),
        (vec!["<%", "%>", "<%=", "<%-", "-%>", "<%#", "<%%", "é", "\r", "\n", "x", " "], run.scale(5, 6)),
    ] {
        for len in 0..=max {
            let mut ix = vec![0usize; len];
            'all: loop {
                let t: String = ix.iter().map(|i| al[*i]).collect();
                let nt = t.contains("<%");
                run.case("C02 mask", &t, nt, || format!("template {t:?}"), || check(&t));
                if nt && len < max {
                    let p = prev.clone();
                    run.case("C02 document view", &(&t, 1), nt, || format!("template {t:?} replacing {p:?}"), || check_doc(&t, &p));
                    prev = t;
                }
                if run.stop() {
                    run.finish();
                }
                let mut k = len;
                loop {
                    if k == 0 {
                        break 'all;
                    }
                    k -= 1;
                    ix[k] += 1;
                    if ix[k] < al.len() {
                        break;
                    }
                    ix[k] = 0;
                }
            }
        }
    }
    let al = ["<%", "%>", "<%=", "<%-", "<%-=", "-%>", "<%#", "<%%", "%%>", "é", "😀", "\r\n", "\n", "x = 1", " ", "<", ">", "%", "-", "=", "<p>", "if a"];
    for _ in 0..run.scale(20000, 300000) {
        let len = run.rng.range(3, 40);
        let t: String = (0..len).map(|_| *run.rng.pick(&al)).collect();
        run.case("C02 mask", &t, true, || format!("template {t:?}"), || check(&t));
        let p = prev.clone();
        run.case("C02 document view", &(&t, 1), true, || format!("template {t:?} replacing {p:?}"), || check_doc(&t, &p));
        if run.stop() {
            break;
        }
        prev = t;
    }
    run.finish()
}
