//! C01 on the compiled code: SourceDocument, RubyDocument and engine SourceFile conversions.
use ruby_analysis::core::{SourceFileId, SourceKind, SourcePosition, SourceRange, TextRange};
use ruby_analysis::engine::{AnalysisEngine, SourceFileInput};
use ruby_analysis::indexer::{RubyDocument, SourceDocument};
use std::path::PathBuf;
use vcommon::Run;

/// (line, utf16 character) of the char boundary at or before `o`, computed char by char.
fn pos(t: &str, o: usize) -> (u32, u32) {
    let (mut l, mut c) = (0, 0);
    for (i, ch) in t.char_indices() {
        if i + ch.len_utf8() > o {
            break;
        }
        if ch == '\n' {
            l += 1;
            c = 0;
        } else {
            c += if (ch as u32) > 0xFFFF { 2 } else { 1 };
        }
    }
    (l, c)
}
fn back(t: &str, line: u32, character: u32) -> usize {
    let mut l = 0;
    let mut c = 0u64;
    let mut it = t.char_indices();
    if line > 0 {
        loop {
            match it.next() {
                None => return t.len(),
                Some((_, '\n')) => {
                    l += 1;
                    if l == line {
                        break;
                    }
                }
                _ => {}
            }
        }
    }
    let rest = it.as_str();
    let start = t.len() - rest.len();
    let mut o = start;
    for ch in rest.chars() {
        if ch == '\n' {
            break;
        }
        let w = if (ch as u32) > 0xFFFF { 2 } else { 1 };
        if c + w > character as u64 {
            break;
        }
        c += w;
        o += ch.len_utf8();
    }
    o
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}
fn check(t: &str, prev: &str) -> Result<(), String> {
    let doc = SourceDocument::new(t, SourceFileId(3));
    let mut upd = SourceDocument::new(prev, SourceFileId(3));
    upd.update(t);
    let uri = url::Url::parse("file:///w/a.rb").unwrap();
    let mut rd = RubyDocument::with_analysis_file_id(uri, prev.to_string(), 1, SourceFileId(3));
    rd.update(t.to_string(), 2);
    let lines = t.matches('\n').count() as u32;
    for o in (0..=t.len() + 2).chain([usize::MAX]) {
        let want = pos(t, o);
        eq(&format!("offset_to_line_character({o})"), doc.offset_to_line_character(t, o), want)?;
        eq(&format!("after update: offset_to_line_character({o})"), upd.offset_to_line_character(t, o), want)?;
        let p = rd.offset_to_position(o);
        eq(&format!("RubyDocument::offset_to_position({o})"), (p.line, p.character), want)?;
        if o <= t.len() && t.is_char_boundary(o) {
            eq(&format!("round trip of offset {o}"), doc.line_character_to_offset(t, want.0, want.1), o)?;
            eq(&format!("RubyDocument round trip of offset {o}"), rd.position_to_offset(p), o)?;
            let r = rd.text_range_to_source_range(TextRange::new(SourceFileId(3), 0, o as u32));
            eq("text_range_to_source_range", r, SourceRange::new(SourcePosition::new(0, 0), SourcePosition::new(want.0, want.1)))?;
            let tr = rd.source_range_to_text_range(r);
            eq("source_range_to_text_range", (tr.file_id, tr.start_byte, tr.end_byte), (SourceFileId(3), 0, o as u32))?;
        }
    }
    for l in (0..lines + 3).chain([u32::MAX]) {
        for c in (0..t.len() as u32 + 2).chain([u32::MAX]) {
            let want = back(t, l, c);
            eq(&format!("line_character_to_offset({l},{c})"), doc.line_character_to_offset(t, l, c), want)?;
            eq(&format!("after update: line_character_to_offset({l},{c})"), upd.line_character_to_offset(t, l, c), want)?;
            eq(&format!("RubyDocument::position_to_offset({l},{c})"), rd.position_to_offset(SourcePosition::new(l, c)), want)?;
            eq(&format!("position_to_analysis_offset({l},{c})"), rd.position_to_analysis_offset(SourcePosition::new(l, c)) as usize, want)?;
        }
    }
    Ok(())
}
fn check_engine(engine: &mut AnalysisEngine, t: &str, how: usize) -> Result<(), String> {
    let path = PathBuf::from("/w/a.rb");
    let id = if how == 0 {
        engine.register_file(SourceFileInput { path, content: t.to_string(), kind: SourceKind::Project })
    } else {
        engine.register_file_borrowed(path, t, SourceKind::Project)
    };
    let f = engine.file(id).ok_or("registered file is missing")?;
    for o in 0..=t.len() + 2 {
        let want = if o <= t.len() && t.is_char_boundary(o) { Some(pos(t, o)) } else { None };
        eq(&format!("SourceFile::byte_offset_to_line_character({o})"), f.byte_offset_to_line_character(o as u32), want)?;
    }
    Ok(())
}
fn main() {
    let mut run = Run::start();
    run.rule("every text up to length 6 (7 thorough) over {a, newline, CR, é, あ, 😀}, every offset and position, also after replacing another text; seeded longer texts; oracle: char-by-char reference");
    let al = ['a', '\n', '\r', 'é', 'あ', '😀'];
    let max = run.scale(6, 7);
    let mut engine = AnalysisEngine::new();
    let mut prev = String::from("x\ny");
    let mut count = 0usize;
    for len in 0..=max {
        let mut ix = vec![0usize; len];
        'all: loop {
            let t: String = ix.iter().map(|i| al[*i]).collect();
            count += 1;
            let p = prev.clone();
            let nt = t.contains('\n') && t.len() > 2;
            run.case("C01 document positions", &t, nt, || format!("text {t:?} (replacing {p:?})"), || check(&t, &p));
            run.case("C01 engine file positions", &(&t, 1), nt, || format!("text {t:?}"), || check_engine(&mut engine, &t, count % 2));
            if run.stop() {
                run.finish();
            }
            if count % 7 == 0 {
                prev = t;
            }
            let mut k = len;
            loop {
                if k == 0 {
                    break 'all;
                }
                k -= 1;
                ix[k] += 1;
                if ix[k] < al.len() {
                    break;
                }
                ix[k] = 0;
            }
        }
    }
    let wide = ['a', 'z', ' ', '\n', '\n', '\r', '\t', 'é', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{85}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\0'];
    let n = run.scale(4000, 60000);
    for _ in 0..n {
        let len = if run.rng.chance(1, 10) { run.rng.range(40, 120) } else { run.rng.range(5, 30) };
        let t: String = (0..len).map(|_| *run.rng.pick(&wide)).collect();
        let p = prev.clone();
        run.case("C01 document positions", &t, true, || format!("text {t:?} (replacing {p:?})"), || check(&t, &p));
        run.case("C01 engine file positions", &(&t, 1), true, || format!("text {t:?}"), || check_engine(&mut engine, &t, len % 2));
        if run.stop() {
            break;
        }
        prev = t;
    }
    run.finish()
}
