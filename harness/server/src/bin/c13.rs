//! C13 on the compiled code: the semantic tokens and selection ranges the server answers for generated
//! programs, decoded by the protocol's rules and compared with the syntax tree.
use ruby_analysis::indexer::RubyDocument;
use ruby_fast_lsp::capabilities::selection_ranges::handle_selection_ranges;
use ruby_fast_lsp::capabilities::semantic_tokens::{get_semantic_tokens_full, get_semantic_tokens_options};
use ruby_fast_lsp::server::RubyLanguageServer;
use ruby_prism::{Node, Visit};
use std::sync::Arc;
use tower_lsp::lsp_types::{Position, SelectionRange, SelectionRangeParams, SemanticTokensResult, TextDocumentIdentifier, Url};
use vcommon::{ruby, Rng, Run};

type R = Result<(), String>;
/// start, end, kind (v variable, d declared variable, c constant, m call), in bytes
#[derive(Default)]
struct Tree { valid: bool, marks: Vec<(usize, usize, char)>, extents: Vec<(usize, usize)> }
fn at(l: &ruby_prism::Location) -> (usize, usize) { (l.start_offset(), l.end_offset()) }
impl Tree {
    fn mark(&mut self, l: &ruby_prism::Location, kind: char) { self.marks.push((l.start_offset(), l.end_offset(), kind)) }
    fn node(&mut self, n: Node<'_>) {
        self.extents.push(at(&n.location()));
        if let Some(l) = n.as_call_node().and_then(|n| n.message_loc()) { self.extents.push(at(&l)) }
        if let Some(n) = n.as_def_node() { self.extents.push(at(&n.name_loc())) }
        if let Some(n) = n.as_local_variable_write_node() { self.extents.push(at(&n.name_loc())) }
        if let Some(n) = n.as_constant_write_node() { self.extents.push(at(&n.name_loc())) }
        if let Some(n) = n.as_instance_variable_write_node() { self.extents.push(at(&n.name_loc())) }
        if let Some(n) = n.as_class_variable_write_node() { self.extents.push(at(&n.name_loc())) }
        if let Some(n) = n.as_global_variable_write_node() { self.extents.push(at(&n.name_loc())) }
    }
}
macro_rules! marks { ($($f:ident $g:path, $t:ident, $l:ident, $k:literal;)*) => { $(fn $f(&mut self, n: &ruby_prism::$t<'pr>) { self.mark(&n.$l(), $k); $g(self, n); })* } }
impl<'pr> Visit<'pr> for Tree {
    fn visit_branch_node_enter(&mut self, n: Node<'pr>) { self.node(n) }
    fn visit_leaf_node_enter(&mut self, n: Node<'pr>) { self.node(n) }
    fn visit_call_node(&mut self, n: &ruby_prism::CallNode<'pr>) {
        if let Some(l) = n.message_loc() { let s = l.as_slice(); if !(s.starts_with(b"[") && (s.ends_with(b"]") || s.ends_with(b"]="))) { self.mark(&l, 'm') } }
        ruby_prism::visit_call_node(self, n);
    }
    marks! {
        visit_local_variable_write_node ruby_prism::visit_local_variable_write_node, LocalVariableWriteNode, name_loc, 'd';
        visit_local_variable_and_write_node ruby_prism::visit_local_variable_and_write_node, LocalVariableAndWriteNode, name_loc, 'd';
        visit_local_variable_or_write_node ruby_prism::visit_local_variable_or_write_node, LocalVariableOrWriteNode, name_loc, 'd';
        visit_local_variable_operator_write_node ruby_prism::visit_local_variable_operator_write_node, LocalVariableOperatorWriteNode, name_loc, 'd';
        visit_local_variable_target_node ruby_prism::visit_local_variable_target_node, LocalVariableTargetNode, location, 'd';
        visit_local_variable_read_node ruby_prism::visit_local_variable_read_node, LocalVariableReadNode, location, 'v';
        visit_block_local_variable_node ruby_prism::visit_block_local_variable_node, BlockLocalVariableNode, location, 'v';
        visit_constant_path_node ruby_prism::visit_constant_path_node, ConstantPathNode, name_loc, 'c';
        visit_constant_read_node ruby_prism::visit_constant_read_node, ConstantReadNode, location, 'c';
    }
}
/// line and UTF-16 column of a byte offset, counted from the text
fn place(s: &str, o: usize) -> (u32, u32) { let t = &s[..o]; let a = t.rfind('\n').map_or(0, |i| i + 1); (t.matches('\n').count() as u32, t[a..].encode_utf16().count() as u32) }
fn units(s: &str) -> u32 { s.encode_utf16().count() as u32 }
fn open(server: &RubyLanguageServer, uri: &Url, text: &str) { server.docs.lock().insert(uri.clone(), Arc::new(parking_lot::RwLock::new(RubyDocument::new(uri.clone(), text.into(), 1)))); }
fn tree(server: &RubyLanguageServer, uri: &Url) -> Tree { let d = server.docs.lock()[uri].clone(); let d = d.read(); let p = d.parse(); let mut t = Tree { valid: p.errors().next().is_none(), ..Tree::default() }; t.visit(&p.node()); t }
fn tokens(server: &RubyLanguageServer, uri: &Url, text: &str, names: &[String]) -> R {
    open(server, uri, text);
    let SemanticTokensResult::Tokens(r) = get_semantic_tokens_full(server, uri.clone()) else { return Err("partial".into()) };
    let Tree { marks, valid, .. } = tree(server, uri);
    let mut want: Vec<((u32, u32), u32, char)> = marks.iter().map(|&(a, b, k)| (place(text, a), units(&text[a..b]), k)).collect();
    want.sort();
    let (mut line, mut col) = (0u32, 0u32);
    let mut got = vec![];
    for t in &r.data {
        // the protocol's decoding
        line = line.checked_add(t.delta_line).ok_or("a line beyond any file")?;
        col = if t.delta_line == 0 { col.checked_add(t.delta_start).ok_or(format!("a column beyond any line: {t:?}"))? } else { t.delta_start };
        let k = match names.get(t.token_type as usize).map(String::as_str) { Some("variable") if t.token_modifiers_bitset == 1 => 'd', Some("variable") => 'v', Some("class") => 'c', Some("method" | "macro") => 'm', x => return Err(format!("token type {x:?}")) };
        got.push(((line, col), t.length, k));
    }
    let mut sorted = got.clone(); sorted.sort();
    if got.windows(2).any(|w| w[0].0 > w[1].0) { return Err(format!("out of order: {got:?}")) }
    if sorted != want { return Err(format!("tokens {sorted:?}\nthe tree has {want:?}")) }
    if valid { if let Some(w) = got.windows(2).find(|w| w[0].0 .0 == w[1].0 .0 && w[0].0 .1 + w[0].1 > w[1].0 .1) { return Err(format!("tokens overlap in a valid program: {w:?}")) } }
    Ok(())
}
fn selections(rt: &tokio::runtime::Runtime, server: &RubyLanguageServer, uri: &Url, text: &str, rng: &mut Rng) -> R {
    open(server, uri, text);
    let bounds: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    let offs: Vec<usize> = (0..rng.range(1, 6)).map(|_| *rng.pick(&bounds)).collect();
    let positions = offs.iter().map(|&o| { let (l, c) = place(text, o); Position::new(l, c) }).collect();
    let p = SelectionRangeParams { text_document: TextDocumentIdentifier { uri: uri.clone() }, positions, work_done_progress_params: Default::default(), partial_result_params: Default::default() };
    let r = rt.block_on(handle_selection_ranges(server, p)).ok_or("no answer")?;
    if r.len() != offs.len() { return Err(format!("{} answers to {} positions", r.len(), offs.len())) }
    let t = tree(server, uri);
    for (o, s) in offs.iter().zip(&r) {
        let mut all: Vec<(usize, usize)> = t.extents.iter().copied().filter(|e| e.0 <= *o && *o < e.1).collect();
        all.sort_by_key(|e| (e.1 - e.0, usize::MAX - e.0)); all.dedup();
        let mut want: Vec<(usize, usize)> = vec![];
        for e in &all { if want.last().is_none_or(|i| e.0 <= i.0 && i.1 <= e.1) { want.push(*e) } }
        if want.is_empty() { want.push((*o, *o)) }
        let mut got = vec![]; let mut at: Option<&SelectionRange> = Some(s);
        while let Some(x) = at { got.push(((x.range.start.line, x.range.start.character), (x.range.end.line, x.range.end.character))); at = x.parent.as_deref(); }
        for w in got.windows(2) { if w[0] == w[1] || w[1].0 > w[0].0 || w[1].1 < w[0].1 { return Err(format!("at byte {o}: {:?} is not around {:?}", w[1], w[0])) } }
        let want: Vec<_> = want.iter().map(|e| (place(text, e.0), place(text, e.1))).collect();
        if got != want { return Err(format!("at byte {o}: ranges {got:?}\nthe tree has {want:?}")) }
    }
    Ok(())
}
const FIXED: [&str; 12] = ["x = 1\nnot x\n", "x = 0\nx += 1 while x < 3\n", "x = 1\nx += 1 until x == 3\n", "x = 1\nfoo(<<~A, x)\n  #{x} é\nA\n", "x = []\n!x\n", "s = 'a'\n/(?<y>.)/ =~ s\ny\n", "begin\n  a = 1\nend while a\n", "a = 1\ncase a\nin {a:} if a\n a\nend\n", "é = 1\nputs '😀', é; é.foo\n", "", "x = -> (a, b = a) { not a }\n", "foo a do |x; y| not y end\n"];
fn main() {
    let mut run = Run::start();
    run.rule("generated Ruby programs over every construct that binds, reads or nests names (modifiers, `not`, heredocs, patterns, blocks, definitions, non-ASCII text, CRLF), the same with characters lost, doubled or replaced, and as ERB templates: the answer to textDocument/semanticTokens/full decoded as the protocol says and compared with the names in the syntax tree; the answer to textDocument/selectionRange compared with the extents of the syntax nodes");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let server = RubyLanguageServer::default();
    let legend = get_semantic_tokens_options().legend;
    let names: Vec<String> = legend.token_types.iter().map(|t| t.as_str().to_string()).collect();
    run.case("C13 the legend", &0, true, || format!("{legend:?}"), || if legend.token_modifiers.first().map(|m| m.as_str()) == Some("declaration") { Ok(()) } else { Err("modifier 0".into()) });
    let rb = Url::parse("file:///p/a.rb").unwrap(); let eb = Url::parse("file:///p/a.html.erb").unwrap();
    for t in FIXED { let mut r = Rng::new(1); run.case("C13 semantic tokens", &t, true, || t.to_string(), || tokens(&server, &rb, t, &names)); run.case("C13 selection ranges", &t, true, || t.to_string(), || selections(&rt, &server, &rb, t, &mut r)); }
    for _ in 0..run.scale(12_000, 300_000) {
        let fuel = run.rng.range(3, 30);
        let mut text = ruby::program(&mut run.rng, fuel);
        let kind = run.rng.below(6);
        if kind == 0 { let b = ruby::broken(&mut run.rng, &text); if !ruby::may_match(&b) { text = b } }
        let uri = if kind == 1 && !ruby::may_match(&text) { text = ruby::erb(&mut run.rng, &text); &eb } else { &rb };
        let mut r = Rng::new(run.rng.next());
        run.case("C13 semantic tokens", &text, text.len() > 8, || format!("{uri}\n{text}"), || tokens(&server, uri, &text, &names));
        run.case("C13 selection ranges", &text, text.len() > 8, || format!("{uri}\n{text}"), || selections(&rt, &server, uri, &text, &mut r));
        if run.stop() { break; }
    }
    run.finish()
}
