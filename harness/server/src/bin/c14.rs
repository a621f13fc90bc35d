//! C14 on the compiled code: the edits of renaming a local variable, compared with the variable's occurrences,
//! and the edited program with the program before.
use ruby_analysis::indexer::{RenameVisitor, RubyDocument};
use ruby_fast_lsp::capabilities::rename::{handle_prepare_rename, handle_rename};
use ruby_fast_lsp::server::RubyLanguageServer;
use ruby_prism::{Node, Visit};
use std::sync::Arc;
use tower_lsp::lsp_types::{Position, PrepareRenameResponse, RenameParams, TextDocumentIdentifier, TextDocumentPositionParams, Url};
use vcommon::{ruby, Rng, Run};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Plain, Short, Fixed }
/// one place that names a local variable: bytes, name, the scope that declares it
#[derive(Clone, Debug)]
struct Occ { a: usize, b: usize, name: String, scope: usize, kind: Kind, key: usize }
#[derive(Default)]
struct Tree { valid: bool, scopes: Vec<usize>, made: usize, occs: Vec<Occ>, shape: Vec<(String, u32)> }
impl Tree {
    fn node(&mut self, n: Node<'_>) { if n.as_implicit_node().is_none() { self.shape.push((format!("{:?}", std::mem::discriminant(&n)), 0)) } }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) { self.made += 1; self.scopes.push(self.made); f(self); self.scopes.pop(); }
    fn occ(&mut self, name: &[u8], depth: u32, l: &ruby_prism::Location, kind: Kind) {
        let scope = self.scopes[self.scopes.len() - 1 - depth as usize];
        self.shape.push((String::from_utf8_lossy(name).into(), depth + 1));
        self.occs.push(Occ { a: l.start_offset(), b: l.end_offset(), name: String::from_utf8_lossy(name).into(), scope, kind, key: 0 });
    }
}
macro_rules! occs { ($($f:ident, $t:ident, $l:ident;)*) => { $(fn $f(&mut self, n: &ruby_prism::$t<'pr>) { self.occ(n.name().as_slice(), n.depth(), &n.$l(), Kind::Plain); ruby_prism::$f(self, n); })* } }
macro_rules! params { ($($f:ident, $t:ident, $l:ident, $k:ident;)*) => { $(fn $f(&mut self, n: &ruby_prism::$t<'pr>) { self.occ(n.name().as_slice(), 0, &n.$l(), Kind::$k); ruby_prism::$f(self, n); })* } }
macro_rules! rests { ($($f:ident, $t:ident;)*) => { $(fn $f(&mut self, n: &ruby_prism::$t<'pr>) { if let (Some(x), Some(l)) = (n.name(), n.name_loc()) { self.occ(x.as_slice(), 0, &l, Kind::Plain) } ruby_prism::$f(self, n); })* } }
impl<'pr> Visit<'pr> for Tree {
    fn visit_branch_node_enter(&mut self, n: Node<'pr>) { self.node(n) }
    fn visit_leaf_node_enter(&mut self, n: Node<'pr>) { self.node(n) }
    fn visit_def_node(&mut self, n: &ruby_prism::DefNode<'pr>) { if let Some(r) = n.receiver() { self.visit(&r) } self.scoped(|s| { if let Some(p) = n.parameters() { s.visit(&p.as_node()) } if let Some(b) = n.body() { s.visit(&b) } }) }
    fn visit_class_node(&mut self, n: &ruby_prism::ClassNode<'pr>) { self.visit(&n.constant_path()); if let Some(r) = n.superclass() { self.visit(&r) } self.scoped(|s| if let Some(b) = n.body() { s.visit(&b) }) }
    fn visit_module_node(&mut self, n: &ruby_prism::ModuleNode<'pr>) { self.visit(&n.constant_path()); self.scoped(|s| if let Some(b) = n.body() { s.visit(&b) }) }
    fn visit_singleton_class_node(&mut self, n: &ruby_prism::SingletonClassNode<'pr>) { self.visit(&n.expression()); self.scoped(|s| if let Some(b) = n.body() { s.visit(&b) }) }
    fn visit_block_node(&mut self, n: &ruby_prism::BlockNode<'pr>) { self.scoped(|s| ruby_prism::visit_block_node(s, n)) }
    fn visit_lambda_node(&mut self, n: &ruby_prism::LambdaNode<'pr>) { self.scoped(|s| ruby_prism::visit_lambda_node(s, n)) }
    fn visit_implicit_node(&mut self, n: &ruby_prism::ImplicitNode<'pr>) {
        let from = self.occs.len();
        self.visit(&n.value());
        for o in &mut self.occs[from..] { o.kind = Kind::Short; o.b = n.location().end_offset(); o.key = o.a + o.name.len() + 1; }
    }
    fn visit_numbered_parameters_node(&mut self, n: &ruby_prism::NumberedParametersNode<'pr>) { for i in 1..=n.maximum() { self.occ(format!("_{i}").as_bytes(), 0, &n.location(), Kind::Fixed) } }
    occs! {
        visit_local_variable_write_node, LocalVariableWriteNode, name_loc;
        visit_local_variable_and_write_node, LocalVariableAndWriteNode, name_loc;
        visit_local_variable_or_write_node, LocalVariableOrWriteNode, name_loc;
        visit_local_variable_operator_write_node, LocalVariableOperatorWriteNode, name_loc;
        visit_local_variable_target_node, LocalVariableTargetNode, location;
        visit_local_variable_read_node, LocalVariableReadNode, location;
    }
    params! {
        visit_required_parameter_node, RequiredParameterNode, location, Plain;
        visit_optional_parameter_node, OptionalParameterNode, name_loc, Plain;
        visit_block_local_variable_node, BlockLocalVariableNode, location, Plain;
        visit_required_keyword_parameter_node, RequiredKeywordParameterNode, name_loc, Fixed;
        visit_optional_keyword_parameter_node, OptionalKeywordParameterNode, name_loc, Fixed;
    }
    rests! { visit_rest_parameter_node, RestParameterNode; visit_keyword_rest_parameter_node, KeywordRestParameterNode; visit_block_parameter_node, BlockParameterNode; }
}
fn tree(d: &RubyDocument) -> Tree { let p = d.parse(); let mut t = Tree { valid: p.errors().next().is_none(), scopes: vec![0], ..Tree::default() }; t.visit(&p.node()); t }
fn place(s: &str, o: usize) -> Position { let t = &s[..o]; let a = t.rfind('\n').map_or(0, |i| i + 1); Position::new(t.matches('\n').count() as u32, t[a..].encode_utf16().count() as u32) }
const NEW: &str = "zz_neu9";
fn rename(rt: &tokio::runtime::Runtime, server: &RubyLanguageServer, uri: &Url, text: &str, o: usize, whole: bool) -> Result<(), String> {
    let d = RubyDocument::new(uri.clone(), text.into(), 1);
    let t = tree(&d);
    server.docs.lock().insert(uri.clone(), Arc::new(parking_lot::RwLock::new(d)));
    let at = TextDocumentPositionParams { text_document: TextDocumentIdentifier { uri: uri.clone() }, position: place(text, o) };
    let target = t.occs.iter().find(|x| x.kind != Kind::Fixed && x.a <= o && o < x.b);
    let same: Vec<&Occ> = match target { Some(x) => t.occs.iter().filter(|y| y.name == x.name && y.scope == x.scope).collect(), None => vec![] };
    let same = if same.iter().any(|x| x.kind == Kind::Fixed) { vec![] } else { same };
    let mut want: Vec<(usize, usize)> = same.iter().map(|x| if x.kind == Kind::Short { (x.key, x.key) } else { (x.a, x.b) }).collect();
    want.sort();
    // where there is nothing to rename, the server goes on to look for methods and constants, which reads strings
    // through the parser's binding: undefined for those the parser left without text (debug builds abort)
    if want.is_empty() && !whole {
        let d = RubyDocument::new(uri.clone(), text.into(), 1); let p = d.parse();
        let got = RenameVisitor::find_rename_targets(d.analysis_file_id(), o, &p.node());
        return if got.is_empty() { Ok(()) } else { Err(format!("at byte {o}: edits {got:?}")) };
    }
    let r = rt.block_on(handle_rename(server, RenameParams { text_document_position: at.clone(), new_name: NEW.into(), work_done_progress_params: Default::default() }));
    let edits = r.and_then(|r| r.changes).unwrap_or_default();
    let mut edits = match edits.len() { 0 => vec![], 1 => edits.into_iter().next().filter(|e| e.0 == *uri).ok_or("edits in another file")?.1, n => return Err(format!("edits in {n} files")) };
    edits.sort_by_key(|e| e.range.start);
    if let Some(e) = edits.iter().find(|e| e.new_text != NEW) { return Err(format!("the text of {e:?}")) }
    let got: Vec<(Position, Position)> = edits.iter().map(|e| (e.range.start, e.range.end)).collect();
    let wanted: Vec<(Position, Position)> = want.iter().map(|w| (place(text, w.0), place(text, w.1))).collect();
    if got != wanted { return Err(format!("at byte {o} ({:?}): edits {got:?}\nthe variable is at {wanted:?}", target.map(|t| &t.name))) }
    let plain = target.filter(|x| x.kind == Kind::Plain && !want.is_empty());
    let prepared = match rt.block_on(handle_prepare_rename(server, at)) { Some(PrepareRenameResponse::Range(r)) => Some((r.start, r.end)), None => None, x => return Err(format!("prepared {x:?}")) };
    if prepared != plain.map(|x| (place(text, x.a), place(text, x.b))) { return Err(format!("at byte {o}: prepared {prepared:?}")) }
    if want.is_empty() || !t.valid { return Ok(()) }
    // the edited program is the same program
    let mut after = text.to_string();
    for w in want.iter().rev() { after.replace_range(w.0..w.1, NEW) }
    let u = tree(&RubyDocument::new(uri.clone(), after.clone(), 2));
    if !u.valid { return Err(format!("the edited program is not valid:\n{after}")) }
    if u.occs.len() != t.occs.len() { return Err(format!("the edited program names variables at {} places, not {}:\n{after}", u.occs.len(), t.occs.len())) }
    for (x, y) in t.occs.iter().zip(&u.occs) {
        let renamed = same.iter().any(|s| std::ptr::eq(*s, x));
        if y.scope != x.scope || y.name != if renamed { NEW } else { x.name.as_str() } { return Err(format!("{x:?} became {y:?} in\n{after}")) }
    }
    let old = &target.unwrap().name;
    if t.shape.len() != u.shape.len() || t.shape.iter().zip(&u.shape).any(|(x, y)| x.1 != y.1 || (x.0 != y.0 && !(x.0 == *old && y.0 == NEW))) { return Err(format!("the edited program has another structure:\n{after}")) }
    Ok(())
}
const FIXED: [&str; 19] = ["foo { |a, k: (bar do\n  def A.y(b)\n    c = { k: 1, b&.then => b }\n  end\nend; a)| a }\n", "class A < (foo do\n  def y\n    b&.then => b\n  end\nend)\n  x\nend\n", "def self.foo(a = b) = a\n", "x = 1\nclass << x\n  x = 2\n  x\nend\nx\n", "x = A\nclass Foo < x\n  x = 1\nend\n", "x = A\ndef x.foo(x) = x\nx\n", "x = 1\nfoo { |;x| x = 2 }\nx\n", "def m(x:)\n  x\nend\n", "x = 1\nfoo(x:, y: x)\n", "foo { _1 + _1 }\n", "case h\nin {x:}\n  x\nend\n", "x = 1\nfoo { |a; x| foo { x } }\nx\n", "x = A\nmodule x::B\n  x = 1\nend\n", "x = 1\nfoo { |y = x, *x| x }\n", "/(?<x>.)/ =~ s\nx\n", "x = 1\n-> (x; y) { x; y }\nx\n", "h => {x:}\nfoo x:\n", "def f(a, (b, *c), d = a, *e, g: d, **h, &i)\n  [a, b, c, d, e, g, h, i]\nend\n", "x = 1; x += x while x < 3; x &&= x; x ||= x\nfor x in [x] do x end\n"];
fn main() {
    let mut run = Run::start();
    run.rule("generated Ruby programs over every construct that binds, reads or nests names, some broken, some as ERB templates, and every occurrence of a local variable in 19 fixed ones: the edits of textDocument/rename at a place in the program compared with the occurrences of the variable found by an independent walk; the edited program compared with the program before, node by node");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let server = RubyLanguageServer::default();
    let rb = Url::parse("file:///p/a.rb").unwrap(); let eb = Url::parse("file:///p/a.html.erb").unwrap();
    for t in FIXED { for o in 0..=t.len() { run.case("C14 renaming", &(t, o), true, || format!("byte {o} of\n{t}"), || rename(&rt, &server, &rb, t, o, true)); } }
    for _ in 0..run.scale(9_000, 200_000) {
        let fuel = run.rng.range(3, 30);
        let mut text = ruby::program(&mut run.rng, fuel);
        let kind = run.rng.below(8);
        if kind == 0 { let b = ruby::broken(&mut run.rng, &text); if !ruby::may_match(&b) { text = b } }
        let uri = if kind == 1 && !ruby::may_match(&text) { text = ruby::erb(&mut run.rng, &text); &eb } else { &rb };
        let occs = tree(&RubyDocument::new(uri.clone(), text.clone(), 1)).occs;
        let mut r = Rng::new(run.rng.next());
        for _ in 0..3 {
            let o = if occs.is_empty() || r.chance(1, 8) { let mut o = r.below(text.len() + 1); while !text.is_char_boundary(o) { o -= 1 } o } else { let x = r.pick(&occs); *r.pick(&[x.a, x.a, x.b]) };
            run.case("C14 renaming", &(&text, o), true, || format!("{uri}\nbyte {o} of\n{text}"), || rename(&rt, &server, uri, &text, o, false));
        }
        if run.stop() { break; }
    }
    run.finish()
}
