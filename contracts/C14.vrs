// C14: renaming a local variable edits exactly its occurrences.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[verifier::external_body]
fn vp_abort() -> ! { panic!() }
fn vp_check(c: bool) requires c {}
/// u32::try_from(n).expect(..): aborts on a text of 4 GiB or more
fn vp_u32(n: usize) -> (r: u32) ensures r == n { if n > u32::MAX as usize { vp_abort() } n as u32 }
/// n + 1; a tree has fewer than 2^64 scopes
fn vp_succ(n: usize) -> (r: usize) ensures r == n + 1 { if n == usize::MAX { vp_abort() } n + 1 }
//@struct crates/ruby-analysis/src/core/type_store.rs :: SourceFileId ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/core/type_store.rs :: TextRange ; derive Clone, Copy, PartialEq, Eq, Structural
impl TextRange {
//@fn crates/ruby-analysis/src/core/type_store.rs :: TextRange::new
//@ sig fn new(file_id: SourceFileId, start_byte: u32, end_byte: u32) -> (r: Self)
//@ rewrite? assert!($c:a, $m:a); ==> vp_check($c);
//@ spec
    requires start_byte <= end_byte
    ensures r.file_id == file_id, r.start_byte == start_byte, r.end_byte == end_byte
//@end
}
// ---- names and places, as the parser gives them ----
/// the name of a local variable: the source is UTF-8, so its bytes are a text
uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] fn vp_name(b: &[u8]) -> (r: String) ensures r@ == text_of(b@) { String::from_utf8_lossy(b).to_string() }
#[verifier::external_body] fn vp_same(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn vp_is_name(n: &Option<String>, b: &[u8]) -> (r: bool) ensures r == (n is Some && n->Some_0@ == text_of(b@)) { n.as_deref().map(str::as_bytes) == Some(b) }
#[verifier::external_body] fn vp_same_scope(a: Option<usize>, b: Option<usize>) -> (r: bool) ensures r == (a == b) { a == b }
#[verifier::external_body] pub struct ConstantId { _p: u8 }
impl ConstantId {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body] fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
}
#[verifier::external_body] pub struct Location { _p: u8 }
impl Location {
    uninterp spec fn a(&self) -> int;
    uninterp spec fn b(&self) -> int;
    #[verifier::external_body] fn start_offset(&self) -> (r: usize) ensures r == self.a() { unimplemented!() }
    #[verifier::external_body] fn end_offset(&self) -> (r: usize) ensures r == self.b() { unimplemented!() }
}
/// the parser's locations run forwards
#[verifier::external_body] proof fn forwards(l: Location) ensures 0 <= l.a() <= l.b() {}

// ---- what a syntax tree says about local variables, in the order of the walk ----
pub ghost enum Ev {
    /// a scope of local variables begins, ends
    Push, Pop,
    /// a variable declared `depth` scopes up is named at a..b; the new name goes to ea..eb
    Named { name: Seq<char>, depth: int, a: int, b: int, ea: int, eb: int },
    /// a parameter of the current scope whose name cannot change
    Fixed { name: Seq<char> },
}
pub ghost struct St { file: SourceFileId, cursor: usize, stack: Seq<usize>, next: int, name: Option<Seq<char>>, scope: Option<usize>, ranges: Seq<TextRange>, fixed: bool, collect: bool }
spec fn declared_in(stack: Seq<usize>, depth: int) -> Option<usize> { if depth < stack.len() { Some(stack[stack.len() - 1 - depth]) } else { None } }
spec fn edit(file: SourceFileId, ea: int, eb: int) -> TextRange { TextRange { file_id: file, start_byte: ea as u32, end_byte: eb as u32 } }
spec fn step(s: St, e: Ev) -> St {
    match e {
        Ev::Push => St { stack: s.stack.push(s.next as usize), next: s.next + 1, ..s },
        Ev::Pop => St { stack: if s.stack.len() > 0 { s.stack.drop_last() } else { s.stack }, ..s },
        Ev::Named { name, depth, a, b, ea, eb } => match declared_in(s.stack, depth) {
            None => s,
            Some(id) => if !s.collect { if s.name is None && a <= s.cursor < b { St { name: Some(name), scope: Some(id), ..s } } else { s } }
                else if s.name == Some(name) && s.scope == Some(id) { St { ranges: s.ranges.push(edit(s.file, ea, eb)), ..s } } else { s },
        },
        Ev::Fixed { name } => if s.collect && s.name == Some(name) && s.scope == declared_in(s.stack, 0) { St { fixed: true, ..s } } else { s },
    }
}
spec fn run(s: St, e: Seq<Ev>) -> St decreases e.len() { if e.len() == 0 { s } else { step(run(s, e.drop_last()), e.last()) } }
proof fn run_add(s: St, e: Seq<Ev>, f: Seq<Ev>) ensures run(s, e + f) == run(run(s, e), f) decreases f.len()
{ if f.len() == 0 { assert(e + f =~= e); } else { run_add(s, e, f.drop_last()); assert((e + f).drop_last() =~= e + f.drop_last()); } }
proof fn run_one(s: St, x: Ev) ensures run(s, seq![x]) == step(s, x) { assert(seq![x].drop_last() =~= Seq::<Ev>::empty()); reveal_with_fuel(run, 2); assert(run(s, seq![x].drop_last()) == s); assert(seq![x].last() == x); }
/// outer, a scope around p and b
spec fn scoped(o: Seq<Ev>, i: Seq<Ev>) -> Seq<Ev> { o + seq![Ev::Push] + i + seq![Ev::Pop] }
proof fn run_scoped(s: St, o: Seq<Ev>, i: Seq<Ev>) ensures run(s, scoped(o, i)) == step(run(step(run(s, o), Ev::Push), i), Ev::Pop)
{ run_add(s, o, seq![Ev::Push]); run_add(s, o + seq![Ev::Push], i); run_add(s, o + seq![Ev::Push] + i, seq![Ev::Pop]); run_one(run(s, o), Ev::Push); run_one(run(step(run(s, o), Ev::Push), i), Ev::Pop); }

// ---- the variable a place names, and its occurrences ----
/// the occurrences with the scope that declares each
pub ghost struct Occ { name: Seq<char>, scope: usize, a: int, b: int, ea: int, eb: int }
pub ghost struct Walk { stack: Seq<usize>, next: int, occs: Seq<Occ>, fixed: Seq<(Seq<char>, usize)> }
spec fn wstep(s: Walk, e: Ev) -> Walk {
    match e {
        Ev::Push => Walk { stack: s.stack.push(s.next as usize), next: s.next + 1, ..s },
        Ev::Pop => Walk { stack: if s.stack.len() > 0 { s.stack.drop_last() } else { s.stack }, ..s },
        Ev::Named { name, depth, a, b, ea, eb } => match declared_in(s.stack, depth) { None => s, Some(id) => Walk { occs: s.occs.push(Occ { name, scope: id, a, b, ea, eb }), ..s } },
        Ev::Fixed { name } => match declared_in(s.stack, 0) { None => s, Some(id) => Walk { fixed: s.fixed.push((name, id)), ..s } },
    }
}
spec fn walk(e: Seq<Ev>) -> Walk decreases e.len() { if e.len() == 0 { Walk { stack: seq![0usize], next: 1, occs: Seq::empty(), fixed: Seq::empty() } } else { wstep(walk(e.drop_last()), e.last()) } }
/// scopes begun later never share a number with one still open
spec fn fresh(w: Walk) -> bool { w.next >= 1 && (forall|i: int| 0 <= i < w.stack.len() ==> (#[trigger] w.stack[i]) < w.next) && forall|i: int, j: int| 0 <= i < j < w.stack.len() ==> (#[trigger] w.stack[i]) != (#[trigger] w.stack[j]) }
proof fn walk_fresh(e: Seq<Ev>) requires walk(e).next <= usize::MAX ensures fresh(walk(e)) decreases e.len()
{ if e.len() > 0 { walk_grows(e); walk_fresh(e.drop_last()); } }
proof fn walk_grows(e: Seq<Ev>) requires e.len() > 0 ensures walk(e.drop_last()).next <= walk(e).next {}
/// the first occurrence under the cursor
spec fn under(occs: Seq<Occ>, c: int) -> Option<Occ> decreases occs.len() {
    if occs.len() == 0 { None } else { match under(occs.drop_last(), c) { Some(o) => Some(o), None => if occs.last().a <= c < occs.last().b { Some(occs.last()) } else { None } } }
}
spec fn edits(occs: Seq<Occ>, f: SourceFileId, name: Seq<char>, scope: usize) -> Seq<TextRange> decreases occs.len() {
    if occs.len() == 0 { Seq::empty() } else { let r = edits(occs.drop_last(), f, name, scope); let o = occs.last(); if o.name == name && o.scope == scope { r.push(edit(f, o.ea, o.eb)) } else { r } }
}
spec fn names_fixed(w: Walk, name: Seq<char>, scope: usize) -> bool { exists|i: int| 0 <= i < w.fixed.len() && #[trigger] w.fixed[i] == (name, scope) }
/// the answer: the edits of every occurrence of the variable under the cursor, in the order of the walk
spec fn answer(e: Seq<Ev>, f: SourceFileId, c: int) -> Seq<TextRange> {
    let w = walk(e);
    match under(w.occs, c) { None => Seq::empty(), Some(o) => if names_fixed(w, o.name, o.scope) { Seq::empty() } else { edits(w.occs, f, o.name, o.scope) } }
}
spec fn first(f: SourceFileId, c: usize) -> St { St { file: f, cursor: c, stack: seq![0usize], next: 1, name: None, scope: None, ranges: Seq::empty(), fixed: false, collect: false } }
proof fn finding(f: SourceFileId, c: usize, e: Seq<Ev>)
    ensures ({ let s = run(first(f, c), e); let w = walk(e); s.stack == w.stack && s.next == w.next && s.ranges == Seq::<TextRange>::empty() && !s.fixed && !s.collect && s.file == f && s.cursor == c
        && (match under(w.occs, c as int) { Some(o) => s.name == Some(o.name) && s.scope == Some(o.scope), None => s.name is None && s.scope is None }) })
    decreases e.len()
{ if e.len() > 0 { finding(f, c, e.drop_last()); let w = walk(e.drop_last()); match e.last() { Ev::Named { name, depth, a, b, ea, eb } => { if declared_in(w.stack, depth) is Some { let o = Occ { name, scope: declared_in(w.stack, depth)->Some_0, a, b, ea, eb }; assert(w.occs.push(o).drop_last() =~= w.occs); } }, _ => {} } } }
proof fn collecting(s0: St, name: Seq<char>, scope: usize, e: Seq<Ev>)
    requires s0.stack == seq![0usize], s0.next == 1, s0.name == Some(name), s0.scope == Some(scope), s0.ranges == Seq::<TextRange>::empty(), !s0.fixed, s0.collect
    ensures ({ let s = run(s0, e); let w = walk(e); s.stack == w.stack && s.next == w.next && s.name == Some(name) && s.scope == Some(scope) && s.collect && s.file == s0.file && s.ranges == edits(w.occs, s0.file, name, scope) && s.fixed == names_fixed(w, name, scope) })
    decreases e.len()
{
    if e.len() > 0 {
        collecting(s0, name, scope, e.drop_last()); let v = walk(e.drop_last()); let w = walk(e);
        match e.last() {
            Ev::Named { name: n, depth, a, b, ea, eb } => { if declared_in(v.stack, depth) is Some { assert(w.occs.drop_last() =~= v.occs); } },
            Ev::Fixed { name: n } => {
                if declared_in(v.stack, 0) is Some {
                    assert(w.fixed.drop_last() =~= v.fixed); assert(w.fixed.last() == (n, declared_in(v.stack, 0)->Some_0));
                    if names_fixed(v, name, scope) { let i = choose|i: int| 0 <= i < v.fixed.len() && #[trigger] v.fixed[i] == (name, scope); assert(w.fixed[i] == (name, scope)); }
                    if names_fixed(w, name, scope) { let i = choose|i: int| 0 <= i < w.fixed.len() && #[trigger] w.fixed[i] == (name, scope); if i < v.fixed.len() { assert(v.fixed[i] == (name, scope)); } }
                }
            },
            _ => {}
        }
    }
}

// ---- the syntax tree: what each kind of node says ----
#[verifier::external_body] pub struct Node { _p: u8 }
impl Node {
    uninterp spec fn as_local_variable_read_node_(&self) -> Option<LocalVariableReadNode>;
    #[verifier::external_body] fn as_local_variable_read_node(&self) -> (r: Option<LocalVariableReadNode>) ensures r == self.as_local_variable_read_node_() { unimplemented!() }
    uninterp spec fn as_local_variable_target_node_(&self) -> Option<LocalVariableTargetNode>;
    #[verifier::external_body] fn as_local_variable_target_node(&self) -> (r: Option<LocalVariableTargetNode>) ensures r == self.as_local_variable_target_node_() { unimplemented!() }
}
uninterp spec fn said(n: Node) -> Seq<Ev>;
spec fn opt(n: Option<Node>) -> Seq<Ev> { match n { Some(n) => said(n), None => Seq::empty() } }
#[verifier::external_body] pub struct ParametersNode { _p: u8 }
impl ParametersNode {
}
uninterp spec fn said_params(n: ParametersNode) -> Seq<Ev>;
spec fn opt_params(n: Option<ParametersNode>) -> Seq<Ev> { match n { Some(n) => said_params(n), None => Seq::empty() } }
#[verifier::external_body] pub struct DefNode { _p: u8 }
impl DefNode {
    uninterp spec fn receiver_(&self) -> Option<Node>;
    #[verifier::external_body] fn receiver(&self) -> (r: Option<Node>) ensures r == self.receiver_() { unimplemented!() }
    uninterp spec fn parameters_(&self) -> Option<ParametersNode>;
    #[verifier::external_body] fn parameters(&self) -> (r: Option<ParametersNode>) ensures r == self.parameters_() { unimplemented!() }
    uninterp spec fn body_(&self) -> Option<Node>;
    #[verifier::external_body] fn body(&self) -> (r: Option<Node>) ensures r == self.body_() { unimplemented!() }
}
#[verifier::external_body] pub struct ClassNode { _p: u8 }
impl ClassNode {
    uninterp spec fn constant_path_(&self) -> Node;
    #[verifier::external_body] fn constant_path(&self) -> (r: Node) ensures r == self.constant_path_() { unimplemented!() }
    uninterp spec fn superclass_(&self) -> Option<Node>;
    #[verifier::external_body] fn superclass(&self) -> (r: Option<Node>) ensures r == self.superclass_() { unimplemented!() }
    uninterp spec fn body_(&self) -> Option<Node>;
    #[verifier::external_body] fn body(&self) -> (r: Option<Node>) ensures r == self.body_() { unimplemented!() }
}
#[verifier::external_body] pub struct ModuleNode { _p: u8 }
impl ModuleNode {
    uninterp spec fn constant_path_(&self) -> Node;
    #[verifier::external_body] fn constant_path(&self) -> (r: Node) ensures r == self.constant_path_() { unimplemented!() }
    uninterp spec fn body_(&self) -> Option<Node>;
    #[verifier::external_body] fn body(&self) -> (r: Option<Node>) ensures r == self.body_() { unimplemented!() }
}
#[verifier::external_body] pub struct SingletonClassNode { _p: u8 }
impl SingletonClassNode {
    uninterp spec fn expression_(&self) -> Node;
    #[verifier::external_body] fn expression(&self) -> (r: Node) ensures r == self.expression_() { unimplemented!() }
    uninterp spec fn body_(&self) -> Option<Node>;
    #[verifier::external_body] fn body(&self) -> (r: Option<Node>) ensures r == self.body_() { unimplemented!() }
}
#[verifier::external_body] pub struct BlockNode { _p: u8 }
impl BlockNode {
}
#[verifier::external_body] pub struct LambdaNode { _p: u8 }
impl LambdaNode {
}
#[verifier::external_body] pub struct LocalVariableReadNode { _p: u8 }
impl LocalVariableReadNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn location_(&self) -> Location;
    #[verifier::external_body] fn location(&self) -> (r: Location) ensures r == self.location_() { unimplemented!() }
    uninterp spec fn depth_(&self) -> u32;
    #[verifier::external_body] fn depth(&self) -> (r: u32) ensures r == self.depth_() { unimplemented!() }
}
#[verifier::external_body] pub struct LocalVariableWriteNode { _p: u8 }
impl LocalVariableWriteNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn name_loc_(&self) -> Location;
    #[verifier::external_body] fn name_loc(&self) -> (r: Location) ensures r == self.name_loc_() { unimplemented!() }
    uninterp spec fn depth_(&self) -> u32;
    #[verifier::external_body] fn depth(&self) -> (r: u32) ensures r == self.depth_() { unimplemented!() }
}
#[verifier::external_body] pub struct LocalVariableTargetNode { _p: u8 }
impl LocalVariableTargetNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn location_(&self) -> Location;
    #[verifier::external_body] fn location(&self) -> (r: Location) ensures r == self.location_() { unimplemented!() }
    uninterp spec fn depth_(&self) -> u32;
    #[verifier::external_body] fn depth(&self) -> (r: u32) ensures r == self.depth_() { unimplemented!() }
}
#[verifier::external_body] pub struct LocalVariableAndWriteNode { _p: u8 }
impl LocalVariableAndWriteNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn name_loc_(&self) -> Location;
    #[verifier::external_body] fn name_loc(&self) -> (r: Location) ensures r == self.name_loc_() { unimplemented!() }
    uninterp spec fn depth_(&self) -> u32;
    #[verifier::external_body] fn depth(&self) -> (r: u32) ensures r == self.depth_() { unimplemented!() }
}
#[verifier::external_body] pub struct LocalVariableOrWriteNode { _p: u8 }
impl LocalVariableOrWriteNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn name_loc_(&self) -> Location;
    #[verifier::external_body] fn name_loc(&self) -> (r: Location) ensures r == self.name_loc_() { unimplemented!() }
    uninterp spec fn depth_(&self) -> u32;
    #[verifier::external_body] fn depth(&self) -> (r: u32) ensures r == self.depth_() { unimplemented!() }
}
#[verifier::external_body] pub struct LocalVariableOperatorWriteNode { _p: u8 }
impl LocalVariableOperatorWriteNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn name_loc_(&self) -> Location;
    #[verifier::external_body] fn name_loc(&self) -> (r: Location) ensures r == self.name_loc_() { unimplemented!() }
    uninterp spec fn depth_(&self) -> u32;
    #[verifier::external_body] fn depth(&self) -> (r: u32) ensures r == self.depth_() { unimplemented!() }
}
#[verifier::external_body] pub struct RequiredParameterNode { _p: u8 }
impl RequiredParameterNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn location_(&self) -> Location;
    #[verifier::external_body] fn location(&self) -> (r: Location) ensures r == self.location_() { unimplemented!() }
}
#[verifier::external_body] pub struct OptionalParameterNode { _p: u8 }
impl OptionalParameterNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn name_loc_(&self) -> Location;
    #[verifier::external_body] fn name_loc(&self) -> (r: Location) ensures r == self.name_loc_() { unimplemented!() }
}
#[verifier::external_body] pub struct BlockLocalVariableNode { _p: u8 }
impl BlockLocalVariableNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn location_(&self) -> Location;
    #[verifier::external_body] fn location(&self) -> (r: Location) ensures r == self.location_() { unimplemented!() }
}
#[verifier::external_body] pub struct RestParameterNode { _p: u8 }
impl RestParameterNode {
    uninterp spec fn name_(&self) -> Option<ConstantId>;
    #[verifier::external_body] fn name(&self) -> (r: Option<ConstantId>) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn name_loc_(&self) -> Option<Location>;
    #[verifier::external_body] fn name_loc(&self) -> (r: Option<Location>) ensures r == self.name_loc_() { unimplemented!() }
}
#[verifier::external_body] pub struct BlockParameterNode { _p: u8 }
impl BlockParameterNode {
    uninterp spec fn name_(&self) -> Option<ConstantId>;
    #[verifier::external_body] fn name(&self) -> (r: Option<ConstantId>) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn name_loc_(&self) -> Option<Location>;
    #[verifier::external_body] fn name_loc(&self) -> (r: Option<Location>) ensures r == self.name_loc_() { unimplemented!() }
}
#[verifier::external_body] pub struct KeywordRestParameterNode { _p: u8 }
impl KeywordRestParameterNode {
    uninterp spec fn name_(&self) -> Option<ConstantId>;
    #[verifier::external_body] fn name(&self) -> (r: Option<ConstantId>) ensures r == self.name_() { unimplemented!() }
    uninterp spec fn name_loc_(&self) -> Option<Location>;
    #[verifier::external_body] fn name_loc(&self) -> (r: Option<Location>) ensures r == self.name_loc_() { unimplemented!() }
}
#[verifier::external_body] pub struct RequiredKeywordParameterNode { _p: u8 }
impl RequiredKeywordParameterNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
}
#[verifier::external_body] pub struct OptionalKeywordParameterNode { _p: u8 }
impl OptionalKeywordParameterNode {
    uninterp spec fn name_(&self) -> ConstantId;
    #[verifier::external_body] fn name(&self) -> (r: ConstantId) ensures r == self.name_() { unimplemented!() }
}
#[verifier::external_body] pub struct NumberedParametersNode { _p: u8 }
impl NumberedParametersNode {
    uninterp spec fn maximum_(&self) -> u8;
    #[verifier::external_body] fn maximum(&self) -> (r: u8) ensures r == self.maximum_() { unimplemented!() }
}
#[verifier::external_body] pub struct ImplicitNode { _p: u8 }
impl ImplicitNode {
    uninterp spec fn value_(&self) -> Node;
    #[verifier::external_body] fn value(&self) -> (r: Node) ensures r == self.value_() { unimplemented!() }
    uninterp spec fn location_(&self) -> Location;
    #[verifier::external_body] fn location(&self) -> (r: Location) ensures r == self.location_() { unimplemented!() }
}
spec fn named(name: Seq<u8>, depth: int, l: Location) -> Ev { Ev::Named { name: text_of(name), depth, a: l.a(), b: l.b(), ea: l.a(), eb: l.b() } }
#[verifier::external_body] fn vp_numbered(n: u8) -> (r: Vec<u8>) ensures text_of(r@) == numbered(n as int) { format!("_{n}").into_bytes() }
/// the text of `_n`
uninterp spec fn numbered(n: int) -> Seq<char>;
spec fn numbers(n: int) -> Seq<Ev> decreases n { if n <= 0 { Seq::empty() } else { numbers(n - 1).push(Ev::Fixed { name: numbered(n) }) } }
/// a shorthand key `name:`: the key stays and the new name is written behind its colon
spec fn shorthand(n: ImplicitNode, name: Seq<u8>, depth: int) -> Ev { Ev::Named { name: text_of(name), depth, a: n.location_().a(), b: n.location_().b(), ea: n.location_().a() + name.len() + 1, eb: n.location_().a() + name.len() + 1 } }

//@enum crates/ruby-analysis/src/indexer/rename.rs :: Phase ; derive Clone, Copy, PartialEq, Eq, Structural
//@struct crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor
impl RenameVisitor {
    spec fn st(&self) -> St { St { file: self.file_id, cursor: self.cursor_offset, stack: self.scope_stack@, next: self.next_scope_id as int, name: match self.target_name { Some(n) => Some(n@), None => None }, scope: self.target_scope_id, ranges: self.rename_ranges@, fixed: self.fixed_name, collect: self.phase == Phase::Collect } }
    /// ruby_prism::Visit::visit: hands the node to the method of its kind, proved below, and each default method
    /// hands on the children (assumed of the parser's binding)
    #[verifier::external_body] fn visit(&mut self, n: &Node) ensures final(self).st() == run(old(self).st(), said(*n)) { unimplemented!() }
    #[verifier::external_body] fn visit_parameters_node(&mut self, n: &ParametersNode) ensures final(self).st() == run(old(self).st(), said_params(*n)) { unimplemented!() }

//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::push_scope
//@ rewrite? self.next_scope_id += 1; ==> self.next_scope_id = vp_succ(self.next_scope_id);
//@ spec
    ensures final(self).st() == step(old(self).st(), Ev::Push)
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::pop_scope
//@ spec
    ensures final(self).st() == step(old(self).st(), Ev::Pop)
//@ exit
    proof { if old(self).scope_stack@.len() > 0 { assert(self.scope_stack@ =~= old(self).scope_stack@.drop_last()); } }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::defining_scope_id
//@ sig fn defining_scope_id(&self, depth: u32) -> (r: Option<usize>)
//@ rewrite? self.scope_stack.get($i:a).copied() ==> vp_at(&self.scope_stack, $i)
//@ rewrite? self.scope_stack.len().checked_sub($x:a) ==> vp_sub(self.scope_stack.len(), $x)
//@ spec
    ensures r == declared_in(self.scope_stack@, depth as int)
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::cursor_in_location
//@ sig fn cursor_in_location(&self, location: &Location) -> (r: bool)
//@ spec
    ensures r == (location.a() <= self.cursor_offset < location.b())
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::process_name
//@ sig fn process_name(&mut self, name_bytes: &[u8], depth: u32, name_range_location: &Location, edit_start: usize, edit_end: usize)
//@ rewrite? String::from_utf8_lossy($b:a).to_string() ==> vp_name($b)
//@ rewrite? String::from_utf8_lossy($b:a) ==> vp_name($b)
//@ rewrite? name.as_ref() == target_name.as_str() ==> vp_same(&name, target_name)
//@ rewrite? u32::try_from($x:a).expect($m:a) ==> vp_u32($x)
//@ rewrite? self.target_name.is_none() ==> is_none(&self.target_name)
//@ rewrite? if let (Some(ref target_name), Some(target_scope)) = (&self.target_name, self.target_scope_id) $b:b ==> if let (Some(target_name), Some(target_scope)) = (&self.target_name, self.target_scope_id) $b
//@ spec
    requires edit_start <= edit_end
    ensures final(self).st() == step(old(self).st(), Ev::Named { name: text_of(name_bytes@), depth: depth as int, a: name_range_location.a(), b: name_range_location.b(), ea: edit_start as int, eb: edit_end as int })
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::process_local_var
//@ sig fn process_local_var(&mut self, name_bytes: &[u8], depth: u32, name_range_location: &Location)
//@ spec
    ensures final(self).st() == step(old(self).st(), named(name_bytes@, depth as int, *name_range_location))
//@ entry
    proof { forwards(*name_range_location); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::process_parameter
//@ sig fn process_parameter(&mut self, name_bytes: &[u8], location: &Location)
//@ spec
    ensures final(self).st() == step(old(self).st(), named(name_bytes@, 0, *location))
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::process_fixed_parameter
//@ sig fn process_fixed_parameter(&mut self, name_bytes: &[u8])
//@ rewrite? self.target_name.as_deref().map(str::as_bytes) == Some($b:a) ==> vp_is_name(&self.target_name, $b)
//@ rewrite? self.target_scope_id == self.defining_scope_id(0) ==> vp_same_scope(self.target_scope_id, self.defining_scope_id(0))
//@ spec
    ensures final(self).st() == step(old(self).st(), Ev::Fixed { name: text_of(name_bytes@) })
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_def_node
//@ sig fn visit_def_node(&mut self, node: &DefNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), scoped(opt(node.receiver_()), opt_params(node.parameters_()) + opt(node.body_())))
//@ entry
    proof { let s = old(self).st(); let o = opt(node.receiver_()); let p = opt_params(node.parameters_()); let b = opt(node.body_()); run_scoped(s, o, p + b); run_add(step(run(s, o), Ev::Push), p, b); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_class_node
//@ sig fn visit_class_node(&mut self, node: &ClassNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), scoped(said(node.constant_path_()) + opt(node.superclass_()), opt(node.body_())))
//@ entry
    proof { let s = old(self).st(); run_scoped(s, said(node.constant_path_()) + opt(node.superclass_()), opt(node.body_())); run_add(s, said(node.constant_path_()), opt(node.superclass_())); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_module_node
//@ sig fn visit_module_node(&mut self, node: &ModuleNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), scoped(said(node.constant_path_()), opt(node.body_())))
//@ entry
    proof { run_scoped(old(self).st(), said(node.constant_path_()), opt(node.body_())); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_singleton_class_node
//@ sig fn visit_singleton_class_node(&mut self, node: &SingletonClassNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), scoped(said(node.expression_()), opt(node.body_())))
//@ entry
    proof { run_scoped(old(self).st(), said(node.expression_()), opt(node.body_())); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_block_node
//@ sig fn visit_block_node(&mut self, node: &BlockNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), scoped(Seq::empty(), below_block_node(*node)))
//@ entry
    proof { run_scoped(old(self).st(), Seq::empty(), below_block_node(*node)); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_lambda_node
//@ sig fn visit_lambda_node(&mut self, node: &LambdaNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), scoped(Seq::empty(), below_lambda_node(*node)))
//@ entry
    proof { run_scoped(old(self).st(), Seq::empty(), below_lambda_node(*node)); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_local_variable_read_node
//@ sig fn visit_local_variable_read_node(&mut self, node: &LocalVariableReadNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), node.depth_() as int, node.location_())])
//@ entry
    proof { run_one(old(self).st(), named(node.name_().bytes(), node.depth_() as int, node.location_())); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_local_variable_write_node
//@ sig fn visit_local_variable_write_node(&mut self, node: &LocalVariableWriteNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), node.depth_() as int, node.name_loc_())] + below_local_variable_write_node(*node))
//@ entry
    proof { let e = named(node.name_().bytes(), node.depth_() as int, node.name_loc_()); run_one(old(self).st(), e); run_add(old(self).st(), seq![e], below_local_variable_write_node(*node)); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_local_variable_target_node
//@ sig fn visit_local_variable_target_node(&mut self, node: &LocalVariableTargetNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), node.depth_() as int, node.location_())])
//@ entry
    proof { run_one(old(self).st(), named(node.name_().bytes(), node.depth_() as int, node.location_())); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_local_variable_and_write_node
//@ sig fn visit_local_variable_and_write_node(&mut self, node: &LocalVariableAndWriteNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), node.depth_() as int, node.name_loc_())] + below_local_variable_and_write_node(*node))
//@ entry
    proof { let e = named(node.name_().bytes(), node.depth_() as int, node.name_loc_()); run_one(old(self).st(), e); run_add(old(self).st(), seq![e], below_local_variable_and_write_node(*node)); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_local_variable_or_write_node
//@ sig fn visit_local_variable_or_write_node(&mut self, node: &LocalVariableOrWriteNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), node.depth_() as int, node.name_loc_())] + below_local_variable_or_write_node(*node))
//@ entry
    proof { let e = named(node.name_().bytes(), node.depth_() as int, node.name_loc_()); run_one(old(self).st(), e); run_add(old(self).st(), seq![e], below_local_variable_or_write_node(*node)); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_local_variable_operator_write_node
//@ sig fn visit_local_variable_operator_write_node(&mut self, node: &LocalVariableOperatorWriteNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), node.depth_() as int, node.name_loc_())] + below_local_variable_operator_write_node(*node))
//@ entry
    proof { let e = named(node.name_().bytes(), node.depth_() as int, node.name_loc_()); run_one(old(self).st(), e); run_add(old(self).st(), seq![e], below_local_variable_operator_write_node(*node)); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_required_parameter_node
//@ sig fn visit_required_parameter_node(&mut self, node: &RequiredParameterNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), 0, node.location_())])
//@ entry
    proof { run_one(old(self).st(), named(node.name_().bytes(), 0, node.location_())); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_optional_parameter_node
//@ sig fn visit_optional_parameter_node(&mut self, node: &OptionalParameterNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), 0, node.name_loc_())] + below_optional_parameter_node(*node))
//@ entry
    proof { let e = named(node.name_().bytes(), 0, node.name_loc_()); run_one(old(self).st(), e); run_add(old(self).st(), seq![e], below_optional_parameter_node(*node)); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_block_local_variable_node
//@ sig fn visit_block_local_variable_node(&mut self, node: &BlockLocalVariableNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![named(node.name_().bytes(), 0, node.location_())])
//@ entry
    proof { run_one(old(self).st(), named(node.name_().bytes(), 0, node.location_())); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_rest_parameter_node
//@ sig fn visit_rest_parameter_node(&mut self, node: &RestParameterNode)
//@ rewrite? visit_block_parameter_node(self, node); ==>
//@ spec
    ensures final(self).st() == run(old(self).st(), (if node.name_() is Some && node.name_loc_() is Some { seq![named(node.name_()->Some_0.bytes(), 0, node.name_loc_()->Some_0)] } else { Seq::empty() }))
//@ entry
    proof { if node.name_() is Some && node.name_loc_() is Some { run_one(old(self).st(), named(node.name_()->Some_0.bytes(), 0, node.name_loc_()->Some_0)); } }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_block_parameter_node
//@ sig fn visit_block_parameter_node(&mut self, node: &BlockParameterNode)
//@ rewrite? visit_block_parameter_node(self, node); ==>
//@ spec
    ensures final(self).st() == run(old(self).st(), (if node.name_() is Some && node.name_loc_() is Some { seq![named(node.name_()->Some_0.bytes(), 0, node.name_loc_()->Some_0)] } else { Seq::empty() }))
//@ entry
    proof { if node.name_() is Some && node.name_loc_() is Some { run_one(old(self).st(), named(node.name_()->Some_0.bytes(), 0, node.name_loc_()->Some_0)); } }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_keyword_rest_parameter_node
//@ sig fn visit_keyword_rest_parameter_node(&mut self, node: &KeywordRestParameterNode)
//@ rewrite? visit_block_parameter_node(self, node); ==>
//@ spec
    ensures final(self).st() == run(old(self).st(), (if node.name_() is Some && node.name_loc_() is Some { seq![named(node.name_()->Some_0.bytes(), 0, node.name_loc_()->Some_0)] } else { Seq::empty() }))
//@ entry
    proof { if node.name_() is Some && node.name_loc_() is Some { run_one(old(self).st(), named(node.name_()->Some_0.bytes(), 0, node.name_loc_()->Some_0)); } }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_required_keyword_parameter_node
//@ sig fn visit_required_keyword_parameter_node(&mut self, node: &RequiredKeywordParameterNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![Ev::Fixed { name: text_of(node.name_().bytes()) }])
//@ entry
    proof { run_one(old(self).st(), Ev::Fixed { name: text_of(node.name_().bytes()) }); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_optional_keyword_parameter_node
//@ sig fn visit_optional_keyword_parameter_node(&mut self, node: &OptionalKeywordParameterNode)
//@ spec
    ensures final(self).st() == run(old(self).st(), seq![Ev::Fixed { name: text_of(node.name_().bytes()) }] + below_optional_keyword_parameter_node(*node))
//@ entry
    proof { let e = Ev::Fixed { name: text_of(node.name_().bytes()) }; run_one(old(self).st(), e); run_add(old(self).st(), seq![e], below_optional_keyword_parameter_node(*node)); }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_numbered_parameters_node
//@ sig fn visit_numbered_parameters_node(&mut self, node: &NumberedParametersNode)
//@ rewrite? for $n:i in 1..=node.maximum() $b:b ==> let mut vp_n: u8 = 0; while vp_n < node.maximum() { vp_text!("let ghost vp_before = self.st()"); vp_n += 1; let $n = vp_n; $b vp_text!("proof { assert(numbers(vp_n as int).drop_last() =~= numbers(vp_n - 1)); }"); }
//@ rewrite? format!("_{number}").as_bytes() ==> vp_numbered(number).as_slice()
//@ spec
    ensures final(self).st() == run(old(self).st(), numbers(node.maximum_() as int))
//@ loop 0
    invariant vp_n <= node.maximum_(), self.st() == run(old(self).st(), numbers(vp_n as int))
    decreases node.maximum_() - vp_n
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::visit_implicit_node
//@ sig fn visit_implicit_node(&mut self, node: &ImplicitNode)
//@ rewrite? location.start_offset() + $x:a + 1 ==> vp_succ(vp_add(location.start_offset(), $x))
//@ spec
    ensures final(self).st() == run(old(self).st(), (match node.value_().as_local_variable_read_node_() { Some(n) => seq![shorthand(*node, n.name_().bytes(), n.depth_() as int)], None => match node.value_().as_local_variable_target_node_() { Some(n) => seq![shorthand(*node, n.name_().bytes(), n.depth_() as int)], None => below_implicit_node(*node) } }))
//@ entry
    proof { match node.value_().as_local_variable_read_node_() { Some(n) => { run_one(old(self).st(), shorthand(*node, n.name_().bytes(), n.depth_() as int)); }, None => match node.value_().as_local_variable_target_node_() { Some(n) => { run_one(old(self).st(), shorthand(*node, n.name_().bytes(), n.depth_() as int)); }, None => {} } } }
//@end
//@fn crates/ruby-analysis/src/indexer/rename.rs :: RenameVisitor::find_rename_targets
//@ sig fn find_rename_targets(file_id: SourceFileId, cursor_offset: usize, root: &Node) -> (r: Vec<TextRange>)
//@ rewrite? visitor.target_name.is_none() || visitor.target_scope_id.is_none() ==> is_none(&visitor.target_name) || visitor.target_scope_id.is_none()
//@ rewrite? visitor.visit($r:a); ==> vp_text!("proof { assert(visitor.st().stack =~= seq![0usize]); assert(visitor.st().ranges =~= Seq::<TextRange>::empty()); }"); visitor.visit($r);
//@ spec
    ensures r@ == answer(said(*root), file_id, cursor_offset as int)
//@ entry
    proof { finding(file_id, cursor_offset, said(*root)); let w = walk(said(*root)); match under(w.occs, cursor_offset as int) { Some(o) => { collecting(second(file_id, cursor_offset, o), o.name, o.scope, said(*root)); }, None => {} } }
//@end
}
spec fn second(f: SourceFileId, c: usize, o: Occ) -> St { St { file: f, cursor: c, stack: seq![0usize], next: 1, name: Some(o.name), scope: Some(o.scope), ranges: Seq::empty(), fixed: false, collect: true } }
fn is_none(o: &Option<String>) -> (r: bool) ensures r == (o is None) { o.is_none() }
fn vp_at(v: &Vec<usize>, i: usize) -> (r: Option<usize>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { if i < v.len() { Some(v[i]) } else { None } }
fn vp_sub(a: usize, b: usize) -> (r: Option<usize>) ensures r == (if b <= a { Some((a - b) as usize) } else { None }) { if b <= a { Some(a - b) } else { None } }
/// a + b; a text is shorter than 2^64 bytes
fn vp_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { if a > usize::MAX - b { vp_abort() } a + b }
// ---- the default walks: they hand on the children (assumed of the parser's binding) ----
uninterp spec fn below_block_node(n: BlockNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_block_node(v: &mut RenameVisitor, n: &BlockNode) ensures final(v).st() == run(old(v).st(), below_block_node(*n)) { unimplemented!() }
uninterp spec fn below_lambda_node(n: LambdaNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_lambda_node(v: &mut RenameVisitor, n: &LambdaNode) ensures final(v).st() == run(old(v).st(), below_lambda_node(*n)) { unimplemented!() }
uninterp spec fn below_local_variable_write_node(n: LocalVariableWriteNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_local_variable_write_node(v: &mut RenameVisitor, n: &LocalVariableWriteNode) ensures final(v).st() == run(old(v).st(), below_local_variable_write_node(*n)) { unimplemented!() }
uninterp spec fn below_local_variable_and_write_node(n: LocalVariableAndWriteNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_local_variable_and_write_node(v: &mut RenameVisitor, n: &LocalVariableAndWriteNode) ensures final(v).st() == run(old(v).st(), below_local_variable_and_write_node(*n)) { unimplemented!() }
uninterp spec fn below_local_variable_or_write_node(n: LocalVariableOrWriteNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_local_variable_or_write_node(v: &mut RenameVisitor, n: &LocalVariableOrWriteNode) ensures final(v).st() == run(old(v).st(), below_local_variable_or_write_node(*n)) { unimplemented!() }
uninterp spec fn below_local_variable_operator_write_node(n: LocalVariableOperatorWriteNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_local_variable_operator_write_node(v: &mut RenameVisitor, n: &LocalVariableOperatorWriteNode) ensures final(v).st() == run(old(v).st(), below_local_variable_operator_write_node(*n)) { unimplemented!() }
uninterp spec fn below_optional_parameter_node(n: OptionalParameterNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_optional_parameter_node(v: &mut RenameVisitor, n: &OptionalParameterNode) ensures final(v).st() == run(old(v).st(), below_optional_parameter_node(*n)) { unimplemented!() }
uninterp spec fn below_optional_keyword_parameter_node(n: OptionalKeywordParameterNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_optional_keyword_parameter_node(v: &mut RenameVisitor, n: &OptionalKeywordParameterNode) ensures final(v).st() == run(old(v).st(), below_optional_keyword_parameter_node(*n)) { unimplemented!() }
uninterp spec fn below_implicit_node(n: ImplicitNode) -> Seq<Ev>;
#[verifier::external_body] fn visit_implicit_node(v: &mut RenameVisitor, n: &ImplicitNode) ensures final(v).st() == run(old(v).st(), below_implicit_node(*n)) { unimplemented!() }
} // verus!
fn main() {}
