//! vextract: instantiate a Verus contract template with functions and types cut
//! mechanically out of /repo's current source.
//!
//! usage: vextract REPO TEMPLATE OUT.rs REPORT.json
//!
//! exit 0: instantiated.  exit 3: an anchor was lost (message on stderr).
use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;

fn lost(msg: impl AsRef<str>) -> ! {
    eprintln!("LOST-ANCHOR: {}", msg.as_ref());
    std::process::exit(3)
}

// ---------------------------------------------------------------- rewriting
type Binds = BTreeMap<String, Vec<TokenTree>>;

fn is_kw(s: &str) -> bool {
    matches!(
        s,
        "return" | "in" | "if" | "match" | "let" | "mut" | "else" | "while" | "for" | "loop" | "move" | "break" | "continue" | "as" | "ref" | "fn" | "where" | "impl"
    )
}

/// Possible ends of a postfix-expression chain starting at `i`.
fn chain_ends(t: &[TokenTree], i: usize) -> Vec<usize> {
    let mut ends = vec![];
    let mut p = i;
    match t.get(p) {
        Some(TokenTree::Ident(id)) if !is_kw(&id.to_string()) => p += 1,
        Some(TokenTree::Literal(_)) => p += 1,
        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => p += 1,
        _ => return ends,
    }
    ends.push(p);
    loop {
        match t.get(p) {
            Some(TokenTree::Punct(q)) if q.as_char() == '.' => {
                match t.get(p + 1) {
                    Some(TokenTree::Ident(_)) | Some(TokenTree::Literal(_)) => p += 2,
                    _ => break,
                }
            }
            Some(TokenTree::Punct(q)) if q.as_char() == ':' && q.spacing() == Spacing::Joint => {
                match (t.get(p + 1), t.get(p + 2)) {
                    (Some(TokenTree::Punct(r)), Some(TokenTree::Ident(_))) if r.as_char() == ':' => p += 3,
                    _ => break,
                }
            }
            Some(TokenTree::Punct(q)) if q.as_char() == '?' => p += 1,
            Some(TokenTree::Punct(q)) if q.as_char() == '!' => match t.get(p + 1) {
                Some(TokenTree::Group(_)) => p += 2,
                _ => break,
            },
            Some(TokenTree::Group(g))
                if g.delimiter() == Delimiter::Parenthesis || g.delimiter() == Delimiter::Bracket =>
            {
                p += 1
            }
            _ => break,
        }
        ends.push(p);
    }
    ends
}

fn same_tokens(a: &[TokenTree], b: &[TokenTree]) -> bool {
    let s = |x: &[TokenTree]| x.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ");
    s(a) == s(b)
}

/// `$name`, `$name:kind`; kinds: e chain, i ident, b brace group, l literal, a anything, t (default)
fn metavar(p: &[TokenTree], i: usize) -> Option<(String, char, usize)> {
    if let Some(TokenTree::Punct(d)) = p.get(i) {
        if d.as_char() == '$' {
            if let Some(TokenTree::Ident(n)) = p.get(i + 1) {
                if let (Some(TokenTree::Punct(c)), Some(TokenTree::Ident(k))) = (p.get(i + 2), p.get(i + 3)) {
                    let ks = k.to_string();
                    if c.as_char() == ':' && c.spacing() == Spacing::Alone && ks.len() == 1 && "eibalt".contains(&ks) {
                        return Some((n.to_string(), ks.chars().next().unwrap(), i + 4));
                    }
                }
                return Some((n.to_string(), 't', i + 2));
            }
        }
    }
    None
}

fn m(p: &[TokenTree], pi: usize, t: &[TokenTree], ti: usize, b: &Binds, anchored: bool) -> Option<(Binds, usize)> {
    if pi == p.len() {
        return if !anchored || ti == t.len() { Some((b.clone(), ti)) } else { None };
    }
    if let Some((name, kind, next)) = metavar(p, pi) {
        let try_end = |end: usize| -> Option<(Binds, usize)> {
            let got = t[ti..end].to_vec();
            let mut nb = b.clone();
            if let Some(old) = nb.get(&name) {
                if !same_tokens(old, &got) {
                    return None;
                }
            }
            nb.insert(name.clone(), got);
            m(p, next, t, end, &nb, anchored)
        };
        match kind {
            'e' => {
                for e in chain_ends(t, ti) {
                    if let Some(r) = try_end(e) {
                        return Some(r);
                    }
                }
                None
            }
            'i' => match t.get(ti) {
                Some(TokenTree::Ident(_)) => try_end(ti + 1),
                _ => None,
            },
            'l' => match t.get(ti) {
                Some(TokenTree::Literal(_)) => try_end(ti + 1),
                _ => None,
            },
            'b' => match t.get(ti) {
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => try_end(ti + 1),
                _ => None,
            },
            _ => {
                let mut e = ti;
                if kind == 'a' {
                    if let Some(r) = try_end(e) {
                        return Some(r);
                    }
                }
                while e < t.len() {
                    if let TokenTree::Punct(q) = &t[e] {
                        let c = q.as_char();
                        if kind == 't' && (c == ';' || c == ',') {
                            return None;
                        }
                    }
                    e += 1;
                    if let Some(r) = try_end(e) {
                        return Some(r);
                    }
                }
                None
            }
        }
    } else {
        let tt = t.get(ti)?;
        match (&p[pi], tt) {
            (TokenTree::Group(pg), TokenTree::Group(tg)) => {
                if pg.delimiter() != tg.delimiter() {
                    return None;
                }
                let pv: Vec<_> = pg.stream().into_iter().collect();
                let tv = strip_trailing_comma(tg.stream().into_iter().collect());
                let pv = strip_trailing_comma(pv);
                // inner match may backtrack only inside
                let (nb, _) = m(&pv, 0, &tv, 0, b, true)?;
                m(p, pi + 1, t, ti + 1, &nb, anchored)
            }
            (TokenTree::Ident(a), TokenTree::Ident(c)) if a == c => m(p, pi + 1, t, ti + 1, b, anchored),
            (TokenTree::Punct(a), TokenTree::Punct(c)) if a.as_char() == c.as_char() => {
                m(p, pi + 1, t, ti + 1, b, anchored)
            }
            (TokenTree::Literal(a), TokenTree::Literal(c)) if a.to_string() == c.to_string() => {
                m(p, pi + 1, t, ti + 1, b, anchored)
            }
            _ => None,
        }
    }
}

fn strip_trailing_comma(mut v: Vec<TokenTree>) -> Vec<TokenTree> {
    if let Some(TokenTree::Punct(p)) = v.last() {
        if p.as_char() == ',' {
            v.pop();
        }
    }
    v
}

fn subst(rhs: &[TokenTree], b: &Binds, fresh: usize) -> Vec<TokenTree> {
    let mut out = vec![];
    let mut i = 0;
    while i < rhs.len() {
        if let Some((name, _, next)) = metavar(rhs, i) {
            if let Some(v) = b.get(&name) {
                out.extend(v.iter().cloned());
                i = next;
                continue;
            }
            lost(format!("rewrite right side uses unbound ${name}"));
        }
        match &rhs[i] {
            TokenTree::Group(g) => {
                let inner = subst(&g.stream().into_iter().collect::<Vec<_>>(), b, fresh);
                let mut ng = Group::new(g.delimiter(), inner.into_iter().collect());
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            TokenTree::Ident(id) if id.to_string().ends_with("__fresh") => {
                let s = id.to_string().replace("__fresh", &format!("_{fresh}"));
                out.push(TokenTree::Ident(Ident::new(&s, id.span())));
            }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out
}

struct Rule {
    lhs: Vec<TokenTree>,
    rhs: Vec<TokenTree>,
    text: String,
    optional: bool,
}

fn rewrite_once(t: Vec<TokenTree>, r: &Rule, count: &mut usize) -> Vec<TokenTree> {
    // inner groups first
    let t: Vec<TokenTree> = t
        .into_iter()
        .map(|x| match x {
            TokenTree::Group(g) => {
                let inner = rewrite_once(g.stream().into_iter().collect(), r, count);
                TokenTree::Group(Group::new(g.delimiter(), inner.into_iter().collect()))
            }
            y => y,
        })
        .collect();
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if let Some((b, e)) = m(&r.lhs, 0, &t, i, &Binds::new(), false) {
            // a chain pattern must not start in the middle of a chain
            let starts_chain = matches!(metavar(&r.lhs, 0), Some((_, 'e', _))) || matches!(r.lhs[0], TokenTree::Ident(_));
            let mid = match i.checked_sub(1).map(|k| &t[k]) {
                Some(TokenTree::Punct(q)) => starts_chain && (q.as_char() == '.' && !(i >= 2 && matches!(&t[i - 2], TokenTree::Punct(z) if z.as_char() == '.'))),
                _ => false,
            };
            if e > i && !mid {
                *count += 1;
                out.extend(subst(&r.rhs, &b, *count));
                i = e;
                continue;
            }
        }
        out.push(t[i].clone());
        i += 1;
    }
    out
}

fn apply_rule(ts: TokenStream, r: &Rule) -> (TokenStream, usize) {
    let mut count = 0;
    let out = rewrite_once(ts.into_iter().collect(), r, &mut count);
    (out.into_iter().collect(), count)
}

fn parse_rule(text: &str, optional: bool) -> Rule {
    let (l, r) = text
        .split_once("==>")
        .unwrap_or_else(|| panic!("bad rewrite (no ==>): {text}"));
    let tok = |s: &str| -> Vec<TokenTree> {
        s.parse::<TokenStream>()
            .unwrap_or_else(|e| panic!("bad rewrite tokens {s}: {e}"))
            .into_iter()
            .collect()
    };
    Rule { lhs: tok(l), rhs: tok(r), text: text.split_whitespace().collect::<Vec<_>>().join(" "), optional }
}

// ---------------------------------------------------------------- lookup
fn ty_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => ty.to_token_stream().to_string(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

fn find_fn<'a>(items: &'a [syn::Item], path: &str) -> Option<(&'a syn::Signature, &'a syn::Block)> {
    let parts: Vec<&str> = path.split("::").map(str::trim).collect();
    for it in items {
        match it {
            syn::Item::Fn(f) if parts.len() == 1 && f.sig.ident == parts[0] && !is_test(&f.attrs) => {
                return Some((&f.sig, &f.block))
            }
            syn::Item::Impl(im) if parts.len() >= 2 && !is_test(&im.attrs) => {
                let want_ty = parts[parts.len() - 2];
                let (want_trait, want_ty) = match want_ty.split_once(" for ") {
                    Some((a, b)) => (Some(a.trim()), b.trim()),
                    None => (None, want_ty),
                };
                if ty_name(&im.self_ty) != want_ty {
                    continue;
                }
                if let Some(tr) = want_trait {
                    let have = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    if have.as_deref() != Some(tr) {
                        continue;
                    }
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == parts[parts.len() - 1] && !is_test(&f.attrs) {
                            return Some((&f.sig, &f.block));
                        }
                    }
                }
            }
            syn::Item::Mod(md) if !is_test(&md.attrs) => {
                if let Some((_, inner)) = &md.content {
                    if let Some(r) = find_fn(inner, path) {
                        return Some(r);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn find_item<'a>(items: &'a [syn::Item], kind: &str, name: &str) -> Option<&'a syn::Item> {
    for it in items {
        let hit = match (kind, it) {
            ("struct", syn::Item::Struct(s)) => s.ident == name,
            ("enum", syn::Item::Enum(s)) => s.ident == name,
            ("const", syn::Item::Const(s)) => s.ident == name,
            ("type", syn::Item::Type(s)) => s.ident == name,
            _ => false,
        };
        if hit {
            return Some(it);
        }
    }
    None
}

// ---------------------------------------------------------------- insertion
#[derive(Default)]
struct FnDirective {
    file: String,
    path: String,
    name: Option<String>,
    ret: Option<String>,
    sig: Option<String>,
    attrs: Vec<String>,
    rules: Vec<Rule>,
    sections: Vec<(String, String)>, // (where, text)
}

struct Marker<'a> {
    want: &'a [(String, String)],
    loop_no: usize,
    used: Vec<bool>,
    iters: BTreeMap<usize, String>,
}

fn mark(idx: usize) -> syn::Stmt {
    let i = proc_macro2::Literal::usize_unsuffixed(idx);
    syn::parse_quote!(__vp_mark!(#i);)
}
fn mark_loop(no: usize) -> syn::Stmt {
    let i = proc_macro2::Literal::usize_unsuffixed(no);
    syn::parse_quote!(__vp_loop!(#i);)
}

impl<'a> Marker<'a> {
    fn dress(&mut self, body: &mut syn::Block, no: usize) {
        let mut head = vec![];
        for (k, (w, _)) in self.want.iter().enumerate() {
            if *w == format!("loop {no}") {
                self.used[k] = true;
                head.push(mark_loop(no));
            }
        }
        for (k, (w, _)) in self.want.iter().enumerate() {
            if *w == format!("loopstart {no}") {
                self.used[k] = true;
                head.push(mark(k));
            }
        }
        let mut tail = vec![];
        for (k, (w, _)) in self.want.iter().enumerate() {
            if *w == format!("loopend {no}") {
                self.used[k] = true;
                tail.push(mark(k));
            }
        }
        let mut old = std::mem::take(&mut body.stmts);
        if !tail.is_empty() {
            if let Some(syn::Stmt::Expr(_, semi)) = old.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
        }
        body.stmts = head.into_iter().chain(old).chain(tail).collect();
    }
}

fn pat_ident(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::Ident(i) => Some(i.ident.to_string()),
        syn::Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

impl<'a> VisitMut for Marker<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        syn::visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let text = s.to_token_stream().to_string();
            let norm: String = text.chars().filter(|c| !c.is_whitespace()).collect();
            for (k, (w, _)) in self.want.iter().enumerate() {
                if let Some(pat) = w.strip_prefix("before ") {
                    let pat: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                    if !self.used[k] && norm.starts_with(&pat) {
                        self.used[k] = true;
                        out.push(mark(k));
                    }
                }
            }
            let name = match &s {
                syn::Stmt::Local(l) => pat_ident(&l.pat),
                _ => None,
            };
            out.push(s);
            for (k, (w, _)) in self.want.iter().enumerate() {
                if let (Some(want), Some(n)) = (w.strip_prefix("afterlet "), &name) {
                    if !self.used[k] && want == n {
                        self.used[k] = true;
                        out.push(mark(k));
                    }
                }
                if let Some(pat) = w.strip_prefix("after ") {
                    let pat: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                    if !self.used[k] && norm.starts_with(&pat) {
                        self.used[k] = true;
                        out.push(mark(k));
                    }
                }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_while_mut(&mut self, w: &mut syn::ExprWhile) {
        let no = self.loop_no;
        self.loop_no += 1;
        syn::visit_mut::visit_expr_while_mut(self, w);
        self.dress(&mut w.body, no);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut syn::ExprLoop) {
        let no = self.loop_no;
        self.loop_no += 1;
        syn::visit_mut::visit_expr_loop_mut(self, w);
        self.dress(&mut w.body, no);
    }
    fn visit_expr_for_loop_mut(&mut self, w: &mut syn::ExprForLoop) {
        let no = self.loop_no;
        self.loop_no += 1;
        syn::visit_mut::visit_expr_for_loop_mut(self, w);
        self.dress(&mut w.body, no);
        if let Some(k) = self.want.iter().position(|(x, _)| *x == format!("iter {no}")) {
            self.used[k] = true;
            self.iters.insert(no, self.want[k].1.trim().to_string());
            let e = &w.expr;
            let f = Ident::new(&format!("__vp_iter_{no}"), proc_macro2::Span::call_site());
            w.expr = Box::new(syn::parse_quote!(#f(#e)));
        }
    }
}

/// Drop what has no meaning for the proof: attributes and doc comments.
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

fn global_rules() -> Vec<Rule> {
    // Messages of assertions and expectations are dropped, the conditions stay.
    [
        "assert_eq!($a, $b, $m:a) ==> assert!($a == $b)",
        "assert_eq!($a, $b) ==> assert!($a == $b)",
        "assert_ne!($a, $b, $m:a) ==> assert!($a != $b)",
        "assert!($c, $m:a) ==> assert!($c)",
        "debug_assert!($c, $m:a) ==> assert!($c)",
        "debug_assert!($c) ==> assert!($c)",
        ".expect($m:a) ==> .expect(\"\")",
        "panic!($m:a) ==> vp_panic()",
        "unreachable!($m:a) ==> vp_panic()",
    ]
    .iter()
    .map(|s| parse_rule(s, true))
    .collect()
}

fn normalize(t: &str) -> String {
    t.to_string()
}

fn emit_fn(repo: &str, d: &FnDirective, report: &mut Vec<String>) -> String {
    let full = format!("{repo}/{}", d.file);
    let src = std::fs::read_to_string(&full).unwrap_or_else(|e| lost(format!("{full}: {e}")));
    let file = syn::parse_file(&src).unwrap_or_else(|e| lost(format!("{full}: {e}")));
    let (sig, block) = find_fn(&file.items, &d.path).unwrap_or_else(|| lost(format!("function {} not found in {}", d.path, d.file)));
    let start = sig.fn_token.span.start().line;
    let mut ts = block.to_token_stream();
    let mut applied = vec![];
    for r in global_rules() {
        let (n, _c) = apply_rule(ts, &r);
        ts = n;
    }
    for r in &d.rules {
        let (n, c) = apply_rule(ts, r);
        ts = n;
        if c == 0 && !r.optional {
            lost(format!("rewrite pattern of {} no longer occurs: {}", d.path, r.text));
        }
        if c > 0 {
            applied.push(format!("{} (x{c})", r.text));
        }
    }
    let mut block: syn::Block = syn::parse2(ts.clone()).unwrap_or_else(|e| lost(format!("{} after rewriting does not parse: {e}\n{}", d.path, ts)));
    Strip.visit_block_mut(&mut block);
    let mut mk = Marker { want: &d.sections, loop_no: 0, used: vec![false; d.sections.len()], iters: BTreeMap::new() };
    mk.visit_block_mut(&mut block);
    // entry / exit
    for (k, (w, _)) in d.sections.iter().enumerate() {
        if w == "entry" {
            mk.used[k] = true;
            block.stmts.insert(0, mark(k));
        }
        if w == "spec" {
            mk.used[k] = true;
        }

        if w == "exit" {
            mk.used[k] = true;
            match block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => {
                    let e = e.clone();
                    block.stmts.pop();
                    let l: syn::Stmt = syn::parse_quote!(let __vp_result = #e;);
                    block.stmts.push(l);
                    block.stmts.push(mark(k));
                    block.stmts.push(syn::Stmt::Expr(syn::parse_quote!(__vp_result), None));
                }
                _ => block.stmts.push(mark(k)),
            }
        }
    }
    for (k, u) in mk.used.iter().enumerate() {
        if !u {
            lost(format!("{}: no place for section `{}`", d.path, d.sections[k].0));
        }
    }
    let n_loops = mk.loop_no;
    let iters = mk.iters.clone();
    // signature
    let mut sig = sig.clone();
    if let Some(n) = &d.name {
        sig.ident = Ident::new(n, sig.ident.span());
    }
    for i in &mut sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            t.attrs.clear();
        }
    }
    let sig_text = if let Some(s) = &d.sig {
        applied.push(format!("signature replaced by `{s}`"));
        s.clone()
    } else {
        let dummy: syn::ItemFn = syn::parse2(quote!(#sig {})).unwrap();
        let txt = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![syn::Item::Fn(dummy)] });
        let txt = txt.trim().trim_end_matches("{}").trim().to_string();
        match &d.ret {
            Some(r) => {
                if let Some((a, b)) = txt.rsplit_once("->") {
                    // where clauses are not used by extracted functions
                    format!("{a}-> ({r}: {})", b.trim())
                } else {
                    format!("{txt} -> ({r}: ())")
                }
            }
            None => txt,
        }
    };
    // body text
    let dummy_fn: syn::ItemFn = syn::parse_quote!(fn __vp_dummy() #block);
    let txt = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![syn::Item::Fn(dummy_fn)] });
    let body_start = txt.find('{').unwrap();
    let mut body = txt[body_start..].to_string();
    for (no, name) in iters {
        let needle = format!("__vp_iter_{no}(");
        let at = body.find(&needle).unwrap();
        let mut depth = 1;
        let mut j = at + needle.len();
        let bytes = body.as_bytes();
        while depth > 0 {
            match bytes[j] {
                b'(' => depth += 1,
                b')' => depth -= 1,
                _ => {}
            }
            j += 1;
        }
        let inner = body[at + needle.len()..j - 1].to_string();
        body = format!("{}{name}: {inner}{}", &body[..at], &body[j..]);
    }
    // loop invariants: move before the loop's `{`
    for no in 0..n_loops {
        let needle = format!("__vp_loop!({no});");
        if let Some(at) = body.find(&needle) {
            let brace = body[..at].rfind('{').unwrap();
            let text: String = d.sections.iter().filter(|(w, _)| *w == format!("loop {no}")).map(|(_, t)| t.clone()).collect();
            body = format!("{}\n{}\n{{{}", &body[..brace], text, &body[at + needle.len()..]);
        }
    }
    for (k, (_, t)) in d.sections.iter().enumerate() {
        let needle = format!("__vp_mark!({k});");
        body = body.replace(&needle, &normalize(t));
    }
    // verbatim Verus text carried through the Rust parser in a string literal
    while let Some(at) = body.find("vp_text!(") {
        let q1 = at + body[at..].find('"').unwrap();
        let q2 = q1 + 1 + body[q1 + 1..].find('"').unwrap();
        let mut end = q2 + 1 + body[q2 + 1..].find(')').unwrap() + 1;
        let inner = body[q1 + 1..q2].to_string();
        if inner.starts_with("proof") && body[end..].starts_with(';') {
            end += 1;
        }
        body = format!("{}{inner}{}", &body[..at], &body[end..]);
    }
    // contract of a closure: `-> T { vp_clause!("requires .. ensures .."); ..` becomes `-> (vp_r: T) requires .. ensures .. { ..`
    while let Some(at) = body.find("vp_clause!(") {
        let q1 = at + body[at..].find('"').unwrap();
        let q2 = q1 + 1 + body[q1 + 1..].find('"').unwrap();
        let mut end = q2 + 1 + body[q2 + 1..].find(')').unwrap() + 1;
        if body[end..].starts_with(';') {
            end += 1;
        }
        let inner = body[q1 + 1..q2].to_string();
        let brace = body[..at].rfind('{').unwrap();
        let arrow = body[..brace].rfind("->").unwrap_or_else(|| lost("closure contract without a return type"));
        let ty = body[arrow + 2..brace].trim().to_string();
        body = format!("{}-> (vp_r: {ty}) {inner} {{{}", &body[..arrow], &body[end..]);
    }
    let spec: String = d.sections.iter().filter(|(w, _)| w == "spec").map(|(_, t)| t.clone()).collect();
    report.push(format!(
        "{{\"function\":{:?},\"file\":{:?},\"line\":{},\"loops\":{},\"rewrites\":{:?}}}",
        d.path, d.file, start, n_loops, applied
    ));
    if std::env::var_os("VP_CANARY").is_some() {
        body = format!("{{ proof {{ assert(false); }} {}", &body[1..]);
    }
    let attrs = d.attrs.join("\n");
    format!("// --- extracted from {}:{} ({})\n{attrs}\n{sig_text}\n{spec}\n{body}\n", d.file, start, d.path)
}

fn emit_item(repo: &str, kind: &str, rest: &str, report: &mut Vec<String>) -> String {
    // FILE :: NAME [; drop a,b] [; derive X,Y] [; subst A ==> B]*
    let mut parts = rest.split(';').map(str::trim);
    let head = parts.next().unwrap();
    let (file, name) = head.split_once(" :: ").unwrap_or_else(|| panic!("bad item directive {rest}"));
    let full = format!("{repo}/{}", file.trim());
    let src = std::fs::read_to_string(&full).unwrap_or_else(|e| lost(format!("{full}: {e}")));
    let parsed = syn::parse_file(&src).unwrap_or_else(|e| lost(format!("{full}: {e}")));
    let it = find_item(&parsed.items, kind, name.trim()).unwrap_or_else(|| lost(format!("{kind} {name} not found in {file}"))).clone();
    let mut drop: Vec<String> = vec![];
    let mut keep: Option<Vec<String>> = None;
    let mut derive = String::new();
    let mut add: Vec<String> = vec![];
    let mut rules = vec![];
    for p in parts {
        if let Some(x) = p.strip_prefix("drop ") {
            drop = x.split(',').map(|s| s.trim().to_string()).collect();
        } else if let Some(x) = p.strip_prefix("keep ") {
            keep = Some(x.split(',').map(|s| s.trim().to_string()).collect());
        } else if let Some(x) = p.strip_prefix("add ") {
            add.push(x.to_string());
        } else if let Some(x) = p.strip_prefix("derive ") {
            derive = format!("#[derive({x})]\n");
        } else if let Some(x) = p.strip_prefix("subst ") {
            rules.push(parse_rule(x, false));
        } else if !p.is_empty() {
            panic!("bad option {p}");
        }
    }
    let mut it = it;
    Strip.visit_item_mut(&mut it);
    match &mut it {
        syn::Item::Struct(s) => {
            s.vis = syn::parse_quote!(pub);
            if let syn::Fields::Named(n) = &mut s.fields {
                let kept: syn::punctuated::Punctuated<syn::Field, syn::Token![,]> = n
                    .named
                    .iter()
                    .filter(|f| {
                        let n = f.ident.as_ref().unwrap().to_string();
                        let out = drop.contains(&n) || keep.as_ref().is_some_and(|k| !k.contains(&n));
                        if out && !drop.contains(&n) {
                            drop.push(n);
                        }
                        !out
                    })
                    .cloned()
                    .map(|mut f| {
                        f.vis = syn::parse_quote!(pub);
                        f
                    })
                    .collect();
                n.named = kept;
            }
            if let syn::Fields::Unnamed(n) = &mut s.fields {
                for f in n.unnamed.iter_mut() {
                    f.vis = syn::parse_quote!(pub);
                }
            }
        }
        syn::Item::Enum(s) => s.vis = syn::parse_quote!(pub),
        syn::Item::Const(s) => s.vis = syn::parse_quote!(pub),
        syn::Item::Type(s) => s.vis = syn::parse_quote!(pub),
        _ => {}
    }
    let mut ts = it.to_token_stream();
    for r in &rules {
        let (n, c) = apply_rule(ts, r);
        ts = n;
        if c == 0 {
            lost(format!("{kind} {name}: `{}` no longer occurs", r.text));
        }
    }
    let f: syn::File = syn::parse2(ts).unwrap_or_else(|e| lost(format!("{kind} {name}: {e}")));
    report.push(format!("{{\"{kind}\":{:?},\"file\":{:?},\"dropped_fields\":{:?},\"ghost_fields\":{:?}}}", name.trim(), file.trim(), drop, add));
    let mut txt = prettyplease::unparse(&f);
    for a in add {
        let at = txt.rfind('}').unwrap();
        txt.insert_str(at, &format!("    pub {a},\n"));
    }
    format!("{derive}{txt}")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, tpl, out, rep) = (&a[1], &a[2], &a[3], &a[4]);
    let text = std::fs::read_to_string(tpl).unwrap();
    // includes
    let mut lines: Vec<String> = vec![];
    for l in text.lines() {
        if let Some(inc) = l.trim().strip_prefix("//@include ") {
            let p = std::path::Path::new(tpl).parent().unwrap().join(inc.trim());
            lines.extend(std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p:?}: {e}")).lines().map(String::from));
        } else {
            lines.push(l.to_string());
        }
    }
    let mut shared: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut o = String::new();
    let mut report = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim().to_string();
        if let Some(name) = l.strip_prefix("//@rules ") {
            let mut v = vec![];
            i += 1;
            while lines[i].trim() != "//@end" {
                v.push(lines[i].trim().trim_start_matches("//@").trim().to_string());
                i += 1;
            }
            shared.insert(name.trim().to_string(), v);
            i += 1;
        } else if let Some(rest) = l.strip_prefix("//@fn ") {
            let (file, path) = rest.split_once(" :: ").unwrap_or_else(|| panic!("bad fn directive {rest}"));
            let mut d = FnDirective { file: file.trim().into(), path: path.trim().into(), ..Default::default() };
            i += 1;
            let mut cur: Option<(String, String)> = None;
            loop {
                let raw = lines.get(i).unwrap_or_else(|| panic!("unterminated //@fn {rest}")).clone();
                let t = raw.trim();
                i += 1;
                if let Some(dir) = t.strip_prefix("//@") {
                    if let Some(c) = cur.take() {
                        if let Some(opt) = c.0.strip_prefix("rewrite") {
                            d.rules.push(parse_rule(&c.1, opt.contains('?')));
                        } else {
                            d.sections.push(c);
                        }
                    }
                    let dir = dir.trim();
                    if dir == "end" {
                        break;
                    } else if let Some(x) = dir.strip_prefix("name ") {
                        d.name = Some(x.trim().into());
                    } else if let Some(x) = dir.strip_prefix("ret ") {
                        d.ret = Some(x.trim().into());
                    } else if let Some(x) = dir.strip_prefix("sig ") {
                        d.sig = Some(x.trim().into());
                    } else if let Some(x) = dir.strip_prefix("attr ") {
                        d.attrs.push(x.trim().into());
                    } else if let Some(x) = dir.strip_prefix("use ") {
                        for r in shared.get(x.trim()).unwrap_or_else(|| panic!("no rules {x}")) {
                            d.rules.push(parse_rule(r, true));
                        }
                    } else if dir.starts_with("rewrite") && dir.contains("==>") {
                        let (h, x) = dir.split_once(' ').unwrap();
                        d.rules.push(parse_rule(x, h.contains('?')));
                    } else {
                        cur = Some((dir.to_string(), String::new()));
                    }
                } else if let Some(c) = &mut cur {
                    c.1.push_str(&raw);
                    c.1.push('\n');
                } else if !t.is_empty() {
                    panic!("text outside a section in //@fn {rest}: {t}");
                }
            }
            o.push_str(&emit_fn(repo, &d, &mut report));
        } else if let Some((k, rest)) = ["struct", "enum", "const", "type"].iter().find_map(|k| l.strip_prefix(&format!("//@{k} ")).map(|r| (*k, r.to_string()))) {
            o.push_str(&emit_item(repo, k, &rest, &mut report));
            i += 1;
        } else {
            writeln!(o, "{}", lines[i]).unwrap();
            i += 1;
        }
    }
    std::fs::write(out, o).unwrap();
    std::fs::write(rep, format!("[{}]", report.join(",\n"))).unwrap();
}
