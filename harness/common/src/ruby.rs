//! Seeded Ruby programs: every construct that binds, reads or nests names, in the orders the syntax allows.
use crate::Rng;

pub struct Gen<'a> { pub rng: &'a mut Rng, pub fuel: usize, heredocs: Vec<String> }
const LOCALS: [&str; 6] = ["a", "b", "x", "été", "日本", "long_name"];
const CONSTS: [&str; 4] = ["A", "Foo", "Été", "BAR_1"];
const METHODS: [&str; 8] = ["foo", "puts", "each", "size?", "save!", "größe", "then", "[]"];

/// a program of a few statements
pub fn program(rng: &mut Rng, fuel: usize) -> String {
    let mut g = Gen { rng, fuel, heredocs: vec![] };
    let n = g.rng.range(1, 4);
    g.body(n, 0)
}
/// the program with a few characters deleted, doubled or replaced
pub fn broken(rng: &mut Rng, text: &str) -> String {
    let mut v: Vec<char> = text.chars().collect();
    for _ in 0..rng.range(1, 4) {
        if v.is_empty() { break; }
        let i = rng.below(v.len());
        match rng.below(5) {
            0 => { v.remove(i); }
            1 => v.truncate(i),
            2 => { let c = v[i]; v.insert(i, c); }
            3 => v.insert(i, *rng.pick(&['(', ')', '{', '|', '.', ' ', '\n', '=', '"', '#', ',', '\r', '\t', 'é', '😀'])),
            _ => { let j = rng.below(v.len()); v.swap(i, j); }
        }
    }
    v.into_iter().collect()
}
/// whether a pattern may be matched in the text (`in`, `=>`): the bundled parser itself (Prism 1.4.0, C) can
/// crash on a broken one, so no broken program has any
pub fn may_match(text: &str) -> bool { text.contains("=>") || text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "in") }
/// the program's lines in tags
pub fn erb(rng: &mut Rng, text: &str) -> String {
    let mut s = String::new();
    for l in text.split_inclusive('\n') { if rng.chance(1, 3) { s.push_str(*rng.pick(&["<p>é</p>", "\n", "😀 ", "<%# c %>"])) } s.push_str(if rng.chance(1, 2) { "<% " } else { "<%= " }); s.push_str(l); s.push_str(if rng.chance(1, 20) { "" } else { "%>\n" }) }
    s
}
impl Gen<'_> {
    fn pick(&mut self, v: &[&str]) -> String { self.rng.pick(v).to_string() }
    fn local(&mut self) -> String { self.pick(&LOCALS) }
    fn ends(&mut self) -> &'static str { match self.rng.below(12) { 0 => "\r\n", 1 => "; ", 2 => " # c é😀\n", 3 => "\n\n", _ => "\n" } }
    fn body(&mut self, n: usize, d: usize) -> String {
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(&" ".repeat(d));
            s.push_str(&self.stmt(d));
            if self.heredocs.is_empty() { let e = self.ends(); s.push_str(e) } else { s.push('\n'); for h in std::mem::take(&mut self.heredocs) { s.push_str(&h) } }
        }
        s
    }
    fn inner(&mut self, d: usize) -> String { let h = std::mem::take(&mut self.heredocs); let n = self.rng.range(0, 2); let s = self.body(n, d + 1); self.heredocs = h; s }
    fn spend(&mut self) -> bool { if self.fuel == 0 { false } else { self.fuel -= 1; true } }
    pub fn stmt(&mut self, d: usize) -> String {
        if !self.spend() { return self.expr(d); }
        match self.rng.below(30) {
            0..=4 => format!("{} = {}", self.local(), self.expr(d)),
            5 => format!("{} {} {}", self.local(), self.pick(&["+=", "||=", "&&=", "**="]), self.expr(d)),
            6 => { let k = self.pick(&["if", "unless", "while", "until"]); format!("{} {k} {}", self.stmt(d), self.expr(d)) }
            7 => { let k = self.pick(&["if", "unless", "while", "until"]); format!("{k} {}\n{}{}end", self.expr(d), self.inner(d), if k == "if" && self.rng.chance(1, 2) { format!("elsif {}\n{}else\n{}", self.expr(d), self.inner(d), self.inner(d)) } else { String::new() }) }
            8 => format!("begin\n{}end {} {}", self.inner(d), self.pick(&["while", "until"]), self.expr(d)),
            9 => format!("{} rescue {}", self.stmt(d), self.expr(d)),
            10 => format!("begin\n{}rescue {} => {}\n{}ensure\n{}end", self.inner(d), self.pick(&CONSTS), self.local(), self.inner(d), self.inner(d)),
            11 | 12 => { let recv = match self.rng.below(6) { 0 => "self.".into(), 1 => format!("{}.", self.local()), 2 => format!("{}.", self.pick(&CONSTS)), _ => String::new() }; format!("def {recv}{}({})\n{}end", self.pick(&["foo", "bar?", "größe", "+", "x="]), self.params(d), self.inner(d)) }
            13 => format!("def foo({}) = {}", self.params(d), self.expr(d)),
            14 => { let sup = if self.rng.chance(1, 2) { format!(" < {}", self.expr(d)) } else { String::new() }; format!("class {}{sup}\n{}end", self.cpath(), self.inner(d)) }
            15 => format!("module {}\n{}end", self.cpath(), self.inner(d)),
            16 => format!("class << {}\n{}end", if self.rng.chance(1, 2) { "self".into() } else { self.local() }, self.inner(d)),
            17 => { let n = self.rng.range(1, 3); let mut t: Vec<String> = (0..n).map(|_| self.target(d)).collect(); if self.rng.chance(1, 3) { let l = self.local(); t.push(format!("*{l}")); } if t.len() == 1 { t.push(self.local()) } format!("{} = {}", t.join(", "), self.expr(d)) }
            18 => { let l = self.local(); let t = if self.rng.chance(1, 3) { format!("{l}, {}", self.local()) } else { l }; format!("for {t} in {}\n{}end", self.expr(d), self.inner(d)) }
            19 => format!("case {}\nwhen {}, {}\n{}else\n{}end", self.expr(d), self.expr(d), self.expr(d), self.inner(d), self.inner(d)),
            20 => format!("case {}\nin {}{}\n{}end", self.expr(d), self.pattern(2), if self.rng.chance(1, 3) { format!(" if {}", self.expr(d)) } else { String::new() }, self.inner(d)),
            21 => format!("{} => {}", self.arg(d), self.pattern(2)),
            22 => format!("/(?<{}>é+)(?<b>.)/ =~ {}", self.pick(&["a", "x", "long_name"]), self.arg(d)),
            23 => format!("{} = {}", self.pick(&["@iv", "$gv", "@@cv", "Foo::BAR", "KK"]), self.expr(d)),
            24 => format!("{}::{} {} {}", self.pick(&CONSTS), self.pick(&CONSTS), self.pick(&["||=", "&&=", "+="]), self.expr(d)),
            25 => format!("{}.{} {} {}", self.local(), self.pick(&["foo", "été"]), self.pick(&["=", "+=", "||="]), self.expr(d)),
            26 => format!("{} and not {}", self.expr(d), self.expr(d)),
            _ => self.expr(d),
        }
    }
    fn cpath(&mut self) -> String { match self.rng.below(5) { 0 => format!("{}::{}", self.pick(&CONSTS), self.pick(&CONSTS)), 1 => format!("::{}", self.pick(&CONSTS)), _ => self.pick(&CONSTS) } }
    fn target(&mut self, d: usize) -> String {
        match self.rng.below(8) { 0 => "@iv".into(), 1 => format!("{}.foo", self.local()), 2 => format!("{}[{}]", self.local(), self.arg(d)), 3 => format!("({}, {})", self.local(), self.local()), _ => self.local() }
    }
    fn pattern(&mut self, d: usize) -> String {
        if d == 0 { return self.local(); }
        match self.rng.below(10) {
            0 => format!("[{}, *{}]", self.pattern(d - 1), self.local()),
            1 => format!("{{{}:, k: {}}}", self.pick(&["a", "x"]), self.pattern(d - 1)),
            2 => format!("{} => {}", self.pick(&CONSTS), self.local()),
            3 => format!("{}({})", self.pick(&CONSTS), self.pattern(d - 1)),
            4 => format!("^{}", self.local()),
            5 => "1 | 2".into(),
            6 => format!("{{k: {}, **{}}}", self.pattern(d - 1), self.local()),
            7 => format!("^({})", self.local()),
            _ => self.local(),
        }
    }
    fn params(&mut self, d: usize) -> String {
        let mut names: Vec<&str> = LOCALS.to_vec(); self.rng.shuffle(&mut names);
        let mut names = names.into_iter();
        let mut v = vec![];
        let mut next = |v: &mut Vec<String>, f: &dyn Fn(&str) -> String| if let Some(n) = names.next() { v.push(f(n)) };
        if self.rng.chance(2, 3) { next(&mut v, &|n| n.into()) }
        if self.rng.chance(1, 6) { next(&mut v, &|n| format!("({n}, zz)")) }
        if self.rng.chance(1, 4) { let e = self.arg(d); next(&mut v, &|n| format!("{n} = {e}")) }
        if self.rng.chance(1, 5) { next(&mut v, &|n| format!("*{n}")) }
        if self.rng.chance(1, 4) { next(&mut v, &|n| format!("{n}:")) }
        if self.rng.chance(1, 4) { let e = self.arg(d); next(&mut v, &|n| format!("{n}: {e}")) }
        if self.rng.chance(1, 6) { next(&mut v, &|n| format!("**{n}")) }
        if self.rng.chance(1, 4) { next(&mut v, &|n| format!("&{n}")) }
        v.join(", ")
    }
    fn block(&mut self, d: usize) -> String {
        let p = match self.rng.below(5) { 0 => String::new(), 1 => format!("|{}; {}|", self.local(), self.pick(&["a", "b"])), _ => format!("|{}|", self.params(d)) };
        match self.rng.below(4) { 0 => format!(" do {p}\n{}end", self.inner(d)), 1 if p.is_empty() => format!(" {{ {} + {} }}", self.pick(&["_1", "it"]), self.local()), _ => format!(" {{ {p} {} }}", self.arg(d)) }
    }
    fn arg(&mut self, d: usize) -> String { let e = self.expr(d); if e.contains(|c: char| c == ' ' || c == '\n') { format!("({e})") } else { e } }
    fn call_args(&mut self, d: usize) -> String {
        let mut v = vec![];
        for _ in 0..self.rng.below(3) { v.push(match self.rng.below(10) { 0 => format!("*{}", self.local()), 1 => format!("k: {}", self.arg(d)), 2 => format!("{}:", self.pick(&["a", "x", "foo"])), 3 => format!("**{}", self.local()), _ => self.arg(d) }) }
        if self.rng.chance(1, 10) { v.push(format!("&{}", self.local())) }
        v.join(", ")
    }
    pub fn expr(&mut self, d: usize) -> String {
        if !self.spend() { return match self.rng.below(5) { 0 => "1".into(), 1 => self.pick(&CONSTS), _ => self.local() }; }
        match self.rng.below(34) {
            0..=5 => self.local(),
            6 => self.pick(&["1", "nil", "\"é😀\"", ":sym", "self", "%w[a é]", "__method__", "1..", "'x'"]),
            7 => self.cpath(),
            8 | 9 => format!("{}({})", self.pick(&["foo", "puts", "raise", "größe"]), self.call_args(d)),
            10 | 11 => { let (r, op, m) = (self.arg(d), self.pick(&[".", "&.", "::", "\n  ."]), self.pick(&METHODS[..7])); let a = if self.rng.chance(1, 2) { format!("({})", self.call_args(d)) } else { String::new() }; format!("{r}{op}{m}{a}") }
            12 => { let r = self.arg(d); let m = self.pick(&["each", "map", "tap"]); format!("{r}.{m}{}", self.block(d)) }
            13 => format!("foo{}", self.block(d)),
            14 => format!("!{}", self.arg(d)),
            15 => format!("not {}", self.arg(d)),
            16 => format!("-{}", self.local()),
            17 | 18 => format!("{} {} {}", self.arg(d), self.pick(&["+", "<=>", "==", "<<", "&&", "||", "=~", "!=", "..", "*"]), self.arg(d)),
            19 => format!("{}[{}]", self.arg(d), self.arg(d)),
            20 => format!("[{}, *{}]", self.expr(d), self.local()),
            21 => format!("{{ k: {}, {} => {}, **{}, {}: }}", self.arg(d), self.arg(d), self.arg(d), self.local(), self.pick(&["a", "b", "foo"])),
            22 => format!("\"é#{{{}}}😀#{{{}}}\"", self.expr(d), self.local()),
            23 => format!("({} ? {} : {})", self.arg(d), self.arg(d), self.arg(d)),
            24 => format!("->({}) {{ {} }}", self.params(d), self.expr(d)),
            25 => { let e = self.expr(d); if e.contains('\n') { e } else { self.heredocs.push(format!("  é #{{{e}}} 😀\nEOS\n")); format!("foo(<<~EOS, {})", self.local()) } }
            26 => format!("defined?({})", self.arg(d)),
            27 => format!("({} = {})", self.local(), self.expr(d)),
            28 => format!("{}.({})", self.local(), self.call_args(d)),
            29 => { let (m, a) = (self.pick(&["foo", "puts"]), self.call_args(d)); if a.is_empty() { m } else { format!("{m} {a}") } }
            30 => format!("{} if {}", self.local(), self.local()),
            31 => format!("{} in {}", self.arg(d), self.pattern(1)),
            32 => format!("`ls #{{{}}}`", self.local()),
            _ => format!("/é#{{{}}}/o", self.local()),
        }
    }
}
