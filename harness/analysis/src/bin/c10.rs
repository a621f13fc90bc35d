//! C10 on the compiled code: class files written from the JVM specification together with the description
//! they encode; damaged and hostile byte strings; descriptors; modified UTF-8.
use ruby_fast_lsp_jvm_metadata::*;
use std::process::{Command, Stdio};
use vcommon::{Rng, Run};

type R = Result<(), String>;

// ---- a class-file writer (JVMS chapter 4) ----
/// Java's modified UTF-8 of UTF-16 code units
fn mutf8(units: &[u16]) -> Vec<u8> {
    let mut b = vec![];
    for &u in units {
        match u {
            1..=0x7f => b.push(u as u8),
            0 | 0x80..=0x7ff => { b.push(0xc0 + (u / 64) as u8); b.push(0x80 + (u % 64) as u8) }
            _ => { b.push(0xe0 + (u / 4096) as u8); b.push(0x80 + (u / 64 % 64) as u8); b.push(0x80 + (u % 64) as u8) }
        }
    }
    b
}
#[derive(Default)]
struct Pool { bytes: Vec<u8>, count: u16, texts: Vec<(String, u16)>, attributes: usize, longest: usize, widest: usize }
impl Pool {
    fn add(&mut self, bytes: &[u8], slots: u16) -> u16 { self.bytes.extend_from_slice(bytes); let i = self.count + 1; self.count += slots; i }
    fn text(&mut self, s: &str) -> u16 {
        if let Some(x) = self.texts.iter().find(|x| x.0 == s) { return x.1; }
        let m = mutf8(&s.encode_utf16().collect::<Vec<_>>());
        let mut b = vec![1]; b.extend((m.len() as u16).to_be_bytes()); b.extend(m);
        let i = self.add(&b, 1);
        self.texts.push((s.into(), i));
        i
    }
    fn reference(&mut self, tag: u8, s: &str) -> u16 { let t = self.text(s); let mut b = vec![tag]; b.extend(t.to_be_bytes()); self.add(&b, 1) }
    fn class(&mut self, s: &str) -> u16 { self.reference(7, s) }
    fn noise(&mut self, rng: &mut Rng) {
        for _ in 0..rng.below(3) {
            let (tag, n, slots) = *rng.pick(&[(3u8, 4, 1), (4, 4, 1), (5, 8, 2), (6, 8, 2), (8, 2, 1), (9, 4, 1), (10, 4, 1), (11, 4, 1), (12, 4, 1), (15, 3, 1), (16, 2, 1), (17, 4, 1), (18, 4, 1), (20, 2, 1)]);
            let mut b = vec![tag]; for _ in 0..n { b.push(rng.below(256) as u8); }
            self.add(&b, slots);
        }
        if rng.chance(1, 6) { // a string constant whose text has an unpaired surrogate: legal, never used as a name
            let m = mutf8(&[0x41, 0xd800 + rng.below(0x800) as u16, 0x42]);
            let mut b = vec![1]; b.extend((m.len() as u16).to_be_bytes()); b.extend(m);
            self.add(&b, 1);
        }
    }
}
fn w2(b: &mut Vec<u8>, v: u16) { b.extend(v.to_be_bytes()) }
fn attr(p: &mut Pool, name: &str, body: Vec<u8>) -> Vec<u8> { p.attributes += 1; p.longest = p.longest.max(body.len()); let mut b = vec![]; w2(&mut b, p.text(name)); b.extend((body.len() as u32).to_be_bytes()); b.extend(body); b }
fn attrs(list: Vec<Vec<u8>>) -> Vec<u8> { let mut b = vec![]; w2(&mut b, list.len() as u16); for a in list { b.extend(a); } b }
fn name(rng: &mut Rng) -> String {
    const P: [&str; 12] = ["a", "B", "name", "größe", "日本", "\u{1d11e}x", "nul\0", "x$1", "\u{7ff}\u{800}", "\u{ffff}", "\u{7f}\u{80}", "Code"];
    let mut s = String::new();
    for _ in 0..rng.range(1, 2) { s.push_str(*rng.pick(&P)); }
    if rng.chance(1, 200) { s = s.repeat(40); }
    s
}
fn class_name(rng: &mut Rng) -> String { format!("{}/{}", name(rng), name(rng)).replace(';', "") }
fn ty(rng: &mut Rng) -> (String, usize) {
    match rng.below(9) {
        0 => ("J".into(), 2), 1 => ("D".into(), 2),
        2 => (format!("L{};", class_name(rng)), 1),
        3 => { let d = if rng.chance(1, 10) { 255 } else { rng.range(1, 3) }; let d = d.min(255); ("[".repeat(d) + &{ let t = ty(rng).0; t.trim_start_matches('[').to_string() }, 1) }
        k => (["I", "Z", "B", "C", "S"][k - 4].into(), 1),
    }
}
fn value(rng: &mut Rng, p: &mut Pool, depth: usize) -> Vec<u8> {
    let mut b = vec![];
    match rng.below(if depth > 4 { 2 } else { 5 }) {
        0 => { b.push(*rng.pick(b"BCDFIJSZsc")); w2(&mut b, rng.below(60000) as u16) }
        1 => { b.push(b'e'); w2(&mut b, 7); w2(&mut b, 9) }
        2 => { b.push(b'@'); b.extend(annotation(rng, p, depth + 1).1) }
        _ => { b.push(b'['); let n = rng.below(4); p.widest = p.widest.max(n as usize); w2(&mut b, n as u16); for _ in 0..n { b.extend(value(rng, p, depth + 1)); } }
    }
    b
}
fn annotation(rng: &mut Rng, p: &mut Pool, depth: usize) -> (AnnotationInfo, Vec<u8>) {
    let d = format!("L{};", class_name(rng));
    let mut b = vec![];
    w2(&mut b, p.text(&d));
    let n = rng.below(3);
    p.widest = p.widest.max(n as usize);
    w2(&mut b, n as u16);
    for _ in 0..n { let t = name(rng); w2(&mut b, p.text(&t)); b.extend(value(rng, p, depth)); }
    (AnnotationInfo { descriptor: d }, b)
}
fn annotations(rng: &mut Rng, p: &mut Pool, list: &mut Vec<Vec<u8>>) -> Vec<AnnotationInfo> {
    let mut all = vec![];
    for a in ["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"] {
        if !rng.chance(1, 3) { continue; }
        let mut b = vec![];
        let n = rng.below(3);
        p.widest = p.widest.max(n as usize);
        w2(&mut b, n as u16);
        for _ in 0..n { let (i, x) = annotation(rng, p, 0); all.push(i); b.extend(x); }
        list.push(attr(p, a, b));
    }
    all
}
fn ignored(rng: &mut Rng, p: &mut Pool, list: &mut Vec<Vec<u8>>) {
    if rng.chance(1, 3) { let n = *rng.pick(&["Deprecated", "Synthetic", "RuntimeVisibleTypeAnnotations", "Vendor\u{1f600}", "ConstantValue", "AnnotationDefault"]); let body = (0..rng.below(6)).map(|_| rng.below(256) as u8).collect(); list.push(attr(p, n, body)); }
}
fn signature(rng: &mut Rng, p: &mut Pool, list: &mut Vec<Vec<u8>>) -> Option<String> {
    if !rng.chance(1, 3) { return None; }
    let s = format!("<T:L{};>", name(rng)); let mut b = vec![]; w2(&mut b, p.text(&s)); list.push(attr(p, "Signature", b)); Some(s)
}
fn member(rng: &mut Rng, p: &mut Pool, method: bool) -> (MemberInfo, Vec<u8>) {
    let access = rng.next() as u16;
    let n = name(rng);
    let mut list = vec![];
    let mut m = MemberInfo { access_flags: access, name: n.clone(), descriptor: String::new(), signature: None, exceptions: vec![], parameters: vec![], annotations: vec![], first_line: None };
    let mut slots = vec![];
    if method {
        let mut at = if access & 8 == 0 { 1u16 } else { 0 };
        let mut d = String::from("(");
        for _ in 0..rng.below(5) { let (t, w) = ty(rng); d.push_str(&t); slots.push(at); at += w as u16; }
        d.push(')'); d.push_str(&if rng.chance(1, 3) { "V".to_string() } else { ty(rng).0 });
        m.descriptor = d;
        m.parameters = (0..slots.len()).map(|i| MethodParameter { name: format!("arg{i}"), access_flags: 0 }).collect();
    } else { m.descriptor = ty(rng).0; }
    ignored(rng, p, &mut list);
    m.signature = signature(rng, p, &mut list);
    if method && rng.chance(1, 3) {
        let mut b = vec![]; let k = rng.below(3); w2(&mut b, k as u16);
        for _ in 0..k { let c = class_name(rng); w2(&mut b, p.class(&c)); m.exceptions.push(c); }
        list.push(attr(p, "Exceptions", b));
    }
    if method && rng.chance(2, 3) {
        let mut tables = vec![];
        for _ in 0..rng.below(3) {
            let mut b = vec![]; let k = rng.below(4); w2(&mut b, k as u16);
            for i in 0..k { w2(&mut b, i as u16); let l = rng.next() as u16; w2(&mut b, l); m.first_line = Some(m.first_line.map_or(l, |x| x.min(l))); }
            tables.push(attr(p, "LineNumberTable", b));
        }
        let mut seen: Vec<u16> = vec![];
        for _ in 0..rng.below(3) {
            let mut b = vec![]; let k = rng.below(5); w2(&mut b, k as u16);
            for _ in 0..k {
                let slot = rng.below(8) as u16;
                // at most one variable starts with the method in each slot
                let start = if !seen.contains(&slot) && rng.chance(2, 3) { seen.push(slot); 0 } else { rng.range(1, 9) as u16 };
                let (v, t) = (name(rng), ty(rng).0);
                w2(&mut b, start); w2(&mut b, 3); w2(&mut b, p.text(&v)); w2(&mut b, p.text(&t)); w2(&mut b, slot);
                if start == 0 { if let Some(i) = slots.iter().position(|s| *s == slot) { m.parameters[i].name = v; } }
            }
            tables.push(attr(p, "LocalVariableTable", b));
        }
        if rng.chance(1, 2) { tables.push(attr(p, "StackMapTable", vec![1, 2, 3])); }
        rng.shuffle(&mut tables);
        let mut b = vec![0, 2, 0, 9];
        let code = rng.below(5); b.extend((code as u32).to_be_bytes()); for _ in 0..code { b.push(rng.below(256) as u8); }
        let ex = rng.below(3); w2(&mut b, ex as u16); for _ in 0..ex * 8 { b.push(rng.below(256) as u8); }
        b.extend(attrs(tables));
        list.push(attr(p, "Code", b));
    }
    if method && !slots.is_empty() && rng.chance(1, 3) {
        let k = slots.len();
        let mut b = vec![k as u8];
        for i in 0..k {
            let f = rng.next() as u16;
            let t = if rng.chance(1, 4) { w2(&mut b, 0); format!("arg{i}") } else { let t = name(rng); w2(&mut b, p.text(&t)); t };
            w2(&mut b, f);
            m.parameters[i] = MethodParameter { name: t, access_flags: f };
        }
        list.push(attr(p, "MethodParameters", b));
    }
    m.annotations = annotations(rng, p, &mut list);
    let mut b = vec![];
    w2(&mut b, access); w2(&mut b, p.text(&n)); let d = m.descriptor.clone(); w2(&mut b, p.text(&d));
    b.extend(attrs(list));
    (m, b)
}
/// the description, its file, and how many attributes it has, the longest one and the widest annotation list
fn class(rng: &mut Rng) -> (ClassFile, Vec<u8>, [usize; 3]) {
    let mut p = Pool::default();
    p.noise(rng);
    let mut c = ClassFile { minor_version: rng.next() as u16, major_version: rng.next() as u16, access_flags: rng.next() as u16, name: class_name(rng), super_name: None, interfaces: vec![], fields: vec![], methods: vec![], source_file: None, signature: None, annotations: vec![], inner_classes: vec![], record_components: vec![], module_name: None };
    let mut b = vec![];
    w2(&mut b, c.access_flags);
    w2(&mut b, p.class(&c.name));
    if rng.chance(1, 6) { w2(&mut b, 0) } else { let s = class_name(rng); w2(&mut b, p.class(&s)); c.super_name = Some(s) }
    p.noise(rng);
    let n = rng.below(3); w2(&mut b, n as u16);
    for _ in 0..n { let s = class_name(rng); w2(&mut b, p.class(&s)); c.interfaces.push(s); }
    for method in [false, true] {
        let n = rng.below(4); w2(&mut b, n as u16);
        for _ in 0..n { let (m, x) = member(rng, &mut p, method); b.extend(x); if method { c.methods.push(m) } else { c.fields.push(m) } p.noise(rng); }
    }
    let mut list = vec![];
    if rng.chance(1, 2) { let s = name(rng); let mut x = vec![]; w2(&mut x, p.text(&s)); list.push(attr(&mut p, "SourceFile", x)); c.source_file = Some(s); }
    ignored(rng, &mut p, &mut list);
    c.signature = signature(rng, &mut p, &mut list);
    c.annotations = annotations(rng, &mut p, &mut list);
    if rng.chance(1, 3) {
        let mut x = vec![]; let n = rng.below(3); w2(&mut x, n as u16);
        for _ in 0..n {
            let i = InnerClassInfo { inner_class: class_name(rng), outer_class: if rng.chance(1, 2) { Some(class_name(rng)) } else { None }, inner_name: if rng.chance(1, 2) { Some(name(rng)) } else { None }, access_flags: rng.next() as u16 };
            w2(&mut x, p.class(&i.inner_class)); w2(&mut x, i.outer_class.as_ref().map_or(0, |s| p.class(s))); w2(&mut x, i.inner_name.as_ref().map_or(0, |s| p.text(s))); w2(&mut x, i.access_flags);
            c.inner_classes.push(i);
        }
        list.push(attr(&mut p, "InnerClasses", x));
    }
    if rng.chance(1, 3) {
        let mut x = vec![]; let n = rng.below(3); w2(&mut x, n as u16);
        for _ in 0..n {
            let mut l = vec![];
            let r = RecordComponentInfo { name: name(rng), descriptor: ty(rng).0, signature: signature(rng, &mut p, &mut l), annotations: annotations(rng, &mut p, &mut l) };
            ignored(rng, &mut p, &mut l);
            w2(&mut x, p.text(&r.name)); w2(&mut x, p.text(&r.descriptor)); x.extend(attrs(l));
            c.record_components.push(r);
        }
        list.push(attr(&mut p, "Record", x));
    }
    if rng.chance(1, 4) {
        let s = class_name(rng); let mut x = vec![];
        w2(&mut x, p.reference(19, &s)); w2(&mut x, 0); if rng.chance(1, 2) { w2(&mut x, 0) } else { w2(&mut x, p.text("1.0")) }
        let n = rng.below(3); w2(&mut x, n as u16); for _ in 0..n { w2(&mut x, 1); w2(&mut x, 2); if rng.chance(1, 2) { w2(&mut x, 0) } else { w2(&mut x, p.text("2")) } }
        for _ in 0..2 { let n = rng.below(3); w2(&mut x, n as u16); for _ in 0..n { w2(&mut x, 1); w2(&mut x, 0); let k = rng.below(3); w2(&mut x, k as u16); for _ in 0..k { w2(&mut x, 5); } } }
        let n = rng.below(3); w2(&mut x, n as u16); for _ in 0..n { w2(&mut x, 6); }
        let n = rng.below(3); w2(&mut x, n as u16); for _ in 0..n { w2(&mut x, 6); let k = rng.below(3); w2(&mut x, k as u16); for _ in 0..k { w2(&mut x, 5); } }
        list.push(attr(&mut p, "Module", x)); c.module_name = Some(s);
    }
    b.extend(attrs(list));
    let mut f = vec![0xca, 0xfe, 0xba, 0xbe];
    w2(&mut f, c.minor_version); w2(&mut f, c.major_version); w2(&mut f, p.count + 1); f.extend(&p.bytes); f.extend(b);
    (c, f, [p.attributes, p.longest, p.widest])
}

// ---- a reader of just the skeleton, for damaged files ----
struct Rd<'a> { b: &'a [u8], o: usize }
impl<'a> Rd<'a> {
    fn n(&mut self, k: usize) -> Option<&'a [u8]> { let s = self.b.get(self.o..self.o.checked_add(k)?)?; self.o += k; Some(s) }
    fn u(&mut self, k: usize) -> Option<usize> { Some(self.n(k)?.iter().fold(0, |a, x| a * 256 + *x as usize)) }
}
enum E<'a> { T(&'a [u8]), C(usize), N }
fn decode(b: &[u8]) -> Option<Option<String>> {
    let mut u = vec![]; let mut i = 0;
    while i < b.len() {
        // accept exactly what the encoder can produce
        let mut hit = false;
        for n in 1..=3 {
            let Some(s) = b.get(i..i + n) else { break };
            let v: u32 = match n { 1 => s[0] as u32, 2 => (s[0] as u32 & 31) * 64 + (s[1] as u32 & 63), _ => (s[0] as u32 & 15) * 4096 + (s[1] as u32 & 63) * 64 + (s[2] as u32 & 63) };
            if mutf8(&[v as u16]) == s { u.push(v as u16); i += n; hit = true; break; }
        }
        if !hit { return None; }
    }
    Some(String::from_utf16(&u).ok())
}
/// name, super, interfaces, then (flags, name, descriptor) of fields and methods; None: the skeleton is broken
type Skeleton = (String, Option<String>, Vec<String>, Vec<(u16, String, String)>, Vec<(u16, String, String)>);
fn skeleton(b: &[u8]) -> Option<Skeleton> {
    let mut r = Rd { b, o: 8 };
    if b.get(..4)? != [0xca, 0xfe, 0xba, 0xbe] { return None; }
    let n = r.u(2)?;
    let mut es = vec![E::N];
    while es.len() < n {
        let t = r.u(1)?;
        let e = match t { 1 => { let k = r.u(2)?; let s = r.n(k)?; decode(s)?; E::T(s) } 7 => E::C(r.u(2)?), 8 | 16 | 19 | 20 => { r.n(2)?; E::N } 15 => { r.n(3)?; E::N } 3 | 4 | 9 | 10 | 11 | 12 | 17 | 18 => { r.n(4)?; E::N } 5 | 6 => { r.n(8)?; es.push(E::N); E::N } _ => return None };
        es.push(e);
    }
    let text = |i: usize| match es.get(i)? { E::T(s) => decode(s)?, _ => None };
    let cls = |i: usize| match es.get(i)? { E::C(k) => text(*k), _ => None };
    r.u(2)?;
    let name = cls(r.u(2)?)?;
    let sup = match r.u(2)? { 0 => None, i => Some(cls(i)?) };
    let mut ifs = vec![]; for _ in 0..r.u(2)? { ifs.push(cls(r.u(2)?)?); }
    let mut ms = [vec![], vec![]];
    for m in &mut ms {
        for _ in 0..r.u(2)? { m.push((r.u(2)? as u16, text(r.u(2)?)?, text(r.u(2)?)?)); for _ in 0..r.u(2)? { r.n(2)?; let k = r.u(4)?; r.n(k)?; } }
    }
    for _ in 0..r.u(2)? { r.n(2)?; let k = r.u(4)?; r.n(k)?; }
    if r.o != b.len() { return None; }
    let [f, m] = ms;
    Some((name, sup, ifs, f, m))
}
fn of(c: &ClassFile) -> Skeleton { let m = |v: &Vec<MemberInfo>| v.iter().map(|m| (m.access_flags, m.name.clone(), m.descriptor.clone())).collect(); (c.name.clone(), c.super_name.clone(), c.interfaces.clone(), m(&c.fields), m(&c.methods)) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn faithful(want: &ClassFile, b: &[u8]) -> R {
    match parse_class(b, ClassLimits::default()) {
        Err(e) => Err(format!("a well-formed class was refused: {e:?}")),
        Ok(got) if got != *want => Err(format!("got {got:?}, encoded {want:?}")),
        Ok(got) => { if got.estimated_heap_bytes() < got.name.len() as u64 { return Err("weight".into()); } Ok(()) }
    }
}
fn damaged(b: &[u8]) -> R {
    let got = parse_class(b, ClassLimits::default());
    let sk = skeleton(b);
    match (got, sk) {
        (Ok(c), Some(s)) if of(&c) == s => Ok(()),
        (Ok(c), s) => Err(format!("accepted as {:?}, the file's skeleton is {s:?}", of(&c))),
        (Err(_), _) => Ok(()),
    }
}
fn damage(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..rng.range(1, 3) {
        let n = v.len();
        if n == 0 { break; }
        let i = if rng.chance(1, 3) { rng.below(n.min(40)) } else { rng.below(n) };
        match rng.below(8) {
            0 => v.truncate(i), 1 => v[i] ^= 1 << rng.below(8), 2 => v[i] = rng.below(256) as u8, 3 => v[i] = 255,
            4 => { v.remove(i); } 5 => v.insert(i, rng.below(256) as u8), 6 => v.push(0),
            _ => { let k = *rng.pick(b"[@e\x00\x01\xff"); v[i] = k }
        }
    }
    v
}
// ---- limits ----
fn limits(rng: &mut Rng, b: &[u8], c: &ClassFile, [attributes, longest, widest]: [usize; 3]) -> R {
    let d = ClassLimits::default();
    let ok = |l: ClassLimits| parse_class(b, l).is_ok();
    let is = |what: &str, got: bool, want: bool| if got == want { Ok(()) } else { Err(format!("limit {what}: {}", if got { "not enforced" } else { "refuses what is within it" })) };
    is("class bytes", ok(ClassLimits { max_class_bytes: b.len(), ..d }), true)?;
    is("class bytes", ok(ClassLimits { max_class_bytes: b.len() - 1, ..d }), false)?;
    let n = b[8] as usize * 256 + b[9] as usize;
    is("constant pool", ok(ClassLimits { max_constant_pool_entries: n, ..d }), true)?;
    is("constant pool", ok(ClassLimits { max_constant_pool_entries: n - 1, ..d }), false)?;
    for k in [c.fields.len(), c.methods.len(), c.interfaces.len()] { if k > 0 { is("members", ok(ClassLimits { max_members: k - 1, ..d }), false)?; } }
    for (what, n, l) in [("attributes", attributes, (|n| ClassLimits { max_attributes: n, ..ClassLimits::default() }) as fn(usize) -> ClassLimits), ("attribute bytes", longest, |n| ClassLimits { max_attribute_bytes: n, ..ClassLimits::default() }), ("annotations", widest, |n| ClassLimits { max_annotations: n, ..ClassLimits::default() })] {
        is(what, ok(l(n)), true)?;
        if n > 0 { is(what, ok(l(n - 1)), false)?; }
    }
    let k = rng.below(300);
    let _ = parse_class(b, ClassLimits { max_attribute_bytes: k, max_annotations: k % 3, max_annotation_depth: k % 5, max_attributes: k % 20, ..d });
    Ok(())
}
// ---- descriptors ----
fn show(t: &JvmType) -> String {
    match t { JvmType::Byte => "B".into(), JvmType::Char => "C".into(), JvmType::Double => "D".into(), JvmType::Float => "F".into(), JvmType::Int => "I".into(), JvmType::Long => "J".into(), JvmType::Short => "S".into(), JvmType::Boolean => "Z".into(), JvmType::Void => "V".into(), JvmType::Object(n) => format!("L{n};"), JvmType::Array(t) => format!("[{}", show(t)) }
}
fn legal(b: &str, void: bool) -> Option<&str> {
    let t = b.trim_start_matches('[');
    let d = b.len() - t.len();
    if d > 255 { return None; }
    let c = t.chars().next()?;
    if "BCDFIJSZ".contains(c) || (c == 'V' && void && d == 0) { return Some(&t[1..]); }
    if c == 'L' { let e = t.find(';')?; if e == 1 { return None; } return Some(&t[e + 1..]); }
    None
}
fn descriptor(s: &str) -> R {
    let f = parse_field_descriptor(s);
    let want = legal(s, false) == Some("");
    if f.is_ok() != want || f.as_ref().is_ok_and(|t| show(t) != s) { return Err(format!("field descriptor {s:?}: {}", if want { "legal" } else { "not legal" })); }
    let legal_method = (|| { let mut r = s.strip_prefix('(')?; let mut n = 0; while !r.starts_with(')') { r = legal(r, false)?; n += 1; } (legal(&r[1..], true)? == "").then_some(n) })();
    let m = parse_method_descriptor(s);
    if m.as_ref().ok().map(|m| m.parameters.len()) != legal_method { return Err(format!("method descriptor {s:?}: read {:?}, expected {legal_method:?} parameters", m.map(|m| m.parameters.len()))); }
    if let Ok(m) = m { let t = format!("({}){}", m.parameters.iter().map(show).collect::<String>(), show(&m.returns)); if t != s { return Err(format!("{s:?} read as {t:?}")); } }
    Ok(())
}
// ---- hostile files, read in a child process: a stack overflow ends it ----
fn hostile(k: usize) -> Vec<u8> {
    let mut p = Pool::default();
    let mut b = vec![];
    w2(&mut b, 1); let t = p.class("x/Y"); w2(&mut b, t); w2(&mut b, 0); w2(&mut b, 0);
    let deep = |n: usize, piece: &[u8], end: &[u8]| { let mut v = piece.repeat(n); v.extend_from_slice(end); v };
    match k {
        0 | 1 => { // arrays of arrays, as a field type and as a parameter
            let d = if k == 0 { "[".repeat(65000) + "I" } else { format!("({}I)V", "[".repeat(65000)) };
            if k == 1 { w2(&mut b, 0); }
            w2(&mut b, 1); w2(&mut b, 0); w2(&mut b, p.text("f")); w2(&mut b, p.text(&d)); w2(&mut b, 0);
            if k == 0 { w2(&mut b, 0); }
            w2(&mut b, 0);
        }
        _ => { // annotation values nested in arrays, or in annotations
            w2(&mut b, 0); w2(&mut b, 0); w2(&mut b, 1);
            let d = p.text("La;").to_be_bytes();
            let mut x = vec![0, 1, d[0], d[1], 0, 1, d[0], d[1]];
            if k == 2 { x.extend(deep(2_000_000, &[b'[', 0, 1], &[b'I', 0, 1])) } else { x.extend(deep(800_000, &[b'@', d[0], d[1], 0, 1, d[0], d[1]], &[b'I', 0, 1])) }
            b.extend(attr(&mut p, "RuntimeVisibleAnnotations", x));
        }
    }
    let mut f = vec![0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 61];
    w2(&mut f, p.count + 1); f.extend(&p.bytes); f.extend(b);
    f
}
const HOSTILE: [&str; 4] = ["a field of 65000 array dimensions", "a parameter of 65000 array dimensions", "2,000,000 nested annotation arrays", "800,000 nested annotations"];
fn survive(k: usize) -> R {
    let s = Command::new(std::env::current_exe().unwrap()).env("VP_HOSTILE", k.to_string()).stderr(Stdio::null()).stdout(Stdio::null()).status().map_err(|e| e.to_string())?;
    match s.code() { Some(0) => Ok(()), Some(c) => Err(format!("accepted or panicked ({c})")), None => Err("the process was killed: stack overflow".into()) }
}
fn main() {
    if let Ok(k) = std::env::var("VP_HOSTILE") {
        let b = hostile(k.parse().unwrap());
        std::process::exit(match parse_class(&b, ClassLimits::default()) { Err(MetadataError::LimitExceeded(_) | MetadataError::InvalidDescriptor) => 0, _ => 7 });
    }
    let mut run = Run::start();
    run.rule("seeded well-formed class files written from the JVM specification with every attribute the reader knows, compared field by field with what was encoded; the same files damaged in 1 to 3 places, compared with an independent reading of pool, names and members; limits at and one below the actual size; field and method descriptors over a small alphabet; all one- to three-byte modified UTF-8 strings; hostile nesting read in a child process");
    for (k, what) in HOSTILE.iter().enumerate() { run.case("C10 nesting is bounded", &k, true, || what.to_string(), || survive(k)); }
    // every encoded unit, and every string of up to three bytes with interesting leads
    let mut texts: Vec<Vec<u8>> = vec![];
    for a in 0..=255u8 { texts.push(vec![a]); for c in [0u8, 1, 0x41, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xff] { texts.push(vec![a, c]); for d in [0u8, 0x41, 0x7f, 0x80, 0xbf, 0xc0] { texts.push(vec![a, c, d]); texts.push(vec![a, c, d, 0x80]); } } }
    for t in &texts {
        run.case("C10 modified UTF-8", t, true, || hex(t), || {
            let mut f = vec![0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 61, 0, 3, 7, 0, 2, 1]; w2(&mut f, t.len() as u16); f.extend(t); f.extend([0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
            let got = parse_class(&f, ClassLimits::default()).map(|c| c.name).ok();
            let want = decode(t).flatten();
            if got == want { Ok(()) } else { Err(format!("read as {got:?}, encodes {want:?}")) }
        });
    }
    for _ in 0..run.scale(30_000, 400_000) {
        let n = run.rng.below(9);
        let mut s = if run.rng.chance(1, 2) { "(".to_string() } else { String::new() };
        for _ in 0..n { if run.rng.chance(1, 3) { s.push_str(&ty(&mut run.rng).0) } else { s.push(*run.rng.pick(&['(', ')', 'I', 'J', 'V', 'L', ';', '[', 'é', 'a', '/'])) } }
        if run.rng.chance(1, 300) { s = format!("{}{s}", "[".repeat(run.rng.range(250, 260))) }
        run.case("C10 descriptors", &s, true, || s.clone(), || descriptor(&s));
        if run.stop() { break; }
    }
    for _ in 0..run.scale(6_000, 100_000) {
        let (c, b, sizes) = class(&mut run.rng);
        run.case("C10 well-formed classes", &b, true, || hex(&b), || faithful(&c, &b));
        let mut r = Rng::new(run.rng.next());
        run.case("C10 limits", &(1, &b), true, || hex(&b), || limits(&mut r, &b, &c, sizes));
        for _ in 0..3 { let d = damage(&mut run.rng, &b); run.case("C10 damaged classes", &d, true, || hex(&d), || damaged(&d)); }
        if run.stop() { break; }
    }
    run.finish()
}
