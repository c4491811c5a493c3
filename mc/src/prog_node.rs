//! Types that take their span, or their value, from their first part
use crate::{Def, Verdict};
use mc::Ctx;

pub const RULE: &str = "a case is a batch of definitions compiled by the real derives; families: structs with named and unnamed fields, up to 4 of them, every kind of first part, other parts that have spans of their own, generics; enums of up to 3 variants of every form; node wrappers with every kind of value and other fields; up to 65 fields or variants, names in every position, types that come through a macro; other forms; every accepted one is run on every span of a menu; non-trivial: an accepted definition";
pub const ASSUME: &[&str] = &["the values used to run a definition represent all values"];
pub const COMMON: &str = "pub mod lx { use teleparse::prelude::*;\n#[derive_lexicon]\npub enum T {\n#[teleparse(regex(\"a\"), terminal(A))]\nLetter,\n}\n\n#[derive(teleparse::ToSpan, Clone, Default)] pub struct Inner { pub s: teleparse::Span, pub other: teleparse::Span }\npub struct Own; impl teleparse::ToSpan for Own { fn lo(&self) -> usize { 3 } fn hi(&self) -> usize { 8 } }\n}\nuse lx::*;";
const HEAD: &str = "use super::*; use teleparse::{Span, Token, tp, ToSpan}; use tp::Node; use std::marker::PhantomData;\n";
/// from, to
const SPANS: [(usize, usize); 4] = [(3, 8), (0, 0), (5, 5), (7, 2)];

/// kinds of parts with a span: type and value from (a, b)
#[derive(Clone, Copy, PartialEq)]
enum Part {
    Span,
    Token,
    Node,
    Inner,
    Pair,
    Triple,
    Ref,
    Gen,
    Boxed,
}
use Part::*;
const PARTS: [Part; 8] = [Span, Token, Node, Inner, Pair, Triple, Ref, Gen];
impl Part {
    fn ty(self) -> &'static str {
        match self {
            Span => "Span",
            Token => "Token<T>",
            Node => "tp::Node<String>",
            Inner => "Inner",
            Pair => "(Span, Token<T>)",
            Triple => "(Span, Inner, Span)",
            Ref => "&'a Inner",
            Gen => "G",
            Boxed => "Box<Span>",
        }
    }
    fn generics(self) -> &'static str {
        match self {
            Ref => "<'a>",
            Gen => "<G: ToSpan>",
            _ => "",
        }
    }
    fn value(self, a: &str, b: &str) -> String {
        match self {
            Span | Gen => format!("Span::new({a}, {b})"),
            Token => format!("Token::new({a}..{b}, T::Letter)"),
            Node => format!("tp::Node::new({a}..{b}, String::from(\"x\"))"),
            Inner => format!("Inner {{ s: Span::new({a}, {b}), other: Span::new(90, 91) }}"),
            Pair => format!("(Span::new({a}, 77), Token::new(78..{b}, T::Letter))"),
            Triple => format!("(Span::new({a}, 70), Inner {{ s: Span::new(71, 72), other: Span::new(90, 91) }}, Span::new(73, {b}))"),
            Ref => format!("&Inner {{ s: Span::new({a}, {b}), other: Span::new(90, 91) }}"),
            Boxed => format!("Box::new(Span::new({a}, {b}))"),
        }
    }
}

struct Item {
    src: String,
    verdict: Verdict,
    run: Option<String>,
    want: Vec<String>,
}
impl Item {
    /// `src` with `types` passed through a macro as `$t0`..
    fn through(src: &str, types: &[&str]) -> String {
        let params: Vec<String> = (0..types.len()).map(|i| format!("$t{i}:ty")).collect();
        format!("macro_rules! def {{ ({}) => {{ {src} }} }}\ndef!({});", params.join(", "), types.join(", "))
    }
}
/// a definition that is only compiled
struct Named(String, String);
impl Def for Named {
    fn src(&self) -> String {
        self.1.clone()
    }
    fn verdict(&self) -> Verdict {
        Verdict::Accept
    }
    fn runner(&self, _: bool) -> Option<String> {
        None
    }
    fn judge(&self, _: bool, _: &[&str], _: &mut Ctx) -> Vec<String> {
        vec![]
    }
    fn key(&self) -> String {
        self.0.clone()
    }
}
fn names() -> Vec<Box<dyn Def>> {
    let mut v: Vec<Box<dyn Def>> = vec![];
    let mut add = |n: &str, kind: &str, s: String| v.push(Box::new(Named(format!("name/{n}/{kind}"), s)));
    const D: &str = "#[derive(teleparse::ToSpan)]";
    const N: &str = "#[derive(teleparse::tp::Node, teleparse::ToSpan)]";
    for n in crate::NAMES {
        add(n, "struct", format!("{D} pub struct {n}(teleparse::Span);"));
        add(n, "enum", format!("{D} pub enum {n} {{ V(teleparse::Span), W {{ a: teleparse::Span }} }}"));
        add(n, "variant", format!("{D} pub enum X__ {{ {n}(teleparse::Span), W__ {{ a: teleparse::Span, b: u8 }} }}"));
        add(n, "variant-named", format!("{D} pub enum X__ {{ V__(teleparse::Span, u8), {n} {{ a: teleparse::Span }} }}"));
        add(n, "wrapper", format!("{N} pub struct {n}(teleparse::tp::Node<u8>, u8);"));
        add(n, "wrapper-named", format!("{N} pub struct {n} {{ a: teleparse::tp::Node<u8>, b: u8 }}"));
        add(n, "part", format!("{D} pub struct {n}(teleparse::Span); {D} pub struct X__({n}, u8); {D} pub enum Y__ {{ V__({n}), W__ {{ a: {n}, b: u8 }} }}"));
        add(n, "value", format!("#[derive(std::default::Default)] pub struct {n}(u8); {N} pub struct X__(teleparse::tp::Node<{n}>, {n}); {N} pub struct Y__ {{ a: teleparse::tp::Node<(u8, {n})>, b: {n} }}"));
        add(n, "parameter", format!("{D} pub struct X__<{n}: teleparse::ToSpan>({n}); {D} pub enum Y__<{n}: teleparse::ToSpan> {{ V__({n}), W__ {{ a: {n} }} }} {N} pub struct Z__<{n}>(teleparse::tp::Node<{n}>);"));
    }
    const ALL: &str = "#[derive(teleparse::ToSpan)] pub struct X1(teleparse::Span, u8); #[derive(teleparse::ToSpan)] pub enum X2 { V(teleparse::Span), W { a: teleparse::Span, b: u8 } } #[derive(teleparse::tp::Node, teleparse::ToSpan)] pub struct X3 { p: teleparse::tp::Node<u8>, q: u8 } #[derive(teleparse::tp::Node, teleparse::ToSpan)] pub struct X4(teleparse::tp::Node<u8>, u8);";
    for n in ["node", "value", "span", "x", "lo", "hi", "self_", "f", "s", "other", "from", "into", "deref", "into_inner", "r#type", "target", "core", "std", "default", "new"] {
        add(n, "field", format!("{D} pub struct X__ {{ {n}: teleparse::Span, b_: u8 }} {D} pub enum Y__ {{ V(teleparse::Span), W {{ {n}: teleparse::Span, b_: u8 }} }} {N} pub struct Z__ {{ {n}: teleparse::tp::Node<u8>, b_: u8 }}"));
        add(n, "field-last", format!("{D} pub struct X__ {{ a_: teleparse::Span, {n}: u8 }} {D} pub enum Y__ {{ V(teleparse::Span), W {{ a_: teleparse::Span, {n}: u8 }} }} {N} pub struct Z__ {{ a_: teleparse::tp::Node<u8>, {n}: u8 }}"));
        if n != "r#type" {
            add(n, "function", format!("pub fn {n}() {{}} {ALL}"));
            add(n, "module", format!("pub mod {n} {{}} {ALL}"));
        }
    }
    v
}
impl Def for Item {
    fn src(&self) -> String {
        format!("{HEAD}{}", self.src)
    }
    fn verdict(&self) -> Verdict {
        self.verdict
    }
    fn runner(&self, _: bool) -> Option<String> {
        self.run.clone()
    }
    fn judge(&self, _: bool, lines: &[&str], ctx: &mut Ctx) -> Vec<String> {
        ctx.count("comparisons", self.want.len() as u64);
        let mut bad = vec![];
        for i in 0..self.want.len().max(lines.len()) {
            let (w, g) = (self.want.get(i).map(|s| s.as_str()), lines.get(i).copied());
            if w != g {
                bad.push(format!("gives {g:?} instead of {w:?}"));
            }
        }
        bad
    }
}

/// fields of a struct or variant: `named`, first kind, others
fn fields(named: bool, first: Part, others: usize, vis: &str) -> String {
    let other = ["Span", "u32", "tp::Node<u8>", "Span"];
    let v: Vec<String> = (0..=others)
        .map(|i| {
            let t = if i == 0 { first.ty() } else { other[(i + others) % 4] };
            // names in an order that is not the alphabetical one
            if named { format!("{vis}{}: {t}", ["m", "a", "z", "lo", "hi"][i]) } else { format!("{vis}{t}") }
        })
        .collect();
    if named { format!("{{ {} }}", v.join(", ")) } else { format!("({})", v.join(", ")) }
}
fn values(named: bool, first: Part, others: usize, a: &str, b: &str) -> String {
    let other = ["Span::new(50, 60)", "9u32", "tp::Node::new(51..61, 1u8)", "Span::new(0, 99)"];
    let v: Vec<String> = (0..=others)
        .map(|i| {
            let x = if i == 0 { first.value(a, b) } else { other[(i + others) % 4].to_string() };
            if named { format!("{}: {x}", ["m", "a", "z", "lo", "hi"][i]) } else { x }
        })
        .collect();
    if named { format!("{{ {} }}", v.join(", ")) } else { format!("({})", v.join(", ")) }
}
fn spans_line(a: usize, b: usize) -> String {
    format!("{a} {b} {a} {b} {a} {b}")
}
/// writes lo, hi and span, directly and through a reference
const SHOW: &str = "fn show(o: &mut String, x: &impl ToSpan) { use std::fmt::Write; let s = x.span(); let r = ToSpan::span(&x); writeln!(o, \"{} {} {} {} {} {}\", x.lo(), x.hi(), s.lo, s.hi, r.lo, r.hi).unwrap(); }";

fn span_item(src: String, ctor: &dyn Fn(&str, &str) -> Vec<String>) -> Item {
    let mut run = String::from(SHOW);
    let mut want = vec![];
    for (a, b) in SPANS {
        for c in ctor(&a.to_string(), &b.to_string()) {
            run.push_str(&format!(" show(o, &{c});"));
            want.push(spans_line(a, b));
        }
    }
    Item { src, verdict: Verdict::Accept, run: Some(run), want }
}

pub fn families(thorough: bool) -> Vec<(String, Vec<Box<dyn Def>>)> {
    let mut out: Vec<(String, Vec<Box<dyn Def>>)> = vec![];
    let mut v: Vec<Box<dyn Def>> = vec![];
    for named in [false, true] {
        for p in PARTS {
            for others in 0..=if thorough { 4 } else { 3 } {
                let end = if named { "" } else { ";" };
                let src = format!("#[derive(teleparse::ToSpan)]\npub struct X{} {}{end}", p.generics(), fields(named, p, others, "pub "));
                v.push(Box::new(span_item(src, &|a, b| vec![format!("X {}", values(named, p, others, a, b))])));
            }
        }
    }
    out.push(("span-struct".into(), v));
    // enums: every list of up to three variants
    let mut v: Vec<Box<dyn Def>> = vec![];
    let shapes: Vec<(bool, Part, usize)> = [(false, Span, 0), (false, Token, 1), (true, Span, 0), (true, Node, 1), (true, Pair, 2), (false, Inner, 2)].to_vec();
    for n in 1..=3usize {
        for i in 0..shapes.len().pow(n as u32) {
            let mut r = i;
            let vs: Vec<(bool, Part, usize)> = (0..n).map(|_| { let s = shapes[r % shapes.len()]; r /= shapes.len(); s }).collect();
            let body: Vec<String> = vs.iter().enumerate().map(|(k, s)| format!("V{k}{}", fields(s.0, s.1, s.2, ""))).collect();
            let src = format!("#[derive(teleparse::ToSpan)]\npub enum X {{ {} }}", body.join(", "));
            v.push(Box::new(span_item(src, &|a, b| vs.iter().enumerate().map(|(k, s)| format!("X::V{k}{}", values(s.0, s.1, s.2, a, b))).collect())));
        }
    }
    out.push(("span-enum".into(), v));
    // node wrappers
    let mut v: Vec<Box<dyn Def>> = vec![];
    // type, generics, value, another value, the same displayed by Debug
    let vals: [(&str, &str, &str, &str, &str, &str); 6] = [
        ("String", "", "String::from(\"v\")", "String::from(\"w\")", "\"v\"", "\"w\""),
        ("u32", "", "5u32", "6u32", "5", "6"),
        ("Vec<u8>", "", "vec![1u8, 2]", "vec![]", "[1, 2]", "[]"),
        ("Result<u8, String>", "", "Ok::<u8, String>(3)", "Err::<u8, String>(String::from(\"e\"))", "Ok(3)", "Err(\"e\")"),
        ("(u8, Option<u8>)", "", "(1u8, Some(2u8))", "(0u8, None::<u8>)", "(1, Some(2))", "(0, None)"),
        ("V", "V", "7i64", "8i64", "7", "8"),
    ];
    // other fields: type, generics, shown
    let others: [(&str, &str, &str); 5] = [("PhantomData<Q>", "Q", "PhantomData<u16>"), ("u32", "", "0"), ("Option<Span>", "", "None"), ("String", "", "\"\""), ("Span", "", "0")];
    for named in [false, true] {
        for (ty, g, val, val2, sh, sh2) in vals {
            for n in 0..=2usize {
                for i in 0..others.len().pow(n as u32) {
                    if n == 2 && !thorough && i % 3 != 0 {
                        continue;
                    }
                    let mut r = i;
                    let os: Vec<(&str, &str, &str)> = (0..n).map(|_| { let s = others[r % others.len()]; r /= others.len(); s }).collect();
                    let mut gs: Vec<&str> = vec![];
                    for x in [g].into_iter().chain(os.iter().map(|o| o.1)) {
                        if !x.is_empty() && !gs.contains(&x) {
                            gs.push(x);
                        }
                    }
                    let gen_ = if gs.is_empty() { String::new() } else { format!("<{}>", gs.join(", ")) };
                    let path = ["Node", "tp::Node", "teleparse::tp::Node"][i % 3];
                    let mut fs = vec![format!("{path}<{ty}>")];
                    fs.extend(os.iter().map(|o| o.0.to_string()));
                    let names = ["m", "a", "z"];
                    let body = if named {
                        format!("{{ {} }}", fs.iter().enumerate().map(|(k, f)| format!("{}: {f}", names[k])).collect::<Vec<_>>().join(", "))
                    } else {
                        format!("({});", fs.join(", "))
                    };
                    let src = format!("#[derive(tp::Node, teleparse::ToSpan)]\npub struct X{gen_} {body}");
                    let args: Vec<&str> = gs.iter().map(|x| if *x == "V" { "i64" } else { "u16" }).collect();
                    let xty = if args.is_empty() { "X".to_string() } else { format!("X::<{}>", args.join(", ")) };
                    let mut run = format!("{SHOW} let mut x: {} = tp::Node::new(2..5, {val}).into(); show(o, &x); writeln!(o, \"{{:?}} {{:?}}\", *x, std::ops::Deref::deref(&x)).unwrap();", xty.replace("::<", "<"));
                    for k in 0..n {
                        let f = if named { names[k + 1].to_string() } else { (k + 1).to_string() };
                        run.push_str(&format!(" writeln!(o, \"{{:?}}\", x.{f}).unwrap();"));
                    }
                    run.push_str(&format!(" *x = {val2}; show(o, &x); writeln!(o, \"{{:?}}\", *x).unwrap(); writeln!(o, \"{{:?}}\", x.into_inner()).unwrap(); let y = {xty}::from(tp::Node::new(9..9, {val})); show(o, &y); writeln!(o, \"{{:?}}\", y.into_inner()).unwrap();"));
                    let mut want = vec![spans_line(2, 5), format!("{sh} {sh}")];
                    want.extend(os.iter().map(|o| o.2.to_string()));
                    want.extend([spans_line(2, 5), sh2.to_string(), sh2.to_string(), spans_line(9, 9), sh.to_string()]);
                    v.push(Box::new(Item { src, verdict: Verdict::Accept, run: Some(run), want }));
                }
            }
        }
    }
    out.push(("node".into(), v));
    // other forms
    let mut v: Vec<Box<dyn Def>> = vec![];
    use Verdict::*;
    for (s, ok) in [
        ("pub struct X;", false),
        ("pub struct X();", false),
        ("pub struct X {}", false),
        ("pub enum X { V }", false),
        ("pub enum X { V(Span), W }", false),
        ("pub enum X { W, V(Span) }", false),
        ("pub enum X { V {} }", false),
        ("pub enum X { V(Span), W {} }", false),
        ("pub union X { a: Span }", false),
        ("pub struct X(u32);", false),
        ("pub struct X(u32, Span);", false),
        ("pub struct X { a: u32, b: Span }", false),
        ("pub enum X { V(u32, Span) }", false),
        ("pub enum X { V(Span), W { a: u32, b: Span } }", false),
        ("pub struct X<A>(A);", false),
        ("pub struct X<A>(A) where A: ToSpan;", true),
        ("pub struct X<A, B: Clone>(A, B) where A: ToSpan + Clone, B: Copy;", true),
        ("pub struct X<'a, const N: usize>(&'a Span, [u8; N]);", true),
        ("pub struct X<A: ToSpan = Span>(A);", true),
        ("pub enum X<A> where A: ToSpan { V(A), W { x: (A, Span) } }", true),
        ("pub struct X { r#type: Span }", true),
        ("pub enum X { r#Type { r#as: Span, b: u8 } }", true),
        ("pub struct X(Own);", true),
        ("pub struct X { x: Span, self_: u8 }", true),
        ("pub enum X { V { x: Span, y: u8 }, W(Span) }", true),
    ] {
        v.push(Box::new(Item { src: format!("#[derive(teleparse::ToSpan)]\n{s}"), verdict: if ok { Accept } else { Reject("its first part has no span") }, run: None, want: vec![] }));
    }
    for (s, ok) in [
        ("pub struct X;", false),
        ("pub struct X();", false),
        ("pub struct X {}", false),
        ("pub enum X { V(Node<u8>) }", false),
        ("pub union X { a: std::mem::ManuallyDrop<Node<u8>> }", false),
        ("pub struct X(u8);", false),
        ("pub struct X((u8, u8));", false),
        ("pub struct X(&'static Node<u8>);", false),
        ("pub struct X(Node<u8>, Span, &'static u8);", false),
        ("pub struct X<A>(Node<A>) where A: Clone;", true),
        ("pub struct X<A: Default + Clone>(Node<A>, A);", true),
        ("pub struct X<A, const N: usize>(Node<[A; N]>, PhantomData<A>);", true),
        ("pub struct X<'a>(Node<&'a str>);", true),
        ("pub struct X<A>(Node<A>, A);", false),
        ("pub struct X(Node<Vec<(u8, Node<u8>)>>);", true),
        ("pub struct X { r#type: Node<u8> }", true),
        ("pub struct X { a: Node<u8>, b: Vec<Span>, c: [u8; 3], d: (u8, Option<u8>) }", true),
    ] {
        v.push(Box::new(Item { src: format!("#[derive(tp::Node)]\n{s}"), verdict: if ok { Accept } else { Reject("no node to wrap") }, run: None, want: vec![] }));
    }
    let _ = Boxed;
    out.push(("forms".into(), v));
    // types that come from a macro
    let mut v: Vec<Box<dyn Def>> = vec![];
    for named in [false, true] {
        let end = if named { "" } else { ";" };
        for p in PARTS {
            for others in 0..2 {
                let body = fields(named, p, others, "pub ").replacen(p.ty(), "$t0", 1);
                let src = Item::through(&format!("#[derive(teleparse::ToSpan)]\npub struct X{} {body}{end}", p.generics()), &[p.ty()]);
                v.push(Box::new(span_item(src, &|a, b| vec![format!("X {}", values(named, p, others, a, b))])));
                if p.generics().is_empty() {
                    let body = fields(named, p, others, "").replacen(p.ty(), "$t0", 1);
                    let src = Item::through(&format!("#[derive(teleparse::ToSpan)]\npub enum X {{ U($t1), V{body} }}"), &[p.ty(), "Span"]);
                    v.push(Box::new(span_item(src, &|a, b| vec![format!("X::V{}", values(named, p, others, a, b)), format!("X::U(Span::new({a}, {b}))")])));
                }
            }
        }
        for (ty, val) in [("$t0", "tp::Node<Vec<u8>>"), ("Node<$t0>", "Vec<u8>"), ("tp::Node<Vec<$t0>>", "u8")] {
            for others in 0..3 {
                let (names, os) = (["m", "a", "z"], ["u32", "$t1"]);
                let fs: Vec<String> = std::iter::once(ty).chain(os.into_iter().take(others)).enumerate().map(|(i, t)| if named { format!("pub {}: {t}", names[i]) } else { format!("pub {t}") }).collect();
                let body = if named { format!("{{ {} }}", fs.join(", ")) } else { format!("({});", fs.join(", ")) };
                let src = Item::through(&format!("#[derive(tp::Node, teleparse::ToSpan)]\npub struct X {body}"), &[val, "Option<Span>"]);
                let run = format!("{SHOW} let mut x: X = tp::Node::new(2..5, vec![7u8]).into(); show(o, &x); writeln!(o, \"{{:?}}\", *x).unwrap(); x.push(8); writeln!(o, \"{{:?}}\", x.into_inner()).unwrap();");
                v.push(Box::new(Item { src, verdict: Accept, run: Some(run), want: vec![spans_line(2, 5), "[7]".into(), "[7, 8]".into()] }));
            }
        }
    }
    out.push(("macro".into(), v));
    out.push(("names".into(), names()));
    // long ones
    let mut v: Vec<Box<dyn Def>> = vec![];
    for n in [6usize, 8, 9, 12, 16, 17, 32, 33, 65] {
        for named in [false, true] {
            let list = |f: &dyn Fn(usize) -> String| (0..n).map(|i| if named { format!("n{}: {}", (i * 7 + 3) % 100, f(i)) } else { f(i) }).collect::<Vec<_>>().join(", ");
            let br = |s: String| if named { format!("{{ {s} }}") } else { format!("({s})") };
            let (end, va) = (if named { "" } else { ";" }, "pub ");
            let tys = (0..n).map(|i| if named { format!("{va}n{}: Span", (i * 7 + 3) % 100) } else { format!("{va}Span") }).collect::<Vec<_>>().join(", ");
            let vals = |a: &str, b: &str| list(&|i| if i == 0 { format!("Span::new({a}, {b})") } else { format!("Span::new({}, {})", 100 + i, 300 + i) });
            v.push(Box::new(span_item(format!("#[derive(teleparse::ToSpan)]\npub struct X {}{end}", br(tys)), &|a, b| vec![format!("X {}", br(vals(a, b)))])));
            // the variant at every position has all the fields
            for at in [0, 1, n / 2, n - 1] {
                let body = (0..n).map(|k| if k == at { format!("V{k} {}", br(list(&|_| "Span".into()))) } else { format!("V{k}{}", if k % 2 == 0 { "(Span, u8)" } else { " { z: Span, a: Span }" }) }).collect::<Vec<_>>().join(", ");
                v.push(Box::new(span_item(format!("#[derive(teleparse::ToSpan)]\npub enum X {{ {body} }}"), &|a, b| {
                    (0..n).map(|k| if k == at { format!("X::V{k} {}", br(vals(a, b))) } else if k % 2 == 0 { format!("X::V{k}(Span::new({a}, {b}), 1)") } else { format!("X::V{k} {{ a: Span::new(91, 92), z: Span::new({a}, {b}) }}") }).collect()
                })));
            }
            let others = (1..n).map(|i| if named { format!("n{}: u{}", (i * 7 + 3) % 100, [8, 16, 32, 64][i % 4]) } else { format!("u{}", [8, 16, 32, 64][i % 4]) }).collect::<Vec<_>>().join(", ");
            let last = if named { format!("n{}", ((n - 1) * 7 + 3) % 100) } else { (n - 1).to_string() };
            let src = format!("#[derive(tp::Node, teleparse::ToSpan)]\npub struct X {}{end}", br(format!("{}Node<String>, {others}", if named { "n3: " } else { "" })).replacen(&format!("{last}:"), &format!("pub {last}:"), usize::from(named)));
            let run = format!("{SHOW} let mut x: X = tp::Node::new(2..5, String::from(\"v\")).into(); show(o, &x); x.push('w'); writeln!(o, \"{{:?}}\", *x).unwrap(); writeln!(o, \"{{:?}}\", x.{last}).unwrap(); writeln!(o, \"{{:?}}\", x.into_inner()).unwrap();");
            v.push(Box::new(Item { src, verdict: Accept, run: Some(run), want: vec![spans_line(2, 5), "\"vw\"".into(), "0".into(), "\"vw\"".into()] }));
        }
    }
    out.push(("long".into(), v));
    out
}
