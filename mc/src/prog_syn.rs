//! Definitions of syntax
use crate::{Def, Verdict};
use mc::Ctx;
use std::fmt::Write;

pub const RULE: &str = "a case is a batch of syntax definitions compiled by the real derive (with and without tests); families: structs with named and unnamed fields and one-tuple structs of up to 3 parts of every kind with every pattern of semantic attributes, enums of up to 3 variants likewise, long structs and enums with an attribute at every position, each with and without root, names in every position, types that come through a macro, other forms and misplaced attributes; accepted definitions parse every string over their letters (long ones: every sentence and its single edits); non-trivial: an accepted definition";
pub const ASSUME: &[&str] = &[
    "the parts are nodes that other properties decide; each part starts with a letter of its own, so the definitions are LL(1) unless two alternatives may be empty",
    "the unimplemented `hook` attribute is not decided",
];
pub const COMMON: &str = "pub mod lx { use teleparse::prelude::*;\n#[derive_lexicon]\n#[teleparse(terminal_parse)]\npub enum T {\n#[teleparse(terminal(A = \"a\", B = \"b\", C = \"c\", D = \"d\", E = \"e\", F = \"f\", G = \"g\", H = \"h\", I = \"i\", J = \"j\", K = \"k\", L = \"l\", M = \"m\", N = \"n\", O = \"o\", P = \"p\", Q = \"q\", R = \"r\", S = \"s\", T_ = \"t\", U = \"u\", V = \"v\", W_ = \"w\", X_ = \"x\", Y = \"y\"))]\nLetter,\n#[teleparse(regex(\"z+\"), terminal(Z))]\nOther,\nS1,\n#[teleparse(terminal())]\nS2,\nS3,\n} }";
const LETTERS: [&str; 25] = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T_", "U", "V", "W_", "X_", "Y"];

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Req,
    Opt,
    Bx,
    Rep,
    Pair,
    /// another derived struct, with a semantic type of its own
    Sub,
}
use Kind::*;
#[derive(Clone, Copy, PartialEq)]
pub enum Form {
    Unnamed,
    Named,
    Tuple,
    Enum,
}
#[derive(Clone)]
pub struct Syn {
    pub form: Form,
    /// kind and semantic types (bits)
    pub parts: Vec<(Kind, u8)>,
    /// 0: no root, 1: root with test, 2: root without
    pub root: u8,
    pub style: u8,
}
impl Syn {
    /// letters of a part
    fn letters(&self, i: usize) -> (usize, usize) {
        if self.parts.len() > 12 {
            (i, i)
        } else {
            (2 * i, 2 * i + 1)
        }
    }
    fn ty(&self, i: usize) -> String {
        let (a, b) = self.letters(i);
        let (a, b) = (LETTERS[a], LETTERS[b]);
        match self.parts[i].0 {
            Req => a.to_string(),
            Opt => format!("tp::Option<{a}>"),
            Bx => format!("Box<{a}>"),
            Rep => format!("tp::Vec<{a}>"),
            Pair => format!("({a}, {b})"),
            Sub => format!("Sub{i}"),
        }
    }
    fn nullable(&self, i: usize) -> bool {
        matches!(self.parts[i].0, Opt | Rep)
    }
    fn ll1(&self) -> bool {
        self.form != Form::Enum || (0..self.parts.len()).filter(|i| self.nullable(*i)).count() < 2
    }
    fn ch(l: usize) -> char {
        (b'a' + l as u8) as char
    }
    fn inputs(&self, thorough: bool) -> Vec<String> {
        let mut used: Vec<usize> = vec![];
        for i in 0..self.parts.len() {
            let (a, b) = self.letters(i);
            used.push(a);
            if self.parts[i].0 == Pair && a != b {
                used.push(b);
            }
        }
        let mut o = vec![];
        if used.len() <= 4 {
            let mut alpha: Vec<char> = used.iter().map(|l| Syn::ch(*l)).collect();
            alpha.push('z');
            let mut layer = vec![String::new()];
            o.push(String::new());
            for _ in 0..(used.len() + 1).min(4) + usize::from(thorough) {
                layer = layer.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
                o.extend(layer.iter().cloned());
            }
            return o;
        }
        let full: Vec<char> = used.iter().map(|l| Syn::ch(*l)).collect();
        let st = |v: &[char]| v.iter().collect::<String>();
        o.push(st(&full));
        for i in 0..full.len() {
            o.push(st(&full[..i]));
            o.push(full[i].to_string());
            o.push(format!("{0}{0}", full[i]));
            o.push(format!("{0}{1}", full[i], full[(i + 1) % full.len()]));
            let mut v = full.clone();
            v.remove(i);
            o.push(st(&v));
            let mut v = full.clone();
            v.insert(i, full[i]);
            o.push(st(&v));
            let mut v = full.clone();
            v[i] = 'z';
            o.push(st(&v));
            if i > 0 {
                let mut v = full.clone();
                v.swap(i, i - 1);
                o.push(st(&v));
            }
        }
        o
    }
    /// span of a part that starts at `at`, and semantic bits of its own; or no match
    fn part(&self, i: usize, s: &[u8], at: usize) -> Option<(usize, usize, u8)> {
        let (a, b) = self.letters(i);
        let is = |p: usize, l: usize| s.get(p) == Some(&(b'a' + l as u8));
        let one = is(at, a);
        match self.parts[i].0 {
            Req | Bx => one.then_some((at, at + 1, 0)),
            Sub => one.then_some((at, at + 1, 4)),
            Opt => Some((at, at + usize::from(one), 0)),
            Rep => {
                let mut e = at;
                while is(e, a) {
                    e += 1;
                }
                Some((at, e, 0))
            }
            Pair => (one && is(at + 1, b)).then_some((at, at + 2, 0)),
        }
    }
    /// "spans | bits of each token" of a sentence
    fn want(&self, s: &str) -> String {
        let s = s.as_bytes();
        let mut sem = vec![0u8; s.len()];
        let mut mark = |p: (usize, usize, u8), own: u8| {
            for b in sem[p.0..p.1].iter_mut() {
                *b |= own | p.2;
            }
        };
        let mut o = String::new();
        let mut at = 0;
        if self.form == Form::Enum {
            let n = self.parts.len();
            let fits = |i: usize| self.part(i, s, 0).filter(|p| p.1 == s.len());
            let Some(i) = (0..n).find(|i| fits(*i).is_some() && (!s.is_empty() || self.nullable(*i))) else { return "-".into() };
            let p = fits(i).unwrap();
            mark(p, self.parts[i].1);
            write!(o, "{i} {}:{} {}:{} ", p.0, p.1, p.0, p.1).unwrap();
        } else {
            let mut spans = vec![];
            for i in 0..self.parts.len() {
                let Some(p) = self.part(i, s, at) else { return "-".into() };
                mark(p, self.parts[i].1);
                spans.push((p.0, p.1));
                at = p.1;
            }
            if at != s.len() {
                return "-".into();
            }
            for p in &spans {
                write!(o, "{}:{} ", p.0, p.1).unwrap();
            }
            write!(o, "{}:{} ", spans[0].0, spans[spans.len() - 1].1).unwrap();
        }
        write!(o, "| ").unwrap();
        for b in sem {
            write!(o, "{b} ").unwrap();
        }
        o
    }
}
fn attr(sem: u8, style: u8) -> String {
    let n: Vec<&str> = (0..3).filter(|b| sem >> b & 1 == 1).map(|b| ["S1", "S2", "S3"][b]).collect();
    match (sem, style % 3) {
        (0, 0) => String::new(),
        (0, 1) => "/** a part */ ".into(),
        (0, _) => "#[allow(dead_code)] ".into(),
        (_, 0) => format!("#[teleparse(semantic({}))] ", n.join(", ")),
        (_, 1) => format!("#[teleparse(semantic({},),)] ", n.iter().rev().copied().collect::<Vec<_>>().join(", ")),
        // a type may be named more than once
        _ => format!("/** a part */ #[teleparse(semantic({}, {}))] #[allow(dead_code)] ", n.join(", "), n[0]),
    }
}

impl Syn {
    /// `through`: with its types passed through a macro
    fn text(&self, through: bool) -> String {
        let mut o = String::from("use teleparse::prelude::*; use crate::lx::*;\n");
        for i in 0..self.parts.len() {
            if self.parts[i].0 == Sub {
                writeln!(o, "#[derive_syntax] #[derive(Debug, Clone)] pub struct Sub{i}(#[teleparse(semantic(S3))] pub {});", LETTERS[self.letters(i).0]).unwrap();
            }
        }
        if through {
            let params: Vec<String> = (0..self.parts.len()).map(|i| format!("$t{i}:ty")).collect();
            write!(o, "macro_rules! def {{ ({}) => {{ ", params.join(", ")).unwrap();
        }
        let ty = |i: usize| if through { format!("$t{i}") } else { self.ty(i) };
        o.push_str("#[derive_syntax]\n");
        if self.style % 2 == 1 {
            o.push_str("/// documented\n#[derive(Debug, Clone)]\n");
        }
        o.push_str(["", "#[teleparse(root)]\n", "#[teleparse(root, no_test)]\n"][self.root as usize]);
        if self.style % 4 == 2 {
            o.push_str("#[derive(Clone)]\n");
        }
        let n = self.parts.len();
        let a = |i: usize| attr(self.parts[i].1, self.style.wrapping_add(i as u8));
        let v: Vec<String> = match self.form {
            Form::Named => (0..n).map(|i| format!("{}pub {}: {}", a(i), name(i), ty(i))).collect(),
            Form::Unnamed => (0..n).map(|i| format!("{}pub {}", a(i), ty(i))).collect(),
            Form::Tuple => (0..n).map(|i| ty(i)).collect(),
            Form::Enum => (0..n).map(|i| format!("{}V{i}({})", a(i), ty(i))).collect(),
        };
        match self.form {
            Form::Named => writeln!(o, "pub struct X {{ {} }}", v.join(", ")),
            Form::Unnamed => writeln!(o, "pub struct X({});", v.join(", ")),
            Form::Tuple => writeln!(o, "pub struct X(pub ({}{}));", v.join(", "), if n == 1 { "," } else { "" }),
            Form::Enum => writeln!(o, "pub enum X {{ {} }}", v.join(", ")),
        }
        .unwrap();
        if through {
            let args: Vec<String> = (0..n).map(|i| self.ty(i)).collect();
            writeln!(o, "}} }}\ndef!({});", args.join(", ")).unwrap();
        }
        if self.root == 0 {
            // another module cannot see more than this one
            o.push_str("#[derive_syntax] #[teleparse(root, no_test)] pub struct W(pub X);\n");
        }
        o
    }
}
impl Def for Syn {
    fn src(&self) -> String {
        self.text(false)
    }
    fn verdict(&self) -> Verdict {
        Verdict::Accept
    }
    fn tests(&self) -> Vec<(String, bool)> {
        if self.root == 1 {
            vec![("X_root_test::is_ll1".into(), self.ll1())]
        } else {
            vec![]
        }
    }
    fn runner(&self, thorough: bool) -> Option<String> {
        if !self.ll1() {
            return None;
        }
        let mut o = String::from("use teleparse::{Parser, ToSpan};\n");
        writeln!(o, "for s in [{}] {{", self.inputs(thorough).iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ")).unwrap();
        let root = if self.root == 0 { "W" } else { "X" };
        writeln!(o, "let mut p = Parser::<T>::new(s).unwrap(); let r = p.parse::<{root}>(); let rest = p.remaining().len();").unwrap();
        writeln!(o, "match r {{ Ok(Some(r)) if p.info().errors.is_empty() && rest == 0 => {{ let r = &r{};", if self.root == 0 { ".0" } else { "" }).unwrap();
        let n = self.parts.len();
        if self.form == Form::Enum {
            o.push_str("match r {");
            for i in 0..n {
                writeln!(o, "X::V{i}(x) => {{ write!(o, \"{i} {{}}:{{}} \", x.lo(), x.hi()).unwrap(); }}").unwrap();
            }
            o.push_str("}\n");
        } else {
            for i in 0..n {
                let f = match self.form {
                    Form::Named => name(i),
                    Form::Tuple => format!("0.{i}"),
                    _ => i.to_string(),
                };
                writeln!(o, "{{ let x = &r.{f}; write!(o, \"{{}}:{{}} \", x.lo(), x.hi()).unwrap(); }}").unwrap();
            }
        }
        o.push_str("write!(o, \"{}:{} | \", r.lo(), r.hi()).unwrap(); for t in p.info().tokens.iter() { let mut b = 0; if t.semantic.contains(T::S1) { b |= 1 } if t.semantic.contains(T::S2) { b |= 2 } if t.semantic.contains(T::S3) { b |= 4 } if t.semantic.contains(T::Letter) || t.semantic.contains(T::Other) { b |= 8 } write!(o, \"{b} \").unwrap(); } }\n");
        o.push_str("Ok(_) => o.push_str(\"-\"), Err(e) => write!(o, \"grammar: {e}\").unwrap() }\nwriteln!(o).unwrap();\n}\n");
        Some(o)
    }
    fn judge(&self, thorough: bool, lines: &[&str], ctx: &mut Ctx) -> Vec<String> {
        let mut bad = vec![];
        let inputs = self.inputs(thorough);
        if inputs.len() != lines.len() {
            return vec![format!("{} results for {} inputs", lines.len(), inputs.len())];
        }
        for (s, l) in inputs.iter().zip(lines) {
            let w = self.want(s);
            ctx.count("inputs", 1);
            if w != "-" {
                ctx.count("sentences", 1);
            }
            if w.trim() != l.trim() {
                bad.push(format!("input {s:?} gives {l:?}, should give {w:?} (spans of the parts and of the node | semantic bits of the tokens; -: no error-free parse of all)"));
            }
        }
        bad
    }
}
fn name(i: usize) -> String {
    match i {
        1 => "r#type".into(),
        2 => "parser".into(),
        3 => "errors".into(),
        4 => "meta".into(),
        5 => "result".into(),
        _ => format!("x{i}"),
    }
}

struct Through(Syn);
impl Def for Through {
    fn src(&self) -> String {
        self.0.text(true)
    }
    fn verdict(&self) -> Verdict {
        self.0.verdict()
    }
    fn tests(&self) -> Vec<(String, bool)> {
        self.0.tests()
    }
    fn runner(&self, thorough: bool) -> Option<String> {
        self.0.runner(thorough)
    }
    fn judge(&self, thorough: bool, lines: &[&str], ctx: &mut Ctx) -> Vec<String> {
        self.0.judge(thorough, lines, ctx)
    }
}

struct Raw(String, Verdict, Vec<(String, bool)>, Option<String>);
impl Def for Raw {
    fn src(&self) -> String {
        format!("use teleparse::prelude::*; use crate::lx::*;\n{}", self.0)
    }
    fn verdict(&self) -> Verdict {
        self.1
    }
    fn runner(&self, _: bool) -> Option<String> {
        None
    }
    fn judge(&self, _: bool, _: &[&str], _: &mut Ctx) -> Vec<String> {
        vec![]
    }
    fn tests(&self) -> Vec<(String, bool)> {
        self.2.clone()
    }
    fn key(&self) -> String {
        self.3.clone().unwrap_or_else(|| self.src())
    }
}

/// The same definitions under every name
fn names() -> Vec<Box<dyn Def>> {
    let mut v: Vec<Box<dyn Def>> = vec![];
    const ROOT: &str = "#[derive_syntax] #[teleparse(root)]";
    let test = |n: &[&str]| n.iter().map(|n| (format!("{}_root_test::is_ll1", n.trim_start_matches("r#")), true)).collect::<Vec<_>>();
    let mut add = |n: &str, kind: &str, s: String, t: Vec<(String, bool)>| v.push(Box::new(Raw(s, Verdict::Accept, t, Some(format!("name/{n}/{kind}")))));
    for n in crate::NAMES {
        for (kind, def) in [("struct", format!("pub struct {n}(A);")), ("named", format!("pub struct {n} {{ a: A }}")), ("enum", format!("pub enum {n} {{ V(A) }}"))] {
            add(n, kind, format!("{ROOT} {def}"), test(&[n]));
        }
        for (kind, def) in [
            ("part", format!("pub struct X__(A, {n});")),
            ("part-first", format!("pub struct X__ {{ #[teleparse(semantic(S1))] a: {n}, b: A }}")),
            ("part-enum", format!("pub enum X__ {{ V(A), #[teleparse(semantic(S1))] W({n}) }}")),
            ("part-inner", format!("pub struct X__((A, std::boxed::Box<{n}>), tp::Vec<{n}>);")),
        ] {
            add(n, kind, format!("#[derive_syntax] pub struct {n}(B);\n{ROOT} {def}"), test(&["X__"]));
        }
        add(n, "variant", format!("{ROOT} pub enum X__ {{ {n}(A), W(B) }}"), test(&["X__"]));
    }
    const ALL: &str = "#[derive_syntax] #[teleparse(root)] pub struct X1(#[teleparse(semantic(S1))] A, B); #[derive_syntax] #[teleparse(root)] pub struct X2 { #[teleparse(semantic(S1))] p: A, q: B } #[derive_syntax] #[teleparse(root)] pub enum X3 { #[teleparse(semantic(S1))] V(A), W(B) }";
    for n in ["parser", "meta", "errors", "result", "inner", "err", "err_vec", "first", "t", "token_src", "value", "node", "x", "lo", "hi", "span", "f", "s", "b", "token", "id", "std", "core", "prod"] {
        add(n, "field", format!("{ROOT} pub struct X__ {{ #[teleparse(semantic(S1))] {n}: A, other: B }}"), test(&["X__"]));
        add(n, "field-last", format!("{ROOT} pub struct X__ {{ other: A, #[teleparse(semantic(S1))] {n}: B }}"), test(&["X__"]));
        add(n, "function", format!("pub fn {n}() {{}} {ALL}"), test(&["X1", "X2", "X3"]));
        add(n, "module", format!("pub mod {n} {{}} {ALL}"), test(&["X1", "X2", "X3"]));
    }
    v
}

/// every list of `n` of 0..k
fn lists(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut l = vec![vec![]];
    for _ in 0..n {
        l = l
            .iter()
            .flat_map(|v| {
                (0..k).map(move |i| {
                    let mut v = v.clone();
                    v.push(i);
                    v
                })
            })
            .collect();
    }
    l
}

pub fn families(thorough: bool) -> Vec<(String, Vec<Box<dyn Def>>)> {
    let mut out: Vec<(String, Vec<Box<dyn Def>>)> = vec![];
    let mut through: Vec<Box<dyn Def>> = vec![];
    const KINDS: [Kind; 6] = [Req, Opt, Bx, Rep, Pair, Sub];
    for (form, nm) in [(Form::Unnamed, "unnamed"), (Form::Named, "named"), (Form::Tuple, "tuple"), (Form::Enum, "enum")] {
        let mut v: Vec<Box<dyn Def>> = vec![];
        let mut turn = 0u8;
        // there are no tuples of one
        for n in (if form == Form::Tuple { 2 } else { 1 })..=3usize {
            // kinds and attributes of every part
            let kinds: Vec<Vec<Kind>> = match (n, thorough) {
                (3, false) => lists(3, 3).into_iter().map(|l| l.into_iter().map(|k| [Req, Opt, Pair][k]).collect()).collect(),
                _ => lists(n, 6).into_iter().map(|l| l.into_iter().map(|k| KINDS[k]).collect()).collect(),
            };
            let sems: Vec<Vec<u8>> = if form == Form::Tuple {
                vec![vec![0; n]]
            } else if n < 3 {
                lists(n, 3).into_iter().map(|l| l.into_iter().map(|k| [0, 1, 3][k]).collect()).collect()
            } else {
                lists(n, 2).into_iter().map(|l| l.into_iter().enumerate().map(|(i, k)| [0, [1, 2, 3][i]][k]).collect()).collect()
            };
            for k in &kinds {
                for s in &sems {
                    if n == 3 && !thorough && form != Form::Tuple && (turn as usize + k.len()) % 2 == 1 && s.iter().filter(|x| **x != 0).count() != 1 {
                        turn = turn.wrapping_add(1);
                        continue;
                    }
                    if n == 2 && !thorough && form != Form::Tuple && s.contains(&3) && s.contains(&1) {
                        continue;
                    }
                    turn = turn.wrapping_add(1);
                    let roots: Vec<u8> = if n == 1 { vec![0, 1, 2] } else { vec![turn % 3] };
                    if n < 3 && s.iter().all(|x| *x == turn % 2) || n == 3 && turn % 8 == 0 {
                        through.push(Box::new(Through(Syn { form, parts: k.iter().copied().zip(s.iter().copied()).collect(), root: turn % 3, style: turn })));
                    }
                    for root in roots {
                        v.push(Box::new(Syn { form, parts: k.iter().copied().zip(s.iter().copied()).collect(), root, style: turn }));
                    }
                }
            }
        }
        // long ones
        let top = if form == Form::Tuple { 5 } else { 25 };
        for n in [4usize, 5, 6, 7, 8, 9, 12, 16, 17, 25] {
            if n > top {
                continue;
            }
            for at in 0..n {
                if n > 5 && !thorough && ![0, 1, n / 2, n - 2, n - 1].contains(&at) {
                    continue;
                }
                if form == Form::Tuple && at > 0 {
                    continue;
                }
                let mut parts = vec![(Req, 0u8); n];
                if form != Form::Tuple {
                    parts[at].1 = 1 + (at % 3) as u8;
                }
                v.push(Box::new(Syn { form, parts: parts.clone(), root: (at % 3) as u8, style: at as u8 }));
                parts[at].0 = Opt;
                v.push(Box::new(Syn { form, parts, root: ((at + 1) % 3) as u8, style: at as u8 + 1 }));
            }
        }
        out.push((nm.into(), v));
    }
    out.push(("macro".into(), through));
    use Verdict::*;
    let mut raw: Vec<Box<dyn Def>> = vec![];
    let r = |w| Reject(w);
    let t = |n: &str, ok: bool| vec![(format!("{n}_root_test::is_ll1"), ok)];
    let mut push = |s: &str, v: Verdict, t: Vec<(String, bool)>| raw.push(Box::new(Raw(s.to_string(), v, t, None)));
    for root in ["", "#[teleparse(root)]", "#[teleparse(root, no_test)]", "#[teleparse(no_test, root)]"] {
        let tt = |ok| if root == "#[teleparse(root)]" { t("X", ok) } else { vec![] };
        for (s, v) in [
            ("pub struct X;", r("a unit struct")),
            ("pub struct X();", r("an empty struct")),
            ("pub struct X {}", r("an empty struct")),
            ("pub enum X {}", r("an empty enum")),
            ("pub enum X { V }", r("a variant of another shape")),
            ("pub enum X { V() }", r("a variant of another shape")),
            ("pub enum X { V {} }", r("a variant of another shape")),
            ("pub enum X { V { a: A } }", r("a variant of another shape")),
            ("pub enum X { V(A, B) }", r("a variant of another shape")),
            ("pub enum X { V(A), W }", r("a variant of another shape")),
            ("pub enum X { V(A), W(B, C) }", r("a variant of another shape")),
            ("pub enum X { V(A), W { b: B } }", r("a variant of another shape")),
            ("pub enum X { W, V(A) }", r("a variant of another shape")),
            ("pub enum X { V(A), W(), Y(B) }", r("a variant of another shape")),
            ("#[repr(u8)] pub enum X { V(A) = 1 }", r("a discriminant")),
            ("#[repr(u8)] pub enum X { V(A), W(B) = 3 }", r("a discriminant")),
            ("pub enum X { V = 1 }", r("a discriminant")),
            ("pub union X { a: A }", r("a union")),
            ("pub struct X(A);", Accept),
            ("pub struct X(A,);", Accept),
            ("struct X(A);", Accept),
            ("pub(crate) struct X(pub(crate) A, B);", Accept),
            ("pub(super) struct X { pub(super) a: A, b: B }", Accept),
            ("pub struct X { a: A, }", Accept),
            ("enum X { V(A), }", Accept),
            ("pub(crate) enum X { V(A), W(B) }", Accept),
            ("pub enum X { r#As(A), r#Type(B) }", Accept),
            ("pub struct X { r#as: A, r#type: B, r#self_: C }", Accept),
            ("pub struct X { lo: A, hi: B, span: C, debug: D, register: E, produce: F }", Accept),
            ("pub enum X { Ok(A), Err(B), Some(C), None(D) }", Accept),
            ("pub struct X(A, A, A);", Accept),
            ("pub enum X { V(A), W((B, Box<X>)) }", Accept),
            ("pub struct X { a: A, b: tp::Option<Box<X>> }", Accept),
            ("pub struct X(tp::Split<A, B>, tp::Punct<C, D>, tp::Nev<F>, tp::Exists<G>, tp::NevDeque<H>, tp::VecDeque<I>);", Accept),
            ("pub struct X(tp::Recover<(A, B), C>, tp::Quote<D>, tp::Parse<E, String>);", Any),
            ("pub struct X((A, (B, C)), ((D,), E));", Any),
            ("#[derive(Debug, Clone, PartialEq)] pub struct X(A);", Accept),
            ("/// documented\npub struct X(A);", Accept),
            ("#[must_use] #[allow(dead_code)] pub struct X { #[allow(dead_code)] a: A }", Accept),
            ("pub struct X(u8);", r("not a node")),
            ("pub struct X(A, u8);", r("not a node")),
            ("pub enum X { V(A), W(u8) }", r("not a node")),
            ("pub struct X(A, Option<B>);", r("not a node")),
        ] {
            push(&format!("#[derive_syntax]\n{root}\n{s}"), v, if v == Accept { tt(true) } else { vec![] });
        }
        // not LL(1), but well-formed
        for s in ["pub enum X { V(A), W(A) }", "pub enum X { V(tp::Option<A>), W(tp::Option<B>) }", "pub struct X(tp::Option<A>, A);", "pub enum X { V(A), W((A, B)), Y(C) }", "pub struct X { a: tp::Vec<A>, b: tp::Option<A> }"] {
            push(&format!("#[derive_syntax]\n{root}\n{s}"), Accept, tt(false));
        }
    }
    let bodies = ["pub struct X(@ A, B);", "pub struct X(A, @ B);", "pub struct X { @ a: A, b: B }", "pub struct X { a: A, @ b: B }", "pub enum X { @ V(A), W(B) }", "pub enum X { V(A), @ W(B) }"];
    for b in bodies {
        for (at, v) in [
            ("", Accept),
            ("#[teleparse()]", Accept),
            ("#[teleparse(semantic(S1))]", Accept),
            ("#[teleparse(semantic(S1, S2, S3))]", Accept),
            ("#[teleparse(semantic(S1, S1))]", Accept),
            ("#[teleparse(semantic(Letter))]", Accept),
            ("#[teleparse(semantic())]", Any),
            ("#[teleparse(hook(f))]", Any),
            ("#[teleparse(semantic(S1))] #[teleparse(semantic(S2))]", r("several attributes")),
            ("#[teleparse(semantic(S1), semantic(S2))]", r("several semantic attributes")),
            ("#[teleparse(semantic)]", r("an attribute of another form")),
            ("#[teleparse(semantic = \"S1\")]", r("an attribute of another form")),
            ("#[teleparse(semantic(\"S1\"))]", r("an attribute of another form")),
            ("#[teleparse(semantic(S1 S2))]", r("an attribute of another form")),
            ("#[teleparse(semantic(S9))]", r("an unknown type")),
            ("#[teleparse(semantic(A))]", r("an unknown type")),
            ("#[teleparse(semantic(T::S1))]", r("an attribute of another form")),
            ("#[teleparse(root)]", r("a misplaced attribute")),
            ("#[teleparse(no_test)]", r("a misplaced attribute")),
            ("#[teleparse(root, semantic(S1))]", r("a misplaced attribute")),
            ("#[teleparse(semantic(S1), root)]", r("a misplaced attribute")),
            ("#[teleparse(terminal(Q))]", r("a misplaced attribute")),
            ("#[teleparse(regex(\"a\"))]", r("a misplaced attribute")),
            ("#[teleparse(ignore(\"a\"))]", r("a misplaced attribute")),
            ("#[teleparse(semantics(S1))]", r("an unknown attribute")),
            ("#[teleparse(root(S1))]", r("an unknown attribute")),
            ("#[teleparse(semantic(S1), unknown(S2))]", r("an unknown attribute")),
        ] {
            push(&format!("#[derive_syntax] #[teleparse(root)]\n{}", b.replace('@', at)), v, if v == Accept { t("X", true) } else { vec![] });
        }
    }
    for s in ["pub struct X(A);", "pub struct X { a: A }", "pub enum X { V(A) }"] {
        for (at, v, tests) in [
            ("", Accept, false),
            ("#[teleparse()]", Accept, false),
            ("#[teleparse(root)]", Accept, true),
            ("#[teleparse(root,)]", Accept, true),
            ("#[teleparse(root, no_test)]", Accept, false),
            ("#[teleparse(no_test, root)]", Accept, false),
            ("#[teleparse(root, root)]", Any, true),
            ("#[teleparse(no_test)]", r("no_test without root"), false),
            ("#[teleparse(root)] #[teleparse(no_test)]", r("several root attributes"), false),
            ("#[teleparse(root)] #[derive(Debug)] #[teleparse(root)]", r("several root attributes"), false),
            ("#[teleparse(unknown)]", r("an unknown attribute"), false),
            ("#[teleparse(root, unknown)]", r("an unknown attribute"), false),
            ("#[teleparse(terminal_parse)]", r("an unknown attribute"), false),
            ("#[teleparse(unknown(A))]", r("an unknown attribute"), false),
            ("#[teleparse(root(A))]", r("an attribute of another form"), false),
            ("#[teleparse(root = \"A\")]", r("an attribute of another form"), false),
            ("#[teleparse(semantic(S1))]", r("a misplaced attribute"), false),
            ("#[teleparse(root, semantic(S1))]", r("a misplaced attribute"), false),
            ("#[teleparse(ignore(\" \"))]", r("a misplaced attribute"), false),
        ] {
            if v != Any {
                push(&format!("#[derive_syntax]\n{at}\n{s}"), v, if tests { t("X", true) } else { vec![] });
            }
        }
        push(&format!("#[teleparse(root)]\n#[derive_syntax]\n{s}"), Any, vec![]);
    }
    // attributes on the field inside a variant
    push("#[derive_syntax]\npub enum X { V(#[teleparse(semantic(S1))] A), W(B) }", r("a misplaced attribute"), vec![]);
    // several roots in one module, names that contain one another
    push("#[derive_syntax] #[teleparse(root)] pub struct X(A);\n#[derive_syntax] #[teleparse(root)] pub struct XX(X, B);\n#[derive_syntax] #[teleparse(root)] pub enum X1 { X(X), XX((C, XX)) }", Accept, [t("X", true), t("XX", true), t("X1", true)].concat());
    out.push(("forms".into(), raw));
    out.push(("names".into(), names()));
    out
}
