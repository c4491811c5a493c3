//! Definitions of lexicons
use crate::rx::Rx;
use crate::{Def, Verdict};
use mc::Ctx;
use std::collections::BTreeSet;
use std::fmt::Write;

pub const RULE: &str = "a case is a batch of lexicon definitions compiled by the real derive; families: every pair of a list of up to 2 regexes and a list of up to 3 terminals on one variant, attribute orders, two and three variants of every kind over shared and separate letters, ignore lists, special literals, every size at the limits, other shapes, names of every position, literals that come through a macro; each accepted definition lexes every string over its letters up to a length and parses every terminal; non-trivial: an accepted definition";
pub const ASSUME: &[&str] = &[
    "whether two rules of one lexicon that match the same text are accepted, and which wins, is left to the lexer generator: such a definition may be rejected, and a token may be of any type whose rule matches longest",
    "regexes are single letters, classes, groups and repetitions; a small matcher over end positions is the reference",
    "a list without regexes is not decided by the documented rules",
];

#[derive(Clone, Debug, Default)]
pub struct Var {
    pub regexes: Option<Vec<String>>,
    /// `None`: without literal
    pub terms: Option<Vec<Option<String>>>,
}
#[derive(Clone, Debug, Default)]
pub struct Lex {
    pub ignore: Option<Vec<String>>,
    pub vars: Vec<Var>,
    /// how the attributes are written
    pub style: u8,
    /// inputs: letters and length, or a list
    pub letters: String,
    pub len: usize,
    pub list: Vec<String>,
}

fn list(v: &[String]) -> String {
    v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ")
}
impl Lex {
    fn term_name(v: usize, t: usize) -> String {
        format!("T{v}x{t}")
    }
    fn literals(v: &Var) -> Vec<&String> {
        v.terms.iter().flatten().flatten().collect()
    }
    /// (rule, variant or ignored)
    fn rules(&self) -> Vec<(Rx, Option<usize>)> {
        let mut o = vec![];
        for r in self.ignore.iter().flatten() {
            o.extend(Rx::parse(r).map(|r| (r, None)));
        }
        for (i, v) in self.vars.iter().enumerate() {
            match &v.regexes {
                Some(r) => o.extend(r.iter().filter_map(|r| Rx::parse(r)).map(|r| (r, Some(i)))),
                None => {
                    let lits = Self::literals(v);
                    if v.terms.iter().flatten().all(|t| t.is_some()) {
                        o.extend(lits.into_iter().map(|l| (Rx::lit(l), Some(i))));
                    }
                }
            }
        }
        o
    }
    fn inputs(&self, thorough: bool) -> Vec<String> {
        let mut o: Vec<String> = self.list.clone();
        if !self.letters.is_empty() {
            let a: Vec<char> = self.letters.chars().collect();
            let mut layer = vec![String::new()];
            o.push(String::new());
            for _ in 0..self.len + usize::from(thorough) {
                layer = layer.iter().flat_map(|s| a.iter().map(move |c| format!("{s}{c}"))).collect();
                o.extend(layer.iter().cloned());
            }
        }
        o
    }
}

/// a rule (of a variant, or what to ignore) that is valid on its own
fn rule_ok(r: &str) -> bool {
    Rx::parse(r).is_some_and(|x| !x.full(""))
}

impl Def for Lex {
    fn src(&self) -> String {
        let mut o = String::from("use teleparse::prelude::*;\n#[derive_lexicon]\n");
        match (&self.ignore, self.style & 4 != 0) {
            (None, _) => o.push_str("#[teleparse(terminal_parse)]\n"),
            (Some(i), false) => writeln!(o, "#[teleparse(terminal_parse, ignore({}))]", list(i)).unwrap(),
            (Some(i), true) => writeln!(o, "#[teleparse(ignore({}), terminal_parse)]", list(i)).unwrap(),
        }
        o.push_str("pub enum T {\n");
        for (i, v) in self.vars.iter().enumerate() {
            let r = v.regexes.as_ref().map(|r| format!("regex({})", list(r)));
            let t = v.terms.as_ref().map(|t| {
                let t: Vec<String> = t
                    .iter()
                    .enumerate()
                    .map(|(k, l)| match l {
                        None => Lex::term_name(i, k),
                        Some(l) => format!("{} = {l:?}", Lex::term_name(i, k)),
                    })
                    .collect();
                format!("terminal({})", t.join(", "))
            });
            let mut parts: Vec<String> = r.into_iter().chain(t).collect();
            if self.style & 1 != 0 {
                parts.reverse();
            }
            if self.style & 2 != 0 {
                for p in parts {
                    writeln!(o, "  #[teleparse({p})]").unwrap();
                }
            } else if !parts.is_empty() {
                writeln!(o, "  #[teleparse({})]", parts.join(", ")).unwrap();
            }
            writeln!(o, "  V{i},").unwrap();
        }
        o.push('}');
        o
    }
    fn verdict(&self) -> Verdict {
        use Verdict::*;
        if self.vars.is_empty() || self.vars.len() > 128 {
            return Reject("between 1 and 128 variants");
        }
        if self.ignore.iter().flatten().any(|r| !rule_ok(r)) {
            return Reject("an ignored pattern is not valid, or matches nothing");
        }
        let mut undecided = false;
        for v in &self.vars {
            let lits = Lex::literals(v);
            let any = v.terms.iter().flatten().filter(|t| t.is_none()).count();
            if lits.iter().any(|l| l.is_empty()) {
                return Reject("an empty literal");
            }
            if lits.iter().collect::<BTreeSet<_>>().len() < lits.len() {
                return Reject("a duplicate literal");
            }
            if any > 1 {
                return Reject("several terminals without literal");
            }
            if let Some(rs) = &v.regexes {
                if any == 0 && !lits.is_empty() {
                    return Reject("a redundant regex");
                }
                if rs.iter().any(|r| !rule_ok(r)) {
                    return Reject("a regex is not valid, or matches nothing");
                }
                if rs.iter().any(|r| lits.iter().any(|l| !Rx::parse(r).unwrap().full(l))) {
                    return Reject("a regex does not match a literal from its start to its end");
                }
                if rs.is_empty() {
                    undecided = true;
                }
            } else if any > 0 && !lits.is_empty() {
                return Reject("a literal that no rule matches");
            }
        }
        // the same literal on two variants
        let mut seen = BTreeSet::new();
        for v in &self.vars {
            if v.regexes.is_none() && v.terms.iter().flatten().all(|t| t.is_some()) {
                for l in Lex::literals(v) {
                    if !seen.insert(l) {
                        return Reject("a duplicate literal");
                    }
                }
            }
        }
        // rules that match the same text
        let rules = self.rules();
        if self.vars.len() <= 8 {
            let mut alpha: BTreeSet<char> = self.letters.chars().collect();
            alpha.extend(self.vars.iter().flat_map(Lex::literals).flat_map(|l| l.chars()));
            if alpha.len() <= 8 {
                let mut layer = vec![String::new()];
                for _ in 0..3 {
                    layer = layer.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
                    if layer.iter().any(|s| rules.iter().filter(|r| r.0.full(s)).count() > 1) {
                        undecided = true;
                    }
                }
            }
        }
        // regexes that are written twice always match the same
        let mut pats: Vec<&String> = self.ignore.iter().flatten().chain(self.vars.iter().flat_map(|v| v.regexes.iter().flatten())).collect();
        let n = pats.len();
        pats.sort();
        pats.dedup();
        if pats.len() < n {
            undecided = true;
        }
        if undecided {
            Any
        } else {
            Accept
        }
    }
    fn runner(&self, thorough: bool) -> Option<String> {
        let mut o = String::from("use teleparse::{Parser, ToSpan, Lexicon};\n");
        writeln!(o, "for s in [{}] {{", self.inputs(thorough).iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ")).unwrap();
        o.push_str(
            "let mut p = Parser::<T>::new(s).unwrap();\nwhile let Some(t) = p.consume_token() { write!(o, \"{}:{}:{} \", t.ty as usize, t.span.lo, t.span.hi).unwrap(); }\n\
             write!(o, \"|\").unwrap();\nfor t in p.info().extracted_tokens.iter() { write!(o, \"{}:{}:{} \", t.ty as usize, t.span.lo, t.span.hi).unwrap(); }\nwrite!(o, \"|\").unwrap();\n",
        );
        for (i, v) in self.vars.iter().enumerate() {
            for k in 0..v.terms.as_ref().map_or(0, |t| t.len()) {
                let n = Lex::term_name(i, k);
                writeln!(
                    o,
                    "{{ let mut p = Parser::<T>::new(s).unwrap(); let r = p.parse::<{n}>().unwrap(); match r {{ Some(r) if p.info().errors.iter().all(|e| !matches!(e.data, teleparse::syntax::ErrorKind::Expecting(..) | teleparse::syntax::ErrorKind::UnexpectedTokens)) => write!(o, \"{{}}:{{}}:{{}} \", r.0.ty as usize, r.lo(), r.hi()).unwrap(), _ => write!(o, \"- \").unwrap() }} }}"
                )
                .unwrap();
            }
        }
        o.push_str("writeln!(o).unwrap();\n}\n");
        // the types themselves
        o.push_str("let mut t = Some(T::first()); let mut n = 0; while let Some(x) = t { assert_eq!(x.id(), n, \"order of the types\"); n += 1; t = x.next(); }\n");
        writeln!(o, "assert_eq!(n, {}, \"number of types\");", self.vars.len()).unwrap();
        Some(o)
    }
    fn judge(&self, thorough: bool, lines: &[&str], ctx: &mut Ctx) -> Vec<String> {
        let mut bad = vec![];
        let rules = self.rules();
        let inputs = self.inputs(thorough);
        if lines.len() != inputs.len() {
            return vec![format!("{} results for {} inputs", lines.len(), inputs.len())];
        }
        for (s, l) in inputs.iter().zip(lines) {
            ctx.count("inputs", 1);
            let c: Vec<char> = s.chars().collect();
            let offs: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            // reference: (types it may be, lo, hi)
            let mut want: [Vec<(BTreeSet<usize>, usize, usize)>; 2] = Default::default();
            let mut at = 0;
            let mut doubt = false;
            while at < c.len() {
                let ends: Vec<(usize, Option<usize>)> = rules.iter().filter_map(|r| Some((r.0.longest(&c, at)?, r.1))).filter(|e| e.0 > at).collect();
                let Some(end) = ends.iter().map(|e| e.0).max() else {
                    at += 1;
                    continue;
                };
                let kinds: BTreeSet<Option<usize>> = ends.iter().filter(|e| e.0 == end).map(|e| e.1).collect();
                if !kinds.contains(&None) {
                    let set: BTreeSet<usize> = kinds.into_iter().flatten().collect();
                    let ext: BTreeSet<bool> = set.iter().map(|v| self.vars[*v].terms.as_ref().is_none_or(|t| t.is_empty())).collect();
                    if ext.len() > 1 {
                        doubt = true;
                        break;
                    }
                    want[usize::from(ext.contains(&true))].push((set, offs[at], offs[end]));
                } else if kinds.len() > 1 {
                    doubt = true;
                    break;
                }
                at = end;
            }
            if doubt {
                ctx.count("inputs_not_compared", 1);
                continue;
            }
            let f: Vec<&str> = l.split('|').collect();
            let parse = |s: &str| -> Vec<(usize, usize, usize)> {
                s.split_whitespace()
                    .map(|t| {
                        let v: Vec<usize> = t.split(':').map(|x| x.parse().unwrap()).collect();
                        (v[0], v[1], v[2])
                    })
                    .collect()
            };
            for (k, what) in ["tokens", "tokens set aside"].into_iter().enumerate() {
                let got = parse(f[k]);
                let ok = got.len() == want[k].len() && got.iter().zip(&want[k]).all(|(g, w)| w.0.contains(&g.0) && (g.1, g.2) == (w.1, w.2));
                if !ok {
                    bad.push(format!("input {s:?}: {what} (type:from:to) {got:?}, should be {:?}", want[k]));
                }
            }
            // terminals against the tokens that were produced
            let first = parse(f[0]).first().copied();
            let mut res = f[2].split_whitespace();
            for (i, v) in self.vars.iter().enumerate() {
                for t in v.terms.iter().flatten() {
                    let Some(r) = res.next() else {
                        bad.push(format!("input {s:?}: no result for a terminal"));
                        break;
                    };
                    let want = match first {
                        Some((ty, lo, hi)) if ty == i && t.as_ref().is_none_or(|t| s[lo..hi] == **t) => format!("{ty}:{lo}:{hi}"),
                        _ => "-".to_string(),
                    };
                    if r != want {
                        bad.push(format!("input {s:?}: terminal of V{i} {t:?} parses as {r}, should be {want}"));
                    }
                }
            }
        }
        bad
    }
}

/// A definition given as text
pub struct Raw(pub String, pub Verdict, pub Option<String>);
impl Def for Raw {
    fn src(&self) -> String {
        format!("use teleparse::prelude::*;\n{}", self.0)
    }
    fn verdict(&self) -> Verdict {
        self.1
    }
    fn runner(&self, _: bool) -> Option<String> {
        None
    }
    fn judge(&self, _: bool, _: &[&str], _: &mut Ctx) -> Vec<String> {
        vec![]
    }
    fn key(&self) -> String {
        self.2.clone().unwrap_or_else(|| self.src())
    }
}

/// The same definition, with its literals passed through a macro
struct Through(Lex, &'static str);
impl Def for Through {
    fn src(&self) -> String {
        let src = self.0.src();
        let (head, def) = src.split_at(src.find("#[derive_lexicon]").unwrap());
        let (mut body, mut lits, mut rest) = (String::new(), vec![], def);
        while let Some(a) = rest.find('"') {
            let mut b = a + 1;
            while rest.as_bytes()[b] != b'"' {
                b += if rest.as_bytes()[b] == b'\\' { 2 } else { 1 };
            }
            write!(body, "{}$l{}", &rest[..a], lits.len()).unwrap();
            lits.push(&rest[a..=b]);
            rest = &rest[b + 1..];
        }
        let params: Vec<String> = (0..lits.len()).map(|i| format!("$l{i}:{}", self.1)).collect();
        format!("{head}macro_rules! def {{ ({}) => {{ {body}{rest} }} }}\ndef!({});", params.join(", "), lits.join(", "))
    }
    fn verdict(&self) -> Verdict {
        self.0.verdict()
    }
    fn runner(&self, thorough: bool) -> Option<String> {
        self.0.runner(thorough)
    }
    fn judge(&self, thorough: bool, lines: &[&str], ctx: &mut Ctx) -> Vec<String> {
        self.0.judge(thorough, lines, ctx)
    }
}

/// The same definitions under every name
fn names() -> Vec<Box<dyn Def>> {
    let mut v: Vec<Box<dyn Def>> = vec![];
    let mut add = |n: &str, kind: &str, s: String| v.push(Box::new(Raw(s, Verdict::Accept, Some(format!("name/{n}/{kind}")))));
    const HEAD: &str = "#[derive_lexicon] #[teleparse(terminal_parse, ignore(\"\\\\s\"))]";
    for n in crate::NAMES {
        add(n, "terminal", format!("{HEAD} pub enum T__ {{ #[teleparse(terminal({n} = \"x\"))] V__, #[teleparse(regex(\"y\"), terminal(Yy))] W }}"));
        add(n, "terminal-any", format!("{HEAD} pub enum T__ {{ #[teleparse(terminal(Xx = \"x\"))] V__, #[teleparse(regex(\"y\"), terminal({n}))] W }}"));
        add(n, "lexicon", format!("{HEAD} pub enum {n} {{ #[teleparse(terminal(Xx = \"x\"))] V__, #[teleparse(regex(\"y\"), terminal(Yy))] W }}"));
        add(n, "type", format!("{HEAD} pub enum T__ {{ #[teleparse(terminal(Xx = \"x\"))] {n}, #[teleparse(regex(\"y\"), terminal(Yy))] W }}"));
    }
    for n in ["std", "core", "alloc", "logos", "syntax", "parser", "lex"] {
        add(n, "module", format!("pub mod {n} {{}} {HEAD} pub enum T__ {{ #[teleparse(terminal(Xx = \"x\"))] V__, #[teleparse(regex(\"y\"), terminal(Yy))] W }}"));
    }
    v
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn var(r: Option<&[&str]>, t: Option<&[&str]>) -> Var {
    // "" stands for a terminal without literal
    Var { regexes: r.map(strs), terms: t.map(|t| t.iter().map(|s| (!s.is_empty()).then(|| s.to_string())).collect()) }
}
/// bodies over a letter
fn bodies(x: char) -> Vec<Var> {
    let x = x.to_string();
    let (xx, plus, star) = (x.repeat(2), format!("{x}+"), format!("{x}*"));
    let (x, xx, plus, star) = (x.as_str(), xx.as_str(), plus.as_str(), star.as_str());
    vec![
        var(None, None),
        var(None, Some(&[])),
        var(None, Some(&[""])),
        var(None, Some(&[x])),
        var(None, Some(&[x, xx])),
        var(None, Some(&[xx])),
        var(Some(&[plus]), None),
        var(Some(&[plus]), Some(&[])),
        var(Some(&[plus]), Some(&[""])),
        var(Some(&[xx]), Some(&[xx, ""])),
        var(Some(&[plus]), Some(&[x, ""])),
        var(Some(&[x]), Some(&["", xx])),
        var(Some(&[star]), Some(&[""])),
        var(Some(&[plus]), Some(&[x])),
    ]
}

pub fn families(thorough: bool) -> Vec<(String, Vec<Box<dyn Def>>)> {
    let mut out: Vec<(String, Vec<Box<dyn Def>>)> = vec![];
    let bx = |l: Lex| -> Box<dyn Def> { Box::new(l) };
    // one variant
    let singles = ["a+", "[ab]+", "ab", "a", "ab?", "(ab)+", "aa?b?", "a*", "", "(", "[ab", "b?", "a{2}"];
    let pairs = ["a+", "[ab]+", "ab", "a*", "("];
    let mut regs: Vec<Option<Vec<String>>> = vec![None, Some(vec![])];
    regs.extend(singles.iter().map(|r| Some(strs(&[r]))));
    for a in pairs {
        for b in pairs {
            regs.push(Some(strs(&[a, b])));
        }
    }
    let lits: [Option<&str>; 6] = [None, Some("a"), Some("ab"), Some("b"), Some("aa"), Some("")];
    let mut terms: Vec<Option<Vec<Option<String>>>> = vec![None, Some(vec![])];
    let mut layer: Vec<Vec<Option<String>>> = vec![vec![]];
    for _ in 0..3 {
        layer = layer
            .iter()
            .flat_map(|v| {
                lits.iter().map(move |l| {
                    let mut v = v.clone();
                    v.push(l.map(|l| l.to_string()));
                    v
                })
            })
            .collect();
        terms.extend(layer.iter().cloned().map(Some));
    }
    let mut one = vec![];
    let mut styles = vec![];
    let mut through: Vec<Box<dyn Def>> = vec![];
    for r in &regs {
        for t in &terms {
            let l = Lex { vars: vec![Var { regexes: r.clone(), terms: t.clone() }], letters: "abz".into(), len: 4, ..Default::default() };
            let (nr, nt) = (r.as_ref().map_or(0, |r| r.len()), t.as_ref().map_or(0, |t| t.len()));
            if nt <= 2 && nr == 1 && (thorough || t.iter().flatten().flatten().all(|s| s != "aa")) {
                for style in 1..4 {
                    styles.push(bx(Lex { style, ..l.clone() }));
                }
            }
            if nr < 2 && nt < if thorough { 3 } else { 2 } || nr == 2 && nt == 1 && thorough || nr == 0 && nt == 2 {
                for frag in ["literal", "expr"] {
                    through.push(Box::new(Through(Lex { ignore: (nt == 1).then(|| strs(&[" +"])), ..l.clone() }, frag)));
                }
            }
            if thorough || nr < 2 || nt < 3 {
                one.push(bx(l));
            }
        }
    }
    out.push(("one-variant".into(), one));
    out.push(("macro".into(), through));
    out.push(("attribute-order".into(), styles));
    // two and three variants
    let mut two = vec![];
    for a in bodies('a') {
        for b in bodies('a').into_iter().chain(bodies('b')) {
            two.push(bx(Lex { vars: vec![a.clone(), b], letters: "abz".into(), len: 4, ..Default::default() }));
        }
    }
    out.push(("two-variants".into(), two));
    let mut three = vec![];
    let pick = |x: char| -> Vec<Var> {
        let b = bodies(x);
        [0, 1, 3, 6, 8, 10].map(|i: usize| b[i].clone()).to_vec()
    };
    for a in pick('a') {
        for b in pick('b') {
            for c in pick('c') {
                three.push(bx(Lex { vars: vec![a.clone(), b.clone(), c], ignore: Some(strs(&[" +"])), letters: "abc ".into(), len: 3, ..Default::default() }));
            }
        }
    }
    out.push(("three-variants".into(), three));
    // ignored patterns
    let mut ign = vec![];
    let pats = [" +", " ", "x", "x+y", " *", "", "(", "##", "\\s+"];
    let mut lists: Vec<Vec<String>> = vec![vec![]];
    lists.extend(pats.iter().map(|p| strs(&[p])));
    for a in pats {
        for b in pats {
            lists.push(strs(&[a, b]));
        }
    }
    for a in ["x", " ", "##"] {
        for b in [" +", "y", "("] {
            for c in ["z", "z*"] {
                lists.push(strs(&[a, b, c]));
            }
        }
    }
    for l in &lists {
        for style in [0, 4] {
            ign.push(bx(Lex {
                ignore: Some(l.clone()),
                vars: vec![var(Some(&["a+"]), Some(&[""])), var(None, Some(&["b"]))],
                style,
                letters: "a x#y".into(),
                len: 4,
                ..Default::default()
            }));
        }
    }
    out.push(("ignored".into(), ign));
    // literals
    let lits = [
        "+", "++", "+=", "*", "**", ".", "..", "...", "\\", "\\n", "\n", "\"", "'", "é", "日本", "日", "$", "^", "(", "(?", "[", "[a", "{", "{}", "a{2}", "a.b", "?", "|", "||", " ",
        "if", "iff", "i", "#", "/*", "//", "-->", "&&", "x+", "\u{1F600}", "\t", "~", "a|b", "[^a]",
    ];
    let mut spec = vec![];
    let input = |v: &[&str]| -> Vec<String> {
        let mut o: BTreeSet<String> = BTreeSet::from([String::new(), "z".into()]);
        for a in v {
            for (i, _) in a.char_indices() {
                o.insert(a[..i].to_string());
            }
            for b in v {
                o.insert(format!("{a}{b}"));
                o.insert(format!("{a}z{b}"));
                o.insert(format!("{a}{b}{a}"));
            }
            o.insert(format!("z{a}"));
            o.insert(a.to_string());
            o.insert(a.replace('.', "-").replace('+', "x").replace('2', "a"));
        }
        o.into_iter().collect()
    };
    for (i, a) in lits.iter().enumerate() {
        spec.push(bx(Lex { vars: vec![var(None, Some(&[a]))], list: input(&[a]), ..Default::default() }));
        for (j, b) in lits.iter().enumerate() {
            let near = i == j || a.starts_with(b) || b.starts_with(a) || (i + 1) % lits.len() == j || (i + 7) % lits.len() == j;
            if near || thorough {
                spec.push(bx(Lex { vars: vec![var(None, Some(&[a, b]))], list: input(&[a, b]), ..Default::default() }));
                spec.push(bx(Lex { vars: vec![var(None, Some(&[a])), var(None, Some(&[b]))], list: input(&[a, b]), ..Default::default() }));
            }
        }
    }
    out.push(("literals".into(), spec));
    // sizes
    let mut sizes = vec![];
    let ns: Vec<usize> = if thorough { (0..=132).chain([200, 256, 257, 300]).collect() } else { vec![0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 256, 257] };
    for n in ns {
        for rot in 0..if n > 70 && !thorough { 2 } else { 4 } {
            let text = |i: usize| format!("q{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char);
            let vars: Vec<Var> = (0..n)
                .map(|i| {
                    let t = text(i);
                    match (i + rot) % 4 {
                        0 => var(None, Some(&[t.as_str()])),
                        1 => var(Some(&[t.as_str()]), None),
                        2 => var(None, None),
                        _ => var(Some(&[t.as_str()]), Some(&[""])),
                    }
                })
                .collect();
            let mut list: Vec<String> = (0..n.min(130)).map(text).collect();
            list.push((0..n.min(130)).map(text).collect());
            list.push((0..n.min(130)).rev().map(text).collect());
            // inputs only, so that terminals are parsed on few of them
            sizes.push(bx(Lex { vars, list: if n > 40 { list.into_iter().enumerate().filter(|(i, _)| i % 7 == 0 || *i >= n.min(130) - 2).map(|x| x.1).collect() } else { list }, ..Default::default() }));
        }
    }
    out.push(("sizes".into(), sizes));
    // other forms
    use Verdict::*;
    let mut raw: Vec<Box<dyn Def>> = vec![];
    let mut push = |s: &str, v: Verdict| raw.push(Box::new(Raw(s.to_string(), v, None)));
    let r = |w| Reject(w);
    for (body, v) in [
        ("A", Accept),
        ("A,", Accept),
        ("#[teleparse(terminal(X = \"a\"))] A", Accept),
        ("#[teleparse(regex(\"a+\"), terminal(X))] A, B", Accept),
        ("/// documented\n#[teleparse(terminal(X = \"a\"))]\n/// more\nA", Accept),
        ("#[teleparse(terminal(X = \"a\",))] A", Accept),
        ("#[teleparse(terminal(X = \"a\"),)] A", Accept),
        ("#[teleparse(regex(r\"a+\",), terminal(X,))] A", Accept),
        ("#[teleparse(regex(r#\"a\"#), terminal(X))] A", Accept),
        ("#[teleparse(terminal(r#If = \"if\"))] A", Accept),
        ("#[teleparse(terminal(X = \"a\"))] r#As", Accept),
        ("#[teleparse(terminal(X = \"a\"), terminal(Y = \"b\"))] A", r("several terminal attributes")),
        ("#[teleparse(terminal(X = \"a\"))] #[teleparse(terminal(Y = \"b\"))] A", r("several terminal attributes")),
        ("#[teleparse(regex(\"a\"), regex(\"b\"), terminal(X))] A", r("several regex attributes")),
        ("#[teleparse(regex(\"a\"))] #[teleparse(regex(\"b\"), terminal(X))] A", r("several regex attributes")),
        ("A()", r("unit variants")),
        ("A(u8)", r("unit variants")),
        ("A {}", r("unit variants")),
        ("A { x: u8 }", r("unit variants")),
        ("A, B(u8)", r("unit variants")),
        ("A(u8), B", r("unit variants")),
        ("#[teleparse(terminal)] A", r("an attribute of another form")),
        ("#[teleparse(regex)] A", r("an attribute of another form")),
        ("#[teleparse(regex = \"a\")] A", r("an attribute of another form")),
        ("#[teleparse(terminal = \"a\")] A", r("an attribute of another form")),
        ("#[teleparse(ignore(\"a\"))] A", r("a misplaced attribute")),
        ("#[teleparse(terminal_parse)] A", r("a misplaced attribute")),
        ("#[teleparse(root)] A", r("an unknown attribute")),
        ("#[teleparse(unknown(X))] A", r("an unknown attribute")),
        ("#[teleparse(terminals(X = \"a\"))] A", r("an unknown attribute")),
        ("#[teleparse(regexp(\"a\"))] A", r("an unknown attribute")),
        ("#[teleparse(terminal(X = \"a\"), unknown(X))] A", r("an unknown attribute")),
        ("#[teleparse(terminal(X(\"a\")))] A", r("an invalid terminal")),
        ("#[teleparse(terminal(X = 'a'))] A", r("an invalid terminal")),
        ("#[teleparse(terminal(X = 1))] A", r("an invalid terminal")),
        ("#[teleparse(terminal(X = b\"a\"))] A", r("an invalid terminal")),
        ("#[teleparse(terminal(a::X = \"a\"))] A", r("an invalid terminal")),
        ("#[teleparse(terminal(a::X), regex(\"a\"))] A", r("an invalid terminal")),
        ("#[teleparse(terminal(\"a\"))] A", r("an invalid terminal")),
        ("#[teleparse(regex(a))] A", r("an invalid regex")),
        ("#[teleparse(regex(\"a\" \"b\"))] A", r("an invalid regex")),
        ("#[teleparse(terminal(X = \"a\", X = \"b\"))] A", r("two terminals of the same name")),
        ("#[teleparse(terminal(X = \"a\"))] A, #[teleparse(terminal(X = \"b\"))] B", r("two terminals of the same name")),
        ("#[teleparse(terminal(X = \"a\"))] A, A", r("two variants of the same name")),
        ("", r("at least one variant")),
    ] {
        push(&format!("#[derive_lexicon]\npub enum T {{ {body} }}"), v);
    }
    let e = "pub enum T { #[teleparse(terminal(X = \"a\"))] A }";
    for (head, v) in [
        ("", Accept),
        ("#[teleparse()]", Accept),
        ("#[teleparse(terminal_parse)]", Accept),
        ("#[teleparse(ignore())]", Accept),
        ("#[teleparse(ignore(\" \"))]", Accept),
        ("#[teleparse(ignore(\" \"), terminal_parse)]", Accept),
        ("/// documented", Accept),
        ("#[teleparse(terminal_parse)]\n/// documented", Accept),
        ("#[teleparse(ignore(\" \"))] #[teleparse(terminal_parse)]", r("several root attributes")),
        ("#[teleparse(ignore(\" \"), ignore(\"x\"))]", r("several ignore attributes")),
        ("#[teleparse(unknown)]", r("an unknown attribute")),
        ("#[teleparse(unknown(\"a\"))]", r("an unknown attribute")),
        ("#[teleparse(root)]", r("an unknown attribute")),
        ("#[teleparse(ignore)]", r("an attribute of another form")),
        ("#[teleparse(ignore = \" \")]", r("an attribute of another form")),
        ("#[teleparse(terminal_parse(true))]", r("an attribute of another form")),
        ("#[teleparse(regex(\"a\"))]", r("a misplaced attribute")),
        ("#[teleparse(terminal(Y = \"y\"))]", r("a misplaced attribute")),
        ("#[teleparse(ignore(1))]", r("an invalid pattern")),
    ] {
        push(&format!("#[derive_lexicon]\n{head}\n{e}"), v);
    }
    for (s, v) in [
        ("#[derive_lexicon]\npub struct T;", r("not an enum")),
        ("#[derive_lexicon]\npub struct T(u8);", r("not an enum")),
        ("#[derive_lexicon]\npub struct T { a: u8 }", r("not an enum")),
        ("#[derive_lexicon]\npub union T { a: u8 }", r("not an enum")),
        ("#[derive_lexicon]\npub enum T<'a> { A }", r("generics")),
        ("#[derive_lexicon]\npub enum T<A> { A }", r("generics")),
        ("#[derive_lexicon]\npub enum T<const N: usize> { A }", r("generics")),
        ("#[derive_lexicon]\nenum T { #[teleparse(terminal(X = \"a\"))] A }", Accept),
        ("#[derive_lexicon]\npub(crate) enum T { #[teleparse(terminal(X = \"a\"))] A }", Accept),
        ("#[derive_lexicon]\npub(super) enum T { #[teleparse(terminal(X = \"a\"))] A }", Accept),
        ("#[derive_lexicon]\npub enum r#Type { #[teleparse(terminal(X = \"a\"))] A }", Accept),
        ("#[derive_lexicon]\npub enum T { #[teleparse(terminal(X = \"a\"))] A }\n#[derive_lexicon]\npub enum U { #[teleparse(terminal(Y = \"a\"))] A }", Accept),
    ] {
        push(s, v);
    }
    out.push(("forms".into(), raw));
    out.push(("names".into(), names()));
    out
}
