//! LEXING (P01): every string up to a length over the alphabet of several lexicons, against
//! a longest-match reference.
#[path = "../many.rs"]
mod many;
use mc::{Check, Ctx, Job};
use std::collections::BTreeSet;
use std::rc::Rc;
use teleparse::lex::Lexicon;
use teleparse::prelude::*;
use teleparse::syntax::ErrorKind;
use teleparse::Parser;

/////////////////////////////////////////////////////////// reference

/// A pattern, written independently of the regular expression it stands for
#[derive(Clone)]
enum Re {
    L(&'static str),
    C(fn(char) -> bool),
    S(Vec<Re>),
    A(Vec<Re>),
    Star(Box<Re>),
}
use Re::*;
fn plus(r: Re) -> Re {
    S(vec![r.clone(), Star(Box::new(r))])
}
fn opt(r: Re) -> Re {
    A(vec![r, L("")])
}
fn star(r: Re) -> Re {
    Star(Box::new(r))
}
/// All ends of a match that begins at `p`
fn ends(r: &Re, s: &str, p: usize) -> BTreeSet<usize> {
    match r {
        L(l) => s[p..].starts_with(l).then_some(p + l.len()).into_iter().collect(),
        C(f) => s[p..].chars().next().filter(|c| f(*c)).map(|c| p + c.len_utf8()).into_iter().collect(),
        S(v) => v.iter().fold(BTreeSet::from([p]), |a, r| a.iter().flat_map(|q| ends(r, s, *q)).collect()),
        A(v) => v.iter().flat_map(|r| ends(r, s, p)).collect(),
        Star(r) => {
            let mut all = BTreeSet::from([p]);
            let mut work = vec![p];
            while let Some(q) = work.pop() {
                for e in ends(r, s, q) {
                    if all.insert(e) {
                        work.push(e);
                    }
                }
            }
            all
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Skip,
    Tok(usize),
    Aside(usize),
}
use Kind::*;
struct Rule {
    re: Re,
    kind: Kind,
}
#[derive(PartialEq, Debug, Default, Clone)]
struct Out {
    /// (type, lo, hi)
    toks: Vec<(usize, usize, usize)>,
    aside: Vec<(usize, usize, usize)>,
    invalid: Vec<(usize, usize)>,
    /// what each read of the lexer gives
    reads: Vec<(Option<(usize, usize)>, Option<(usize, usize, usize)>)>,
}
fn reference(rules: &[Rule], s: &str) -> Out {
    let mut o = Out::default();
    let mut p = 0;
    let mut run: Option<(usize, usize)> = None;
    while p < s.len() {
        // the longest match, a literal before a pattern
        let mut best: Option<(usize, bool, Kind)> = None;
        for r in rules {
            let lit = matches!(r.re, L(_));
            if let Some(e) = ends(&r.re, s, p).last() {
                if *e > p && best.is_none_or(|b| (*e, lit) > (b.0, b.1)) {
                    best = Some((*e, lit, r.kind));
                }
            }
        }
        match best {
            None => {
                let e = p + s[p..].chars().next().unwrap().len_utf8();
                run = Some((run.map_or(p, |r| r.0), e));
                p = e;
            }
            Some((e, _, Skip)) => p = e,
            Some((e, _, k)) => {
                let (ty, v) = match k {
                    Tok(t) => (t, &mut o.toks),
                    Aside(t) => (t, &mut o.aside),
                    Skip => unreachable!(),
                };
                v.push((ty, p, e));
                o.invalid.extend(run);
                o.reads.push((run.take(), Some((ty, p, e))));
                p = e;
            }
        }
    }
    o.invalid.extend(run);
    o.reads.push((run, None));
    o
}

/////////////////////////////////////////////////////////// lexicons

mod ops {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(r"[ \n]+"))]
    pub enum L {
        #[teleparse(terminal(A = "+", B = "++", C = "+="))]
        Add,
        #[teleparse(terminal(D = "=", E = "=="))]
        Eq,
        Sem,
        #[teleparse(terminal(F = "=>+", G = "+=>"))]
        Arrow,
    }
}
mod words {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(" "))]
    pub enum L {
        Sem,
        #[teleparse(terminal(If = "if", In = "iff"))]
        Key,
        #[teleparse(regex("[a-z]+"), terminal(Id, Fi = "fi"))]
        Id_,
        #[teleparse(regex(r"[0-9]+(\.[0-9]+)?"), terminal(Num))]
        Num_,
        Sem2,
        #[teleparse(terminal(Dots = ".."))]
        Dot,
    }
}
mod comments {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(r"\n"))]
    pub enum L {
        #[teleparse(regex("//[^\n]*"))]
        Line,
        #[teleparse(terminal(Div = "/"))]
        Op,
        #[teleparse(regex("a+"), terminal(Id))]
        W,
        #[teleparse(regex("/#"))]
        Mark,
    }
}
mod wide {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore("\u{3000}"))]
    pub enum L {
        #[teleparse(terminal(E = "é", EE = "é€"))]
        Lit,
        #[teleparse(regex("[α-γ]+"), terminal(Greek))]
        G,
        #[teleparse(regex("😀a?"))]
        Aside,
    }
}
mod skips {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore("[ ]+", "#a*;", "--"))]
    pub enum L {
        #[teleparse(terminal(Hash = "#", Dash = "-"))]
        P,
        #[teleparse(regex("a;"), terminal(Stop))]
        S,
    }
}
mod multi {
    use teleparse::prelude::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(regex("[0-9]", "0x[0-9a-f]+", "0b[01]"), terminal(Num))]
        N,
        #[teleparse(regex("x[a-z]*"), terminal(Id, Xa = "xa"))]
        X,
        #[teleparse(terminal(Ab = "ab"))]
        Ab_,
    }
}
mod quoted {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(" "))]
    pub enum L {
        #[teleparse(regex("\"[^\"]*\""), terminal(Str))]
        S,
        #[teleparse(regex("[a-z]+"), terminal(Id))]
        W,
        #[teleparse(regex("<[a-z]*>"))]
        Tag,
    }
}

fn lower(c: char) -> bool {
    c.is_ascii_lowercase()
}
fn digit(c: char) -> bool {
    c.is_ascii_digit()
}

fn check<T: Lexicon>(rules: &[Rule], s: &str, cut: Option<Cut>, ctx: &mut Ctx) {
    let want = reference(rules, s);
    if cut.is_some_and(|c| c(&want, s)) {
        ctx.count("not compared: a pattern fails inside a repetition", 1);
        return;
    }
    ctx.count("evaluations", 1);
    let kinds = (!want.toks.is_empty()) as u8 + (!want.aside.is_empty()) as u8 + (!want.invalid.is_empty()) as u8;
    if kinds >= 2 || want.reads.len() >= 3 {
        ctx.count("nontrivial", 1);
    }
    let got = ctx.sut(|| {
        let mut p = Parser::<T>::new(s).ok()?;
        let mut o = Out::default();
        while let Some(t) = p.consume_token() {
            o.toks.push((t.ty.id(), t.span.lo, t.span.hi));
            assert!(o.toks.len() <= s.len(), "more tokens than bytes");
        }
        let rec: Vec<_> = p.info().tokens.as_slice().iter().map(|c| (c.ty.id(), c.span.lo, c.span.hi)).collect();
        assert_eq!(rec, o.toks, "recorded tokens are not the tokens returned");
        o.aside = p.info().extracted_tokens.iter().map(|t| (t.ty.id(), t.span.lo, t.span.hi)).collect();
        o.invalid = p.info().invalid_source.iter().map(|t| (t.lo, t.hi)).collect();
        let errs: Vec<_> = p.info().errors.iter().filter(|e| e.data == ErrorKind::UnexpectedCharacters).map(|t| (t.span.lo, t.span.hi)).collect();
        assert_eq!(errs, o.invalid, "reported errors are not the invalid runs");
        assert_eq!(p.info().errors.len(), errs.len(), "other errors");
        let mut l = T::lexer(s).ok()?;
        loop {
            let (i, t) = l.next();
            let last = t.is_none();
            o.reads.push((i.map(|i| (i.lo, i.hi)), t.map(|t| (t.ty.id(), t.span.lo, t.span.hi))));
            assert!(o.reads.len() <= s.len() + 1, "more tokens than bytes");
            if last {
                let (i, t) = l.next();
                assert!(i.is_none() && t.is_none(), "something after the end");
                break;
            }
        }
        Some(o)
    });
    let bad = match got {
        None => ctx.panic_text(),
        Some(None) => "the lexer cannot be made".into(),
        Some(Some(o)) if o != want => {
            let cut = |o: &Out| format!("{o:?}").chars().take(3000).collect::<String>();
            format!("real      {}\nreference {}", cut(&o), cut(&want))
        }
        _ => return,
    };
    let shown: String = s.chars().take(700).collect();
    ctx.fail(format!("{}/{shown:?}", ctx.job.clone()), format!("input of {} bytes {shown:?}\n{bad}", s.len()));
}

/// Inputs on which the lexer generator has to give up a match inside a repetition: it then
/// skips all it has read (see known_findings.txt); these are explored by the job "given-up" only
type Cut = fn(&Out, &str) -> bool;
fn cut_ignored(o: &Out, s: &str) -> bool {
    o.toks.iter().any(|t| &s[t.1..t.2] == "#" && s[t.2..].starts_with('a'))
}
fn cut_quoted(o: &Out, s: &str) -> bool {
    let inv = |p: usize| o.invalid.iter().any(|r| r.0 <= p && p < r.1) && !o.toks.iter().chain(&o.aside).any(|t| t.1 <= p && p < t.2);
    s.char_indices().any(|(p, c)| inv(p) && ((c == '"' && p + 1 < s.len()) || (c == '<' && s[p + 1..].starts_with('a'))))
}
const GIVEN_UP: [(usize, &str); 6] = [(4, "#a"), (4, "#a-"), (6, "\"a"), (6, "<a"), (6, "\" a"), (6, "<a<a>")];

fn strings(alpha: &'static [&'static str], len: u32, mut i: u64) -> String {
    let n = alpha.len() as u64;
    (0..len)
        .map(|_| {
            let d = i % n;
            i /= n;
            alpha[d as usize]
        })
        .collect()
}

struct Lx {
    name: &'static str,
    alpha: &'static [&'static str],
    rules: Vec<Rule>,
    len: (u32, u32),
    cut: Option<Cut>,
    run: fn(&[Rule], &str, Option<Cut>, &mut Ctx),
}

fn r(re: Re, kind: Kind) -> Rule {
    Rule { re, kind }
}

fn lexicons() -> Vec<Lx> {
    let mut v = vec![
        Lx {
            name: "operators",
            alpha: &["+", "=", ">", " ", "!"],
            rules: vec![
                r(plus(C(|c| c == ' ' || c == '\n')), Skip),
                r(L("+"), Tok(0)),
                r(L("++"), Tok(0)),
                r(L("+="), Tok(0)),
                r(L("="), Tok(1)),
                r(L("=="), Tok(1)),
                r(L("=>+"), Tok(3)),
                r(L("+=>"), Tok(3)),
            ],
            len: (8, 10),
            cut: None,
            run: check::<ops::L>,
        },
        Lx {
            name: "words",
            alpha: &["i", "f", "1", ".", " ", "!"],
            rules: vec![
                r(L(" "), Skip),
                r(L("if"), Tok(1)),
                r(L("iff"), Tok(1)),
                r(plus(C(lower)), Tok(2)),
                r(S(vec![plus(C(digit)), opt(S(vec![L("."), plus(C(digit))]))]), Tok(3)),
                r(L(".."), Tok(5)),
            ],
            len: (8, 10),
            cut: None,
            run: check::<words::L>,
        },
        Lx {
            name: "comments",
            alpha: &["/", "a", "\n", "#", "é"],
            rules: vec![
                r(L("\n"), Skip),
                r(S(vec![L("//"), star(C(|c| c != '\n'))]), Aside(0)),
                r(L("/"), Tok(1)),
                r(plus(L("a")), Tok(2)),
                r(S(vec![L("/#")]), Aside(3)),
            ],
            len: (8, 10),
            cut: None,
            run: check::<comments::L>,
        },
        Lx {
            name: "multi-byte",
            alpha: &["é", "€", "α", "γ", "😀", "a", "\u{3000}"],
            rules: vec![
                r(L("\u{3000}"), Skip),
                r(L("é"), Tok(0)),
                r(L("é€"), Tok(0)),
                r(plus(C(|c| ('α'..='γ').contains(&c))), Tok(1)),
                r(S(vec![L("😀"), opt(L("a"))]), Aside(2)),
            ],
            len: (7, 9),
            cut: None,
            run: check::<wide::L>,
        },
        Lx {
            name: "ignored",
            alpha: &["#", "a", ";", " ", "-"],
            rules: vec![
                r(plus(C(|c| c == ' ')), Skip),
                r(S(vec![L("#"), star(L("a")), L(";")]), Skip),
                r(S(vec![L("--")]), Skip),
                r(L("#"), Tok(0)),
                r(L("-"), Tok(0)),
                r(S(vec![L("a;")]), Tok(1)),
            ],
            len: (8, 10),
            cut: Some(cut_ignored),
            run: check::<skips::L>,
        },
        Lx {
            name: "several-patterns",
            alpha: &["0", "1", "x", "a", "b", "!"],
            rules: vec![
                r(C(digit), Tok(0)),
                r(S(vec![L("0x"), plus(C(|c| c.is_ascii_digit() || ('a'..='f').contains(&c)))]), Tok(0)),
                r(S(vec![L("0b"), C(|c| c == '0' || c == '1')]), Tok(0)),
                r(S(vec![L("x"), star(C(lower))]), Tok(1)),
                r(L("ab"), Tok(2)),
            ],
            len: (8, 10),
            cut: None,
            run: check::<multi::L>,
        },
        Lx {
            name: "quoted",
            alpha: &["\"", "a", "<", ">", " "],
            rules: vec![
                r(L(" "), Skip),
                r(S(vec![L("\""), star(C(|c| c != '"')), L("\"")]), Tok(0)),
                r(plus(C(lower)), Tok(1)),
                r(S(vec![L("<"), star(C(lower)), L(">")]), Aside(2)),
            ],
            len: (7, 9),
            cut: Some(cut_quoted),
            run: check::<quoted::L>,
        },
    ];
    macro_rules! many {
        ($($m:ident $name:literal),*) => { $( {
            let tab = many::$m::TAB;
            let mut alpha: Vec<&'static str> = tab.iter().map(|t| t.0).collect();
            alpha.push("!");
            v.push(Lx {
                name: $name,
                alpha: Box::leak(alpha.into_boxed_slice()),
                rules: tab.iter().map(|t| r(L(t.0), if t.2 { Aside(t.1) } else { Tok(t.1) })).collect(),
                len: (2, 3),
                cut: None,
                run: check::<many::$m::L>,
            });
        } )* };
    }
    many!(m7 "types7", m9 "types9", m17 "types17", m33 "types33", m65 "types65", m128 "types128");
    v
}

fn build_check(prop: &str, thorough: bool) -> Option<Check> {
    if prop != "P01" {
        return None;
    }
    let mut jobs = vec![];
    for lx in lexicons() {
        let lx = Rc::new(lx);
        let max = if thorough { lx.len.1 } else { lx.len.0 };
        for len in 0..=max {
            let (a, b) = (lx.clone(), lx.clone());
            let total = (lx.alpha.len() as u64).pow(len);
            jobs.push(Job::new(
                format!("{}-{len}", lx.name),
                total,
                move |i, c| (a.run)(&a.rules, &strings(a.alpha, len, i), a.cut, c),
                move |i, _| format!("input {:?}", strings(b.alpha, len, i)),
            ));
        }
    }
    // pumped inputs: u v^n w
    for lx in lexicons() {
        // after nothing, and between any two characters for the smallest
        let ns: &'static [usize] = if thorough { &[20, 64, 255, 256, 300, 1025] } else { &[20, 257] };
        let a = Rc::new(lx);
        // of a large alphabet, some
        let m = a.alpha.len();
        let alpha: &'static [&'static str] = if m <= 8 { a.alpha } else { Box::leak((0..7).map(|i| a.alpha[i * (m - 1) / 6]).collect()) };
        let k = alpha.len() as u64;
        let x = a.clone();
        let part = move |i: u64, most: u32| -> String {
            // every string of up to that many characters
            let mut i = i;
            for len in 0..=most {
                let t = k.pow(len);
                if i < t {
                    return strings(alpha, len, i);
                }
                i -= t;
            }
            unreachable!()
        };
        let vs = k + k * k;
        let text = move |i: u64| -> String {
            let (w, i) = (i % (k + 1), i / (k + 1));
            let (v, i) = (i % vs, i / vs);
            let (u, n) = if i <= k { (i, 0) } else { (0, i - k) };
            part(u, 1) + &part(v + 1, 2).repeat(ns[n as usize]) + &part(w, 1)
        };
        jobs.push(Job::new(
            format!("{}-pump", a.name),
            (k + 1) * vs * (k + ns.len() as u64),
            move |i, c| (x.run)(&x.rules, &text(i), x.cut, c),
            move |i, _| format!("input {:?}", text(i)),
        ));
        // more than 65536 bytes before or in a token
        let x = a.clone();
        let far = move |i: u64| -> String {
            let (w, i) = (i % k, i / k);
            part(i + 1, 1).repeat(65_600) + &part(w + 1, 1)
        };
        jobs.push(Job::new(
            format!("{}-far", a.name),
            k * k,
            move |i, c| (x.run)(&x.rules, &far(i), x.cut, c),
            move |i, _| format!("input {:?}", { let t = far(i); let n = t.chars().count(); format!("{}... of {n} characters ...{}", t.chars().take(3).collect::<String>(), t.chars().skip(n - 3).collect::<String>()) }),
        ));
    }
    jobs.push(Job::new(
        "given-up",
        GIVEN_UP.len() as u64,
        |i, c| {
            let (l, s) = GIVEN_UP[i as usize];
            let lx = &lexicons()[l];
            (lx.run)(&lx.rules, s, None, c)
        },
        |i, _| format!("input {:?}", GIVEN_UP[i as usize].1),
    ));
    Some(Check {
        prop: "P01",
        level: "exploration",
        rule: "every string up to a length over the alphabet of each of 13 lexicons (shared prefixes, words and keywords, comments, multi-byte characters, ignored patterns, several patterns for one type, quoted text, and 7 to 128 token types of alternating kinds), and every u v^n w with u and w of up to one and v of up to two characters, n of 20, and with u empty up to 257 (1025), and 65600 with v of one; read through the raw lexer and through the parser; evaluations: strings; nontrivial: strings with at least two of tokens, set-aside tokens and invalid text, or at least two tokens".into(),
        assumptions: vec!["the longest-match reference and its hand-written patterns are trusted".into(), "longer strings behave as those explored".into()],
        jobs,
        cap_s: if thorough { 840 } else { 400 },
        hang_s: 30,
        workers: 0,
    })
}

fn main() {
    mc::main(build_check)
}
