//! Long inputs: lists, nests and histories of hundreds to tens of thousands of tokens, long tokens and
//! long gaps, with nothing wrong or one thing wrong at a position near the ends and powers of two.
//! The expected outcome of these few grammars is written down directly.
use mc::{Ctx, Job};
use teleparse::lex::Set;
use teleparse::parser::{Parser, Root};
use teleparse::prelude::*;
use teleparse::syntax::{ErrorKind, Production};

pub mod w {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(r"[ \n]+"))]
    pub enum W {
        #[teleparse(regex("[a-zé]+"), terminal(Id))]
        Word,
        #[teleparse(terminal(Semi = ";", Comma = ",", Plus = "+", Open = "(", Close = ")"))]
        Op,
        #[teleparse(regex("#[a-z]*#"))]
        Cmt,
        Mark,
        Other,
    }
}
use w::*;

#[derive_syntax]
#[teleparse(root)]
pub struct RVec(tp::Vec<Id>, Semi);
#[derive_syntax]
#[teleparse(root)]
pub struct RDeque(tp::NevDeque<Id>, Semi);
#[derive_syntax]
#[teleparse(root)]
pub struct RSplit(tp::Split<Id, Comma>, Semi);
#[derive_syntax]
#[teleparse(root)]
pub struct RPunct(tp::Punct<Id, Comma>, Semi);
#[derive_syntax]
#[teleparse(root)]
pub struct RLoop(tp::Loop<Id>);
#[derive_syntax]
#[teleparse(root)]
pub struct RRecover(tp::Recover<Id, Semi>);
#[derive_syntax]
#[teleparse(root)]
pub struct RNest(Nest, Semi);
#[derive_syntax]
pub struct Nest(Open, tp::Option<Box<Nest>>, Close);
#[derive_syntax]
pub enum Item {
    #[teleparse(semantic(Mark))]
    Word(Id),
    Plus(Plus),
}
#[derive_syntax]
#[teleparse(root)]
pub struct RMarks(tp::Vec<Item>, #[teleparse(semantic(Other))] Semi);
#[derive_syntax]
#[teleparse(root)]
pub struct RQuote(tp::String<tp::Vec<Id>>, Semi);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form { Vec, Deque, Split, Punct, Loop, Recover, Nest, Marks, Quote, Calls }
const FORMS: [Form; 10] = [Form::Vec, Form::Deque, Form::Split, Form::Punct, Form::Loop, Form::Recover, Form::Nest, Form::Marks, Form::Quote, Form::Calls];

/// What lies between the tokens
#[derive(Clone, Copy, PartialEq, Debug)]
enum Gap {
    Plain,
    /// many ignored characters before this token
    Far,
    /// this token is long
    Fat,
    /// a comment before every token
    Comments,
    /// invalid text before every token
    Invalid,
}
const GAPS: [Gap; 5] = [Gap::Plain, Gap::Far, Gap::Fat, Gap::Comments, Gap::Invalid];

type S2 = (usize, usize);

struct Input {
    text: String,
    toks: Vec<S2>,
    cmts: Vec<S2>,
    junk: Vec<S2>,
}
/// much: how long a long gap or token is, at the at-th token that is a word
fn render(words: &[&str], gap: Gap, at: usize, much: usize) -> Input {
    let mut r = Input { text: String::new(), toks: vec![], cmts: vec![], junk: vec![] };
    for (i, w) in words.iter().enumerate() {
        match gap {
            Gap::Comments => {
                r.cmts.push((r.text.len(), r.text.len() + 3));
                r.text.push_str("#c#");
            }
            Gap::Invalid => {
                r.junk.push((r.text.len(), r.text.len() + 2));
                r.text.push_str("@@");
            }
            Gap::Far if i == at => r.text.push_str(&" ".repeat(much)),
            _ => {}
        }
        if i > 0 {
            r.text.push(' ');
        }
        let lo = r.text.len();
        r.text.push_str(w);
        if gap == Gap::Fat && i == at && w.starts_with('w') {
            r.text.push_str(&"é".repeat(much / 2));
        }
        r.toks.push((lo, r.text.len()));
    }
    r
}

#[derive(PartialEq, Debug)]
struct Out {
    /// spans of the items, of the list and of the tree; number of delimiters
    tree: Option<(Vec<S2>, S2, S2, usize)>,
    quote: Option<String>,
    /// syntax errors
    errs: Vec<(S2, &'static str)>,
    junk: Vec<S2>,
    toks: Vec<S2>,
    /// for each recorded token: marked, other
    sem: Vec<(bool, bool)>,
    cmts: Vec<S2>,
    left: usize,
}
fn sp(s: teleparse::Span) -> S2 {
    (s.lo, s.hi)
}
type Parts = (Vec<S2>, S2, S2, usize, Option<String>);
fn run<R: Root>(src: &str, calls: usize, parts: impl Fn(&R) -> Parts) -> Result<Out, String>
where
    R::Prod: Production<L = W>,
{
    let mut p = Parser::<W>::new(src).map_err(|e| format!("{e:?}"))?;
    let mut all: Option<Parts> = None;
    for _ in 0..calls {
        let t = p.parse::<R>().map_err(|e| format!("{e}"))?;
        if let Some(t) = t {
            let x = parts(&t);
            match &mut all {
                None => all = Some(x),
                Some(a) => {
                    a.0.extend(x.0);
                    a.1 .1 = x.1 .1;
                    a.2 .1 = x.2 .1;
                }
            }
        }
    }
    let left = p.remaining().len();
    let i = p.info();
    let (tree, quote) = match all {
        None => (None, None),
        Some((a, b, c, d, q)) => (Some((a, b, c, d)), q),
    };
    Ok(Out {
        tree,
        quote,
        errs: i
            .errors
            .iter()
            .filter(|e| !matches!(e.data, ErrorKind::UnexpectedCharacters))
            .map(|e| {
                (
                    sp(e.span),
                    match e.data {
                        ErrorKind::Expecting(_) => "expecting",
                        ErrorKind::UnexpectedTokens => "tokens",
                        ErrorKind::UnexpectedEof => "end",
                        _ => "other",
                    },
                )
            })
            .collect(),
        junk: i.errors.iter().filter(|e| matches!(e.data, ErrorKind::UnexpectedCharacters)).map(|e| sp(e.span)).collect(),
        toks: i.tokens.as_slice().iter().map(|t| sp(t.span)).collect(),
        sem: i
            .tokens
            .as_slice()
            .iter()
            .map(|t| {
                let s: Set<W> = t.semantics();
                (s.contains(W::Mark), s.contains(W::Other))
            })
            .collect(),
        cmts: i.extracted_tokens.iter().map(|t| sp(t.span)).collect(),
        left,
    })
}
fn real(f: Form, n: usize, src: &str) -> Result<Out, String> {
    macro_rules! list {
        ($t:ident, $punct:expr) => {
            run::<$t>(src, 1, |t| (t.0.iter().map(|x| sp(x.span())).collect(), sp(t.0.span()), sp(t.span()), $punct(t), None))
        };
    }
    match f {
        Form::Vec => list!(RVec, |_| 0),
        Form::Deque => list!(RDeque, |_| 0),
        Form::Split => list!(RSplit, |t: &RSplit| t.0.puncts.len()),
        Form::Punct => list!(RPunct, |t: &RPunct| t.0.puncts.len()),
        Form::Loop => list!(RLoop, |_| 0),
        Form::Marks => list!(RMarks, |_| 0),
        Form::Quote => run::<RQuote>(src, 1, |t| (vec![], sp(t.0.span()), sp(t.span()), 0, Some(t.0.to_string()))),
        Form::Recover => run::<RRecover>(src, 1, |t| (t.0.head.value.iter().chain([]).map(|x| sp(x.span())).chain([sp(t.0.tail.span())]).collect(), sp(t.0.head.span), sp(t.span()), 0, None)),
        Form::Nest => run::<RNest>(src, 1, |t| {
            // from the outside in: the brackets of each level
            let mut v = vec![];
            let mut at = &t.0;
            loop {
                v.push(sp(at.span()));
                match &*at.1 {
                    Some(x) => at = x,
                    None => break,
                }
            }
            (v, sp(t.0.span()), sp(t.span()), 0, None)
        }),
        Form::Calls => run::<RVec>(src, n, |t| (t.0.iter().map(|x| sp(x.span())).collect(), sp(t.0.span()), sp(t.span()), 0, None)),
    }
}

/// The words of the input of n items, and the index of the token that is wrong
fn words(f: Form, n: usize, bad: Option<usize>) -> (Vec<&'static str>, Option<usize>) {
    let w = |i: usize| ["w", "wa", "wab"][i % 3];
    let mut v: Vec<&'static str> = vec![];
    let mut at = None;
    match f {
        Form::Recover => {
            // a head, then what is skipped
            v.push(if bad.is_some() { "+" } else { "w" });
            if bad.is_some() {
                at = Some(0);
                v.extend((0..n).map(|i| ["+", "w", ","][i % 3]));
            }
            v.push(";");
        }
        Form::Nest => {
            v.extend((0..n).map(|_| "("));
            v.extend((0..n).map(|_| ")"));
            v.push(";");
            if let Some(b) = bad {
                // inside b brackets something else
                v.insert(b, "+");
                at = Some(b);
            }
        }
        Form::Calls => {
            for i in 0..n {
                v.push(w(i));
                v.push(";");
            }
        }
        _ => {
            let delim = f == Form::Split || f == Form::Punct;
            for i in 0..n {
                if i > 0 && delim {
                    v.push(",");
                }
                if bad == Some(i) {
                    at = Some(v.len());
                    v.push(if f == Form::Marks { "(" } else { "+" });
                } else if f == Form::Marks && i % 3 == 2 {
                    v.push("+");
                } else {
                    v.push(w(i));
                }
            }
            if f != Form::Loop {
                v.push(";");
            }
        }
    }
    (v, at)
}

/// What should come out; None in errs: only the first error counts
fn want(f: Form, n: usize, v: &[&str], at: Option<usize>, i: &Input) -> (Out, bool) {
    let t = &i.toks;
    let end = t.last().map_or(0, |x| x.1);
    let k = t.len();
    let none = |m: usize| vec![(false, false); m];
    let mut o = Out { tree: None, quote: None, errs: vec![], junk: i.junk.clone(), toks: t.clone(), sem: none(k), cmts: i.cmts.clone(), left: 0 };
    let item = |j: &usize| !matches!(v[*j], ";" | "," | "(" | ")");
    let span = |a: &[S2]| a.first().map_or((0, 0), |x| (x.0, a[a.len() - 1].1));
    match (f, at) {
        (Form::Recover, None) => o.tree = Some((t.clone(), t[0], span(t), 0)),
        (Form::Recover, Some(_)) => {
            o.errs = vec![((t[0].0, t[k - 2].1), "expecting")];
            o.tree = Some((vec![t[k - 1]], (0, 0), (0, end), 0));
            // nothing was consumed before the head
        }
        (Form::Nest, None) => {
            let levels: Vec<S2> = (0..n).map(|d| (t[d].0, t[2 * n - 1 - d].1)).collect();
            o.tree = Some((levels.clone(), levels[0], span(t), 0));
        }
        (Form::Calls, _) => {
            let items: Vec<S2> = t.iter().step_by(2).copied().collect();
            o.tree = Some((items, (t[0].0, t[k - 2].1), span(t), 0));
        }
        (Form::Loop, _) => {
            let items: Vec<S2> = (0..k).filter(|j| Some(*j) != at).map(|j| t[j]).collect();
            o.tree = Some((items.clone(), span(&items), span(&items), 0));
            o.errs = at.map(|a| (t[a], "tokens")).into_iter().collect();
        }
        (Form::Split | Form::Punct, at) if at != Some(0) => {
            let items: Vec<S2> = (0..k).filter(|j| item(j) && Some(*j) != at).map(|j| t[j]).collect();
            o.errs = at.map(|a| (t[a], "expecting")).into_iter().collect();
            let puncts = n - 1 - usize::from(at.is_some() && f == Form::Split);
            // the last item may be the one that is lost: then a split list ends before its delimiter
            let lo = items[0].0;
            let hi = if at == Some(k - 2) && f == Form::Punct { t[k - 3].1 } else { items[items.len() - 1].1 };
            o.tree = Some((items, (lo, hi), span(t), puncts));
        }
        (_, None) => {
            let items: Vec<S2> = if f == Form::Quote { vec![] } else { (0..k - 1).filter(item).map(|j| t[j]).collect() };
            o.tree = Some((items, span(&t[..k - 1]), span(t), 0));
            if f == Form::Quote {
                o.quote = Some(i.text[t[0].0..t[k - 2].1].to_string());
            }
            if f == Form::Marks {
                o.sem = (0..k).map(|j| (v[j].starts_with('w'), v[j] == ";")).collect();
            }
        }
        // the rest stops at the wrong token
        (_, Some(a)) => {
            o.errs = vec![(t[a], "expecting")];
            o.toks.truncate(a);
            o.sem.truncate(a);
            o.left = i.text.len() - t[a].0;
            // what lies behind the next token has not been read
            let next = t[a].0;
            o.cmts.retain(|c| c.0 < next);
            o.junk.retain(|c| c.0 < next);
            return (o, true);
        }
    }
    (o, false)
}

fn differ(prop: &str, f: Form, g: &Out, w: &Out, stopped: bool, end: usize) -> Option<String> {
    let say = |what: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug| {
        let cut = |s: String| if s.len() > 300 { format!("{}...", s.chars().take(300).collect::<String>()) } else { s };
        Some(format!("{what} {}, should be {}", cut(format!("{a:?}")), cut(format!("{b:?}"))))
    };
    let good = w.errs.is_empty();
    let items = |o: &Out| o.tree.as_ref().map(|t| (t.0.clone(), t.3));
    match prop {
        "P07" if good => {
            if items(g) != items(w) {
                return say("items", &items(g), &items(w));
            }
            if !g.errs.is_empty() || g.left != 0 {
                return say("errors and bytes left", &(&g.errs, g.left), &(0, 0));
            }
        }
        "P08" if !good => {
            let lo = |o: &Out| o.errs.iter().map(|e| e.0 .0).min();
            if lo(g) != lo(w) {
                return say("the first error is at", &lo(g), &lo(w));
            }
        }
        "P09" => {
            if (stopped || f == Form::Nest) && !good {
                // what is recorded is a beginning of the tokens
                if g.tree.is_none() && g.errs.is_empty() {
                    return Some("no tree and no error".into());
                }
            }
            if g.toks != w.toks {
                return say("recorded tokens", &(g.toks.len(), &g.toks), &(w.toks.len(), &w.toks));
            }
            if g.cmts != w.cmts {
                return say("extracted", &(g.cmts.len(), &g.cmts), &(w.cmts.len(), &w.cmts));
            }
            if g.junk != w.junk {
                return say("invalid text", &(g.junk.len(), &g.junk), &(w.junk.len(), &w.junk));
            }
            if g.left != w.left {
                return say("bytes left", &g.left, &w.left);
            }
            if g.errs.iter().any(|e| e.0 .0 > e.0 .1 || e.0 .1 > end) {
                return say("errors beyond the input", &g.errs, &end);
            }
        }
        "P10" if matches!(f, Form::Split | Form::Punct) => {
            if items(g) != items(w) {
                return say("items and delimiters", &items(g), &items(w));
            }
            // an error covers what is skipped
            if g.errs.len() != w.errs.len() || g.errs.iter().zip(&w.errs).any(|(g, w)| g.0 .0 != w.0 .0 || g.0 .1 < w.0 .1) {
                return say("errors", &g.errs, &w.errs);
            }
        }
        "P11" if matches!(f, Form::Vec | Form::Deque | Form::Loop | Form::Recover) => {
            if items(g) != items(w) {
                return say("items", &items(g), &items(w));
            }
            if matches!(f, Form::Loop | Form::Recover) && g.errs != w.errs {
                return say("errors", &g.errs, &w.errs);
            }
        }
        "P13" if good => {
            let s = |o: &Out| o.tree.as_ref().map(|t| (t.1, t.2));
            if s(g) != s(w) {
                return say("spans of the list and the tree", &s(g), &s(w));
            }
            if g.quote != w.quote {
                return say("quoted text", &g.quote, &w.quote);
            }
        }
        "P14" if good && f == Form::Marks => {
            if let Some(j) = (0..w.sem.len()).find(|j| g.sem.get(*j) != Some(&w.sem[*j])) {
                return say(&format!("token {j} carries (Mark, Other)"), &g.sem.get(j), &w.sem[j]);
            }
        }
        "P21" if f == Form::Calls => {
            if g != w {
                return say("outcome", &(&g.tree, &g.errs, g.left), &(&w.tree, &w.errs, w.left));
            }
        }
        _ => {}
    }
    None
}

/// numbers of items
fn sizes(thorough: bool) -> Vec<usize> {
    let mut v = vec![2, 9, 17, 33, 64, 65, 127, 129, 255, 256, 257, 300, 1000, 4097];
    if thorough {
        v.extend([512, 1023, 1024, 1025, 2048, 10_001, 32_769]);
    }
    v.extend([65_535, 65_537]);
    v
}

fn explore(prop: &'static str, f: Form, n: usize, ctx: &mut Ctx) {
    if f == Form::Nest && n > 4097 {
        return;
    }
    let mut bad = vec![];
    let mut at: Vec<Option<usize>> = vec![None];
    if f != Form::Calls {
        for a in [0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 65_534, 65_535, 65_536, n / 2, n - 2, n - 1] {
            if a < n && !at.contains(&Some(a)) {
                at.push(Some(a));
            }
        }
        if f == Form::Recover {
            at.truncate(2);
        }
    }
    for b in at {
        if n > 5000 && b.is_some_and(|b| b > 2 && b < 60_000) {
            continue;
        }
        for gap in GAPS {
            let (v, wrong) = words(f, n, b);
            let k = v.len();
            let places: Vec<(usize, usize)> = match gap {
                Gap::Far => vec![(0, 300), (0, 65_600), (k / 2, 256), (k - 1, 70_000)],
                Gap::Fat => vec![(0, 256), (k / 2 - k / 2 % 2, 300), (0, 66_000)],
                _ => vec![(0, 0)],
            };
            for (p, much) in places {
                if n > 5000 && much > 1000 || n > 70_000 && gap != Gap::Plain {
                    continue;
                }
                let input = render(&v, gap, p, much);
                // a loop of only invalid words has no items
                let (w, stopped) = want(f, n, &v, wrong, &input);
                ctx.count("states", 1);
                ctx.count("transitions", k as u64);
                ctx.count("traces", 1);
                let g = match ctx.sut(|| real(f, n, &input.text)) {
                    None => Err(ctx.panic_text()),
                    Some(g) => g,
                };
                let e = match &g {
                    Err(e) => Some(e.clone()),
                    Ok(g) => differ(prop, f, g, &w, stopped, input.text.len()),
                };
                if let Some(e) = e {
                    bad.push(format!("{f:?} of {n} items, {gap:?} {much} at token {p}, wrong item {b:?}: {e}"));
                }
                if bad.len() > 3 {
                    break;
                }
            }
        }
    }
    ctx.count("grammars", 1);
    if !bad.is_empty() {
        bad.truncate(4);
        ctx.fail(format!("long|{}", bad[0]), bad.join("\n"));
    }
}

/// Lists with a fault at every step-th item (0: at every item but the first and the last)
fn faulty(prop: &'static str, f: Form, n: usize, ctx: &mut Ctx) {
    let mut bad = vec![];
    for step in [0, 2, 3, 5] {
        let wrong = |i: usize| i > 0 && i + 1 < n && (step == 0 || i % step == step - 1);
        let delim = f != Form::Loop;
        let mut v = vec![];
        let mut at = vec![];
        for i in 0..n {
            if i > 0 && delim {
                v.push(",");
            }
            if wrong(i) {
                at.push(v.len());
                v.push("+");
            } else {
                v.push(["w", "wa", "wab"][i % 3]);
            }
        }
        if delim {
            v.push(";");
        }
        for gap in [Gap::Plain, Gap::Comments, Gap::Invalid] {
            let input = render(&v, gap, 0, 0);
            let t = &input.toks;
            let (mut w, _) = want(f, n, &v, None, &input);
            let items: Vec<S2> = (0..v.len()).filter(|j| v[*j].starts_with('w')).map(|j| t[j]).collect();
            let span = (items[0].0, items[items.len() - 1].1);
            let puncts = match f {
                Form::Split => n - 1 - at.len(),
                Form::Punct => n - 1,
                _ => 0,
            };
            w.tree = Some((items, span, (span.0, t[t.len() - 1].1), puncts));
            w.errs.clear();
            for (k, a) in at.iter().enumerate() {
                if !delim && k > 0 && at[k - 1] + 1 == *a {
                    w.errs.last_mut().unwrap().0 .1 = t[*a].1;
                } else {
                    w.errs.push((t[*a], if delim { "expecting" } else { "tokens" }));
                }
            }
            ctx.count("states", 1);
            ctx.count("transitions", v.len() as u64);
            ctx.count("traces", 1);
            let e = match ctx.sut(|| real(f, n, &input.text)) {
                None => Some(ctx.panic_text()),
                Some(Err(e)) => Some(e),
                Some(Ok(g)) => differ(prop, f, &g, &w, false, input.text.len()),
            };
            if let Some(e) = e {
                bad.push(format!("{f:?} of {n} items, {gap:?}, faults with step {step}: {e}"));
            }
        }
    }
    if !bad.is_empty() {
        bad.truncate(4);
        ctx.fail(format!("long|{}", bad[0]), bad.join("\n"));
    }
}

pub fn jobs(prop: &'static str, thorough: bool) -> Vec<Job> {
    let of: Vec<Form> = FORMS
        .into_iter()
        .filter(|f| match prop {
            "P07" | "P08" | "P09" | "P13" => true,
            "P10" => matches!(f, Form::Split | Form::Punct),
            "P11" => matches!(f, Form::Vec | Form::Deque | Form::Loop | Form::Recover),
            "P14" => *f == Form::Marks,
            "P21" => *f == Form::Calls,
            _ => false,
        })
        .collect();
    let s = sizes(thorough);
    let many: Vec<Job> = of
        .iter()
        .filter(|f| matches!(f, Form::Loop | Form::Split | Form::Punct) && prop != "P07" && prop != "P13")
        .map(|f| {
            let f = *f;
            let s: Vec<usize> = s.iter().copied().filter(|n| *n > 2).collect();
            let s2 = s.clone();
            Job::new(format!("faults-{f:?}"), s.len() as u64, move |i, c| faulty(prop, f, s[i as usize], c), move |i, _| format!("{f:?} of {} items with many faults", s2[i as usize]))
        })
        .collect();
    of.into_iter()
        .map(|f| {
            let s = s.clone();
            let s2 = s.clone();
            Job::new(format!("long-{f:?}"), s.len() as u64, move |i, c| explore(prop, f, s[i as usize], c), move |i, _| format!("{f:?} of {} items", s2[i as usize]))
        })
        .chain(many)
        .collect()
}
