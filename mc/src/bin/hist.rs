//! HIST (P18): every sequence of token-stream calls up to a depth, on every input of a
//! bounded family, against a cursor model.
use mc::{Check, Ctx, Job};
use teleparse::prelude::*;
use teleparse::syntax::{ErrorKind, FirstSet, FollowSet, Result as Syn};
use teleparse::{Parser, Span};

#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum H {
    #[teleparse(regex("kébké|ké"), terminal(Word, Wk = "ké"))]
    W,
    #[teleparse(terminal(Plus = "+"))]
    P,
    #[teleparse(regex("#[a-z]"))]
    C,
    S1,
    S2,
}

#[derive_syntax]
#[teleparse(root)]
#[derive(Debug)]
pub struct R(Word, Plus);

const CH: [&str; 7] = ["ké", "kébké", "+", "#x", "!", "¿", " "];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Tk {
    lo: usize,
    hi: usize,
    c: usize,
}
impl Tk {
    fn ty(&self) -> H {
        if self.c < 2 {
            H::W
        } else {
            H::P
        }
    }
}
/// What the model says about an input
struct Inp {
    src: String,
    /// Each grammar token, with the number of invalid runs and extracted tokens before it
    toks: Vec<(Tk, usize, usize)>,
    invalid: Vec<(usize, usize)>,
    extracted: Vec<(usize, usize)>,
}
fn input(cs: &[usize]) -> Inp {
    let mut r = Inp { src: String::new(), toks: vec![], invalid: vec![], extracted: vec![] };
    let mut run: Option<(usize, usize)> = None;
    for &c in cs {
        let lo = r.src.len();
        r.src.push_str(CH[c]);
        let hi = r.src.len();
        match c {
            4 | 5 => run = Some((run.map_or(lo, |x| x.0), hi)),
            6 => {}
            _ => {
                r.invalid.extend(run.take());
                if c == 3 {
                    r.extracted.push((lo, hi));
                } else {
                    r.toks.push((Tk { lo, hi, c }, r.invalid.len(), r.extracted.len()));
                }
            }
        }
    }
    r.invalid.extend(run);
    r
}
fn nth_input(mut i: u64) -> Vec<usize> {
    let mut len = 0;
    let mut n = 1;
    while i >= n {
        i -= n;
        n *= 7;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let d = i % 7;
            i /= 7;
            d as usize
        })
        .collect()
}
fn inputs(max: u32) -> u64 {
    (0..=max).map(|k| 7u64.pow(k)).sum()
}

const OPS: [&str; 17] = [
    "peek_token", "peek_token_src", "consume_token", "parse_token(W)", "parse_token(P)", "parse_token_lit(W,ké,{})",
    "parse_token_lit(W,ké,{end})", "parse_token_lit(P,+,{W})", "parse_token_lit(W,ké,{P, kébké})", "remaining", "current_span",
    "empty_span", "unexpected_eof", "expecting", "apply S1 to everything", "apply S2 to the last token", "parse::<Word Plus>",
];
const NOPS: u64 = OPS.len() as u64;

#[derive(Clone, PartialEq, Debug)]
enum Er {
    Exp(usize, usize, Vec<(bool, Option<&'static str>)>),
    Eof(usize, usize),
}
#[derive(Clone, PartialEq, Debug)]
enum Val {
    Tok(Option<(usize, usize, H)>),
    Src(Option<(H, String)>),
    Ok(usize, usize, H),
    Rec(usize, usize, H, Vec<Er>),
    Panic(Vec<Er>),
    Text(String),
    Span(usize, usize),
    Err(Er),
    Unit,
    Tree(Option<(usize, usize)>),
}
fn er(e: &teleparse::syntax::Error<H>) -> Er {
    let (lo, hi) = (e.span.lo, e.span.hi);
    match &e.data {
        ErrorKind::UnexpectedEof => Er::Eof(lo, hi),
        ErrorKind::Expecting(s) => {
            // what the set says, in terms of the probes of this lexicon
            let mut v = vec![];
            for w in [true, false] {
                for l in [None, Some("ké"), Some("+"), Some("kébké")] {
                    if *s == FirstSet::one(if w { H::W } else { H::P }, l) {
                        v.push((w, l));
                    }
                }
            }
            Er::Exp(lo, hi, v)
        }
        _ => Er::Eof(usize::MAX, usize::MAX),
    }
}
fn syn(r: Syn<Token<H>, H>) -> Val {
    match r {
        Syn::Success(t) => Val::Ok(t.span.lo, t.span.hi, t.ty),
        Syn::Recovered(t, e) => Val::Rec(t.span.lo, t.span.hi, t.ty, e.iter().map(er).collect()),
        Syn::Panic(e) => Val::Panic(e.iter().map(er).collect()),
    }
}

struct Follow {
    none: FollowSet<H>,
    eof: FollowSet<H>,
    w: FollowSet<H>,
    pe: FollowSet<H>,
}
impl Follow {
    fn new() -> Self {
        let mut f = Follow { none: FollowSet::new(), eof: FollowSet::new(), w: FollowSet::new(), pe: FollowSet::new() };
        f.eof.insert_eof();
        f.w.insert(H::W, None);
        f.pe.insert(H::P, None);
        f.pe.insert(H::W, Some("kébké"));
        f
    }
}

fn real(p: &mut Parser<'_, H>, op: usize, f: &Follow) -> Val {
    let tk = |t: Option<Token<H>>| Val::Tok(t.map(|t| (t.span.lo, t.span.hi, t.ty)));
    match op {
        0 => tk(p.peek_token()),
        1 => Val::Src(p.peek_token_src().map(|t| (t.ty, t.src.to_string()))),
        2 => tk(p.consume_token()),
        3 => syn(p.parse_token(H::W)),
        4 => syn(p.parse_token(H::P)),
        5 => syn(p.parse_token_lit(H::W, "ké", &f.none)),
        6 => syn(p.parse_token_lit(H::W, "ké", &f.eof)),
        7 => syn(p.parse_token_lit(H::P, "+", &f.w)),
        8 => syn(p.parse_token_lit(H::W, "ké", &f.pe)),
        9 => Val::Text(p.remaining().to_string()),
        10 => {
            let s = p.current_span();
            Val::Span(s.lo, s.hi)
        }
        11 => {
            let s = p.empty_span();
            Val::Span(s.lo, s.hi)
        }
        12 => Val::Err(er(&p.unexpected_eof())),
        13 => Val::Err(er(&p.expecting(FirstSet::one(H::P, None)))),
        14 => {
            let n = p.info().source.len();
            p.apply_semantic(&Span::new(0, n), teleparse::token_set!(H{S1}));
            Val::Unit
        }
        15 => {
            let s = p.info().tokens.last().map(|t| t.span).unwrap_or(Span::new(0, 0));
            p.apply_semantic(&s, teleparse::token_set!(H{S2}));
            Val::Unit
        }
        _ => match p.parse::<R>() {
            Ok(t) => Val::Tree(t.map(|t| (t.span().lo, t.span().hi))),
            Err(_) => Val::Text("grammar rejected".into()),
        },
    }
}

#[derive(Clone, Hash, PartialEq, Eq)]
struct Model {
    used: usize,
    looked: bool,
    sem: Vec<(bool, bool)>,
    errs: usize,
}
struct Run<'a> {
    inp: &'a Inp,
    m: Model,
    errs: Vec<Er>,
}
impl Run<'_> {
    fn next(&mut self) -> Option<Tk> {
        self.m.looked = true;
        self.inp.toks.get(self.m.used).map(|t| t.0)
    }
    fn cur(&mut self) -> (usize, usize) {
        let n = self.inp.src.len();
        self.next().map_or((n, n), |t| (t.lo, t.hi))
    }
    fn take(&mut self) -> Option<Tk> {
        let t = self.next()?;
        self.m.used += 1;
        self.m.looked = false;
        self.m.sem.push((false, false));
        Some(t)
    }
    fn empty(&self) -> (usize, usize) {
        let h = if self.m.used == 0 { 0 } else { self.inp.toks[self.m.used - 1].0.hi };
        (h, h)
    }
    fn token(&mut self, w: bool) -> Val {
        let c = self.cur();
        match self.next() {
            Some(t) if (t.c < 2) == w => {
                self.take();
                Val::Ok(t.lo, t.hi, t.ty())
            }
            _ => Val::Panic(vec![Er::Exp(c.0, c.1, vec![(w, None)])]),
        }
    }
    fn lit(&mut self, ty: H, chunk: usize, follow: &dyn Fn(usize) -> bool, eof: bool) -> Val {
        let c = self.cur();
        let e = Er::Exp(c.0, c.1, vec![(ty == H::W, Some(CH[chunk]))]);
        let fill = |s: &Self, e: Er| {
            let p = s.empty();
            Val::Rec(p.0, p.1, ty, vec![e])
        };
        match self.next() {
            None if eof => fill(self, e),
            None => Val::Panic(vec![Er::Eof(c.0, c.1)]),
            Some(t) if t.c == chunk => {
                self.take();
                Val::Ok(t.lo, t.hi, ty)
            }
            Some(t) if follow(t.c) => fill(self, e),
            Some(_) => Val::Panic(vec![e]),
        }
    }
    fn op(&mut self, op: usize) -> Val {
        let tk = |t: Option<Tk>| Val::Tok(t.map(|t| (t.lo, t.hi, t.ty())));
        match op {
            0 => tk(self.next()),
            1 => Val::Src(self.next().map(|t| (t.ty(), CH[t.c].to_string()))),
            2 => tk(self.take()),
            3 => self.token(true),
            4 => self.token(false),
            5 => self.lit(H::W, 0, &|_| false, false),
            6 => self.lit(H::W, 0, &|_| false, true),
            7 => self.lit(H::P, 2, &|c| c < 2, false),
            8 => self.lit(H::W, 0, &|c| c == 2 || c == 1, false),
            9 => {
                let c = self.cur();
                Val::Text(self.inp.src[c.0..].to_string())
            }
            10 => {
                let c = self.cur();
                Val::Span(c.0, c.1)
            }
            11 => {
                let c = self.empty();
                Val::Span(c.0, c.1)
            }
            12 => {
                let c = self.cur();
                Val::Err(Er::Eof(c.0, c.1))
            }
            13 => {
                let c = self.cur();
                Val::Err(Er::Exp(c.0, c.1, vec![(false, None)]))
            }
            14 => {
                self.m.sem.iter_mut().for_each(|s| s.0 = true);
                Val::Unit
            }
            15 => {
                if let Some(s) = self.m.sem.last_mut() {
                    s.1 = true
                }
                Val::Unit
            }
            _ => {
                let lo = self.cur().0;
                match self.token(true) {
                    Val::Panic(e) => {
                        self.errs.extend(e);
                        self.m.errs += 1;
                        return Val::Tree(None);
                    }
                    _ => {}
                }
                // the "+" of R may be filled in at the end of the input
                match self.lit(H::P, 2, &|_| false, true) {
                    Val::Ok(_, hi, _) => Val::Tree(Some((lo, hi))),
                    Val::Rec(_, hi, _, e) => {
                        self.errs.extend(e);
                        self.m.errs += 1;
                        Val::Tree(Some((lo, hi)))
                    }
                    Val::Panic(e) => {
                        self.errs.extend(e);
                        self.m.errs += 1;
                        Val::Tree(None)
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    fn records(&self, p: &Parser<'_, H>) -> Result<(), String> {
        let i = p.info();
        let got: Vec<_> = i.tokens.as_slice().iter().map(|c| (c.span.lo, c.span.hi, c.ty, c.semantic.contains(H::S1), c.semantic.contains(H::S2))).collect();
        let ok = got.len() == self.m.used
            && got.iter().zip(&self.inp.toks).zip(&self.m.sem).all(|((g, t), s)| g.0 == t.0.lo && g.1 == t.0.hi && g.2 == t.0.ty() && (g.3, g.4) == *s);
        if !ok {
            return Err(format!("recorded tokens {got:?}, should be the first {} tokens with semantics {:?}", self.m.used, self.m.sem));
        }
        // what was passed on the way to the last token looked at must have been reported, nothing
        // may be reported that is not there, and nothing twice
        let (need_i, need_x) = match (self.m.looked, self.m.used) {
            (true, n) if n == self.inp.toks.len() => (self.inp.invalid.len(), self.inp.extracted.len()),
            (true, n) => (self.inp.toks[n].1, self.inp.toks[n].2),
            (false, 0) => (0, 0),
            (false, n) => (self.inp.toks[n - 1].1, self.inp.toks[n - 1].2),
        };
        let inv: Vec<_> = i.invalid_source.iter().map(|s| (s.lo, s.hi)).collect();
        if inv.len() < need_i || !self.inp.invalid.starts_with(&inv) {
            return Err(format!("invalid text reported: {inv:?}, should be the first {need_i} or more of {:?}", self.inp.invalid));
        }
        let ex: Vec<_> = i.extracted_tokens.iter().map(|s| (s.span.lo, s.span.hi)).collect();
        if ex.len() < need_x || !self.inp.extracted.starts_with(&ex) || i.extracted_tokens.iter().any(|t| t.ty != H::C) {
            return Err(format!("extracted tokens: {ex:?}, should be the first {need_x} or more of {:?}", self.inp.extracted));
        }
        let uc: Vec<_> = i.errors.iter().filter(|e| e.data == ErrorKind::UnexpectedCharacters).map(|e| (e.span.lo, e.span.hi)).collect();
        if uc != inv {
            return Err(format!("errors for invalid text: {uc:?}, should be {inv:?}"));
        }
        let rest: Vec<_> = i.errors.iter().filter(|e| e.data != ErrorKind::UnexpectedCharacters).map(er).collect();
        if rest != self.errs {
            return Err(format!("errors of parse calls: {rest:?}, should be {:?}", self.errs));
        }
        if !i.invalid_tokens.is_empty() {
            return Err(format!("tokens given up: {:?}, should be none", i.invalid_tokens));
        }
        Ok(())
    }
}

/// Runs a sequence; the calls before `from` were compared by an earlier sequence with the
/// same beginning
fn exec(inp: &Inp, ops: &[usize], from: usize, f: &Follow, end: &mut dyn FnMut(&Model)) -> Result<(), String> {
    let mut p = Parser::<H>::new(&inp.src).map_err(|e| e.to_string())?;
    let mut r = Run { inp, m: Model { used: 0, looked: false, sem: vec![], errs: 0 }, errs: vec![] };
    for (i, &op) in ops.iter().enumerate() {
        let want = r.op(op);
        let got = real(&mut p, op, f);
        if i >= from {
            if got != want {
                return Err(format!("call {} ({}) returns {got:?}, should return {want:?}", i + 1, OPS[op]));
            }
            r.records(&p).map_err(|e| format!("after call {} ({}): {e}", i + 1, OPS[op]))?;
            end(&r.m);
        }
    }
    Ok(())
}

fn seqs(lead: usize, depth: usize, i: u64, ctx: &mut Ctx) {
    let inp = input(&nth_input(i));
    let f = Follow::new();
    let mut traces = 0u64;
    let mut trans = 0u64;
    let mut states = std::collections::HashSet::new();
    let mut ops = vec![2usize; lead];
    ops.extend(vec![0; depth]);
    let mut from = 0;
    loop {
        if traces & 255 == 0 {
            ctx.sub(traces);
        }
        traces += 1;
        let mut steps = 0u64;
        let r = ctx.sut(|| {
            exec(&inp, &ops, from, &f, &mut |m| {
                steps += 1;
                if !states.contains(m) {
                    states.insert(m.clone());
                }
            })
        });
        trans += steps;
        let bad = match r {
            Some(Ok(())) => None,
            Some(Err(e)) => Some(e),
            None => Some(ctx.panic_text()),
        };
        if let Some(e) = bad {
            let seq: Vec<_> = ops.iter().map(|o| OPS[*o]).collect();
            ctx.fail(format!("{:?}/{}", inp.src, seq.join("; ")), format!("input {:?}, calls: {}\n{e}", inp.src, seq.join("; ")));
            break;
        }
        // next sequence
        let mut k = ops.len();
        loop {
            if k == lead {
                break;
            }
            k -= 1;
            ops[k] += 1;
            if ops[k] < NOPS as usize {
                break;
            }
            ops[k] = 0;
            if k == lead {
                k = usize::MAX;
                break;
            }
        }
        if k == usize::MAX || depth == 0 {
            break;
        }
        from = k;
    }
    ctx.count("traces", traces);
    ctx.count("transitions", trans);
    for s in states {
        ctx.distinct("states", &(i, s));
    }
}

/// A cycle of calls, repeated to the end of an input that repeats as well
fn cycles(i: u64, long: usize, depth: usize, ctx: &mut Ctx) {
    let unit = nth_input(i);
    let f = Follow::new();
    let chunks: Vec<usize> = std::iter::repeat(unit.clone()).take(long).flatten().collect();
    let inp = input(&chunks);
    let n = NOPS as usize;
    let mut traces = 0u64;
    let mut trans = 0u64;
    for d in 1..=depth {
        for c in 0..n.pow(d as u32) {
            let cycle: Vec<usize> = (0..d).map(|k| c / n.pow(k as u32) % n).collect();
            ctx.sub(traces);
            traces += 1;
            let r = ctx.sut(|| -> Result<u64, String> {
                let mut p = Parser::<H>::new(&inp.src).map_err(|e| e.to_string())?;
                let mut r = Run { inp: &inp, m: Model { used: 0, looked: false, sem: vec![], errs: 0 }, errs: vec![] };
                let calls = 400.min(inp.toks.len() * d + 2 * d);
                for k in 0..calls {
                    let op = cycle[k % d];
                    let want = r.op(op);
                    let got = real(&mut p, op, &f);
                    if got != want {
                        return Err(format!("call {} ({}) returns {got:?}, should return {want:?}", k + 1, OPS[op]));
                    }
                    if k % 16 == 15 || k + 1 == calls {
                        r.records(&p).map_err(|e| format!("after call {} ({}): {e}", k + 1, OPS[op]))?;
                    }
                }
                Ok(calls as u64)
            });
            let bad = match r {
                Some(Ok(n)) => {
                    trans += n;
                    None
                }
                Some(Err(e)) => Some(e),
                None => Some(ctx.panic_text()),
            };
            if let Some(e) = bad {
                let seq: Vec<_> = cycle.iter().map(|o| OPS[*o]).collect();
                let one = input(&unit).src;
                ctx.fail(format!("{one:?} x {long}/{}", seq.join("; ")), format!("input {one:?} {long} times, calls again and again: {}\n{}", seq.join("; "), e.chars().take(2000).collect::<String>()));
                return;
            }
        }
    }
    ctx.count("traces", traces);
    ctx.count("transitions", trans);
}

fn build_check(prop: &str, thorough: bool) -> Option<Check> {
    if prop != "P18" {
        return None;
    }
    let mut jobs = vec![];
    let plan: &[(u32, usize, usize)] = if thorough { &[(4, 0, 4), (4, 1, 3), (5, 0, 3), (5, 2, 3), (5, 4, 2), (2, 0, 5)] } else { &[(3, 0, 4), (4, 0, 3), (4, 2, 3), (4, 3, 2), (5, 0, 2)] };
    for &(chunks, lead, depth) in plan {
        jobs.push(Job::new(
            format!("chunks{chunks}-lead{lead}-depth{depth}"),
            inputs(chunks),
            move |i, c| seqs(lead, depth, i, c),
            move |i, s| format!("input {:?}, {lead} x consume_token, then sequence {s} (or one of the next 255) of depth {depth}", input(&nth_input(i)).src),
        ));
    }
    for &(chunks, long, depth) in if thorough { &[(1, 400, 3), (2, 300, 2), (3, 90, 2)][..] } else { &[(1, 300, 2), (2, 150, 2)][..] } {
        jobs.push(Job::new(
            format!("cycles{chunks}-times{long}-depth{depth}"),
            inputs(chunks),
            move |i, c| cycles(i, long, depth, c),
            move |i, s| format!("input {:?} {long} times, cycle of calls {s}", input(&nth_input(i)).src),
        ));
    }
    Some(Check {
        prop: "P18",
        level: "model_checking",
        rule: "every input of up to 3-5 chunks (two words, one of them multi-byte, plus, extracted comment, two kinds of invalid text, space) times every sequence of 17 stream calls up to a depth, also after consuming some tokens, and every cycle of up to two (three) calls repeated over an input repeated 150-400 times; states: (input, cursor, looked ahead, semantics, errors) of the cursor model, transitions: calls compared with the model, traces: call sequences run on the real parser".into(),
        assumptions: vec!["longer histories behave as those explored".into(), "the lexer model of single-character chunks is trusted (P01 checks lexing itself)".into()],
        jobs,
        cap_s: if thorough { 840 } else { 400 },
        hang_s: 30,
        workers: 0,
    })
}

fn main() {
    mc::main(build_check)
}
