//! Terminals that are parsed on their own (`terminal_parse`): every sequence of such calls on every short
//! input.
use mc::{Ctx, Job};
use teleparse::parser::{Parser, Root};
use teleparse::prelude::*;
use teleparse::ToSpan;
use teleparse::syntax::{ErrorKind, Production};

pub mod y {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(" "), terminal_parse)]
    pub enum Y {
        #[teleparse(regex("[a-z]+"), terminal(Id, KwA = "a", KwB = "b"))]
        W,
        #[teleparse(terminal(Plus = "+", Semi = ";"))]
        P,
        #[teleparse(regex("#"))]
        Cmt,
    }
}
use y::*;
const CHUNKS: [&str; 7] = ["a", "ab", "b", "+", ";", "#", "@"];
const OPS: [(&str, Option<&str>, bool); 5] = [("Id", None, true), ("KwA", Some("a"), true), ("KwB", Some("b"), true), ("Plus", Some("+"), false), ("Semi", Some(";"), false)];

fn input(mut i: u64) -> (String, Vec<(usize, usize)>) {
    let k = CHUNKS.len() as u64;
    let (mut n, mut len) = (1, 0);
    while i >= n {
        i -= n;
        n *= k;
        len += 1;
    }
    let mut s = String::new();
    let mut toks = vec![];
    for _ in 0..len {
        let c = CHUNKS[(i % k) as usize];
        i /= k;
        if !matches!(c, "#" | "@") {
            toks.push((s.len(), s.len() + c.len()));
        }
        s.push_str(c);
        s.push(' ');
    }
    (s, toks)
}
fn inputs(len: u32) -> u64 {
    (0..=len).map(|l| (CHUNKS.len() as u64).pow(l)).sum()
}

type S2 = (usize, usize);
fn call<R: Root + ToSpan>(p: &mut Parser<'_, Y>, first: Option<&str>) -> Result<Option<S2>, String>
where
    R::Prod: Production<L = Y>,
{
    let t = match first {
        // the other entry point makes a parser of its own
        Some(src) => R::parse(src).map_err(|e| format!("{e:?}"))?,
        None => p.parse::<R>().map_err(|e| format!("{e}"))?,
    };
    Ok(t.map(|t| (t.lo(), t.hi())))
}
fn real(op: usize, p: &mut Parser<'_, Y>, first: Option<&str>) -> Result<Option<S2>, String> {
    match op {
        0 => call::<Id>(p, first),
        1 => call::<KwA>(p, first),
        2 => call::<KwB>(p, first),
        3 => call::<Plus>(p, first),
        _ => call::<Semi>(p, first),
    }
}

fn case(prop: &str, i: u64, depth: u32, ctx: &mut Ctx) {
    let (src, toks) = input(i);
    for seq in 0..(OPS.len() as u64).pow(depth) {
        ctx.sub(seq);
        let ops: Vec<usize> = (0..depth).map(|k| (seq / (OPS.len() as u64).pow(k)) as usize % OPS.len()).collect();
        let got = ctx.sut(|| -> Result<Vec<String>, String> {
            let mut bad = vec![];
            let mut p = Parser::<Y>::new(&src).map_err(|e| e.to_string())?;
            let mut at = 0;
            let mut errs: Vec<S2> = vec![];
            for (k, op) in ops.iter().enumerate() {
                let (name, lit, word) = OPS[*op];
                let t = toks.get(at).copied();
                let text = t.map(|t| &src[t.0..t.1]);
                let last = if at == 0 { 0 } else { toks[at - 1].1 };
                let fits = text.is_some_and(|x| lit.map_or(word && x.chars().all(|c| c.is_ascii_lowercase()), |l| l == x));
                let want = if fits {
                    at += 1;
                    t
                } else {
                    errs.push(t.unwrap_or((src.len(), src.len())));
                    // a literal is filled in at the end of the input
                    (lit.is_some() && t.is_none()).then_some((last, last))
                };
                let r = real(*op, &mut p, None)?;
                let filled = !fits && want.is_some();
                let of = match prop {
                    "P12" => filled || (!fits && lit.is_some()),
                    "P07" => fits || r == t,
                    "P21" => true,
                    _ => false,
                };
                if of && r != want {
                    bad.push(format!("call {} ({name}) gives {r:?}, not {want:?}", k + 1));
                }
                if k == 0 && of {
                    let r = real(*op, &mut p, Some(&src))?;
                    if r != want {
                        bad.push(format!("{name}::parse gives {r:?}, not {want:?}"));
                    }
                }
            }
            let e: Vec<S2> = p.info().errors.iter().filter(|e| !matches!(e.data, ErrorKind::UnexpectedCharacters)).map(|e| (e.span.lo, e.span.hi)).collect();
            match prop {
                "P08" if e.first().map(|x| x.0) != errs.first().map(|x| x.0) => bad.push(format!("first error {:?}, should be {:?}", e.first(), errs.first())),
                "P21" => {
                    if e.iter().map(|x| x.0).ne(errs.iter().map(|x| x.0)) {
                        bad.push(format!("errors {e:?}, should be {errs:?}"));
                    }
                    let n = p.info().tokens.as_slice().iter().map(|t| (t.span.lo, t.span.hi)).collect::<Vec<_>>();
                    if n != toks[..at] {
                        bad.push(format!("tokens consumed {n:?}, should be {:?}", &toks[..at]));
                    }
                    let left = p.remaining();
                    let rest = &src[toks.get(at).map_or(src.len(), |t| t.0)..];
                    if left != rest {
                        bad.push(format!("{left:?} remains, should be {rest:?}"));
                    }
                }
                _ => {}
            }
            Ok(bad)
        });
        ctx.count("traces", 1);
        ctx.count("states", depth as u64 + 1);
        ctx.count("transitions", depth as u64);
        let bad = match got {
            Some(Ok(b)) => b,
            Some(Err(e)) => vec![e],
            None => vec![ctx.panic_text()],
        };
        if !bad.is_empty() {
            let names: Vec<_> = ops.iter().map(|o| OPS[*o].0).collect();
            ctx.fail(format!("terminals|{src:?}|{}", names.join(",")), format!("input {src:?}, parsing {}\n{}", names.join(", then "), bad.join("\n")));
            return;
        }
    }
}

pub fn jobs(prop: &'static str, thorough: bool) -> Vec<Job> {
    if !["P07", "P08", "P12", "P21"].contains(&prop) {
        return vec![];
    }
    let (len, depth) = if thorough { (6, 4) } else { (4, 3) };
    vec![Job::new("terminals", inputs(len), move |i, c| case(prop, i, depth, c), |i, s| format!("input {:?}, calls {s}", input(i).0))]
}
