//! Token texts with spaces at the ends, of different case, with quotes and backslashes, and literals that
//! differ only in these: every string of up to four such characters before a terminator.
use mc::{Ctx, Job};
use std::str::FromStr;
use teleparse::parser::{Parser, Root};
use teleparse::prelude::*;
use teleparse::syntax::{ErrorKind, Production};

pub mod x {
    use teleparse::prelude::*;
    #[derive_lexicon]
    pub enum X {
        #[teleparse(regex("[ aA\u{e9}\"\\\\\t]+"), terminal(Any, L0 = "a", L1 = "A", L2 = " a", L3 = "a ", L4 = " ", L5 = "\u{e9}", L6 = "\"", L7 = "\\", L8 = "aa", L9 = "\"a\"", L10 = "\t"))]
        T,
        #[teleparse(terminal(End = ";"))]
        P,
        #[teleparse(regex("<[ a]*>"))]
        Aside,
    }
}
use x::*;
pub const LITS: [&str; 11] = ["a", "A", " a", "a ", " ", "\u{e9}", "\"", "\\", "aa", "\"a\"", "\t"];
const CHARS: [&str; 6] = [" ", "a", "A", "\u{e9}", "\"", "\\"];

#[derive_syntax]
pub enum Which { V0(L0), V1(L1), V2(L2), V3(L3), V4(L4), V5(L5), V6(L6), V7(L7), V8(L8), V9(L9), V10(L10) }
impl Which {
    fn which(&self) -> usize {
        match self {
            Self::V0(_) => 0, Self::V1(_) => 1, Self::V2(_) => 2, Self::V3(_) => 3, Self::V4(_) => 4, Self::V5(_) => 5,
            Self::V6(_) => 6, Self::V7(_) => 7, Self::V8(_) => 8, Self::V9(_) => 9, Self::V10(_) => 10,
        }
    }
}
#[derive_syntax]
#[teleparse(root)]
pub struct Choice(Which, End);
#[derive_syntax]
#[teleparse(root)]
pub struct Quoted(tp::String<Any>, End);
/// keeps or refuses what it is read from
#[derive(Debug, PartialEq, Clone)]
pub struct Kept(std::string::String);
impl FromStr for Kept {
    type Err = std::string::String;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        if s.contains('A') { Err(s.to_string()) } else { Ok(Kept(s.to_string())) }
    }
}
#[derive_syntax]
#[teleparse(root)]
pub struct Read(tp::Parse<Kept, Any>, End);
/// the literal first, or nothing
#[derive_syntax]
#[teleparse(root)]
pub struct Maybe(tp::Option<L2>, tp::Exists<End>);
/// a missing literal is filled in before a text that may follow
#[derive_syntax]
#[teleparse(root)]
pub struct Filled(End, L3, End);

type E = Option<((usize, usize), bool, String)>;
fn with<R: Root, A>(src: &str, f: impl Fn(&R) -> A) -> Result<(Option<A>, E, usize, usize), String>
where
    R::Prod: Production<L = X>,
{
    let mut p = Parser::<X>::new(src).map_err(|e| format!("{e:?}"))?;
    let t = p.parse::<R>().map_err(|e| format!("{e}"))?;
    let left = p.remaining().len();
    let e = p.info().errors.first().map(|e| ((e.span.lo, e.span.hi), matches!(e.data, ErrorKind::Expecting(_)), e.message(src)));
    Ok((t.as_ref().map(f), e, left, p.info().errors.len()))
}

fn text(mut i: u64) -> std::string::String {
    let k = CHARS.len() as u64;
    let mut n = 1;
    let mut len = 0;
    while i >= n {
        i -= n;
        n *= k;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let d = i % k;
            i /= k;
            CHARS[d as usize]
        })
        .collect()
}
fn texts(len: u32) -> u64 {
    (0..=len).map(|l| (CHARS.len() as u64).pow(l)).sum()
}

fn edge(prop: &str, i: u64, ctx: &mut Ctx) {
    let t = text(i);
    let mut bad: Vec<std::string::String> = vec![];
    let n = t.len();
    let src = format!("{t};");
    let got = ctx.sut(|| -> Result<_, std::string::String> {
        Ok((
            with::<Choice, _>(&src, |t| (t.0.which(), t.0.span(), t.span()))?,
            with::<Quoted, _>(&src, |t| (t.0.to_string(), t.0.span()))?,
            with::<Read, _>(&src, |t| ((*t.0).clone(), t.0.span()))?,
            with::<Maybe, _>(&src, |t| (t.0.is_some(), *t.1))?,
            with::<Filled, _>(&format!(";{src}"), |t| (t.1.span(), t.span()))?,
        ))
    });
    let (choice, quoted, read, maybe, filled) = match got {
        None => {
            let e = ctx.panic_text();
            ctx.fail(format!("{t:?}"), e);
            return;
        }
        Some(Err(e)) => {
            ctx.fail(format!("{t:?}"), e);
            return;
        }
        Some(Ok(x)) => x,
    };
    ctx.count("states", 5);
    ctx.count("transitions", 5);
    ctx.count("traces", 5);
    let lit = LITS.iter().position(|l| *l == t);
    let sp = Span::new(0, n);
    match prop {
        "P07" => {
            match lit {
                Some(l) if choice.0 != Some((l, sp, Span::new(0, n + 1))) || choice.1.is_some() || choice.2 != 0 => bad.push(format!("the literal {l} gives {choice:?}")),
                None if choice.1.is_none() => bad.push(format!("no literal gives {choice:?}")),
                _ => {}
            }
            let m = t == LITS[2];
            if n > 0 && (maybe.0 != Some((m, m)) || maybe.1.is_some() || maybe.2 != if m { 0 } else { n + 1 }) {
                bad.push(format!("an optional literal gives {maybe:?}"));
            }
        }
        "P08" if lit.is_none() => {
            if choice.1.as_ref().is_none_or(|e| e.0 .0 != 0) {
                bad.push(format!("no literal: the first error is {:?}", choice.1));
            }
        }
        "P12" => {
            // the third literal is there, or left out before the end, or another text is there
            let ok = match (t == LITS[3], n) {
                (true, _) => filled.0 == Some((Span::new(1, 1 + n), Span::new(0, n + 2))) && filled.1.is_none(),
                (_, 0) => filled.0 == Some((Span::new(1, 1), Span::new(0, 2))) && filled.3 == 1 && filled.1.as_ref().is_some_and(|e| e.0 == (1, 2) && e.2.contains(LITS[3])),
                _ => filled.0.is_none() && filled.1.as_ref().is_some_and(|e| e.0 == (1, 1 + n)),
            };
            if !ok {
                bad.push(format!("a literal between two terminators gives {filled:?}"));
            }
        }
        "P13" if n > 0 => {
            if quoted.0 != Some((t.clone(), sp)) {
                bad.push(format!("quoted as {:?}", quoted.0));
            }
            let w = if t.contains('A') { Err(t.clone()) } else { Ok(Kept(t.clone())) };
            if read.0 != Some((w, sp)) {
                bad.push(format!("read as {:?}", read.0));
            }
        }
        "P23" if lit.is_none() => {
            let Some((_, true, m)) = &choice.1 else {
                ctx.fail(format!("edge|{t:?}"), format!("input {src:?}: {:?}", choice.1));
                return;
            };
            for l in LITS {
                if !m.contains(l) {
                    bad.push(format!("the message {m:?} does not show the literal {l:?}"));
                }
            }
        }
        _ => {}
    }
    if !bad.is_empty() {
        ctx.fail(format!("edge|{t:?}"), format!("input {src:?}\n{}", bad.join("\n")));
    }
}

pub fn jobs(prop: &'static str, thorough: bool) -> Vec<Job> {
    if !["P07", "P08", "P12", "P13", "P23"].contains(&prop) {
        return vec![];
    }
    vec![Job::new("edges", texts(if thorough { 6 } else { 4 }), move |i, c| edge(prop, i, c), |i, _| format!("text {:?}", text(i)))]
}
