//! P26: the text a span stands for, through every accessor that gives it.
use mc::{Ctx, Job};
use teleparse::lex::TokenSrc;
use teleparse::parser::Info;
use teleparse::prelude::*;
use teleparse::syntax::{Error, ErrorKind, FirstSet, Result as Syn};
use teleparse::{Parser, ToSpan};

use super::T;

const PIECES: [&str; 4] = ["a", "é", "\n", "🦀"];

fn text(mut i: u64) -> String {
    // length by length, then as digits
    let mut n = 0;
    while i >= 4u64.pow(n) {
        i -= 4u64.pow(n);
        n += 1;
    }
    (0..n)
        .map(|_| {
            let p = PIECES[(i % 4) as usize];
            i /= 4;
            p
        })
        .collect()
}
fn total(max: u32) -> u64 {
    (0..=max).map(|n| 4u64.pow(n)).sum()
}

fn views(i: u64, ctx: &mut Ctx) {
    let t = text(i);
    let s = t.as_str();
    let mut at: Vec<usize> = (0..=s.len()).collect();
    at.extend([s.len() + 1, s.len() + 3, usize::MAX - 1, usize::MAX]);
    let legal = |p: usize| p >= s.len() || s.is_char_boundary(p);
    let mut bad: Vec<String> = vec![];
    let mut n = 0;
    for lo in &at {
        for hi in &at {
            let (lo, hi) = (*lo, *hi);
            if hi > lo && !(legal(lo) && legal(hi)) {
                continue; // no text: cuts a character
            }
            let want = if hi <= lo { "" } else { &s[lo.min(s.len())..hi.min(s.len())] };
            n += 1;
            if !want.is_empty() {
                ctx.distinct("nontrivial", &(s, lo, hi));
            }
            let got = ctx.sut(|| {
                let sp = Span::new(lo, hi);
                let mut v: Vec<(&'static str, String, bool)> = vec![];
                let mut add = |name: &'static str, x: &str| {
                    // part of the source, not a copy of it
                    let inside = x.is_empty() || (x.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize) == lo;
                    v.push((name, x.to_string(), inside));
                };
                add("Span::get", sp.get(s));
                add("get of a span from a range", Span::from(lo..hi).get(s));
                add("get of a span from a pair", Span::from((lo, hi)).get(s));
                add("get of the span of a span", (&&sp).span().get(s));
                let mut kinds_ok = true;
                let mut info = Info::<T>::new(s);
                for ty in [T::X, T::Y, T::S1, T::S2] {
                    for tok in [Token::new(sp, ty), Token::new(lo..hi, ty), Token::new((lo, hi), ty)] {
                        add("Token::src", tok.src(s));
                        let x = tok.to_src(s);
                        let y = info.to_src(&tok);
                        add("Token::to_src", x.src);
                        add("Info::to_src", y.src);
                        kinds_ok &= x.ty == ty && y.ty == ty && x == y && tok.ty == ty && tok.span == sp;
                        kinds_ok &= x == TokenSrc::new(ty, x.src) && x == TokenSrc::from((ty, x.src));
                        kinds_ok &= (tok.lo(), tok.hi(), tok.span()) == (lo, hi, sp);
                        info.tokens.push_unchecked(tok);
                    }
                }
                let mut whole = info.source == s && info.eof() == Span::new(s.len(), s.len());
                add("Info::get_src", info.get_src(sp));
                for t in info.tokens.as_slice() {
                    add("Info::to_src of a token it holds", info.to_src(t).src);
                }
                let p = Parser::<T>::new(s).unwrap();
                add("get_src of a parser", p.info().get_src(sp));
                whole &= p.info().source == s && p.info().eof() == Span::new(s.len(), s.len());
                let mut messages = vec![];
                for k in [ErrorKind::UnexpectedCharacters, ErrorKind::UnexpectedTokens, ErrorKind::Custom(format!("<{lo} {hi}>"))] {
                    let e = Error::<T>::new(sp, k.clone());
                    messages.push(e.message(s));
                    kinds_ok &= (e.lo(), e.hi(), e.span()) == (lo, hi, sp) && e == Error::new(lo..hi, k.clone()) && e == Error::new((lo, hi), k);
                }
                for k in [ErrorKind::UnexpectedEof, ErrorKind::Expecting(FirstSet::default()), ErrorKind::UnexpectedNoAdvanceInLoop] {
                    let e = Error::<T>::new(sp, k);
                    kinds_ok &= !e.message(s).is_empty() && e.message(s) == e.message("");
                }
                (v, messages, kinds_ok, whole)
            });
            let Some((v, messages, kinds_ok, whole)) = got else {
                bad.push(format!("{lo}..{hi}: {}", ctx.panic_text()));
                continue;
            };
            for (name, x, inside) in v {
                if x != want || !inside {
                    bad.push(format!("{lo}..{hi}: {name} is {x:?}, should be {want:?}"));
                }
            }
            for m in &messages[..2] {
                if !m.contains(want) || !m.ends_with(want) {
                    bad.push(format!("{lo}..{hi}: the message {m:?} does not show {want:?}"));
                }
            }
            if messages[2] != format!("<{lo} {hi}>") {
                bad.push(format!("{lo}..{hi}: the message of an error of the user is {:?}", messages[2]));
            }
            if !kinds_ok {
                bad.push(format!("{lo}..{hi}: a token or an error is not what it was made from"));
            }
            if !whole {
                bad.push("the source or its end is wrong".into());
            }
        }
    }
    ctx.count("evaluations", n);
    ctx.sample("texts", || format!("{s:?}: {n} spans"));
    if !bad.is_empty() {
        bad.truncate(4);
        ctx.fail(format!("text|{s:?}"), format!("source {s:?}\n{}", bad.join("\n")));
    }
}

/// Spans of references, tuples and nodes
fn spans(ctx: &mut Ctx) {
    const M: [(usize, usize); 4] = [(0, 0), (2, 5), (5, 3), (7, usize::MAX)];
    let sp = |i: usize| Span::new(M[i].0, M[i].1);
    let mut bad = vec![];
    let mut n = 0u64;
    let r = ctx.sut(|| {
        let mut is = |what: &str, x: &dyn Fn() -> (usize, usize, Span), lo: usize, hi: usize| {
            n += 1;
            let got = x();
            if got != (lo, hi, Span::new(lo, hi)) {
                bad.push(format!("{what} spans {got:?}, should be {lo}..{hi}"));
            }
        };
        fn of<X: ToSpan>(x: X) -> (usize, usize, Span) {
            let r = &x;
            assert!(r.lo() == x.lo() && r.hi() == x.hi() && r.span() == x.span(), "a reference spans something else");
            (x.lo(), x.hi(), x.span())
        }
        for a in 0..4 {
            is("a span", &|| of(sp(a)), M[a].0, M[a].1);
            is("a reference", &|| of(&sp(a)), M[a].0, M[a].1);
            is("a reference to a reference", &|| of(&&sp(a)), M[a].0, M[a].1);
            is("a box", &|| of(Box::new(Token::new(sp(a), T::X))), M[a].0, M[a].1);
            is("a node", &|| of(tp::Node::new(sp(a), 'x')), M[a].0, M[a].1);
            for b in 0..4 {
                is("a pair", &|| of((sp(a), sp(b))), M[a].0, M[b].1);
                is("a pair of token and reference", &|| of((Token::new(sp(a), T::Y), &sp(b))), M[a].0, M[b].1);
                is("a pair of pairs", &|| of(((sp(a), sp(3 - a)), (sp(3 - b), sp(b)))), M[a].0, M[b].1);
                for c in 0..4 {
                    is("a triple", &|| of((sp(a), sp(b), sp(c))), M[a].0, M[c].1);
                    for d in 0..4 {
                        is("four", &|| of((sp(a), sp(b), sp(c), sp(d))), M[a].0, M[d].1);
                        for e in 0..4 {
                            is("five", &|| of((sp(a), sp(b), sp(c), sp(d), sp(e))), M[a].0, M[e].1);
                        }
                    }
                }
            }
        }
        // nodes
        for a in 0..4 {
            for v in ["", "x", "yz"] {
                let mut x = tp::Node::new(M[a], v.to_string());
                let same = x.clone();
                let ok = *x == *v && x.len() == v.len() && x == tp::Node::new(sp(a), v.to_string()) && x == same && x.span == sp(a);
                let other = tp::Node::new(sp((a + 1) % 4), v.to_string());
                x.push('q');
                n += 1;
                if !(ok && x.span() == sp(a) && x.value == format!("{v}q") && x != same && other != same && x.into_inner() == format!("{v}q")) {
                    bad.push(format!("a node of {v:?} at {:?} is not what it was made from", M[a]));
                }
            }
        }
    });
    if r.is_none() {
        bad.push(ctx.panic_text());
    }
    ctx.count("evaluations", n);
    if !bad.is_empty() {
        bad.truncate(5);
        ctx.fail("spans", bad.join("\n"));
    }
}

/// The results a node parser gives: mapped and made from a value and errors
fn results(ctx: &mut Ctx) {
    let err = |i: usize| match i {
        0 => Error::<T>::new(1..2, ErrorKind::UnexpectedCharacters),
        1 => Error::new(1..2, ErrorKind::UnexpectedTokens),
        _ => Error::new(0..0, ErrorKind::Custom("c".into())),
    };
    let mut lists: Vec<Vec<Error<T>>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..4 {
        let to = lists.len();
        for i in from..to {
            for k in 0..3 {
                let mut l = lists[i].clone();
                l.push(err(k));
                lists.push(l);
            }
        }
        from = to;
    }
    let mut bad = vec![];
    for l in &lists {
        ctx.count("evaluations", 1);
        ctx.distinct("nontrivial", &format!("{l:?}"));
        let r = ctx.sut(|| {
            let calls = std::cell::Cell::new(0);
            let f = |x: i32| {
                calls.set(calls.get() + 1);
                format!("<{x}>")
            };
            let mut ok = match Syn::from((7, l.clone())) {
                Syn::Success(7) => l.is_empty(),
                Syn::Recovered(7, e) => !l.is_empty() && e == *l,
                _ => false,
            };
            ok &= match Syn::<i32, T>::Success(3).map(f) {
                Syn::Success(x) => x == "<3>" && calls.get() == 1,
                _ => false,
            };
            ok &= match Syn::Recovered(4, l.clone()).map(f) {
                Syn::Recovered(x, e) => x == "<4>" && e == *l && calls.get() == 2,
                _ => false,
            };
            ok &= match Syn::<i32, T>::Panic(l.clone()).map(f) {
                Syn::Panic(e) => e == *l && calls.get() == 2,
                _ => false,
            };
            ok
        });
        if r != Some(true) {
            bad.push(format!("a result with errors {l:?} is changed by map or From"));
        }
    }
    if !bad.is_empty() {
        bad.truncate(3);
        ctx.fail("results", bad.join("\n"));
    }
}

pub fn jobs(thorough: bool) -> Vec<Job> {
    let max = if thorough { 6 } else { 5 };
    vec![
        Job::new(format!("texts-{max}"), total(max), views, |i, _| format!("source {:?}", text(i))),
        Job::new("spans", 1, |_, c| spans(c), |_, _| "spans of references, tuples and nodes".into()),
        Job::new("results", 1, |_, c| results(c), |_, _| "results".into()),
    ]
}
