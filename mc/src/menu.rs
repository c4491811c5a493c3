//! Roots with many alternatives or many parts, on every input of up to three tokens over all of their
//! terminals (choices), and every input with one token left out, doubled or replaced (sequences).
use crate::menu_gen::*;
use mc::{Ctx, Job};
use std::collections::BTreeSet;
use teleparse::lex::TokenSrc;
use teleparse::parser::{Parser, Root};
use teleparse::prelude::*;
use teleparse::syntax::{ErrorKind, Production};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form { One, Opt, Vec, Nev, Split, Seq }

struct Got {
    /// the parts in order: (alternative, span) of choices, then the rest
    tree: Option<Vec<(usize, (usize, usize))>>,
    /// first error: span, named terminals, whether end of input, message
    err: Option<((usize, usize), Option<BTreeSet<usize>>, String)>,
    left: usize,
}

fn run<R: Root>(src: &str, parts: impl Fn(&R) -> Vec<(usize, (usize, usize))>) -> Result<Got, String>
where
    R::Prod: Production<L = M>,
{
    let mut p = Parser::<M>::new(src).map_err(|e| format!("{e:?}"))?;
    let t = p.parse::<R>().map_err(|e| format!("{e}"))?;
    let left = p.remaining().len();
    let err = p.info().errors.first().map(|e| {
        let names = match &e.data {
            ErrorKind::Expecting(s) => Some((0..ALL.len()).filter(|i| s.contains(Some(TokenSrc::new(ALL[*i].2, ALL[*i].1)))).collect()),
            _ => None,
        };
        ((e.span.lo, e.span.hi), names, e.message(src))
    });
    Ok(Got { tree: t.as_ref().map(parts), err, left })
}

fn sp(s: teleparse::Span) -> (usize, usize) {
    (s.lo, s.hi)
}

const SEMI: usize = ALL.len() - 2;
const COMMA: usize = ALL.len() - 1;

/// the terminals that may follow a viable prefix of a form, and whether it is complete
fn next(form: Form, sel: &[usize], pre: &[usize]) -> Option<BTreeSet<usize>> {
    let set: BTreeSet<usize> = sel.iter().copied().collect();
    let with = |c: usize| { let mut s = set.clone(); s.insert(c); s };
    let last = pre.last().copied();
    if last == Some(SEMI) && form != Form::Seq {
        return Some(BTreeSet::new());
    }
    Some(match form {
        Form::One => if pre.is_empty() { set } else { BTreeSet::new() },
        Form::Opt => if pre.is_empty() { with(SEMI) } else { [SEMI].into() },
        Form::Vec => with(SEMI),
        Form::Nev => if pre.is_empty() { set } else { with(SEMI) },
        Form::Split => match last {
            Some(l) if l != COMMA => [COMMA, SEMI].into(),
            _ => set,
        },
        Form::Seq => sel.get(pre.len()).copied().into_iter().collect(),
    })
}
fn complete(form: Form, sel: &[usize], w: &[usize]) -> bool {
    match form {
        Form::One => w.len() == 1,
        Form::Seq => w.len() == sel.len(),
        _ => w.last() == Some(&SEMI),
    }
}

fn judge(prop: &str, form: Form, sel: &[usize], w: &[usize], got: impl Fn(&str) -> Result<Got, String>, ctx: &mut Ctx) -> Option<String> {
    let mut src = String::new();
    let mut spans = vec![];
    for (i, c) in w.iter().enumerate() {
        if i > 0 {
            src.push(' ');
        }
        let lo = src.len();
        src.push_str(ALL[*c].1);
        spans.push((lo, src.len()));
    }
    // the longest viable prefix
    let mut v = 0;
    let mut stopped = false;
    while v < w.len() && !stopped {
        let n = next(form, sel, &w[..v])?;
        if n.contains(&w[v]) { v += 1 } else { stopped = true }
    }
    let sentence = v == w.len() && complete(form, sel, w);
    // extra text after a sentence is left for the next call
    let done = complete(form, sel, &w[..v]);
    ctx.count("states", 1);
    ctx.count("transitions", 1);
    ctx.count("traces", 1);
    let g = match ctx.sut(|| got(&src)) {
        None => return Some(format!("{form:?} of {} on {src:?}: {}", sel.len(), ctx.panic_text())),
        Some(Err(e)) => return Some(format!("{form:?} of {} on {src:?}: {e}", sel.len())),
        Some(Ok(g)) => g,
    };
    let here = format!("{form:?} of {} alternatives or parts {sel:?} on {src:?}", sel.len());
    match prop {
        "P07" if done => {
            let want: Vec<(usize, (usize, usize))> = w[..v]
                .iter()
                .zip(&spans)
                .map(|(c, s)| (if form == Form::Seq { 0 } else { sel.iter().position(|x| x == c).unwrap_or(usize::MAX) }, *s))
                .filter(|x| form == Form::Seq || x.0 != usize::MAX)
                .collect();
            if g.tree.as_ref() != Some(&want) {
                return Some(format!("{here}: tree {:?}, should be {want:?}", g.tree));
            }
            if g.err.is_some() {
                return Some(format!("{here}: error {:?}", g.err));
            }
            let left = if sentence { 0 } else { src.len() - spans[v].0 };
            if g.left != left {
                return Some(format!("{here}: {} bytes left, should be {left}", g.left));
            }
            None
        }
        "P08" if !done => {
            let at = spans.get(v).map(|s| s.0);
            match (&g.err, at) {
                (None, _) => Some(format!("{here}: no error")),
                (Some(e), Some(lo)) if e.0 .0 != lo => Some(format!("{here}: first error {e:?}, should be at {lo}")),
                (Some(e), None) if e.0 .0 < spans.last().map(|s| s.1).unwrap_or(0) => Some(format!("{here}: first error {e:?}, should be at the end")),
                _ => None,
            }
        }
        "P23" if !done => {
            let Some((_, names, msg)) = g.err else { return Some(format!("{here}: no error")) };
            let Some(names) = names else { return None };
            let may = next(form, sel, &w[..v])?;
            if !names.is_subset(&may) || names.is_empty() {
                return Some(format!("{here}: the error names {names:?}, possible is {may:?}"));
            }
            // everything the node that failed can begin with
            let all: BTreeSet<usize> = sel.iter().copied().collect();
            if form != Form::Seq && names.intersection(&all).next().is_some() && !all.is_subset(&names) && all.is_subset(&may) {
                return Some(format!("{here}: the error names {names:?}, only a part of what the choice can begin with"));
            }
            if may == all && names != may {
                return Some(format!("{here}: the error names {names:?}, should be {may:?}"));
            }
            let mut want: Vec<&str> = names.iter().map(|i| ALL[*i].0).collect();
            want.sort();
            let mut said: Vec<&str> = msg.strip_prefix("Expecting one of ").unwrap_or("").split(", ").collect();
            said.sort();
            (said != want).then(|| format!("{here}: the message is {msg:?}, the error is {names:?}"))
        }
        _ => None,
    }
}

fn explore(prop: &str, sel: &[usize], ctx: &mut Ctx, run: &dyn Fn(Form, &str) -> Result<Got, String>) {
    let mut bad = vec![];
    let every: Vec<usize> = (0..ALL.len()).collect();
    let ends = [sel[0], sel[sel.len() - 1], sel[sel.len() / 2]];
    let mut inputs: Vec<Vec<usize>> = vec![vec![]];
    inputs.extend(every.iter().map(|a| vec![*a]));
    for a in &every {
        inputs.push(vec![*a, SEMI]);
        inputs.push(vec![*a, *a, SEMI]);
        for e in ends {
            inputs.push(vec![e, *a]);
            inputs.push(vec![e, *a, SEMI]);
            inputs.push(vec![e, COMMA, *a]);
            inputs.push(vec![e, COMMA, *a, SEMI]);
        }
    }
    // all of them in one list
    inputs.push(sel.iter().copied().chain([SEMI]).collect());
    inputs.push(sel.iter().rev().copied().chain([SEMI]).collect());
    inputs.push(sel.iter().flat_map(|a| [COMMA, *a]).skip(1).chain([SEMI]).collect());
    inputs.sort();
    inputs.dedup();
    for form in [Form::One, Form::Opt, Form::Vec, Form::Nev, Form::Split] {
        for w in &inputs {
            bad.extend(judge(prop, form, sel, w, |s| run(form, s), ctx));
            if bad.len() > 3 {
                break;
            }
        }
    }
    let mut inputs = vec![sel.to_vec()];
    for j in 0..sel.len() {
        inputs.push(sel[..j].to_vec());
        let mut w = sel.to_vec();
        w.remove(j);
        inputs.push(w);
        let mut w = sel.to_vec();
        w.insert(j, sel[j]);
        inputs.push(w);
        for r in [SEMI, sel[(j + 1) % sel.len()], sel[0]] {
            let mut w = sel.to_vec();
            w[j] = r;
            inputs.push(w);
        }
    }
    for w in &inputs {
        bad.extend(judge(prop, Form::Seq, sel, w, |s| run(Form::Seq, s), ctx));
        if bad.len() > 6 {
            break;
        }
    }
    ctx.count("grammars", 6);
    if !bad.is_empty() {
        bad.truncate(5);
        ctx.fail(format!("menu|{}", bad[0]), bad.join("\n"));
    }
}

macro_rules! one_menu {
    ($m:ident, $ctx:expr, $prop:expr) => {{
        use crate::menu_gen::$m::*;
        explore($prop, &SEL, $ctx, &|f, s| {
            let of = |e: &E| { let (i, s) = e.which(); (i, sp(s)) };
            match f {
                Form::One => run::<One>(s, |t| { let (i, s) = t.which(); vec![(i, sp(s))] }),
                Form::Opt => run::<Opt>(s, |t| t.0.iter().map(of).collect()),
                Form::Vec => run::<$crate::menu_gen::$m::Vec>(s, |t| t.0.iter().map(of).collect()),
                Form::Nev => run::<Nev>(s, |t| t.0.iter().map(of).collect()),
                Form::Split => run::<Split>(s, |t| t.0.iter().map(of).collect()),
                Form::Seq => run::<Seq>(s, |t| t.parts().into_iter().map(|s| (0, sp(s))).collect()),
            }
        })
    }};
}

fn menu(prop: &str, i: u64, ctx: &mut Ctx) {
    crate::menus!(one_menu, i, ctx, prop)
}

pub fn jobs(prop: &'static str) -> Vec<Job> {
    if !["P07", "P08", "P23"].contains(&prop) {
        return vec![];
    }
    vec![Job::new("menus", MENUS, move |i, c| menu(prop, i, c), |i, _| format!("menu {i} of roots with many alternatives and parts"))]
}
