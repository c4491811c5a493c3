//! SETS: P15 token range queries, P16 token-type sets and maps, P17 terminal sets, P24 serialized values, P26 texts of spans.
#[path = "../lexs.rs"]
mod lexs;
#[path = "../texts.rs"]
mod texts;
use mc::{Check, Ctx, Job};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::rc::Rc;
use teleparse::lex::{Lexicon, Map, Set, TokenSrc, TokenVec};
use teleparse::prelude::*;
use teleparse::syntax::{Error, ErrorKind, FirstSet, FollowSet, JumpTable, LitSet, TerminalSet};

#[derive_lexicon]
#[derive(serde::Serialize)]
pub enum T {
    #[teleparse(regex("[a-z]+"), terminal(Id, La = "a", Lb = "b"))]
    X,
    #[teleparse(terminal(Pa = "+"))]
    Y,
    S1,
    S2,
}

/////////////////////////////////////////////////////////// P15

/// Layouts: tokens in a source of length n, as (lo, hi); enumerated as strings over
/// {gap, first byte of a token, later byte of a token}
fn layout(n: usize, mut i: u64) -> Option<Vec<(usize, usize)>> {
    let mut v: Vec<(usize, usize)> = vec![];
    for p in 0..n {
        match i % 3 {
            0 => {}
            1 => v.push((p, p + 1)),
            _ => match v.last_mut() {
                Some(l) if l.1 == p => l.1 = p + 1,
                _ => return None,
            },
        }
        i /= 3;
    }
    Some(v)
}

/// Layouts of k tokens: two widths and two gaps in turn
fn long_layout(k: usize, i: u64) -> Vec<(usize, usize)> {
    let bit = |j: u64| (i >> j & 1) as usize;
    let mut at = bit(4);
    (0..k)
        .map(|t| {
            let (w, g) = if t % 2 == 0 { (1 + bit(0), bit(1)) } else { (1 + bit(2), bit(3)) };
            let lo = at;
            at += w + g;
            (lo, lo + w)
        })
        .collect()
}

fn ranges(n: usize, i: u64, ctx: &mut Ctx) {
    let Some(lay) = layout(n, i) else { return };
    let k = lay.len();
    // every subset of the tokens
    let preds = (0..1u32 << k).map(|mask| (0..k).map(|j| mask >> j & 1 == 1).collect()).collect();
    ranges_of(n, lay, preds, ctx)
}

fn long_ranges(k: usize, i: u64, ctx: &mut Ctx) {
    let lay = long_layout(k, i);
    let n = lay[k - 1].1;
    // all, all but one, one
    let mut preds = vec![vec![true; k]];
    for one in 0..k {
        preds.push((0..k).map(|j| j != one).collect());
        preds.push((0..k).map(|j| j == one).collect());
    }
    ranges_of(n, lay, preds, ctx)
}

fn ranges_of(n: usize, lay: Vec<(usize, usize)>, preds: Vec<Vec<bool>>, ctx: &mut Ctx) {
    let k = lay.len();
    let mk = || {
        let mut v = TokenVec::<T>::new();
        for (j, (lo, hi)) in lay.iter().enumerate() {
            v.push_unchecked(Token::new(*lo..*hi, if j % 2 == 0 { T::X } else { T::Y }));
        }
        v
    };
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut bad: Vec<String> = vec![];
    let inside = |a: usize, b: usize| -> Vec<(usize, usize)> { lay.iter().copied().filter(|t| a <= t.0 && t.1 <= b).collect() };
    let over = |a: usize, b: usize| -> Vec<(usize, usize)> { lay.iter().copied().filter(|t| t.0.max(a) < t.1.min(b)).collect() };
    // the slices are contiguous runs, so the spans identify them
    fn sp(s: &teleparse::lex::TokenSlice<T>) -> Vec<(usize, usize)> {
        s.into_iter().map(|c| (c.span.lo, c.span.hi)).collect()
    }
    for a in 0..n + 3 {
        for b in 0..n + 3 {
            evals += 1;
            ctx.sub((a * 1000 + b) as u64);
            let wi = inside(a, b);
            let wo = over(a, b);
            if !wi.is_empty() || !wo.is_empty() {
                nontriv += 1;
            }
            let got = ctx.sut(|| {
                let v = mk();
                let mut m = mk();
                let i = sp(v.inside(a..b));
                let im = sp(m.inside_mut(a..b));
                let o = sp(v.overlap(a..b));
                let om = sp(m.overlap_mut(a..b));
                let at = v.at_span(a..b).map(|c| (c.span.lo, c.span.hi));
                let ib = v.inside_bounds(a..b).map(|(x, y)| (x, y, sp(teleparse::lex::TokenSlice::from_slice(&v.as_slice()[x..y]))));
                let ob = v.overlap_bounds(a..b).map(|(x, y)| (x, y, sp(teleparse::lex::TokenSlice::from_slice(&v.as_slice()[x..y]))));
                (i, im, o, om, at, ib, ob)
            });
            let Some((gi, gim, go, gom, at, ib, ob)) = got else {
                bad.push(format!("span {a}..{b}: {}", ctx.panic_text()));
                continue;
            };
            if gi != wi || gim != wi {
                bad.push(format!("inside({a}..{b}) is {gi:?}, mutable {gim:?}, should be {wi:?}"));
            }
            if go != wo || gom != wo {
                bad.push(format!("overlap({a}..{b}) is {go:?}, mutable {gom:?}, should be {wo:?}"));
            }
            let wat = if wi.len() == 1 { Some(wi[0]) } else { None };
            if at != wat {
                bad.push(format!("at_span({a}..{b}) is {at:?}, should be {wat:?}"));
            }
            for (name, got, want) in [("inside_bounds", ib, &wi), ("overlap_bounds", ob, &wo)] {
                let ok = match &got {
                    None => want.is_empty(),
                    Some(g) => !want.is_empty() && g.2 == *want,
                };
                if !ok {
                    bad.push(format!("{name}({a}..{b}) is {got:?}, should cover {want:?}"));
                }
            }
            // two applications, the second to everything inside a shifted span
            let c = (a + 1, b + 1);
            let got = ctx.sut(|| {
                let mut m = mk();
                m.inside_mut(a..b).apply_semantic(token_set!(T { S1 }));
                m.overlap_mut(c.0..c.1).apply_semantic(token_set!(T { S2 }));
                m.inside_mut(a..b).apply_semantic(token_set!(T { X }));
                let mut o = vec![];
                for x in &*m {
                    o.push((x.semantics().contains(T::S1), x.semantics().contains(T::S2), x.semantics().contains(T::X), x.semantics().contains(T::Y), x.ty, x.types().contains(x.ty)));
                }
                o
            });
            match got {
                None => bad.push(format!("apply_semantic on {a}..{b}: {}", ctx.panic_text())),
                Some(o) => {
                    for (j, t) in lay.iter().enumerate() {
                        let ty = if j % 2 == 0 { T::X } else { T::Y };
                        let w = (wi.contains(t), over(c.0, c.1).contains(t), wi.contains(t), false, ty, true);
                        if o[j] != w {
                            bad.push(format!("semantics of token {t:?} after S1 and X on inside {a}..{b}, S2 on overlap {c:?}: {:?}, should be {w:?}", o[j]));
                        }
                    }
                }
            }
        }
    }
    // slices of slices
    if n <= 4 {
        for a in 0..n + 2 {
            for b in 0..n + 2 {
                for c in 0..n + 2 {
                    for d in 0..n + 2 {
                        evals += 1;
                        let w: Vec<Vec<(usize, usize)>> = [inside(a, b), over(a, b)]
                            .iter()
                            .flat_map(|v| {
                                [
                                    v.iter().copied().filter(|t| c <= t.0 && t.1 <= d).collect::<Vec<_>>(),
                                    v.iter().copied().filter(|t| t.0.max(c) < t.1.min(d)).collect(),
                                ]
                            })
                            .collect();
                        let got = ctx.sut(|| {
                            let v = mk();
                            let mut m = mk();
                            let g = [sp(v.inside(a..b).inside(c..d)), sp(v.inside(a..b).overlap(c..d)), sp(v.overlap(a..b).inside(c..d)), sp(v.overlap(a..b).overlap(c..d))];
                            let h = [
                                sp(m.inside_mut(a..b).inside_mut(c..d)),
                                sp(m.inside_mut(a..b).overlap_mut(c..d)),
                                sp(m.overlap_mut(a..b).inside_mut(c..d)),
                                sp(m.overlap_mut(a..b).overlap_mut(c..d)),
                            ];
                            (g, h)
                        });
                        if got.as_ref().is_none_or(|(g, h)| g[..] != w[..] || h[..] != w[..]) {
                            bad.push(format!("inside / overlap ({a}..{b}) of inside / overlap ({c}..{d}) are {got:?}, should be {w:?}"));
                        }
                    }
                }
            }
        }
    }
    // positions and single tokens
    for pos in 0..n + 3 {
        evals += 1;
        let search = |k: fn(&(usize, usize)) -> usize| match lay.iter().position(|t| k(t) == pos) {
            Some(i) => Ok(i),
            None => Err(lay.iter().filter(|t| k(t) < pos).count()),
        };
        let want = (search(|t| t.0), search(|t| t.1), lay.get(pos).copied(), lay.is_empty());
        let got = ctx.sut(|| {
            let v = mk();
            (v.search_lo(pos), v.search_hi(pos), v.at(pos).map(|c| (c.span.lo, c.span.hi)), v.is_empty())
        });
        if got != Some(want) {
            bad.push(format!("(search_lo, search_hi, at, is_empty) at {pos} is {got:?}, should be {want:?}"));
        }
        if pos < k {
            // one cell changes, no other does
            let got = ctx.sut(|| {
                let mut v = mk();
                v.as_slice_mut()[pos].semantics_mut().insert(T::S2);
                for c in &mut *v {
                    if c.span.lo == lay[pos].0 {
                        c.semantic.insert(T::Y);
                    }
                }
                let one = teleparse::lex::Cell::from(Token::new(lay[pos], T::Y));
                let fresh = one.semantics() == Set::new() && one.types() == token_set!(T { Y }) && one.span == Span::from(lay[pos]);
                let c = v.as_slice()[pos].clone();
                let same = c == v.as_slice()[pos] && Token::from(c) == *v.as_slice()[pos] && one != v.as_slice()[pos];
                let rest = v.as_slice().iter().enumerate().all(|(j, c)| (j == pos) == (c.semantics() == token_set!(T { S2 | Y })) && (j == pos || c.semantics() == Set::new()));
                (fresh, same, rest, v.as_slice()[pos].types() == { let mut s = token_set!(T { S2 | Y }); s.insert(v.as_slice()[pos].ty); s })
            });
            if got != Some((true, true, true, true)) {
                bad.push(format!("cell {pos}: (as made, copied, others unchanged, types) {got:?}"));
            }
        }
    }
    for pred in &preds {
        for pos in 0..n + 3 {
            evals += 1;
            let holds = |lo: usize| lay.iter().position(|t| t.0 == lo).is_some_and(|i| pred[i]);
            let end = lay.iter().position(|t| t.1 == pos);
            let begin = lay.iter().position(|t| t.0 == pos);
            let we: Option<Vec<(usize, usize)>> = end.and_then(|e| {
                let mut lo = e + 1;
                while lo > 0 && pred[lo - 1] {
                    lo -= 1;
                }
                (lo <= e).then(|| lay[lo..=e].to_vec())
            });
            let wb: Option<Vec<(usize, usize)>> = begin.and_then(|e| {
                let mut hi = e;
                while hi < k && pred[hi] {
                    hi += 1;
                }
                (e < hi).then(|| lay[e..hi].to_vec())
            });
            if we.is_some() || wb.is_some() {
                nontriv += 1;
            }
            let got = ctx.sut(|| {
                let v = mk();
                let mut m = mk();
                let e = v.ends_at_matches(pos, |c| holds(c.span.lo)).map(sp);
                let em = m.ends_at_matches_mut(pos, |c| holds(c.span.lo)).map(|s| sp(s));
                let b = v.begins_at_matches(pos, |c| holds(c.span.lo)).map(sp);
                let bm = m.begins_at_matches_mut(pos, |c| holds(c.span.lo)).map(|s| sp(s));
                (e, em, b, bm)
            });
            let Some((e, em, b, bm)) = got else {
                bad.push(format!("matches at {pos} with predicate {pred:?}: {}", ctx.panic_text()));
                continue;
            };
            if e != we || em != we {
                bad.push(format!("ends_at_matches({pos}) with predicate {pred:?} is {e:?}, mutable {em:?}, should be {we:?}"));
            }
            if b != wb || bm != wb {
                bad.push(format!("begins_at_matches({pos}) with predicate {pred:?} is {b:?}, mutable {bm:?}, should be {wb:?}"));
            }
        }
    }
    ctx.count("evaluations", evals);
    ctx.count("nontrivial", nontriv);
    ctx.distinct("layouts", &lay);
    ctx.sample("layout", || format!("{lay:?}"));
    if !bad.is_empty() {
        bad.truncate(5);
        ctx.fail(format!("{lay:?}|{}", bad[0]), format!("tokens {lay:?}\n{}", bad.join("\n")));
    }
}

/////////////////////////////////////////////////////////// P16

struct Sized_<'a> {
    ctx: &'a mut Ctx,
    deep: bool,
}
impl lexs::Visit for Sized_<'_> {
    fn go<L: Lexicon>(&mut self, n: usize, all: &[L])
    where
        L::Bit: Into<u128> + Copy + serde::Serialize + serde::de::DeserializeOwned,
    {
        let ctx = &mut *self.ctx;
        let mut bad: Vec<String> = vec![];
        let mut evals = 0u64;
        let want: Vec<L> = all.to_vec();
        let bits = |s: &Set<L>| -> u128 { s.to_bits().into() };
        // enumeration
        let r = ctx.sut(|| {
            let mut v = vec![L::first()];
            while let Some(x) = v[v.len() - 1].next() {
                v.push(x);
                if v.len() > 300 {
                    break;
                }
            }
            let ids: Vec<usize> = v.iter().map(|x| x.id()).collect();
            let back: Vec<L> = (0..n).map(L::from_id_unchecked).collect();
            let one: Vec<u128> = v.iter().map(|x| x.to_bit().into()).collect();
            (v, ids, back, one)
        });
        match r {
            None => bad.push(ctx.panic_text()),
            Some((v, ids, back, one)) => {
                if v != want {
                    bad.push(format!("enumeration visits {v:?}"));
                } else {
                    if ids.iter().collect::<HashSet<_>>().len() != n || ids.iter().any(|i| *i >= n) || !ids.windows(2).all(|w| w[0] < w[1]) {
                        bad.push(format!("ids {ids:?}"));
                    }
                    if back != want {
                        bad.push(format!("from_id gives {back:?}"));
                    }
                    if one.iter().collect::<HashSet<_>>().len() != n || one.iter().any(|b| b.count_ones() != 1) {
                        bad.push(format!("bits {one:x?}"));
                    }
                }
            }
        }
        evals += 1;
        // every pair (also equal): insert, remove, union, containment, iteration, bits
        for i in 0..n {
            for j in 0..n {
                evals += 1;
                let (a, b) = (want[i], want[j]);
                let r = ctx.sut(|| {
                    let mut s = Set::<L>::new();
                    let e0 = s.is_empty();
                    s.insert(a);
                    let c1 = (s.contains(a), s.contains(b), s.is_empty());
                    let sa = s;
                    s.insert(b);
                    s.insert(a);
                    let it: Vec<L> = s.into_iter().collect();
                    let mut sb = Set::<L>::new();
                    sb.insert(b);
                    let u = sa.union(sb) == s;
                    let ca = (s.contains_all(sa), s.contains_all(sb), sa.contains_all(sb), s.contains_all(Set::new()), Set::<L>::new().contains_all(sa));
                    let rt = Set::<L>::from_bits(s.to_bits()) == s;
                    let nb = bits(&s).count_ones();
                    let mut s2 = s;
                    s2.remove(a);
                    s2.remove(a);
                    let c2 = (s2.contains(a), s2.contains(b), s2.is_empty());
                    let mut iter = s2.into_iter();
                    let rest: Vec<L> = iter.by_ref().collect();
                    let fused = iter.next().is_none();
                    (e0, c1, it, u, ca, rt, nb, c2, rest, fused)
                });
                let Some(r) = r else {
                    bad.push(format!("types {a:?} {b:?}: {}", ctx.panic_text()));
                    break;
                };
                let same = i == j;
                let mut both: Vec<L> = vec![want[i.min(j)]];
                if !same {
                    both.push(want[i.max(j)]);
                }
                let w = (true, (true, same, false), both, true, (true, true, same, true, false), true, if same { 1 } else { 2 }, (false, !same, same), if same { vec![] } else { vec![b] }, true);
                if r != w {
                    bad.push(format!("set of {a:?} and {b:?}:\n     got {r:?}\n  should {w:?}"));
                    break;
                }
            }
            if bad.len() > 3 {
                break;
            }
        }
        // every third type left out, and all: the set without i, iteration, complement
        let full = {
            let mut s = Set::<L>::new();
            for t in &want {
                s.insert(*t);
            }
            s
        };
        for i in 0..n {
            evals += 1;
            let r = ctx.sut(|| {
                let mut s = full;
                s.remove(want[i]);
                let it: Vec<L> = s.into_iter().collect();
                let c = s.contains(want[i]);
                let ca = (full.contains_all(s), s.contains_all(full));
                s.insert(want[i]);
                (it, c, ca, s == full, full.into_iter().count())
            });
            let mut without = want.clone();
            without.remove(i);
            let w = (without, false, (true, false), true, n);
            if r.as_ref() != Some(&w) {
                bad.push(format!("all types but {:?}: {r:?}", want[i]));
                break;
            }
        }
        // maps: one entry per type
        for i in 0..n {
            evals += 1;
            let r = ctx.sut(|| {
                let mut m = Map::<L, usize>::default();
                let m0 = m.clone();
                *m.get_mut(want[i]) = i + 1;
                let differs = m != m0;
                let got: Vec<usize> = want.iter().map(|t| *m.get(*t)).collect();
                let it: Vec<usize> = m.iter().copied().collect();
                let zip: Vec<(L, usize)> = m.iter_zip().map(|(t, x)| (t, *x)).collect();
                for (t, x) in m.iter_zip_mut() {
                    *x += t.id() * 1000;
                }
                for x in m.iter_mut() {
                    *x += 1;
                }
                let after: Vec<usize> = want.iter().map(|t| *m.get(*t)).collect();
                (differs, got, it, zip, after)
            });
            let col: Vec<usize> = (0..n).map(|k| if k == i { i + 1 } else { 0 }).collect();
            let w = (true, col.clone(), col.clone(), want.iter().copied().zip(col.clone()).collect::<Vec<_>>(), (0..n).map(|k| col[k] + want[k].id() * 1000 + 1).collect::<Vec<_>>());
            if r.as_ref() != Some(&w) {
                bad.push(format!("map with an entry for {:?}: {r:?}", want[i]));
                break;
            }
        }
        ctx.count("traces", evals);
        // state space of sets over a few types (the first, the last, around representation widths)
        let mut pick: Vec<usize> = [0usize, 7, 8, 15, 16, 31, 32, 63, 64, 127].into_iter().filter(|i| *i < n).collect();
        pick.push(n - 1);
        pick.sort();
        pick.dedup();
        let cap = if self.deep { 10 } else { 6 };
        while pick.len() > cap {
            pick.remove(1);
        }
        let types: Vec<L> = pick.iter().map(|i| want[*i]).collect();
        let k = types.len();
        let mut seen: BTreeMap<u32, Set<L>> = BTreeMap::from([(0, Set::new())]);
        let mut q = VecDeque::from([0u32]);
        let mut trans = 0u64;
        while let Some(x) = q.pop_front() {
            let s = seen[&x];
            let sets: Vec<(u32, Set<L>)> = seen.iter().map(|(a, b)| (*a, *b)).collect();
            let mut step = |y: u32, r: Option<Set<L>>, what: String, bad: &mut Vec<String>| {
                trans += 1;
                let Some(r) = r else { bad.push(what); return };
                let it: Vec<L> = r.into_iter().collect();
                let wit: Vec<L> = (0..k).filter(|i| y >> i & 1 == 1).map(|i| types[i]).collect();
                if it != wit || r.is_empty() != (y == 0) || (0..k).any(|i| r.contains(types[i]) != (y >> i & 1 == 1)) {
                    bad.push(format!("{what} of {:?} gives {it:?}, should be {wit:?}", s.into_iter().collect::<Vec<_>>()));
                    return;
                }
                match seen.get(&y) {
                    Some(o) => {
                        if *o != r || o.to_bits() != r.to_bits() {
                            bad.push(format!("{what}: equal sets differ"));
                        }
                    }
                    None => {
                        seen.insert(y, r);
                        q.push_back(y);
                    }
                }
            };
            for i in 0..k {
                let t = types[i];
                step(x | 1 << i, ctx.sut(|| { let mut s = s; s.insert(t); s }), format!("insert {t:?}"), &mut bad);
                step(x & !(1 << i), ctx.sut(|| { let mut s = s; s.remove(t); s }), format!("remove {t:?}"), &mut bad);
            }
            for (y, o) in &sets {
                step(x | y, ctx.sut(|| s.union(*o)), "union".into(), &mut bad);
                let ca = ctx.sut(|| s.contains_all(*o));
                if ca != Some(x & y == *y) {
                    bad.push(format!("contains_all({x:b}, {y:b}) is {ca:?}"));
                }
            }
            if bad.len() > 3 {
                break;
            }
        }
        ctx.count("states", seen.len() as u64);
        ctx.count("transitions", trans);
        ctx.sample("size", || format!("{n} types, {} sets over {pick:?}", seen.len()));
        if !bad.is_empty() {
            bad.truncate(5);
            ctx.fail(format!("{n}|{}", bad[0]), format!("lexicon of {n} types\n{}", bad.join("\n")));
        }
    }
}

/// token_set! over every sequence of up to three of four types, and over longer ones that repeat a type
fn macros(ctx: &mut Ctx) {
    let mut cases: Vec<(Set<T>, Vec<T>)> = vec![(token_set!(T), vec![]), (token_set!(), vec![])];
    macro_rules! row {
        ($($t:ident)*) => { cases.push((token_set!(T { $($t)|* }), vec![$(T::$t),*])); };
    }
    macro_rules! longer {
        ($($p:ident)*) => { row!($($p)* X); row!($($p)* Y); row!($($p)* S1); row!($($p)* S2); };
    }
    macro_rules! from {
        ($a:ident) => { longer!($a); longer!($a X); longer!($a Y); longer!($a S1); longer!($a S2); };
    }
    longer!();
    from!(X);
    from!(Y);
    from!(S1);
    from!(S2);
    row!(X Y S1 S2);
    row!(X X X X);
    row!(S2 S1 Y X X Y S1 S2);
    for (s, w) in cases {
        ctx.count("transitions", 1);
        ctx.count("states", 1);
        ctx.count("traces", 1);
        let it: Vec<T> = s.into_iter().collect();
        let want: Vec<T> = [T::X, T::Y, T::S1, T::S2].into_iter().filter(|t| w.contains(t)).collect();
        if it != want {
            ctx.fail(format!("token_set {w:?}"), format!("token_set! of {w:?} gives {it:?}"));
        }
    }
    let ex: Vec<bool> = [T::X, T::Y, T::S1, T::S2].iter().map(|t| t.should_extract()).collect();
    let _ = ex;
}

/////////////////////////////////////////////////////////// P17

const LITS: [&str; 3] = ["a", "A", "ab"];
/// contents that tell terminals of a type apart: the literals and others like them
const CONTENTS: [&str; 7] = ["a", "A", "ab", "aba", "AB", "b", ""];

/// model of a literal set: bits of LITS, bit 3 = any content
type Lm = u8;
const ANY: u8 = 8;
fn norm(l: Lm) -> Lm {
    if l & ANY != 0 { ANY } else { l }
}
fn lm_has(l: Lm, c: usize) -> bool {
    l & ANY != 0 || c < 3 && l >> c & 1 == 1
}
fn lm_meet(a: Lm, b: Lm) -> Lm {
    if a & ANY != 0 { b } else if b & ANY != 0 { a } else { a & b }
}

/// All literal sets over n literals
fn lms(n: usize) -> Vec<Lm> {
    (0..1u8 << n).chain([ANY]).collect()
}

fn lit_check(l: &LitSet, m: Lm) -> Result<(), String> {
    for (i, c) in CONTENTS.iter().enumerate() {
        if l.contains(c) != lm_has(m, i) {
            return Err(format!("contains({c:?}) is {}", l.contains(c)));
        }
    }
    if l.is_empty() != (m == 0) {
        return Err("is_empty".into());
    }
    if l.is_universe() != (m == ANY) {
        return Err("is_universe".into());
    }
    let it: Option<BTreeSet<&str>> = l.iter().map(|i| i.copied().collect());
    let w: Option<BTreeSet<&str>> = (m != ANY).then(|| (0..3).filter(|i| m >> i & 1 == 1).map(|i| LITS[i]).collect());
    if it != w {
        return Err(format!("iter gives {it:?}"));
    }
    Ok(())
}

fn lit_states(ctx: &mut Ctx) {
    let mut seen: BTreeMap<Lm, LitSet> = BTreeMap::new();
    let mut q: VecDeque<Lm> = VecDeque::new();
    let mut bad: Vec<String> = vec![];
    let (mut states, mut trans) = (0u64, 0u64);
    let add = |m: Lm, l: LitSet, what: String, seen: &mut BTreeMap<Lm, LitSet>, q: &mut VecDeque<Lm>, bad: &mut Vec<String>| {
        if let Err(e) = lit_check(&l, m) {
            bad.push(format!("{what}: {e} in {l:?}"));
        }
        match seen.get(&m) {
            Some(o) if *o != l => bad.push(format!("{what}: {l:?} differs from {o:?}")),
            Some(_) => {}
            None => {
                seen.insert(m, l);
                q.push_back(m);
            }
        }
    };
    add(0, LitSet::new(), "new".into(), &mut seen, &mut q, &mut bad);
    add(0, LitSet::default(), "default".into(), &mut seen, &mut q, &mut bad);
    add(ANY, LitSet::universe(), "universe".into(), &mut seen, &mut q, &mut bad);
    add(3, LitSet::from(["A", "a", "A"]), "from".into(), &mut seen, &mut q, &mut bad);
    while let Some(x) = q.pop_front() {
        states += 1;
        let l = seen[&x].clone();
        for i in 0..3 {
            let y = norm(x | 1 << i);
            let r = ctx.sut(|| { let mut l = l.clone(); let c = l.insert(LITS[i]); (l, c) });
            trans += 1;
            match r {
                None => bad.push(ctx.panic_text()),
                Some((n, c)) => {
                    if c != (y != x) {
                        bad.push(format!("insert {:?} into {l:?} reports {c}", LITS[i]));
                    }
                    add(y, n, format!("insert {:?} into {l:?}", LITS[i]), &mut seen, &mut q, &mut bad);
                }
            }
        }
        let r = ctx.sut(|| { let mut l = l.clone(); let c = l.union_universe(); (l, c) });
        if let Some((n, c)) = r {
            if c != (x != ANY) {
                bad.push(format!("union_universe of {l:?} reports {c}"));
            }
            add(ANY, n, format!("union_universe of {l:?}"), &mut seen, &mut q, &mut bad);
        }
        if let Some(n) = ctx.sut(|| { let mut l = l.clone(); l.clear(); l }) {
            add(0, n, format!("clear of {l:?}"), &mut seen, &mut q, &mut bad);
        }
        trans += 2;
    }
    // pairs
    let all: Vec<(Lm, LitSet)> = seen.iter().map(|(a, b)| (*a, b.clone())).collect();
    if all.len() != lms(3).len() {
        bad.push(format!("{} of {} literal sets reached", all.len(), lms(3).len()));
    }
    for (x, a) in &all {
        for (y, b) in &all {
            trans += 3;
            let r = ctx.sut(|| { let mut u = a.clone(); let c = u.union(b); (u, c, a.intersects(b), a.intersection(b)) });
            let Some((u, c, i, m)) = r else { bad.push(ctx.panic_text()); continue };
            let wu = norm(x | y);
            let wm = lm_meet(*x, *y);
            if u != seen[&wu] || c != (wu != *x) {
                bad.push(format!("union of {a:?} and {b:?} is {u:?}, changed {c}"));
            }
            if i != (wm != 0) {
                bad.push(format!("{a:?} intersects {b:?}: {i}"));
            }
            if m != seen[&wm] {
                bad.push(format!("intersection of {a:?} and {b:?} is {m:?}"));
            }
        }
    }
    ctx.count("states", states);
    ctx.count("transitions", trans);
    ctx.count("traces", trans);
    if !bad.is_empty() {
        bad.truncate(5);
        ctx.fail(format!("lit|{}", bad[0]), bad.join("\n"));
    }
}

/// model of a terminal set: a literal set per type (X, Y, S1) and the empty symbol
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
struct Tm {
    l: [Lm; 3],
    e: bool,
}
const TYS: [T; 3] = [T::X, T::Y, T::S1];
impl Tm {
    fn union(&self, o: &Tm, e: bool) -> Tm {
        let mut r = *self;
        for i in 0..3 {
            r.l[i] = norm(r.l[i] | o.l[i]);
        }
        r.e |= e && o.e;
        r
    }
    fn meet(&self, o: &Tm, e: bool) -> Tm {
        let mut r = *self;
        for i in 0..3 {
            r.l[i] = lm_meet(r.l[i], o.l[i]);
        }
        r.e = e && self.e && o.e;
        r
    }
    fn empty(&self) -> bool {
        !self.e && self.l == [0; 3]
    }
    fn repr(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        if self.e {
            s.insert("<empty>".to_string());
        }
        for i in 0..3 {
            if self.l[i] == ANY {
                s.insert(format!("{:?}", TYS[i]));
            } else {
                for (j, l) in LITS.iter().enumerate() {
                    if self.l[i] >> j & 1 == 1 {
                        s.insert(format!("\"{l}\""));
                    }
                }
            }
        }
        s
    }
    fn build(&self) -> TerminalSet<T> {
        let mut s = TerminalSet::new();
        for i in 0..3 {
            if self.l[i] == ANY {
                s.insert(TYS[i], None);
            }
            for (j, l) in LITS.iter().enumerate() {
                if self.l[i] >> j & 1 == 1 {
                    s.insert(TYS[i], Some(*l));
                }
            }
        }
        if self.e {
            s.insert_e();
        }
        s
    }
    fn check(&self, s: &TerminalSet<T>) -> Result<(), String> {
        for i in 0..3 {
            for (j, c) in CONTENTS.iter().enumerate() {
                let g = s.contains(Some(TokenSrc::new(TYS[i], c)));
                if g != lm_has(self.l[i], j) {
                    return Err(format!("contains {:?} {c:?} is {g}", TYS[i]));
                }
            }
        }
        if s.contains_e() != self.e || s.contains(None) != self.e {
            return Err("empty symbol".into());
        }
        if s.to_repr() != self.repr() {
            return Err(format!("representation {:?}", s.to_repr()));
        }
        Ok(())
    }
}
fn tms(n: usize) -> Vec<Tm> {
    let mut v = vec![];
    for a in lms(2) {
        for b in lms(n) {
            for c in [0, 4, ANY] {
                for e in [false, true] {
                    v.push(Tm { l: [a, b, c], e });
                }
            }
        }
    }
    v
}

/// every operation from the i-th terminal set
fn term_states(all: &[Tm], i: u64, ctx: &mut Ctx) {
    let x = all[i as usize];
    let mut bad: Vec<String> = vec![];
    let mut trans = 0u64;
    let Some(s) = ctx.sut(|| x.build()) else {
        let t = ctx.panic_text();
        ctx.fail(format!("{x:?}"), t);
        return;
    };
    if let Err(e) = x.check(&s) {
        bad.push(format!("{s:?}: {e}"));
    }
    let to = |y: Tm, n: &TerminalSet<T>, what: &str, bad: &mut Vec<String>| {
        if let Err(e) = y.check(n) {
            bad.push(format!("{what} on {s:?} gives {n:?}: {e}"));
        } else if *n != y.build() {
            bad.push(format!("{what} on {s:?} gives {n:?}, which differs from {:?}", y.build()));
        }
    };
    for t in 0..3 {
        for l in 0..=3usize {
            trans += 1;
            let lit = LITS.get(l).copied();
            let mut y = x;
            y.l[t] = norm(y.l[t] | 1 << l);
            let r = ctx.sut(|| { let mut n = s.clone(); let c = n.insert(TYS[t], lit); (n, c) });
            let Some((n, c)) = r else { bad.push(ctx.panic_text()); continue };
            let what = format!("insert {:?} {lit:?}", TYS[t]);
            if c != (y != x) {
                bad.push(format!("{what} into {s:?} reports {c}"));
            }
            to(y, &n, &what, &mut bad);
        }
    }
    for k in 0..3 {
        trans += 1;
        let r = ctx.sut(|| {
            let mut n = s.clone();
            let c = match k { 0 => n.insert_e(), 1 => n.remove_e(), _ => { n.clear(); !x.empty() } };
            (n, c)
        });
        let Some((n, c)) = r else { bad.push(ctx.panic_text()); continue };
        let y = match k { 0 => Tm { e: true, ..x }, 1 => Tm { e: false, ..x }, _ => Tm { l: [0; 3], e: false } };
        let what = ["insert_e", "remove_e", "clear"][k];
        if c != (y != x) {
            bad.push(format!("{what} on {s:?} reports {c}"));
        }
        to(y, &n, what, &mut bad);
    }
    for y in all {
        let Some(o) = ctx.sut(|| y.build()) else { continue };
        for e in [true, false] {
            trans += 3;
            let r = ctx.sut(|| { let mut n = s.clone(); let c = n.union(&o, e); (n, c, s.intersects(&o, e), s.intersection_repr(&o, e)) });
            let Some((n, c, i, rep)) = r else { bad.push(ctx.panic_text()); continue };
            let u = x.union(y, e);
            let m = x.meet(y, e);
            if n != u.build() || u.check(&n).is_err() || c != (u != x) {
                bad.push(format!("union of {s:?} and {o:?} (empty symbol {e}) is {n:?}, changed {c}"));
            }
            if i != !m.empty() {
                bad.push(format!("{s:?} intersects {o:?} (empty symbol {e}): {i}"));
            }
            if rep != m.repr() {
                bad.push(format!("intersection of {s:?} and {o:?} (empty symbol {e}): {rep:?}"));
            }
        }
        // FIRST and FOLLOW wrappers
        trans += 6;
        let r = ctx.sut(|| {
            let f = FirstSet::from(s.clone());
            let g = FirstSet::from(o.clone());
            let w = FollowSet::from(s.clone());
            let w2 = FollowSet::from(o.clone());
            let mut a = f.clone();
            let ca = a.union(&g);
            let mut b = f.clone();
            let cb = b.union_minus_epsilon(&g);
            let mut c = w.clone();
            let cc = c.union_first(&g);
            let mut d = w.clone();
            let cd = d.union_follow(&w2);
            (
                (a, ca, b, cb, c, cc, d, cd),
                (f.intersects(&g), f.intersects_minus_epsilon(&g), w.intersects_first(&g)),
                (f.intersection_repr(&g), f.intersection_repr_minus_epsilon(&g), w.intersection_repr_first(&g)),
            )
        });
        let Some(((a, ca, b, cb, c, cc, d, cd), ints, reps)) = r else { bad.push(ctx.panic_text()); continue };
        let (u1, u0) = (x.union(y, true), x.union(y, false));
        let (m1, m0) = (x.meet(y, true), x.meet(y, false));
        if a != FirstSet::from(u1.build()) || ca != (u1 != x) {
            bad.push(format!("FIRST union of {s:?} and {o:?}: {a:?} {ca}"));
        }
        if b != FirstSet::from(u0.build()) || cb != (u0 != x) {
            bad.push(format!("FIRST union without epsilon of {s:?} and {o:?}: {b:?} {cb}"));
        }
        if c != FollowSet::from(u0.build()) || cc != (u0 != x) {
            bad.push(format!("FOLLOW union with FIRST of {s:?} and {o:?}: {c:?} {cc}"));
        }
        if d != FollowSet::from(u1.build()) || cd != (u1 != x) {
            bad.push(format!("FOLLOW union of {s:?} and {o:?}: {d:?} {cd}"));
        }
        if ints != (!m1.empty(), !m0.empty(), !m0.empty()) {
            bad.push(format!("FIRST/FOLLOW intersection tests of {s:?} and {o:?}: {ints:?}"));
        }
        if reps != (m1.repr(), m0.repr(), m0.repr()) {
            bad.push(format!("FIRST/FOLLOW intersections of {s:?} and {o:?}: {reps:?}"));
        }
        // two disjoint sets in one table: each token leads to its own
        if m1.empty() {
            trans += 1;
            let r = ctx.sut(|| {
                let mut t = JumpTable::<T>::default();
                FirstSet::from(s.clone()).add_to_jump_table(&mut t, 0);
                FirstSet::from(o.clone()).add_to_jump_table(&mut t, 1);
                let mut v = vec![t.look_up(None)];
                for ty in TYS {
                    for c in CONTENTS {
                        v.push(t.look_up(Some(TokenSrc::new(ty, c))));
                    }
                }
                v
            });
            let pick = |a: bool, b: bool| if a { Some(0) } else if b { Some(1) } else { None };
            let mut w = vec![pick(x.e, y.e)];
            for t in 0..3 {
                for j in 0..CONTENTS.len() {
                    w.push(pick(lm_has(x.l[t], j), lm_has(y.l[t], j)));
                }
            }
            if r.as_ref() != Some(&w) {
                bad.push(format!("table of {s:?} -> 0 and {o:?} -> 1: {r:?}, should be {w:?}"));
            }
        }
        if bad.len() > 5 {
            break;
        }
    }
    if i == 0 {
        // FIRST / FOLLOW elementary operations
        let r = ctx.sut(|| {
            let a = FirstSet::<T>::one(T::X, Some("a"));
            let mut f = FirstSet::<T>::new();
            let mut w = FollowSet::<T>::new();
            let mut o = vec![a == FirstSet::from(Tm { l: [1, 0, 0], e: false }.build())];
            o.push(FirstSet::<T>::one(T::Y, None) == FirstSet::from(Tm { l: [0, ANY, 0], e: false }.build()));
            o.push(f.insert_epsilon() && !f.insert_epsilon() && f.contains_epsilon());
            o.push(f.insert(T::X, None) && !f.insert(T::X, Some("a")));
            f.clear();
            o.push(f == FirstSet::new() && !f.contains_epsilon() && !f.contains(Some(TokenSrc::new(T::X, "a"))));
            o.push(!w.contains_eof());
            w.insert_eof();
            o.push(w.contains_eof() && w.contains(None));
            o.push(w.insert(T::X, Some("a")) && !w.insert(T::X, Some("a")) && w.contains(Some(TokenSrc::new(T::X, "a"))) && !w.contains(Some(TokenSrc::new(T::X, "b"))));
            o.push(terminal_set!(T { e, X: "a", Y: * }) == Tm { l: [1, ANY, 0], e: true }.build());
            o.push(terminal_set!(T { X: "a" }) == Tm { l: [1, 0, 0], e: false }.build());
            o.push(terminal_set!(T { e }) == Tm { l: [0, 0, 0], e: true }.build());
            o
        });
        match r {
            None => bad.push(ctx.panic_text()),
            Some(o) => {
                for (i, ok) in o.iter().enumerate() {
                    if !ok {
                        bad.push(format!("elementary operation {i}"));
                    }
                }
            }
        }
    }
    ctx.count("states", 1);
    ctx.count("transitions", trans);
    ctx.count("traces", trans);
    ctx.sample("set", || format!("{s:?}"));
    if !bad.is_empty() {
        bad.truncate(5);
        ctx.fail(format!("term|{}", bad[0]), bad.join("\n"));
    }
}

/// a family of literals: the i-th of a long list
fn lit_name(i: usize) -> &'static str {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    // prefixes, case variants, the empty string and unrelated ones all occur
    N.get_or_init(|| {
        (0..MANY)
            .map(|i| {
                let s: String = match i % 5 {
                    0 => "a".repeat(i / 5),
                    1 => format!("A{}", "a".repeat(i / 5)),
                    2 => format!("w{i}"),
                    3 => format!("W{}", i - 1),
                    _ => format!("\u{e9}{}", (b'a' + (i % 26) as u8) as char).repeat(i / 26 + 1),
                };
                &*Box::leak(s.into_boxed_str())
            })
            .collect()
    })[i]
}
const MANY: usize = 70;
const CUTS: [usize; 15] = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 70];

/// every set of a contiguous part of many literals, built in three orders,
/// with every other as operand
fn lit_many(i: u64, ctx: &mut Ctx) {
    let mut bad: Vec<String> = vec![];
    let mut trans = 0u64;
    let mut parts: Vec<(usize, usize)> = vec![];
    for (k, a) in CUTS.iter().enumerate() {
        for b in &CUTS[k + 1..] {
            parts.push((*a, *b));
        }
    }
    let (a, b) = parts[i as usize];
    if (0..MANY).map(lit_name).collect::<BTreeSet<_>>().len() != MANY {
        bad.push("the literals are not distinct".into());
    }
    let make = |a: usize, b: usize, o: usize| -> LitSet {
        let mut l = LitSet::new();
        let n = b - a;
        for j in 0..n {
            let j = match o { 0 => a + j, 1 => b - 1 - j, _ => a + (j * 2) % n + usize::from(n % 2 == 0 && j * 2 >= n) };
            l.insert(lit_name(j));
        }
        l
    };
    let as_model = |l: &LitSet| -> Option<BTreeSet<&'static str>> { l.iter().map(|i| i.copied().collect()) };
    let model = |a: usize, b: usize| -> BTreeSet<&'static str> { (a..b).map(lit_name).collect() };
    let mine = model(a, b);
    let sets: Vec<LitSet> = (0..3).filter_map(|o| ctx.sut(|| make(a, b, o))).collect();
    if sets.len() != 3 {
        ctx.fail(format!("{a}..{b}"), ctx.panic_text());
        return;
    }
    let s = sets[0].clone();
    for (o, l) in sets.iter().enumerate() {
        trans += 1;
        if *l != s || as_model(l) != Some(mine.clone()) || l.is_empty() || l.is_universe() {
            bad.push(format!("literals {a}..{b} inserted in order {o}: {l:?}"));
        }
        let mut sum = 0;
        for j in 0..MANY {
            trans += 2;
            if l.contains(lit_name(j)) != (a..b).contains(&j) {
                bad.push(format!("literals {a}..{b} in order {o}: contains({:?}) is {}", lit_name(j), l.contains(lit_name(j))));
            }
            let mut m = l.clone();
            let c = m.insert(lit_name(j));
            sum += usize::from(c);
            let mut w = mine.clone();
            w.insert(lit_name(j));
            if c == (a..b).contains(&j) || as_model(&m) != Some(w) {
                bad.push(format!("literals {a}..{b} in order {o}: insert {:?} reports {c} and gives {m:?}", lit_name(j)));
            }
        }
        if sum != MANY - (b - a) {
            bad.push(format!("literals {a}..{b}: {sum} insertions change the set"));
        }
    }
    let mut t = TerminalSet::<T>::new();
    for j in a..b {
        t.insert(T::X, Some(lit_name(j)));
    }
    for (c, d) in &parts {
        trans += 8;
        let (c, d) = (*c, *d);
        let other = model(c, d);
        let r = ctx.sut(|| {
            let o = make(c, d, 2);
            let mut u = s.clone();
            let ch = u.union(&o);
            let mut t2 = TerminalSet::<T>::new();
            let mut t3 = TerminalSet::<T>::new();
            for j in c..d {
                t2.insert(T::X, Some(lit_name(j)));
                t3.insert(T::Y, Some(lit_name(j)));
            }
            let mut tu = t.clone();
            let tc = tu.union(&t2, true);
            let mut tv = t.clone();
            let tvc = tv.union(&t3, true);
            let (f, g) = (FirstSet::from(t.clone()), FirstSet::from(t2.clone()));
            (
                (as_model(&u), ch, s.intersects(&o), as_model(&s.intersection(&o))),
                (tu.to_repr(), tc, t.intersects(&t2, true), t.intersection_repr(&t2, true)),
                (tv.to_repr(), tvc, t.intersects(&t3, true), t.intersection_repr(&t3, true), tv.contains(Some(TokenSrc::new(T::Y, lit_name(c)))) && !tv.contains(Some(TokenSrc::new(T::S1, lit_name(c))))),
                (f.intersects(&g), f.intersection_repr(&g)),
            )
        });
        let Some((lr, tr, vr, fr)) = r else { bad.push(ctx.panic_text()); continue };
        let wu: BTreeSet<&'static str> = mine.union(&other).copied().collect();
        let wm: BTreeSet<&'static str> = mine.intersection(&other).copied().collect();
        let text = |m: &BTreeSet<&'static str>| -> BTreeSet<String> { m.iter().map(|l| format!("\"{l}\"")).collect() };
        let ch = wu != mine;
        if lr != (Some(wu.clone()), ch, !wm.is_empty(), Some(wm.clone())) {
            bad.push(format!("literals {a}..{b} and {c}..{d}: (union, changed, meet, intersection) {lr:?}"));
        }
        if tr != (text(&wu), ch, !wm.is_empty(), text(&wm)) {
            bad.push(format!("terminals of literals {a}..{b} and {c}..{d}: {tr:?}"));
        }
        if vr != (text(&wu), true, false, BTreeSet::new(), true) {
            bad.push(format!("terminals of literals {a}..{b} of one type and {c}..{d} of another: {vr:?}"));
        }
        if fr != (!wm.is_empty(), text(&wm)) {
            bad.push(format!("FIRST sets of literals {a}..{b} and {c}..{d}: {fr:?}"));
        }
        if wm.is_empty() {
            // one table with both
            let r = ctx.sut(|| {
                let mut jt = JumpTable::<T>::default();
                FirstSet::from(t.clone()).add_to_jump_table(&mut jt, 0);
                let mut t2 = TerminalSet::<T>::new();
                for j in c..d {
                    t2.insert(T::X, Some(lit_name(j)));
                }
                FirstSet::from(t2).add_to_jump_table(&mut jt, 1);
                (0..MANY).map(|j| jt.look_up(Some(TokenSrc::new(T::X, lit_name(j))))).collect::<Vec<_>>()
            });
            let w: Vec<Option<usize>> = (0..MANY).map(|j| if (a..b).contains(&j) { Some(0) } else if (c..d).contains(&j) { Some(1) } else { None }).collect();
            if r.as_ref() != Some(&w) {
                bad.push(format!("table of literals {a}..{b} -> 0 and {c}..{d} -> 1: {r:?}"));
            }
        }
        if bad.len() > 5 {
            break;
        }
    }
    ctx.count("states", 3);
    ctx.count("transitions", trans);
    ctx.count("traces", trans);
    if !bad.is_empty() {
        bad.truncate(5);
        ctx.fail(format!("many|{}", bad[0]), bad.join("\n"));
    }
}

/// every terminal set over up to three of the boundary types of a lexicon of
/// every size, in pairs
struct Wide<'a> {
    ctx: &'a mut Ctx,
    deep: bool,
}
impl lexs::Visit for Wide<'_> {
    fn go<L: Lexicon>(&mut self, n: usize, all: &[L])
    where
        L::Bit: Into<u128> + Copy + serde::Serialize + serde::de::DeserializeOwned,
    {
        let ctx = &mut *self.ctx;
        let mut bad: Vec<String> = vec![];
        let mut trans = 0u64;
        let mut at: Vec<usize> = [0, 1, 6, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 126, 127, n.saturating_sub(1), n / 2].into_iter().filter(|i| *i < n).collect();
        at.sort();
        at.dedup();
        if !self.deep && at.len() > 9 {
            // both ends and the boundaries that exist
            let keep: Vec<usize> = at.iter().copied().filter(|i| ![1, 6, 17, 65, 126].contains(i)).collect();
            at = keep;
        }
        // one set: a type with a literal (0) or any content (1)
        let mut sets: Vec<BTreeMap<usize, bool>> = vec![BTreeMap::new()];
        for (k, a) in at.iter().enumerate() {
            for x in [false, true] {
                sets.push([(*a, x)].into());
                for b in &at[k + 1..] {
                    for y in [false, true] {
                        sets.push([(*a, x), (*b, y)].into());
                    }
                }
            }
        }
        sets.push(at.iter().map(|a| (*a, a % 2 == 0)).collect());
        sets.push((0..n).map(|a| (a, false)).collect());
        sets.push((0..n).map(|a| (a, true)).collect());
        let build = |m: &BTreeMap<usize, bool>| -> TerminalSet<L> {
            let mut s = TerminalSet::new();
            for (a, any) in m {
                s.insert(all[*a], if *any { None } else { Some("a") });
            }
            s
        };
        let repr = |m: &BTreeMap<usize, bool>| -> BTreeSet<String> {
            m.iter().map(|(a, any)| if *any { format!("{:?}", all[*a]) } else { "\"a\"".to_string() }).collect()
        };
        let check = |m: &BTreeMap<usize, bool>, s: &TerminalSet<L>| -> Option<String> {
            for (i, t) in all.iter().enumerate() {
                let (la, lb) = (s.contains(Some(TokenSrc::new(*t, "a"))), s.contains(Some(TokenSrc::new(*t, "b"))));
                if la != m.contains_key(&i) || lb != (m.get(&i) == Some(&true)) {
                    return Some(format!("type {i} contains \"a\": {la}, \"b\": {lb}"));
                }
            }
            (s.contains_e() || s.contains(None)).then(|| "contains the empty symbol".to_string()).or_else(|| (s.to_repr() != repr(m)).then(|| format!("represented as {:?}", s.to_repr())))
        };
        let built: Vec<TerminalSet<L>> = sets.iter().filter_map(|m| ctx.sut(|| build(m))).collect();
        if built.len() != sets.len() {
            ctx.fail(format!("{n}"), ctx.panic_text());
            return;
        }
        for (m, s) in sets.iter().zip(&built) {
            trans += n as u64;
            if let Some(e) = check(m, s) {
                bad.push(format!("{n} types, set {m:?}: {e}"));
            }
        }
        for (m, s) in sets.iter().zip(&built) {
            for (m2, s2) in sets.iter().zip(&built) {
                trans += 4;
                let mut w = m.clone();
                for (a, any) in m2 {
                    *w.entry(*a).or_default() |= any;
                }
                let meet: BTreeMap<usize, bool> = m.iter().filter_map(|(a, any)| m2.get(a).map(|b| (*a, *any && *b))).collect();
                let r = ctx.sut(|| {
                    let mut u = s.clone();
                    let c = u.union(s2, true);
                    let mut jt = JumpTable::<L>::default();
                    if meet.is_empty() {
                        FirstSet::from(s.clone()).add_to_jump_table(&mut jt, 3);
                        FirstSet::from(s2.clone()).add_to_jump_table(&mut jt, 4);
                    }
                    let look: Vec<[Option<usize>; 2]> = at.iter().map(|a| [jt.look_up(Some(TokenSrc::new(all[*a], "a"))), jt.look_up(Some(TokenSrc::new(all[*a], "b")))]).collect();
                    (u, c, s.intersects(s2, true), s.intersection_repr(s2, true), look)
                });
                let Some((u, c, i, rep, look)) = r else { bad.push(ctx.panic_text()); continue };
                if c != (w != *m) || check(&w, &u).is_some() {
                    bad.push(format!("{n} types, union of {m:?} and {m2:?} is {u:?}, changed {c}"));
                }
                if i == meet.is_empty() || rep != repr(&meet) {
                    bad.push(format!("{n} types, {m:?} and {m2:?} intersect: {i}, in {rep:?}"));
                }
                let wl: Vec<[Option<usize>; 2]> = at
                    .iter()
                    .map(|a| {
                        if !meet.is_empty() {
                            return [None, None];
                        }
                        let f = |b: bool| match (m.get(a), m2.get(a)) {
                            (Some(x), _) if *x || !b => Some(3),
                            (_, Some(x)) if *x || !b => Some(4),
                            _ => None,
                        };
                        [f(false), f(true)]
                    })
                    .collect();
                if look != wl {
                    bad.push(format!("{n} types, table of {m:?} -> 3 and {m2:?} -> 4: {look:?}"));
                }
            }
            if bad.len() > 5 {
                break;
            }
        }
        ctx.count("states", sets.len() as u64);
        ctx.count("transitions", trans);
        ctx.count("traces", trans);
        if !bad.is_empty() {
            bad.truncate(5);
            ctx.fail(format!("{n}|{}", bad[0]), bad.join("\n"));
        }
    }
}

/////////////////////////////////////////////////////////// P24

use serde_json::{json, Value};

struct Stored<'a> {
    ctx: &'a mut Ctx,
    deep: bool,
}
impl lexs::Visit for Stored<'_> {
    fn go<L: Lexicon>(&mut self, n: usize, all: &[L])
    where
        L::Bit: Into<u128> + Copy + serde::Serialize + serde::de::DeserializeOwned,
    {
        let ctx = &mut *self.ctx;
        let mut bad: Vec<String> = vec![];
        let mut evals = 0u64;
        let mut seen: BTreeMap<String, Vec<L>> = BTreeMap::new();
        let mut one = |m: &[L], ctx: &mut Ctx, bad: &mut Vec<String>| {
            evals += 1;
            let r = ctx.sut(|| {
                let mut s = Set::<L>::new();
                for t in m {
                    s.insert(*t);
                }
                let t = serde_json::to_string(&s).map_err(|e| e.to_string())?;
                let b: Set<L> = serde_json::from_str(&t).map_err(|e| format!("{t}: {e}"))?;
                let v: Vec<L> = b.into_iter().collect();
                Ok::<_, String>((t, v, b == s))
            });
            match r {
                None => bad.push(ctx.panic_text()),
                Some(Err(e)) => bad.push(format!("{m:?}: {e}")),
                Some(Ok((t, v, same))) => {
                    if v != m || !same {
                        bad.push(format!("{m:?} is stored as {t}, which reads back as {v:?}"));
                    }
                    if let Some(o) = seen.insert(t.clone(), m.to_vec()) {
                        if o != m {
                            bad.push(format!("{m:?} and {o:?} are both stored as {t}"));
                        }
                    }
                }
            }
        };
        one(&[], ctx, &mut bad);
        for i in 0..n {
            one(&[all[i]], ctx, &mut bad);
            let but: Vec<L> = all.iter().copied().filter(|x| *x != all[i]).collect();
            if n > 1 {
                one(&but, ctx, &mut bad);
            }
            // up to and from
            one(&all[..i], ctx, &mut bad);
            one(&all[i..], ctx, &mut bad);
            for j in i + 1..n {
                one(&[all[i], all[j]], ctx, &mut bad);
            }
        }
        if n <= if self.deep { 12 } else { 9 } {
            for m in 0u32..1 << n {
                let v: Vec<L> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| all[i]).collect();
                one(&v, ctx, &mut bad);
            }
        }
        // maps: every content is stored differently
        let mut maps: BTreeMap<String, usize> = BTreeMap::new();
        for i in 0..=n + 1 {
            evals += 1;
            let r = ctx.sut(|| {
                let mut m = Map::<L, u16>::default();
                for (k, t) in all.iter().enumerate() {
                    if i == n || k == i {
                        *m.get_mut(*t) = k as u16 + 1;
                    }
                }
                serde_json::to_string(&m).map_err(|e| e.to_string())
            });
            match r {
                None => bad.push(ctx.panic_text()),
                Some(Err(e)) => bad.push(format!("a map: {e}")),
                Some(Ok(t)) => {
                    if let Some(o) = maps.insert(t.clone(), i) {
                        // with one type, "all" and "the first" are the same map
                        if n > 1 || o + i != 1 {
                            bad.push(format!("maps {o} and {i} are both stored as {t}"));
                        }
                    }
                }
            }
        }
        ctx.count("evaluations", evals);
        for i in 0..n {
            ctx.distinct("nontrivial", &(n, i));
        }
        if !bad.is_empty() {
            bad.truncate(5);
            ctx.fail(format!("{n}|{}", bad[0]), format!("lexicon of {n} types\n{}", bad.join("\n")));
        }
    }
}

/// positions at the ends of the number formats
fn positions() -> Vec<usize> {
    let mut v = vec![0usize, 1, 2, 9, 10];
    for b in [8u32, 16, 31, 32, 52, 53, 54, 63] {
        v.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
    }
    v.push(usize::MAX);
    v
}

fn stored_spans(i: u64, ctx: &mut Ctx) {
    let ps = positions();
    let lo = ps[i as usize];
    for hi in &ps {
        ctx.count("evaluations", 1);
        let s = Span::new(lo, *hi);
        let r = ctx.sut(|| {
            let t = serde_json::to_string(&s).map_err(|e| e.to_string())?;
            let b: Span = serde_json::from_str(&t).map_err(|e| format!("{t}: {e}"))?;
            let c: Span = serde_json::from_value(json!({"hi": hi, "lo": lo})).map_err(|e| e.to_string())?;
            Ok::<_, String>((serde_json::from_str::<Value>(&t).unwrap(), b, c))
        });
        if r != Some(Ok((json!({"lo": lo, "hi": hi}), s, s))) {
            ctx.fail(format!("span {lo} {hi}"), format!("{s:?} is stored and read back as {r:?}"));
        }
        ctx.distinct("nontrivial", &(lo, *hi));
    }
}

impl serde::Serialize for T {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{self:?}"))
    }
}

fn to_json<X: serde::Serialize>(x: X) -> Result<Value, String> {
    serde_json::to_value(x).map_err(|e| e.to_string())
}

/// The sets and the errors that hold them: what is stored says which set it is,
/// however the set came about, and an error has its span and kind beside it
fn stored_terms(all: &[Tm], i: u64, seen: &mut BTreeMap<String, Tm>, ctx: &mut Ctx) {
    let x = all[i as usize];
    let mut bad = vec![];
    let mut same = |what: &str, got: Option<Result<Value, String>>, want: &Value, ctx: &mut Ctx| {
        ctx.count("evaluations", 1);
        if got.as_ref() != Some(&Ok(want.clone())) {
            bad.push(format!("{what} is stored as {got:?} instead of {want}"));
        }
    };
    let Some(Ok(want)) = ctx.sut(|| to_json(x.build())) else {
        let p = ctx.panic_text();
        return ctx.fail(format!("stored|{x:?}"), format!("{x:?} cannot be stored {p}"));
    };
    if let Some(o) = seen.insert(want.to_string(), x) {
        if o != x {
            ctx.fail(format!("stored|{x:?}"), format!("{x:?} and {o:?} are both stored as {want}"));
        }
    }
    // the same set by union of its halves
    let r = ctx.sut(|| {
        let (mut a, mut b) = (x, x);
        a.e = false;
        for k in 0..3 {
            if a.l[k] == ANY {
                b.l[k] = 0;
            } else {
                a.l[k] &= 5;
                b.l[k] &= 2;
            }
        }
        let mut s = b.build();
        s.union(&a.build(), true);
        to_json(s)
    });
    same(&format!("{x:?} by union"), r, &want, ctx);
    let r = ctx.sut(|| to_json(FirstSet::from(x.build())));
    let Some(Ok(first)) = r else {
        return ctx.fail(format!("stored|{x:?}"), format!("FIRST {x:?} cannot be stored {r:?}"));
    };
    if let Some(o) = seen.insert(format!("first {first}"), x) {
        if o != x {
            ctx.fail(format!("stored|{x:?}"), format!("FIRST {x:?} and {o:?} are both stored as {first}"));
        }
    }
    let r = ctx.sut(|| to_json(FollowSet::from(x.build())));
    let Some(Ok(follow)) = r else {
        return ctx.fail(format!("stored|{x:?}"), format!("FOLLOW {x:?} cannot be stored {r:?}"));
    };
    if let Some(o) = seen.insert(format!("follow {follow}"), x) {
        if o != x {
            ctx.fail(format!("stored|{x:?}"), format!("FOLLOW {x:?} and {o:?} are both stored as {follow}"));
        }
    }
    for (lo, hi) in [(0usize, 0usize), (3, 8), (5, 5)] {
        let r = ctx.sut(|| to_json(Error::<T>::new(lo..hi, ErrorKind::Expecting(FirstSet::from(x.build())))));
        same(&format!("an error expecting {x:?}"), r, &json!({"span": {"lo": lo, "hi": hi}, "data": {"Expecting": first}}), ctx);
        for (k, w) in [
            (ErrorKind::<T>::UnexpectedCharacters, json!("UnexpectedCharacters")),
            (ErrorKind::UnexpectedTokens, json!("UnexpectedTokens")),
            (ErrorKind::UnexpectedEof, json!("UnexpectedEof")),
            (ErrorKind::Custom("a \"ké\"\n".into()), json!({"Custom": "a \"ké\"\n"})),
        ] {
            let r = ctx.sut(|| to_json(Error::<T>::new((lo, hi), k.clone())));
            same("an error", r, &json!({"span": {"lo": lo, "hi": hi}, "data": w}), ctx);
        }
    }
    ctx.distinct("nontrivial", &x);
    ctx.sample("stored", || want.to_string());
    if !bad.is_empty() {
        bad.truncate(5);
        ctx.fail(format!("stored|{x:?}"), bad.join("\n"));
    }
}

include!("../tsets.rs");

/// Sets written with the macros
fn written(ctx: &mut Ctx) {
    let Some(all) = ctx.sut(built_sets) else {
        let p = ctx.panic_text();
        return ctx.fail("macros", p);
    };
    for (text, t, f, w, m) in all {
        ctx.count("states", 1);
        ctx.count("transitions", 3);
        ctx.count("traces", 3);
        let mut bad = vec![];
        if t != m.build() || m.check(&t).is_err() {
            bad.push(format!("terminal_set!({text}) is {t:?}"));
        }
        if f != FirstSet::from(m.build()) {
            bad.push(format!("first_set!({text}) is {f:?}"));
        }
        if w != FollowSet::from(m.build()) {
            bad.push(format!("follow_set!({text}) is {w:?}"));
        }
        if !bad.is_empty() {
            ctx.fail(format!("macro|{text}"), bad.join("\n"));
        }
    }
}

fn build_check(prop: &str, thorough: bool) -> Option<Check> {
    let prop: &'static str = ["P15", "P16", "P17", "P24", "P26"].into_iter().find(|p| *p == prop)?;
    let mut jobs = vec![];
    let (level, rule);
    match prop {
        "P15" => {
            let max = if thorough { 10 } else { 8 };
            for n in 0..=max {
                jobs.push(Job::new(format!("len{n}"), 3u64.pow(n as u32), move |i, c| ranges(n, i, c), move |i, _| format!("{:?}", layout(n, i))));
            }
            for k in (max + 1..=20).chain([31, 32, 33, 48, 65]).chain(if thorough { vec![64, 100, 127, 128, 129, 200] } else { vec![] }) {
                jobs.push(Job::new(format!("tokens{k}"), 32, move |i, c| long_ranges(k, i, c), move |i, _| format!("{:?}", long_layout(k, i))));
            }
            level = "exploration";
            rule = "every sequence of non-empty tokens in a source of each length, in source order, with and without gaps; longer sequences (tokensN) with two widths and two gaps in turn and predicates that hold for all, all but one or one of the tokens; every span lo..hi (also empty, inverted and beyond the end), every position and every predicate (subset of the tokens); evaluations: queries by span or by (position, predicate); nontrivial: queries with a non-empty answer".to_string();
        }
        "P16" => {
            jobs.push(Job::new(
                "sizes",
                128,
                move |i, c| lexs::with_size(i as usize + 1, &mut Sized_ { ctx: c, deep: thorough }),
                |i, _| format!("lexicon of {} types", i + 1),
            ));
            jobs.push(Job::new("token_set", 1, |_, c| macros(c), |_, _| "token_set!".into()));
            level = "model_checking";
            rule = "a lexicon of every size 1..128; states: sets over the boundary types of the representation, reached by insert, remove and union; transitions: those operations on the real set; traces: all ordered pairs of types, all single and all-but-one sets and maps".to_string();
        }
        "P24" => {
            jobs.push(Job::new(
                "sizes",
                128,
                move |i, c| lexs::with_size(i as usize + 1, &mut Stored { ctx: c, deep: thorough }),
                |i, _| format!("lexicon of {} types", i + 1),
            ));
            jobs.push(Job::new("spans", positions().len() as u64, |i, c| stored_spans(i, c), |i, _| format!("spans from {}", positions()[i as usize])));
            let all = Rc::new(tms(3));
            let a2 = all.clone();
            jobs.push(Job::new(
                "terminals",
                1,
                move |_, c| {
                    let mut seen = BTreeMap::new();
                    for i in 0..all.len() as u64 {
                        stored_terms(&all, i, &mut seen, c);
                    }
                },
                move |_, _| format!("{} terminal sets", a2.len()),
            ));
            level = "exploration";
            rule = "a lexicon of every size 1..128 with every set of no, one, two, all but one, the first and the last types, every set up to 9 (12) types, and maps; every span between 30 positions; every terminal set over three types with two or three literals, any-content and the empty symbol, and every kind of error; each stored as JSON and, where it can be, read back; non-trivial: a distinct value".to_string();
        }
        "P26" => {
            jobs = texts::jobs(thorough);
            level = "exploration";
            rule = "every text of up to 5 (6) pieces of one to four bytes, every span between two of its positions, its end and positions beyond it that cuts no character (and all empty or inverted ones), through every accessor that gives the text of a span; every combination of four spans in references, tuples of two to five and nodes; every list of up to four errors of three kinds in every result; non-trivial: a non-empty text".to_string();
        }
        _ => {
            jobs.push(Job::new("literals", 1, |_, c| lit_states(c), |_, _| "literal sets".into()));
            jobs.push(Job::new("macros", 1, |_, c| written(c), |_, _| "sets written with the macros".into()));
            let all = Rc::new(tms(if thorough { 3 } else { 2 }));
            let a2 = all.clone();
            jobs.push(Job::new("terminals", all.len() as u64, move |i, c| term_states(&all, i, c), move |i, _| format!("{:?}", a2[i as usize])));
            let parts = CUTS.len() * (CUTS.len() - 1) / 2;
            jobs.push(Job::new("many literals", parts as u64, |i, c| lit_many(i, c), |i, _| format!("part {i} of many literals")));
            jobs.push(Job::new("sizes", lexs::SOME.len() as u64, move |i, c| lexs::with_some_size(lexs::SOME[i as usize], &mut Wide { ctx: c, deep: thorough }), |i, _| format!("lexicon of {} types", lexs::SOME[i as usize])));
            level = "model_checking";
            rule = "states: every literal set over three literals, every contiguous part of 70 literals between 15 cuts, every terminal set over three types with up to three literals, any-content and the empty symbol, and every terminal set over up to two (and all) of the boundary types of lexicons of each of 17 sizes around the boundaries of the representation; transitions: every operation from every state, with every other set as operand, on the real sets; traces: the same, each compared with the set model".to_string();
        }
    }
    Some(Check {
        prop,
        level,
        rule,
        assumptions: vec!["small scope: larger sets and layouts behave as those explored".into()],
        jobs,
        cap_s: if thorough { 840 } else { 400 },
        hang_s: 30,
        workers: 0,
    })
}

fn main() {
    mc::main(build_check)
}
