//! GRAM: every grammar up to a size bound through the real analysis.  P02 P03 P04 P05 P06
#[path = "../dynn.rs"]
mod dynn;
#[path = "../names.rs"]
mod names;
use mc::cfg::*;
use mc::*;
use std::any::TypeId;
use std::collections::BTreeSet;
use std::rc::Rc;
use teleparse::lex::TokenSrc;
use teleparse::prelude::*;
use teleparse::syntax::{First, FirstSet, Follow, FollowBuilder, FollowSet, Metadata, MetadataBuilder};
use teleparse::GrammarError;

#[derive_lexicon]
pub enum T {
    #[teleparse(regex("[a-zA-Z]+"), terminal(Any, X = "x", Y = "X"))]
    A,
    #[teleparse(regex("[0-9]+"), terminal(Num))]
    B,
    #[teleparse(terminal(Semi = ";"))]
    C,
}

/// token classes: concrete tokens that represent all tokens a terminal can distinguish
const FEW: usize = 5;
/// Literals of the wide grammars
const MANY: usize = 48;
#[rustfmt::skip]
const CLASSES: [(T, &str); FEW + MANY] = [
    (T::A, "x"), (T::A, "X"), (T::A, "xzx"), (T::B, "7"), (T::C, ";"),
    (T::A, "ka"), (T::A, "Ka"), (T::C, "kb"), (T::A, "Kb"), (T::A, "kc"), (T::C, "Kc"), (T::A, "kd"), (T::A, "Kd"), (T::C, "ke"), (T::A, "Ke"), (T::A, "kf"), (T::C, "Kf"), (T::A, "kg"), (T::A, "Kg"), (T::C, "kh"), (T::A, "Kh"), (T::A, "ki"), (T::C, "Ki"), (T::A, "kj"), (T::A, "Kj"), (T::C, "kk"), (T::A, "Kk"), (T::A, "kl"), (T::C, "Kl"), (T::A, "km"), (T::A, "Km"), (T::C, "kn"), (T::A, "Kn"), (T::A, "ko"), (T::C, "Ko"), (T::A, "kp"), (T::A, "Kp"), (T::C, "kq"), (T::A, "Kq"), (T::A, "kr"), (T::C, "Kr"), (T::A, "ks"), (T::A, "Ks"), (T::C, "kt"), (T::A, "Kt"), (T::A, "ku"), (T::C, "Ku"), (T::A, "kv"), (T::A, "Kv"), (T::C, "kw"), (T::A, "Kw"), (T::A, "kx"), (T::C, "Kx"),
];
thread_local! { static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// The number of token classes that matter
fn classes() -> usize {
    if WIDE.with(|w| w.get()) { FEW + MANY } else { FEW }
}
/// other contents of the same type: longer and as long, and in either case
const OTHERS: &[&str] = &["xzx", "y", "xx", "xX", "Xx", "zx"];
struct Term {
    name: &'static str,
    mask: Mask,
    ty: T,
    lit: Option<&'static str>,
}
const TERMS: [Term; FEW + MANY] = terms();
const fn terms() -> [Term; FEW + MANY] {
    const NONE: Term = Term { name: "", mask: 0, ty: T::A, lit: None };
    let mut t = [NONE; FEW + MANY];
    let mut i = 0;
    while i < FEW + MANY {
        t[i] = if i < FEW {
            Term { name: SOME[i].name, mask: SOME[i].mask, ty: SOME[i].ty, lit: SOME[i].lit }
        } else {
            Term { name: CLASSES[i].1, mask: 1 << i, ty: CLASSES[i].0, lit: Some(CLASSES[i].1) }
        };
        i += 1;
    }
    t
}
const SOME: [Term; FEW] = [
    Term { name: "x", mask: 1, ty: T::A, lit: Some("x") },
    Term { name: "Any", mask: 7, ty: T::A, lit: None },
    Term { name: "Num", mask: 8, ty: T::B, lit: None },
    Term { name: "X", mask: 2, ty: T::A, lit: Some("X") },
    Term { name: ";", mask: 16, ty: T::C, lit: Some(";") },
];

struct M<const N: usize>;
macro_rules! pool { ($($n:literal)*) => { [$(TypeId::of::<M<$n>>()),*] } }
fn row<A: 'static>() -> Vec<TypeId> {
    macro_rules! r { ($($n:literal)*) => { vec![$(TypeId::of::<(A, M<$n>)>()),*] } }
    r!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39)
}
thread_local! {
    static POOL: Vec<TypeId> = {
        let mut v = pool!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79).to_vec();
        for r in [row::<M<0>>, row::<M<1>>, row::<M<2>>, row::<M<3>>, row::<M<4>>, row::<M<5>>, row::<M<6>>, row::<M<7>>] {
            v.extend(r());
        }
        // process order of the library's tables is the order of TypeIds
        v.sort();
        v
    };
}

/// A family of grammars: `nts` nonterminals, each a sequence or union of 1..=len symbols over
/// `terms` terminals, the empty symbol and the nonterminals.
#[derive(Clone)]
struct Family {
    nts: usize,
    len: usize,
    terms: Vec<usize>,
    eps: bool,
    /// TypeId order: 0 nonterminals first, 1 nonterminals last, reversed
    order: usize,
    per: Vec<(bool, Vec<usize>)>,
}
impl Family {
    fn new(nts: usize, len: usize, terms: &[usize], eps: bool, order: usize) -> Self {
        let k = nts + terms.len() + usize::from(eps);
        let mut per = vec![];
        for l in 1..=len {
            for code in 0..k.pow(l as u32) {
                let mut c = code;
                let syms: Vec<usize> = (0..l)
                    .map(|_| {
                        let s = c % k;
                        c /= k;
                        s
                    })
                    .collect();
                per.push((false, syms.clone()));
                if l > 1 {
                    per.push((true, syms));
                }
            }
        }
        Family { nts, len, terms: terms.to_vec(), eps, order, per }
    }
    fn total(&self) -> u64 {
        (self.per.len() as u64).pow(self.nts as u32)
    }
    fn name(&self) -> String {
        let t: Vec<&str> = self.terms.iter().map(|t| TERMS[*t].name).collect();
        format!("nt{}-len{}-{}{}-o{}", self.nts, self.len, t.join("_"), if self.eps { "_e" } else { "" }, self.order)
    }
    /// Nodes: nonterminals, then terminals, then the empty symbol. `None` if the nonterminals are
    /// not numbered in the order of first use from the root (another case covers that grammar).
    fn decode(&self, mut i: u64) -> Option<Cfg> {
        let p = self.per.len() as u64;
        let mut rules: Vec<&(bool, Vec<usize>)> = vec![];
        for _ in 0..self.nts {
            rules.push(&self.per[(i % p) as usize]);
            i /= p;
        }
        let mut next = 1;
        let mut at = 0;
        while at < next {
            for s in &rules[at].1 {
                if *s < self.nts {
                    if *s > next || *s == next && next == self.nts {
                        return None;
                    }
                    if *s == next {
                        next += 1;
                    }
                }
            }
            at += 1;
        }
        if next != self.nts {
            return None;
        }
        let mut nodes: Vec<Body> = rules.iter().map(|(u, v)| if *u { Body::Union(v.clone()) } else { Body::Seq(v.clone()) }).collect();
        for t in &self.terms {
            nodes.push(Body::Term(TERMS[*t].mask));
        }
        if self.eps {
            nodes.push(Body::Eps);
        }
        Some(Cfg { nodes, root: 0 })
    }
    fn node_name(&self, n: usize) -> String {
        if n < self.nts {
            format!("N{n}")
        } else if n < self.nts + self.terms.len() {
            format!("t:{}", TERMS[self.terms[n - self.nts]].name)
        } else {
            "()".to_string()
        }
    }
    fn show(&self, g: &Cfg) -> String {
        let mut o = vec![];
        for n in 0..self.nts {
            let names: Vec<String> = g.kids(n).iter().map(|k| self.node_name(*k)).collect();
            o.push(format!("N{n} -> {}", names.join(if matches!(g.nodes[n], Body::Union(_)) { " | " } else { " " })));
        }
        o.join(";  ")
    }
    fn id(&self, n: usize, total: usize) -> TypeId {
        POOL.with(|p| match self.order {
            0 => p[n],
            _ => p[total - 1 - n],
        })
    }
}

/// A grammar from its rules over symbol codes: below `n` nonterminals, then the family's terminals
/// and the empty symbol
fn grammar(fam: &Family, rules: Vec<Body>) -> (Family, Cfg) {
    let mut f = fam.clone();
    f.nts = rules.len();
    let mut nodes = rules;
    for t in &f.terms {
        nodes.push(Body::Term(TERMS[*t].mask));
    }
    if f.eps {
        nodes.push(Body::Eps);
    }
    (f, Cfg { nodes, root: 0 })
}

/// The grammars of a family with a chain of `k` productions of one symbol put into every use of a
/// nonterminal: long ways round, long cycles
#[derive(Clone)]
struct Padded {
    base: Family,
    k: usize,
    /// kind of the productions in the chains: sequences, unions, in turn
    mode: usize,
}
impl Padded {
    fn name(&self) -> String {
        format!("chains{}{}-{}", self.k, ["s", "u", "su"][self.mode], self.base.name())
    }
    fn decode(&self, i: u64) -> Option<(Family, Cfg)> {
        let g = self.base.decode(i)?;
        let nts = self.base.nts;
        let edges: usize = (0..nts).map(|x| g.kids(x).iter().filter(|k| **k < nts).count()).sum();
        let shift = edges * self.k;
        let mut pads = vec![];
        let mut rules = vec![];
        for x in 0..nts {
            let mut kid = |s: usize| {
                if s >= nts {
                    return s + shift;
                }
                let mut to = s;
                for j in 0..self.k {
                    let u = self.mode == 1 || self.mode == 2 && j % 2 == 1;
                    pads.push(if u { Body::Union(vec![to]) } else { Body::Seq(vec![to]) });
                    to = nts + pads.len() - 1;
                }
                to
            };
            rules.push(match &g.nodes[x] {
                Body::Seq(v) => Body::Seq(v.iter().map(|s| kid(*s)).collect()),
                Body::Union(v) => Body::Union(v.iter().map(|s| kid(*s)).collect()),
                _ => unreachable!(),
            });
        }
        rules.extend(pads);
        Some(grammar(&self.base, rules))
    }
}

/// One long production in a context
#[derive(Clone)]
struct Long {
    base: Family,
    n: usize,
}
impl Long {
    fn new(n: usize) -> Self {
        Long { base: Family::new(1, 1, &[0, 2, 3, 4], true, 0), n }
    }
    fn name(&self) -> String {
        format!("long{}", self.n)
    }
    fn total(&self) -> u64 {
        6 * 5u64.pow(self.n as u32)
    }
    fn decode(&self, i: u64) -> (Family, Cfg) {
        let (ctx, union, mut c) = (i % 3, i / 3 % 2, i / 6);
        // N0 context, N1 long, N2 x?, N3 y?, N4 ;?
        let (x, num, y, semi, e) = (5, 6, 7, 8, 9);
        let mut v = vec![];
        for _ in 0..self.n {
            v.push([x, num, 2, 3, 4][(c % 5) as usize]);
            c /= 5;
        }
        let top = match ctx {
            0 => Body::Seq(vec![1, semi]),
            1 => Body::Union(vec![1, semi]),
            _ => Body::Seq(vec![3, 1, 2]),
        };
        let long = if union == 1 { Body::Union(v) } else { Body::Seq(v) };
        let opt = |t| Body::Union(vec![t, e]);
        grammar(&self.base, vec![top, long, opt(x), opt(y), opt(semi)])
    }
}

/// Productions that lead into one another step by step
#[derive(Clone)]
struct Ladder {
    base: Family,
    n: usize,
    /// two shapes in turn and another one at the end, instead of every sequence of shapes
    periodic: bool,
}
impl Ladder {
    const SHAPES: u64 = 8;
    fn new(n: usize, order: usize) -> Self {
        Ladder { base: Family::new(1, 1, &[0, 2, 4], true, order), n, periodic: false }
    }
    fn deep(n: usize, order: usize) -> Self {
        Ladder { periodic: true, ..Self::new(n, order) }
    }
    fn name(&self) -> String {
        format!("{}{}-o{}", if self.periodic { "deep" } else { "ladder" }, self.n, self.base.order)
    }
    fn total(&self) -> u64 {
        4 * Self::SHAPES.pow(if self.periodic { 3 } else { self.n as u32 })
    }
    fn decode(&self, i: u64) -> (Family, Cfg) {
        let (end, mut c) = (i % 4, i / 4);
        let n = self.n;
        // N0..n steps, then the bottom, then Num?
        let (bottom, opt) = (n, n + 1);
        let (x, num, semi, e) = (n + 2, n + 3, n + 4, n + 5);
        let mut rules = vec![];
        let turn = [c % Self::SHAPES, c / Self::SHAPES % Self::SHAPES, c / Self::SHAPES.pow(2)];
        for k in 0..n {
            let d = k + 1;
            let shape = match self.periodic {
                true if k == n - 1 => turn[2],
                true => turn[k % 2],
                false => c % Self::SHAPES,
            };
            rules.push(match shape {
                0 => Body::Seq(vec![d]),
                1 => Body::Seq(vec![d, x]),
                2 => Body::Seq(vec![num, d]),
                3 => Body::Seq(vec![opt, d]),
                4 => Body::Seq(vec![d, opt]),
                5 => Body::Union(vec![d, semi]),
                6 => Body::Union(vec![e, d]),
                _ => Body::Seq(vec![d, opt, semi]),
            });
            c /= Self::SHAPES;
        }
        debug_assert_eq!(rules.len(), bottom);
        rules.push(match end {
            0 => Body::Seq(vec![x]),
            1 => Body::Union(vec![x, e]),
            2 => Body::Seq(vec![opt, 0]),
            _ => Body::Union(vec![x, n / 2]),
        });
        rules.push(Body::Union(vec![num, e]));
        grammar(&self.base, rules)
    }
}

/// Productions with many alternatives or elements, any two of which may begin alike
#[derive(Clone)]
struct Wide {
    n: usize,
    order: usize,
}
impl Wide {
    const SHAPES: u64 = 6;
    fn name(&self) -> String {
        format!("wide{}-o{}", self.n, self.order)
    }
    fn total(&self) -> u64 {
        Self::SHAPES * (self.n * self.n) as u64
    }
    fn decode(&self, i: u64) -> Option<(Family, Cfg)> {
        let n = self.n;
        let (shape, c) = (i % Self::SHAPES, (i / Self::SHAPES) as usize);
        let (a, b) = (c / n, c % n);
        if a > b {
            return None;
        }
        let mut base = Family::new(1, 1, &[], true, self.order);
        base.terms = (FEW..FEW + n).collect();
        base.terms.extend([1, 2]);
        // the b-th literal is the a-th one, or any content, or all differ
        let pick = |k: usize| match (k == b, a == b) {
            (true, false) => a,
            (true, true) if k > 0 => n,
            _ => k,
        };
        // symbols after the nonterminals: n literals, any, number, empty
        let build = |rules: &dyn Fn(&dyn Fn(usize) -> usize, usize, usize) -> Vec<Body>| {
            let nts = rules(&|k| k, 0, 0).len();
            rules(&|k| nts + pick(k), nts + n + 1, nts + n + 2)
        };
        let rules = match shape {
            0 => build(&|t, _, _| vec![Body::Union((0..n).map(t).collect())]),
            1 => build(&|t, num, _| {
                let mut v = vec![Body::Union((1..=n).collect())];
                v.extend((0..n).map(|k| Body::Seq(vec![t(k), num])));
                v
            }),
            2 => build(&|t, num, e| {
                let mut v = vec![Body::Seq(vec![1, num]), Body::Seq((2..n + 2).collect())];
                v.extend((0..n).map(|k| Body::Union(vec![t(k), e])));
                v
            }),
            // one or more of many, before the first of them or a number
            3 | 4 => build(&|t, num, e| {
                vec![
                    Body::Seq(vec![1, if shape == 3 { num } else { t(0) }]),
                    Body::Seq(vec![3, 2]),
                    Body::Union(vec![1, e]),
                    Body::Union((usize::from(shape == 4)..n).map(t).collect()),
                ]
            }),
            // an alternative that can be empty
            _ => build(&|t, num, e| {
                let mut v: Vec<usize> = (0..n - 1).map(t).collect();
                v.insert(b.min(n - 1), e);
                vec![Body::Seq(vec![1, if a % 2 == 0 { num } else { t(n - 1) }]), Body::Union(v)]
            }),
        };
        let (f, mut g) = grammar(&base, rules);
        let any = f.nts + n;
        let all = (0..FEW + MANY).filter(|c| CLASSES[*c].0 == T::A).fold(0, |m, c| m | 1 << c);
        g.nodes[any] = Body::Term(all);
        Some((f, g))
    }
}

struct Built {
    first: First<T>,
    follow: Follow<T>,
    meta: Result<Metadata<T>, GrammarError>,
}

fn fill(f: &Family, g: &Cfg, b: &mut MetadataBuilder<T>, fb: Option<&mut FollowBuilder<T>>) {
    let n = g.nodes.len();
    let ids: Vec<TypeId> = (0..n).map(|i| f.id(i, n)).collect();
    let reach = g.reachable();
    if let Some(fb) = fb {
        for i in 0..n {
            if !reach[i] {
                continue;
            }
            let kids: Vec<TypeId> = g.kids(i).iter().map(|k| ids[*k]).collect();
            match &g.nodes[i] {
                Body::Seq(_) => fb.build_sequence(ids[i], &kids),
                Body::Union(_) => fb.build_union(ids[i], &kids),
                _ => {}
            }
        }
        return;
    }
    // depth-first from the root, as `register` does
    fn go(f: &Family, g: &Cfg, ids: &[TypeId], n: usize, b: &mut MetadataBuilder<T>) {
        // productions of several modules may have one name
        if !b.visit(ids[n], || if dynn::SAME_NAMES.with(|s| s.get()) { "n".to_string() } else { f.node_name(n) }) {
            return;
        }
        let kids: Vec<TypeId> = g.kids(n).iter().map(|k| ids[*k]).collect();
        match &g.nodes[n] {
            Body::Seq(_) => b.add_sequence(ids[n], &kids),
            Body::Union(_) => b.add_union(ids[n], &kids),
            Body::Eps => b.add_epsilon(ids[n]),
            Body::Term(_) => {
                let t = &TERMS[f.terms[n - f.nts]];
                b.add_terminal(ids[n], t.ty, t.lit)
            }
        }
        for k in g.kids(n) {
            go(f, g, ids, *k, b);
        }
    }
    go(f, g, &ids, g.root, b);
}

fn build(f: &Family, g: &Cfg) -> Built {
    let mut b = MetadataBuilder::new();
    fill(f, g, &mut b, None);
    let first = b.first_builder.build();
    let mut fb = FollowBuilder::new(&first);
    fill(f, g, &mut MetadataBuilder::new(), Some(&mut fb));
    let n = g.nodes.len();
    let follow = fb.build(f.id(g.root, n));
    let mut b = MetadataBuilder::new();
    fill(f, g, &mut b, None);
    let meta = b.build(f.id(g.root, n));
    Built { first, follow, meta }
}

fn src(c: usize) -> Option<TokenSrc<'static, T>> {
    Some(TokenSrc::new(CLASSES[c].0, CLASSES[c].1))
}
fn first_mask(s: &FirstSet<T>) -> (Mask, bool) {
    let m = (0..classes()).filter(|c| s.contains(src(*c))).fold(0, |m, c| m | 1 << c);
    (m, s.contains_epsilon())
}
fn follow_mask(s: &FollowSet<T>) -> Mask {
    let m = (0..classes()).filter(|c| s.contains(src(*c))).fold(0, |m, c| m | 1 << c);
    m | if s.contains_eof() { EOF } else { 0 }
}
fn show_mask(m: Mask) -> String {
    let mut o: Vec<String> = (0..classes()).filter(|c| m >> c & 1 == 1).map(|c| format!("{:?}:{}", CLASSES[c].0, CLASSES[c].1)).collect();
    if m & EOF != 0 {
        o.push("EOF".into());
    }
    format!("{{{}}}", o.join(" "))
}

/// Mask a terminal printed in an error can stand for: a quoted literal or the name of a type
fn repr_mask(s: &str) -> Option<Mask> {
    if let Some(l) = s.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
        let c = CLASSES.iter().position(|c| c.1 == l)?;
        return Some(1 << c);
    }
    let m = CLASSES[..classes()].iter().enumerate().filter(|(_, c)| format!("{:?}", c.0) == s).fold(0, |m, (i, _)| m | 1 << i);
    (m != 0).then_some(m)
}
/// (mask, "<empty>" listed) or None if not understood
fn terms_mask(s: &str) -> Option<(Mask, bool)> {
    let mut m = 0;
    let mut e = false;
    for t in s.split(", ") {
        if t == "<empty>" {
            e = true;
        } else {
            m |= repr_mask(t)?;
        }
    }
    Some((m, e))
}

/// Does the reported conflict really exist? `Err(why not)`
fn truthful(f: &Family, g: &Cfg, inf: &Info, e: &GrammarError) -> Result<(), String> {
    let by_name = |s: &str| (0..g.nodes.len()).filter(|n| inf.reach[*n] && f.node_name(*n) == s).collect::<Vec<_>>();
    match e {
        GrammarError::FirstFirstConflict(node, a, b, terms) => {
            let (m, emp) = terms_mask(terms).ok_or("terminals not understood")?;
            for x in by_name(node) {
                if let Body::Union(v) = &g.nodes[x] {
                    for j in 0..v.len() {
                        for i in 0..j {
                            let (na, nb) = (f.node_name(v[i]), f.node_name(v[j]));
                            if !(na == *a && nb == *b || na == *b && nb == *a) {
                                continue;
                            }
                            let inter = inf.first[v[i]] & inf.first[v[j]];
                            let both = inf.nullable[v[i]] && inf.nullable[v[j]];
                            if m & !inter == 0 && (!emp || both) && (m != 0 || emp) {
                                return Ok(());
                            }
                        }
                    }
                }
            }
            Err("no such pair of alternatives shares these terminals".into())
        }
        GrammarError::FirstFollowSeqConflict(node, a, b, terms) => {
            let (m, emp) = terms_mask(terms).ok_or("terminals not understood")?;
            for x in by_name(node) {
                if let Body::Seq(v) = &g.nodes[x] {
                    for j in 0..v.len() {
                        if f.node_name(v[j]) != *b {
                            continue;
                        }
                        for i in 0..j {
                            if f.node_name(v[i]) != *a || !v[i..j].iter().all(|k| inf.nullable[*k]) {
                                continue;
                            }
                            // terminals of `a` (and of what is between) that also start `b`
                            let inter = v[i..j].iter().fold(0, |m, k| m | inf.first[*k]) & inf.first[v[j]];
                            let own = inf.first[v[i]] & inf.first[v[j]];
                            if !emp && m != 0 && m & !inter == 0 && m & own != 0 {
                                return Ok(());
                            }
                        }
                    }
                }
            }
            Err("no such pair of elements, the first possibly empty, shares these terminals".into())
        }
        GrammarError::FirstFollowConflict(node, terms) => {
            let (m, emp) = terms_mask(terms).ok_or("terminals not understood")?;
            for x in by_name(node) {
                if inf.nullable[x] && !emp && m != 0 && m & !(inf.first[x] & inf.follow[x]) == 0 {
                    return Ok(());
                }
            }
            Err("the production cannot be empty or these terminals are not both in FIRST and FOLLOW".into())
        }
        GrammarError::LeftRecursion(stack) => {
            let names: Vec<&str> = stack.split(" -> ").collect();
            if names.len() < 2 {
                return Err("stack too short".into());
            }
            let mut ids = vec![];
            for n in &names {
                let v = by_name(n);
                if v.len() != 1 {
                    return Err(format!("unknown production {n}"));
                }
                ids.push(v[0]);
            }
            for w in ids.windows(2) {
                if !g.left_edges(w[0], &inf.nullable).contains(&w[1]) {
                    return Err(format!("{} does not start with {}", f.node_name(w[0]), f.node_name(w[1])));
                }
            }
            let last = ids[ids.len() - 1];
            if !ids[..ids.len() - 1].contains(&last) {
                return Err("the stack is not a cycle".into());
            }
            Ok(())
        }
    }
}

/// Violations of `prop` on one grammar
fn check(prop: &str, f: &Family, g: &Cfg, ctx: &mut Ctx) {
    let inf = g.analyse();
    let n = g.nodes.len();
    WIDE.with(|w| w.set(f.terms.iter().any(|t| *t >= FEW)));
    // P04 and P05 read names out of errors
    dynn::SAME_NAMES.with(|s| s.set(!matches!(prop, "P04" | "P05")));
    let Some(b) = ctx.sut(|| build(f, g)) else {
        let t = format!("{}\n{}", f.show(g), ctx.panic_text());
        ctx.fail(f.show(g), t);
        return;
    };
    let conflicts = g.conflicts(&inf);
    let leftrec = g.left_recursive(&inf);
    let mut bad: Vec<String> = vec![];
    let mut evals = 0;
    match prop {
        "P02" => {
            for x in 0..n {
                if !inf.reach[x] {
                    continue;
                }
                let want = (inf.first[x], inf.nullable[x]);
                let mut got = vec![first_mask(b.first.get(&f.id(x, n)))];
                if let Ok(m) = &b.meta {
                    got.push(first_mask(m.first.get(&f.id(x, n))));
                }
                evals += 1;
                ctx.distinct("nontrivial", &(&g.nodes[x], want));
                for got in got {
                    if got != want {
                        bad.push(format!(
                            "FIRST({}) is {}{}, should be {}{}",
                            f.node_name(x), show_mask(got.0), if got.1 { "+empty" } else { "" }, show_mask(want.0), if want.1 { "+empty" } else { "" }
                        ));
                    }
                }
            }
        }
        "P03" => {
            for x in 0..n {
                if !inf.reach[x] {
                    continue;
                }
                let want = inf.follow[x];
                let mut got = vec![follow_mask(b.follow.get(&f.id(x, n)))];
                if let Ok(m) = &b.meta {
                    got.push(follow_mask(m.follow.get(&f.id(x, n))));
                }
                evals += 1;
                ctx.distinct("nontrivial", &(&g.nodes[x], want));
                for got in got {
                    if got != want {
                        bad.push(format!("FOLLOW({}) is {}, should be {}", f.node_name(x), show_mask(got), show_mask(want)));
                    }
                }
            }
        }
        "P04" => {
            evals += 1;
            match &b.meta {
                Ok(_) => {
                    ctx.count("accepted", 1);
                    if let Some(c) = conflicts.first() {
                        bad.push(format!("accepted, but it is not LL(1): {c:?}"));
                    }
                    ctx.distinct("nontrivial", &(&g.nodes, 0));
                }
                Err(e) => {
                    ctx.count("rejected", 1);
                    if conflicts.is_empty() && !leftrec {
                        bad.push(format!("rejected, but it is LL(1): {e}"));
                    } else if !matches!(e, GrammarError::LeftRecursion(_)) {
                        if let Err(why) = truthful(f, g, &inf, e) {
                            bad.push(format!("the error is not true: {e}\n  because {why}"));
                        }
                    }
                    ctx.distinct("nontrivial", &(e.to_string(), conflicts.len()));
                }
            }
        }
        "P05" => {
            evals += 1;
            match &b.meta {
                Ok(_) => {
                    if leftrec {
                        bad.push("accepted, but it is left-recursive".into());
                    }
                }
                Err(e @ GrammarError::LeftRecursion(_)) => {
                    ctx.count("left_recursion_reported", 1);
                    if !leftrec {
                        bad.push(format!("not left-recursive, but: {e}"));
                    } else if let Err(why) = truthful(f, g, &inf, e) {
                        bad.push(format!("the stack is not real: {e}\n  because {why}"));
                    }
                }
                Err(_) => {}
            }
            if leftrec {
                ctx.count("left_recursive", 1);
                ctx.distinct("nontrivial", &g.nodes);
            }
        }
        "P06" => {
            let Ok(meta) = &b.meta else { return };
            for x in 0..n {
                if !inf.reach[x] {
                    continue;
                }
                let Body::Union(alts) = &g.nodes[x] else { continue };
                for c in 0..=classes() {
                    let (tok, bit) = if c < classes() { (src(c), 1 << c) } else { (None, EOF) };
                    let starts = alts.iter().position(|a| inf.first[*a] & bit != 0);
                    let empty = alts.iter().position(|a| inf.nullable[*a]);
                    let want = if bit != EOF && starts.is_some() {
                        starts
                    } else if inf.follow[x] & bit != 0 && empty.is_some() {
                        empty
                    } else if bit == EOF && empty.is_some() {
                        // the end of input cannot follow: either answer leads to the same error
                        continue;
                    } else {
                        None
                    };
                    ctx.distinct("nontrivial", &(&g.nodes, x, c));
                    for like in if c == 2 { OTHERS } else { &OTHERS[..1] } {
                        let tok = if c == 2 { Some(TokenSrc::new(T::A, *like)) } else { tok };
                        let got = ctx.sut(|| meta.jump.look_up(&f.id(x, n), tok));
                        evals += 1;
                        if got != Some(want) {
                            bad.push(format!("{} with next {}: predicted {got:?}, should be {want:?}", f.node_name(x), tok.map(|t| t.src.to_string()).unwrap_or("end".into())));
                        }
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    ctx.count("evaluations", evals);
    ctx.sample(if b.meta.is_ok() { "accepted" } else { "rejected" }, || {
        format!("{}  =>  {}", f.show(g), match &b.meta { Ok(_) => "accepted".to_string(), Err(e) => e.to_string() })
    });
    if !bad.is_empty() {
        let key = format!("{}:{}", f.name(), f.show(g));
        ctx.fail(key, format!("grammar: {}\n{}", f.show(g), bad.join("\n")));
    }
}

/// Grammars made of the real derived and library nodes, described by their documented productions
/// Is the stack of a left-recursion error a walk along left edges that comes back to where it was? Names
/// can be shared, and productions inside library nodes have names of the library's choosing.
fn check_stack(m: &dynn::Model, stack: &str) -> Result<(), String> {
    let n = m.g.nodes.len();
    let mut named: Vec<Option<Vec<String>>> = vec![None; n];
    for (i, (name, _, _)) in dynn::TERMS.iter().enumerate() {
        named[i] = Some(vec![name.to_string()]);
    }
    for e in 0..m.t.n as u8 {
        if !m.t.kind[e as usize].transparent() {
            named[m.node(e)].get_or_insert_default().push(dynn::entry_name(e));
        }
    }
    let names: Vec<&str> = stack.split(" -> ").collect();
    if names.len() < 2 {
        return Err("the stack is too short".into());
    }
    let fits = |x: usize, k: usize| match &named[x] {
        Some(v) => v.iter().any(|y| y == names[k]),
        None => true,
    };
    // left edges, also across productions inside library nodes
    let mut left: Vec<BTreeSet<usize>> = (0..n).map(|x| m.g.left_edges(x, &m.inf.nullable).into_iter().collect()).collect();
    for _ in 0..n {
        for x in 0..n {
            for y in left[x].clone() {
                if named[y].is_none() {
                    let more = left[y].clone();
                    left[x].extend(more);
                }
            }
        }
    }
    let last = names.len() - 1;
    for i in (0..last).filter(|i| names[*i] == names[last]) {
        for x in (0..n).filter(|x| fits(*x, i)) {
            // to the node where the cycle starts, then around
            let mut at: BTreeSet<usize> = (0..n).filter(|x| fits(*x, 0)).collect();
            for k in 0..=last {
                if k > 0 {
                    at = at.iter().flat_map(|y| left[*y].iter().copied()).filter(|y| fits(*y, k)).collect();
                }
                if k == i || k == last {
                    at.retain(|y| *y == x);
                }
            }
            if !at.is_empty() {
                return Ok(());
            }
        }
    }
    Err(format!("{stack} is not a cycle of productions that start with one another"))
}

/// Every way to use a grammar reports what its metadata says
fn entry_points(err: Option<&GrammarError>, ctx: &mut Ctx) -> Vec<String> {
    use dynn::*;
    use teleparse::parser::Root;
    type R = D<ROOT0>;
    let want = err.map(|e| e.to_string());
    let mut bad = vec![];
    let mut see = |name: &str, got: Option<Option<String>>| match got {
        Some(got) if got == want => {}
        Some(got) => bad.push(format!("{name} gives {got:?}; the grammar's error is {want:?}")),
        None => bad.push(format!("{name} panics")),
    };
    for src in ["", ";", "?k"] {
        let got = ctx.sut(|| R::parse(src).err().map(|e| e.to_string()));
        see(&format!("Root::parse({src:?})"), got);
        let got = ctx.sut(|| {
            let mut p = teleparse::Parser::new(src).map_err(|e| e.to_string()).ok()?;
            let a = p.parse::<R>().err().map(|e| e.to_string());
            let b = p.parse::<R>().err().map(|e| e.to_string());
            Some((a, b))
        });
        for g in [got.clone().map(|g| g.and_then(|g| g.0)), got.map(|g| g.and_then(|g| g.1))] {
            see(&format!("Parser::parse({src:?})"), g);
        }
    }
    let got = match ctx.sut(R::assert_ll1) {
        Some(()) => None,
        None => {
            let text = ctx.panic_text();
            match &want {
                Some(w) if text.contains(w.as_str()) => Some(w.clone()),
                _ => Some(text),
            }
        }
    };
    see("assert_ll1", Some(got));
    ctx.count("entry_points", 10);
    bad
}

fn check_nodes(prop: &str, t: &dynn::Table, ctx: &mut Ctx) {
    use dynn::*;
    let m = Model::new(t, 0);
    if prop != "P05" && !m.productive() {
        return;
    }
    SAME_NAMES.with(|s| s.set(prop != "P05"));
    let Some(meta) = ctx.sut(|| {
        set_table(t);
        <D<ROOT0> as teleparse::parser::Root>::metadata()
    }) else {
        let text = format!("grammar: {}\n{}", t.show(), ctx.panic_text());
        ctx.fail(t.show(), text);
        return;
    };
    let leftrec = m.g.left_recursive(&m.inf);
    let conflicts = m.g.conflicts(&m.inf);
    let mut bad = vec![];
    let mut evals = 0;
    let show = |m: Mask| -> String {
        (0..dynn::CLASSES.len()).filter(|c| m >> c & 1 == 1).map(|c| dynn::CLASSES[c].0.to_string()).chain((m & EOF != 0).then(|| "end".to_string())).collect::<Vec<_>>().join(" ")
    };
    match (prop, meta) {
        ("P02", Ok(meta)) => {
            for e in 0..t.n {
                evals += 1;
                let e = e as u8;
                let want = (m.first(e), m.nullable(e));
                let got = first_of(meta, e);
                if got != want {
                    bad.push(format!("FIRST(e{e}) is {}, empty {}; should be {}, empty {}", show(got.0), got.1, show(want.0), want.1));
                }
            }
        }
        ("P03", Ok(meta)) => {
            for e in 0..t.n {
                evals += 1;
                let e = e as u8;
                let (got, want) = (follow_of(meta, e), m.follow(e));
                if got != want {
                    bad.push(format!("FOLLOW(e{e}) is {}; should be {}", show(got), show(want)));
                }
            }
        }
        ("P04", Ok(_)) if !conflicts.is_empty() => bad.push(format!("accepted, but it is not LL(1): {:?}", conflicts[0])),
        ("P04", Err(e)) if conflicts.is_empty() && !leftrec => bad.push(format!("rejected, but it is LL(1): {e}")),
        ("P05", Ok(_)) if leftrec => bad.push("accepted, but it is left-recursive".to_string()),
        ("P05", Err(e @ GrammarError::LeftRecursion(_))) if !leftrec => bad.push(format!("not left-recursive, but: {e}")),
        ("P05", Err(GrammarError::LeftRecursion(s))) => {
            ctx.count("stacks", 1);
            if let Err(e) = check_stack(&m, s) {
                bad.push(e);
            }
        }
        _ => {}
    }
    if matches!(prop, "P04" | "P05") {
        evals += 1;
    }
    if prop == "P04" && (meta.is_err() || ctx.case % 4 == 0) {
        bad.extend(entry_points(meta.as_ref().err(), ctx));
    }
    ctx.count("evaluations", evals);
    if !bad.is_empty() {
        ctx.fail(t.show(), format!("grammar: {}\n{}", t.show(), bad.join("\n")));
    }
}

fn build_check(prop: &str, thorough: bool) -> Option<Check> {
    let prop: &'static str = ["P02", "P03", "P04", "P05", "P06"].into_iter().find(|p| *p == prop)?;
    let mut fams = vec![
        Family::new(1, 3, &[0, 1, 2, 3, 4], true, 0),
        Family::new(2, 3, &[0, 1, 2], true, 0),
        Family::new(2, 3, &[0, 2], true, 1),
        Family::new(3, 2, &[0, 1, 2], true, 0),
        Family::new(3, 2, &[0, 2], true, 1),
        Family::new(4, 2, &[0], true, 0),
        Family::new(1, 5, &[0, 1, 2], true, 0),
    ];
    if thorough {
        fams.push(Family::new(2, 3, &[0, 1, 2, 3], true, 1));
        fams.push(Family::new(3, 2, &[0, 1, 2, 3, 4], true, 1));
        fams.push(Family::new(3, 3, &[0], true, 0));
        fams.push(Family::new(4, 2, &[0, 2], true, 1));
    }
    let jobs = fams
        .into_iter()
        .map(|f| {
            let f = Rc::new(f);
            let f2 = f.clone();
            Job::new(
                f.name(),
                f.total(),
                move |i, ctx| {
                    if let Some(g) = f.decode(i) {
                        ctx.count("grammars", 1);
                        check(prop, &f, &g, ctx)
                    }
                },
                move |i, _| f2.decode(i).map(|g| f2.show(&g)).unwrap_or("not canonical".into()),
            )
        })
        .collect();
    let rule = match prop {
        "P02" => "evaluations: FIRST sets compared; distinct: (production body, expected set)",
        "P03" => "evaluations: FOLLOW sets compared; distinct: (production body, expected set)",
        "P04" => "evaluations: grammars judged; distinct: accepted grammars plus distinct errors",
        "P05" => "evaluations: grammars judged; distinct: left-recursive grammars",
        _ => "evaluations: (production with alternatives, next token or end) looked up; distinct: all of them are",
    };
    let mut jobs: Vec<Job> = jobs;
    let mut more: Vec<(String, u64, Rc<dyn Fn(u64) -> Option<(Family, Cfg)>>)> = vec![];
    for (k, mode, base) in [
        (1, 0, Family::new(2, 3, &[0], true, 0)),
        (3, 1, Family::new(2, 2, &[0, 1, 2], true, 0)),
        (3, 2, Family::new(3, 2, &[0], false, 1)),
        (9, 2, Family::new(2, 2, &[0, 1, 2], true, 1)),
        (12, 0, Family::new(2, 2, &[0, 2], true, 0)),
    ]
    .into_iter()
    .chain(thorough.then(|| (2, 2, Family::new(2, 3, &[0, 2], true, 0))))
    .chain(thorough.then(|| (3, 2, Family::new(3, 2, &[0, 2], true, 0))))
    {
        let p = Padded { base, k, mode };
        more.push((p.name(), p.base.total(), Rc::new(move |i| p.decode(i))));
    }
    for n in 4..=if thorough { 8 } else { 6 } {
        let l = Long::new(n);
        more.push((l.name(), l.total(), Rc::new(move |i| Some(l.decode(i)))));
    }
    for (n, o) in [(4, 1), (5, 0)].into_iter().chain(thorough.then_some((6, 1))).chain(thorough.then_some((7, 0))) {
        let l = Ladder::new(n, o);
        more.push((l.name(), l.total(), Rc::new(move |i| Some(l.decode(i)))));
    }
    for (n, o) in [(60, 0), (60, 1), (120, 1)].into_iter().chain(thorough.then_some((200, 0))).chain(thorough.then_some((360, 1))) {
        let l = Ladder::deep(n, o);
        more.push((l.name(), l.total(), Rc::new(move |i| Some(l.decode(i)))));
    }
    for (n, o) in [(10, 0), (17, 0), (34, 1)].into_iter().chain(thorough.then_some((24, 1))).chain(thorough.then_some((48, 0))) {
        let w = Wide { n, order: o };
        more.push((w.name(), w.total(), Rc::new(move |i| w.decode(i))));
    }
    for (name, total, decode) in more {
        let d2 = decode.clone();
        jobs.push(Job::new(
            name,
            total,
            move |i, ctx| {
                if let Some((f, g)) = decode(i) {
                    ctx.count("grammars", 1);
                    check(prop, &f, &g, ctx)
                }
            },
            move |i, _| d2(i).map(|(f, g)| f.show(&g)).unwrap_or("not canonical".into()),
        ));
    }
    if prop != "P06" {
        use dynn::{Fam, K};
        let mut nodes = vec![
            Fam::new("nodes1", &[(&K::ALL, &[0, 10, 11, 12, 13, 15])], 3, 0),
            Fam::new("wide", &[(&[K::S4, K::N4, K::T4, K::E4, K::S5, K::N5, K::T5, K::E5], &[1, 0, 11, 12, 15]), (&[K::Opt, K::E2, K::Vec], &[0, 10, 13])], 7, 0),
            Fam::new("nodes2", &[(&K::ALL, &[0, 1, 10, 12]), (&K::ALL, &[0, 1, 10, 11, 12])], if thorough { 5 } else { 4 }, 0),
        ];
        if thorough {
            let l = &[K::Opt, K::Nev, K::Vec, K::Loop, K::Split, K::Punct, K::Recover, K::S2, K::E2];
            nodes.push(Fam::new("nodes3", &[(l, &[0, 1, 2, 12]), (l, &[0, 1, 2, 10]), (l, &[0, 1, 10, 12])], 6, 0));
        }
        for f in nodes {
            let f = Rc::new(f);
            let f2 = f.clone();
            jobs.push(Job::new(
                f.name.clone(),
                f.total(),
                move |i, ctx| {
                    if let Some(t) = f.decode(i) {
                        ctx.count("grammars", 1);
                        check_nodes(prop, &t, ctx)
                    }
                },
                move |i, _| f2.decode(i).map(|t| t.show()).unwrap_or("not canonical".into()),
            ));
        }
    }
    if prop == "P04" {
        jobs.extend(names::jobs());
    }
    Some(Check {
        prop,
        level: "exploration",
        rule: format!("every grammar of each family ntN-lenL-terminals (N nonterminals, each a sequence or union of 1..L symbols over the terminals, the empty symbol and the nonterminals, all used from the root, numbered in order of first use), the same with chains of productions in every use of a nonterminal (chainsK), one long production of N parts in three contexts (longN), productions of eight shapes leading into one another N deep (ladderN), two shapes in turn N deep with any third at the bottom (deepN), N alternatives or elements with distinct literals, any one replaced by another of them or by any content (wideN), and every table of real library nodes; P04 also the name of every composition of library nodes from three lists, read as an expression and compared with what the node matches on all words of up to four; {rule}"),
        assumptions: vec!["small scope: grammars beyond the families are not explored".into(), "token classes x, X, other words, 7, ; represent all tokens the terminals can distinguish".into()],
        jobs,
        cap_s: if thorough { 840 } else { 400 },
        hang_s: 20,
        workers: 0,
    })
}

fn main() {
    mc::main(build_check)
}
