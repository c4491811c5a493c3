//! DYN: grammars chosen at run time over the real node types. `D<SLOT>` is a node whose target (a
//! terminal or an entry) is looked up in the current table; entry `e` has three child slots and a
//! kind, which selects one of the real derived / library node types over these slots.
#![allow(dead_code)]
use mc::cfg::*;
use std::any::TypeId;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use teleparse::lex::TokenSrc;
use teleparse::parser::{Parser, Produce, Root};
use teleparse::prelude::*;
use teleparse::syntax::{ErrorKind, FirstSet, Metadata, MetadataBuilder, Production, Result as Syn};
use teleparse::GrammarError;

pub mod lx {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(r"[ \n]+"))]
    pub enum T {
        #[teleparse(regex("[a-zA-ZéÉ]+"), terminal(Id, Kw = "ké"))]
        Word,
        #[teleparse(terminal(Semi = ";", Comma = ",", Dot = "."))]
        Punc,
        #[teleparse(regex("[0-9]+"), terminal(Num))]
        Num,
        /// set aside
        #[teleparse(regex("#[a-z]*#"))]
        Cmt,
        /// semantic only
        S1,
        S2,
    }
}
use lx::*;

/// Token classes: source text and token type
pub const CLASSES: [(&str, T); 6] =
    [("kék", T::Word), ("ké", T::Word), (";", T::Punc), (",", T::Punc), (".", T::Punc), ("1", T::Num)];
/// The text of the i-th token of an input: words other than the literal extend it at both ends, are
/// part of it, are as long, or differ in case
pub fn text(c: usize, i: usize) -> &'static str {
    if c == 0 {
        ["kék", "k", "Ké", "kab", "kÉ"][i % 5]
    } else {
        CLASSES[c].0
    }
}
/// Terminals (targets 10..16): name, classes, literal
pub const TERMS: [(&str, Mask, bool); 6] = [
    ("Id", 3, false), ("Kw", 2, true), ("Semi", 4, true), ("Comma", 8, true), ("Dot", 16, true), ("Num", 32, false),
];
pub const LEAF: u8 = 10;
pub const ID: u8 = 10;
pub const KW: u8 = 11;
pub const SEMI: u8 = 12;
pub const COMMA: u8 = 13;
pub const DOT: u8 = 14;
pub const NUM: u8 = 15;

pub const ENTRIES: usize = 4;
pub const SLOTS: usize = 5;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum K {
    S1, S2, N2, S3, N3, T2, T3, E2, E3,
    Opt, Exists, Nev, NevD, Vec, VecD, Loop,
    Split, Punct, Recover,
    Quote, Parse, Bx,
    /// with semantic attributes
    M1, M2, M3, ME2,
    /// wide
    S4, N4, T4, E4, S5, N5, T5, E5, M4, ME4,
}
impl K {
    pub const ALL: [K; 26] = [
        K::S1, K::S2, K::N2, K::S3, K::N3, K::T2, K::T3, K::E2, K::E3, K::Opt, K::Exists, K::Nev, K::NevD, K::Vec, K::VecD,
        K::Loop, K::Split, K::Punct, K::Recover, K::Quote, K::Parse, K::Bx, K::M1, K::M2, K::M3, K::ME2,
    ];
    pub fn arity(self) -> usize {
        match self {
            K::S2 | K::N2 | K::T2 | K::E2 | K::Split | K::Punct | K::Recover | K::M2 | K::ME2 => 2,
            K::S3 | K::N3 | K::T3 | K::E3 | K::M3 => 3,
            K::S4 | K::N4 | K::T4 | K::E4 | K::M4 | K::ME4 => 4,
            K::S5 | K::N5 | K::T5 | K::E5 => 5,
            _ => 1,
        }
    }
    pub fn transparent(self) -> bool {
        matches!(self, K::Quote | K::Parse | K::Bx)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Table {
    pub n: usize,
    pub kind: [K; ENTRIES],
    pub kid: [[u8; SLOTS]; ENTRIES],
    /// targets of the two roots
    pub root: [u8; 2],
}
impl Table {
    pub fn new(es: &[(K, &[u8])]) -> Table {
        let mut t = Table { n: es.len(), kind: [K::S1; ENTRIES], kid: [[LEAF; SLOTS]; ENTRIES], root: [0, 0] };
        for (i, (k, c)) in es.iter().enumerate() {
            t.kind[i] = *k;
            t.kid[i][..c.len()].copy_from_slice(c);
        }
        t
    }
    pub fn kids(&self, e: usize) -> &[u8] {
        &self.kid[e][..self.kind[e].arity()]
    }
    pub fn show(&self) -> String {
        let nm = |t: u8| if t >= LEAF { TERMS[(t - LEAF) as usize].0.to_string() } else { format!("e{t}") };
        let mut o = vec![];
        for e in 0..self.n {
            let k: Vec<String> = self.kids(e).iter().map(|t| nm(*t)).collect();
            o.push(format!("e{e} = {:?}<{}>", self.kind[e], k.join(", ")));
        }
        if self.root != [0, 0] {
            o.push(format!("roots {} {}", nm(self.root[0]), nm(self.root[1])));
        }
        o.join("; ")
    }
    /// Can ids and debug names be computed (no cycle through transparent nodes only)?
    pub fn well_formed(&self) -> bool {
        for e in 0..self.n {
            let mut at = e as u8;
            let mut steps = 0;
            while at < LEAF && self.kind[at as usize].transparent() {
                at = self.kid[at as usize][0];
                steps += 1;
                if steps > ENTRIES {
                    return false;
                }
            }
        }
        true
    }
    /// Entries numbered in order of first use from root 0, all of them used
    pub fn canonical(&self) -> bool {
        let mut next = 1;
        let mut at = 0;
        while at < next {
            for t in self.kids(at) {
                if *t < LEAF {
                    let t = *t as usize;
                    if t > next {
                        return false;
                    }
                    if t == next {
                        next += 1;
                    }
                }
            }
            at += 1;
        }
        next == self.n
    }
}

/// A family of tables: per entry the kinds and the targets of its slots
pub struct Fam {
    pub name: String,
    targets: Vec<Vec<u8>>,
    /// roots to use: (second root target) or none
    second: Option<u8>,
    pub len: usize,
    combos: Vec<Vec<K>>,
    /// cumulative end of each combo
    ends: Vec<u64>,
}
impl Fam {
    pub fn new(name: &str, entries: &[(&[K], &[u8])], max_arity: usize, len: usize) -> Fam {
        let kinds: Vec<Vec<K>> = entries.iter().map(|e| e.0.to_vec()).collect();
        let targets: Vec<Vec<u8>> = entries.iter().map(|e| e.1.to_vec()).collect();
        let mut combos: Vec<Vec<K>> = vec![vec![]];
        for k in &kinds {
            combos = combos.into_iter().flat_map(|c| k.iter().map(move |x| { let mut c = c.clone(); c.push(*x); c })).collect();
        }
        combos.retain(|c| c.iter().map(|k| k.arity()).sum::<usize>() <= max_arity);
        let mut ends = vec![];
        let mut at = 0u64;
        for c in &combos {
            let n: u64 = c.iter().zip(&targets).map(|(k, t)| (t.len() as u64).pow(k.arity() as u32)).product();
            at += n;
            ends.push(at);
        }
        Fam { name: name.into(), targets, second: None, len, combos, ends }
    }
    pub fn second(mut self, t: u8) -> Fam {
        self.second = Some(t);
        self
    }
    pub fn total(&self) -> u64 {
        self.ends.last().copied().unwrap_or(0)
    }
    pub fn decode(&self, i: u64) -> Option<Table> {
        let c = self.ends.partition_point(|e| *e <= i);
        let mut r = if c == 0 { i } else { i - self.ends[c - 1] };
        let ks = &self.combos[c];
        let mut t = Table { n: ks.len(), kind: [K::S1; ENTRIES], kid: [[LEAF; SLOTS]; ENTRIES], root: [0, 0] };
        for e in 0..ks.len() {
            t.kind[e] = ks[e];
            let tg = &self.targets[e];
            for s in 0..ks[e].arity() {
                t.kid[e][s] = tg[(r % tg.len() as u64) as usize];
                r /= tg.len() as u64;
            }
        }
        if let Some(s) = self.second {
            t.root[1] = s;
        }
        if !t.canonical() || !t.well_formed() {
            return None;
        }
        Some(t)
    }
}

thread_local! {
    /// every element shows itself under the same name, as productions of several modules may
    pub static SAME_NAMES: Cell<bool> = const { Cell::new(false) };
    static TABLE: Cell<Table> = const { Cell::new(Table { n: 0, kind: [K::S1; ENTRIES], kid: [[LEAF; SLOTS]; ENTRIES], root: [0, 0] }) };
    #[allow(clippy::type_complexity)]
    static META: RefCell<[Option<*mut Result<Metadata<T>, GrammarError>>; 2]> = const { RefCell::new([None, None]) };
}

pub fn set_table(t: &Table) {
    TABLE.with(|c| c.set(*t));
    META.with(|m| {
        for p in m.borrow_mut().iter_mut() {
            if let Some(p) = p.take() {
                unsafe { drop(Box::from_raw(p)) };
            }
        }
    });
}
#[inline]
fn tab() -> Table {
    TABLE.with(|c| c.get())
}

/////////////////////////////////////////////////////////// trees

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Tag {
    Leaf(u8),
    Seq,
    Alt(u8),
    None_,
    Some_,
    Bool(bool),
    List,
    Split,
    Punct,
    Recover,
    RecoverNone,
    Text,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Tree {
    pub tag: Tag,
    pub lo: usize,
    pub hi: usize,
    pub kids: Vec<Tree>,
    pub extra: Vec<Tree>,
    pub text: Option<String>,
    /// semantic bits of the field or variant this node was parsed for (operational model only)
    pub sem: u8,
}
impl Tree {
    pub fn new(tag: Tag, lo: usize, hi: usize, kids: Vec<Tree>) -> Tree {
        Tree { tag, lo, hi, kids, extra: vec![], text: None, sem: 0 }
    }
    /// Same shape and same tokens (spans of leaves), ignoring spans of inner nodes and quoted text
    pub fn same_shape(&self, o: &Tree) -> bool {
        self.tag == o.tag
            && (self.tag == Tag::Text || self.text == o.text)
            && (!matches!(self.tag, Tag::Leaf(_)) || (self.lo, self.hi) == (o.lo, o.hi))
            && self.kids.len() == o.kids.len()
            && self.extra.len() == o.extra.len()
            && self.kids.iter().zip(&o.kids).all(|(a, b)| a.same_shape(b))
            && self.extra.iter().zip(&o.extra).all(|(a, b)| a.same_shape(b))
    }
    pub fn each(&self, f: &mut impl FnMut(&Tree)) {
        f(self);
        for k in self.kids.iter().chain(&self.extra) {
            k.each(f);
        }
    }
    pub fn show(&self) -> String {
        let k: Vec<String> = self.kids.iter().map(|k| k.show()).collect();
        let mut s = format!("{:?}@{}..{}", self.tag, self.lo, self.hi);
        if let Some(t) = &self.text {
            s.push_str(&format!("{t:?}"));
        }
        if !k.is_empty() {
            s.push_str(&format!("[{}]", k.join(" ")));
        }
        if !self.extra.is_empty() {
            let k: Vec<String> = self.extra.iter().map(|k| k.show()).collect();
            s.push_str(&format!("/[{}]", k.join(" ")));
        }
        s
    }
}

/// The dynamic node
pub struct D<const S: usize>(pub Tree);
impl<const S: usize> ToSpan for D<S> {
    fn lo(&self) -> usize {
        self.0.lo
    }
    fn hi(&self) -> usize {
        self.0.hi
    }
}
use teleparse::ToSpan;

pub const ROOT0: usize = 100;
pub const ROOT1: usize = 101;

fn target(slot: usize) -> u8 {
    let t = tab();
    match slot {
        ROOT0 => t.root[0],
        ROOT1 => t.root[1],
        s => t.kid[s / SLOTS][s % SLOTS],
    }
}

impl<const S: usize> Production for D<S> {
    type L = T;
    fn id() -> TypeId {
        target_id(target(S))
    }
    fn debug() -> Cow<'static, str> {
        let t = target(S);
        if SAME_NAMES.with(|s| s.get()) {
            return Cow::Borrowed("n");
        }
        if t >= LEAF { Cow::Borrowed(TERMS[(t - LEAF) as usize].0) } else { Cow::Owned(format!("e{t}")) }
    }
    fn register(meta: &mut MetadataBuilder<T>) {
        target_register(target(S), meta)
    }
}
impl<const S: usize> Produce for D<S> {
    type Prod = Self;
    fn produce(p: &mut Parser<'_, T>, m: &Metadata<T>) -> Syn<Self, T> {
        target_produce(target(S), p, m).map(D)
    }
}
impl<const S: usize> Root for D<S> {
    fn metadata() -> &'static Result<Metadata<T>, GrammarError> {
        assert!(S >= ROOT0);
        META.with(|m| {
            let mut m = m.borrow_mut();
            let p = m[S - ROOT0].get_or_insert_with(|| Box::into_raw(Box::new(Metadata::build_for::<D<S>>())));
            // lives until the next set_table
            unsafe { &*(*p as *const _) }
        })
    }
}

pub fn target_id(t: u8) -> TypeId {
    match t {
        ID => Id::id(),
        KW => Kw::id(),
        SEMI => Semi::id(),
        COMMA => Comma::id(),
        DOT => Dot::id(),
        NUM => Num::id(),
        e => entry_id(e),
    }
}
fn target_register(t: u8, m: &mut MetadataBuilder<T>) {
    match t {
        ID => Id::register(m),
        KW => Kw::register(m),
        SEMI => Semi::register(m),
        COMMA => Comma::register(m),
        DOT => Dot::register(m),
        NUM => Num::register(m),
        e => entry_register(e, m),
    }
}
fn target_produce(t: u8, p: &mut Parser<'_, T>, m: &Metadata<T>) -> Syn<Tree, T> {
    fn leaf(t: u8, x: &impl ToSpan) -> Tree {
        Tree::new(Tag::Leaf(t - LEAF), x.lo(), x.hi(), vec![])
    }
    match t {
        ID => Id::produce(p, m).map(|x| leaf(t, &x)),
        KW => Kw::produce(p, m).map(|x| leaf(t, &x)),
        SEMI => Semi::produce(p, m).map(|x| leaf(t, &x)),
        COMMA => Comma::produce(p, m).map(|x| leaf(t, &x)),
        DOT => Dot::produce(p, m).map(|x| leaf(t, &x)),
        NUM => Num::produce(p, m).map(|x| leaf(t, &x)),
        e => entry_produce(e, p, m),
    }
}

fn node(tag: Tag, x: &impl ToSpan, kids: Vec<Tree>) -> Tree {
    Tree::new(tag, x.span().lo, x.span().hi, kids)
}

/// The ways to look at a list differ
fn views(t: &mut Tree, same: bool) {
    if !same {
        t.text = Some("the ways to look at it differ".to_string());
    }
}

/// A value read from the text: texts of an even length are refused
pub struct Kept(String);
pub struct Refused(String);
impl std::str::FromStr for Kept {
    type Err = Refused;
    fn from_str(s: &str) -> Result<Kept, Refused> {
        if s.len() % 2 == 1 { Ok(Kept(s.to_string())) } else { Err(Refused(s.to_string())) }
    }
}
fn kept(r: Result<Kept, Refused>) -> String {
    match r {
        Ok(Kept(s)) if s.len() % 2 == 1 => s,
        Err(Refused(s)) if s.len() % 2 == 0 => s,
        Ok(Kept(s)) => format!("{s} not refused"),
        Err(Refused(s)) => format!("{s} refused"),
    }
}

macro_rules! entry {
    ($m:ident, $a:literal, $b:literal, $c:literal, $d:literal, $e:literal) => {
        pub mod $m {
            use super::*;
            type A = D<$a>;
            type B = D<$b>;
            type C = D<$c>;
            type D4 = D<$d>;
            type D5 = D<$e>;
            #[derive_syntax]
            pub struct S1(D<$a>);
            #[derive_syntax]
            pub struct S2(D<$a>, D<$b>);
            #[derive_syntax]
            pub struct N2 { x: D<$a>, y: D<$b> }
            #[derive_syntax]
            pub struct S3(D<$a>, D<$b>, D<$c>);
            #[derive_syntax]
            pub struct N3 { x: D<$a>, y: D<$b>, z: D<$c> }
            #[derive_syntax]
            pub enum E2 { X(D<$a>), Y(D<$b>) }
            #[derive_syntax]
            pub enum E3 { X(D<$a>), Y(D<$b>), Z(D<$c>) }
            #[derive_syntax]
            pub struct M1(#[teleparse(semantic(S1))] D<$a>);
            #[derive_syntax]
            pub struct M2(#[teleparse(semantic(S1))] D<$a>, #[teleparse(semantic(S2))] D<$b>);
            #[derive_syntax]
            pub struct M3 { x: D<$a>, #[teleparse(semantic(S1, S2, S1))] y: D<$b>, z: D<$c> }
            #[derive_syntax]
            pub enum ME2 {
                #[teleparse(semantic(S1))]
                X(D<$a>),
                #[teleparse(semantic(S2, S1, S2))]
                Y(D<$b>),
            }
            #[derive_syntax]
            pub struct S4(D<$a>, D<$b>, D<$c>, D<$d>);
            #[derive_syntax]
            pub struct N4 { w: D<$a>, x: D<$b>, y: D<$c>, z: D<$d> }
            #[derive_syntax]
            pub enum E4 { W(D<$a>), X(D<$b>), Y(D<$c>), Z(D<$d>) }
            #[derive_syntax]
            pub struct S5(D<$a>, D<$b>, D<$c>, D<$d>, D<$e>);
            #[derive_syntax]
            pub struct N5 { v: D<$a>, w: D<$b>, x: D<$c>, y: D<$d>, z: D<$e> }
            #[derive_syntax]
            pub enum E5 { V(D<$a>), W(D<$b>), X(D<$c>), Y(D<$d>), Z(D<$e>) }
            #[derive_syntax]
            pub struct M4 { #[teleparse(semantic(S2))] w: D<$a>, x: D<$b>, y: D<$c>, #[teleparse(semantic(S1, S1))] z: D<$d> }
            #[derive_syntax]
            pub enum ME4 {
                W(D<$a>),
                X(D<$b>),
                #[teleparse(semantic(S2))]
                Y(D<$c>),
                #[teleparse(semantic(S1))]
                Z(D<$d>),
            }
            type Opt = tp::Option<A>;
            type Exi = tp::Exists<A>;
            type Nev = tp::Nev<A>;
            type NevD = tp::NevDeque<A>;
            type Ve = tp::Vec<A>;
            type VeD = tp::VecDeque<A>;
            type Loo = tp::Loop<A>;
            type Spl = tp::Split<A, B>;
            type Pun = tp::Punct<A, B>;
            type Rec = tp::Recover<A, B>;
            type Quo = tp::Quote<String, A>;
            type Par = tp::Parse<Kept, A>;
            type Bo = Box<A>;

            macro_rules! each {
                ($k:expr, $f:ident) => {
                    match $k {
                        K::S1 => $f!(S1), K::S2 => $f!(S2), K::N2 => $f!(N2), K::S3 => $f!(S3), K::N3 => $f!(N3),
                        K::T2 => $f!((A, B)), K::T3 => $f!((A, B, C)), K::E2 => $f!(E2), K::E3 => $f!(E3),
                        K::Opt => $f!(Opt), K::Exists => $f!(Exi), K::Nev => $f!(Nev), K::NevD => $f!(NevD),
                        K::Vec => $f!(Ve), K::VecD => $f!(VeD), K::Loop => $f!(Loo), K::Split => $f!(Spl),
                        K::Punct => $f!(Pun), K::Recover => $f!(Rec), K::Quote => $f!(Quo), K::Parse => $f!(Par),
                        K::Bx => $f!(Bo), K::M1 => $f!(M1), K::M2 => $f!(M2), K::M3 => $f!(M3), K::ME2 => $f!(ME2),
                        K::S4 => $f!(S4), K::N4 => $f!(N4), K::T4 => $f!((A, B, C, D4)), K::E4 => $f!(E4), K::S5 => $f!(S5),
                        K::N5 => $f!(N5), K::T5 => $f!((A, B, C, D4, D5)), K::E5 => $f!(E5), K::M4 => $f!(M4), K::ME4 => $f!(ME4),
                    }
                };
            }
            pub fn id(k: K) -> TypeId {
                macro_rules! f { ($t:ty) => { <<$t as Produce>::Prod as Production>::id() } }
                each!(k, f)
            }
            pub fn register(k: K, m: &mut MetadataBuilder<T>) {
                macro_rules! f { ($t:ty) => { <<$t as Produce>::Prod as Production>::register(m) } }
                each!(k, f)
            }
            pub fn name(k: K) -> String {
                macro_rules! f { ($t:ty) => { <<$t as Produce>::Prod as Production>::debug().into_owned() } }
                each!(k, f)
            }
            fn v<'a, const N: usize>(it: impl IntoIterator<Item = &'a D<N>>) -> std::vec::Vec<Tree> {
                it.into_iter().map(|x| x.0.clone()).collect()
            }
            pub fn produce(k: K, p: &mut Parser<'_, T>, m: &Metadata<T>) -> Syn<Tree, T> {
                match k {
                    K::S1 => S1::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0]) }),
                    K::S2 => S2::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0]) }),
                    K::N2 => N2::produce(p, m).map(|n| { let s = n.span(); node(Tag::Seq, &s, vec![n.x.0, n.y.0]) }),
                    K::S3 => S3::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0, x.2.0]) }),
                    K::N3 => N3::produce(p, m).map(|n| { let s = n.span(); node(Tag::Seq, &s, vec![n.x.0, n.y.0, n.z.0]) }),
                    K::T2 => <(A, B)>::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0]) }),
                    K::T3 => <(A, B, C)>::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0, x.2.0]) }),
                    K::E2 => E2::produce(p, m).map(|x| { let s = x.span(); match x { E2::X(y) => node(Tag::Alt(0), &s, vec![y.0]), E2::Y(y) => node(Tag::Alt(1), &s, vec![y.0]) } }),
                    K::E3 => E3::produce(p, m).map(|x| { let s = x.span(); match x { E3::X(y) => node(Tag::Alt(0), &s, vec![y.0]), E3::Y(y) => node(Tag::Alt(1), &s, vec![y.0]), E3::Z(y) => node(Tag::Alt(2), &s, vec![y.0]) } }),
                    K::Opt => Opt::produce(p, m).map(|x| { let s = x.span(); match x.into_inner() { Some(y) => node(Tag::Some_, &s, vec![y.0]), None => node(Tag::None_, &s, vec![]) } }),
                    K::Exists => Exi::produce(p, m).map(|x| node(Tag::Bool(*x), &x, vec![])),
                    K::Nev => Nev::produce(p, m).map(|mut x| {
                        let mut t = node(Tag::List, &x, v(x.iter()));
                        let len = x.len();
                        let a = x.iter_mut().map(|d| &d.0).eq(t.kids.iter());
                        let b = len == t.kids.len() && x.into_inner().into_iter().map(|d| d.0).collect::<std::vec::Vec<_>>() == t.kids;
                        views(&mut t, a && b);
                        t
                    }),
                    K::NevD => NevD::produce(p, m).map(|mut x| {
                        let mut t = node(Tag::List, &x, v(x.iter()));
                        let len = x.len();
                        let a = x.iter_mut().map(|d| &d.0).eq(t.kids.iter());
                        let b = len == t.kids.len() && x.into_inner().into_iter().map(|d| d.0).collect::<std::vec::Vec<_>>() == t.kids;
                        views(&mut t, a && b);
                        t
                    }),
                    K::Vec => Ve::produce(p, m).map(|mut x| {
                        let mut t = node(Tag::List, &x, v(x.iter()));
                        let len = x.len();
                        let a = x.iter_mut().map(|d| &d.0).eq(t.kids.iter());
                        let b = len == t.kids.len() && x.into_inner().into_iter().map(|d| d.0).collect::<std::vec::Vec<_>>() == t.kids;
                        views(&mut t, a && b);
                        t
                    }),
                    K::VecD => VeD::produce(p, m).map(|mut x| {
                        let mut t = node(Tag::List, &x, v(x.iter()));
                        let len = x.len();
                        let a = x.iter_mut().map(|d| &d.0).eq(t.kids.iter());
                        let b = len == t.kids.len() && x.into_inner().into_iter().map(|d| d.0).collect::<std::vec::Vec<_>>() == t.kids;
                        views(&mut t, a && b);
                        t
                    }),
                    K::Loop => Loo::produce(p, m).map(|mut x| {
                        let mut t = node(Tag::List, &x, v(x.iter()));
                        let len = x.len();
                        let a = x.iter_mut().map(|d| &d.0).eq(t.kids.iter());
                        let b = len == t.kids.len() && x.into_inner().into_iter().map(|d| d.0).collect::<std::vec::Vec<_>>() == t.kids;
                        views(&mut t, a && b);
                        t
                    }),
                    K::Split => Spl::produce(p, m).map(|mut x| {
                        let mut t = node(Tag::Split, &x, v(x.elems.iter()));
                        t.extra = v(&x.puncts);
                        let mut same = x.elems.span == x.span() && x.elems.span() == x.span();
                        same &= x.len() == t.kids.len() && x.iter().map(|d| &d.0).eq(t.kids.iter());
                        same &= (&x).into_iter().map(|d| &d.0).eq(t.kids.iter());
                        same &= (&mut x).into_iter().map(|d| &d.0).eq(t.kids.iter());
                        same &= x.iter_mut().rev().map(|d| &d.0).eq(t.kids.iter().rev());
                        same &= x.into_iter().map(|d| d.0).collect::<std::vec::Vec<_>>() == t.kids;
                        views(&mut t, same);
                        t
                    }),
                    K::Punct => Pun::produce(p, m).map(|mut x| {
                        let mut t = node(Tag::Punct, &x, v(x.elems.iter()));
                        t.extra = v(&x.puncts);
                        let mut same = true;
                        same &= x.len() == t.kids.len() && x.iter().map(|d| &d.0).eq(t.kids.iter());
                        same &= (&x).into_iter().map(|d| &d.0).eq(t.kids.iter());
                        same &= (&mut x).into_iter().map(|d| &d.0).eq(t.kids.iter());
                        same &= x.iter_mut().rev().map(|d| &d.0).eq(t.kids.iter().rev());
                        same &= x.into_iter().map(|d| d.0).collect::<std::vec::Vec<_>>() == t.kids;
                        views(&mut t, same);
                        t
                    }),
                    K::Recover => Rec::produce(p, m).map(|x| {
                        let s = x.span();
                        match x.head.value {
                            Some(h) => node(Tag::Recover, &s, vec![h.0, x.tail.0]),
                            None => node(Tag::RecoverNone, &s, vec![x.tail.0]),
                        }
                    }),
                    K::Quote => Quo::produce(p, m).map(|x| { let mut t = node(Tag::Text, &x, vec![]); t.text = Some(x.into_inner()); t }),
                    K::Parse => Par::produce(p, m).map(|x| { let mut t = node(Tag::Text, &x, vec![]); t.text = Some(kept(x.into_inner())); t }),
                    K::Bx => Bo::produce(p, m).map(|x| { let s = x.span(); let mut t = x.0; t.lo = s.lo; t.hi = s.hi; t }),
                    K::M1 => M1::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0]) }),
                    K::M2 => M2::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0]) }),
                    K::M3 => M3::produce(p, m).map(|n| { let s = n.span(); node(Tag::Seq, &s, vec![n.x.0, n.y.0, n.z.0]) }),
                    K::ME2 => ME2::produce(p, m).map(|x| { let s = x.span(); match x { ME2::X(y) => node(Tag::Alt(0), &s, vec![y.0]), ME2::Y(y) => node(Tag::Alt(1), &s, vec![y.0]) } }),
                    K::S4 => S4::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0, x.2.0, x.3.0]) }),
                    K::N4 => N4::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.w.0, x.x.0, x.y.0, x.z.0]) }),
                    K::T4 => <(A, B, C, D4)>::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0, x.2.0, x.3.0]) }),
                    K::E4 => E4::produce(p, m).map(|x| { let s = x.span(); match x { E4::W(y) => node(Tag::Alt(0), &s, vec![y.0]), E4::X(y) => node(Tag::Alt(1), &s, vec![y.0]), E4::Y(y) => node(Tag::Alt(2), &s, vec![y.0]), E4::Z(y) => node(Tag::Alt(3), &s, vec![y.0]) } }),
                    K::S5 => S5::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0, x.2.0, x.3.0, x.4.0]) }),
                    K::N5 => N5::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.v.0, x.w.0, x.x.0, x.y.0, x.z.0]) }),
                    K::T5 => <(A, B, C, D4, D5)>::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.0.0, x.1.0, x.2.0, x.3.0, x.4.0]) }),
                    K::E5 => E5::produce(p, m).map(|x| { let s = x.span(); match x { E5::V(y) => node(Tag::Alt(0), &s, vec![y.0]), E5::W(y) => node(Tag::Alt(1), &s, vec![y.0]), E5::X(y) => node(Tag::Alt(2), &s, vec![y.0]), E5::Y(y) => node(Tag::Alt(3), &s, vec![y.0]), E5::Z(y) => node(Tag::Alt(4), &s, vec![y.0]) } }),
                    K::M4 => M4::produce(p, m).map(|x| { let s = x.span(); node(Tag::Seq, &s, vec![x.w.0, x.x.0, x.y.0, x.z.0]) }),
                    K::ME4 => ME4::produce(p, m).map(|x| { let s = x.span(); match x { ME4::W(y) => node(Tag::Alt(0), &s, vec![y.0]), ME4::X(y) => node(Tag::Alt(1), &s, vec![y.0]), ME4::Y(y) => node(Tag::Alt(2), &s, vec![y.0]), ME4::Z(y) => node(Tag::Alt(3), &s, vec![y.0]) } }),
                }
            }
        }
    };
}
entry!(e0, 0, 1, 2, 3, 4);
entry!(e1, 5, 6, 7, 8, 9);
entry!(e2, 10, 11, 12, 13, 14);
entry!(e3, 15, 16, 17, 18, 19);

fn entry_id(e: u8) -> TypeId {
    let k = tab().kind[e as usize];
    match e {
        0 => e0::id(k),
        1 => e1::id(k),
        2 => e2::id(k),
        3 => e3::id(k),
        _ => unreachable!(),
    }
}
/// The name of the production of an entry, as the library shows it
pub fn entry_name(e: u8) -> String {
    let k = tab().kind[e as usize];
    match e {
        0 => e0::name(k),
        1 => e1::name(k),
        2 => e2::name(k),
        3 => e3::name(k),
        _ => unreachable!(),
    }
}
fn entry_register(e: u8, m: &mut MetadataBuilder<T>) {
    let k = tab().kind[e as usize];
    match e {
        0 => e0::register(k, m),
        1 => e1::register(k, m),
        2 => e2::register(k, m),
        3 => e3::register(k, m),
        _ => unreachable!(),
    }
}
fn entry_produce(e: u8, p: &mut Parser<'_, T>, m: &Metadata<T>) -> Syn<Tree, T> {
    let k = tab().kind[e as usize];
    match e {
        0 => e0::produce(k, p, m),
        1 => e1::produce(k, p, m),
        2 => e2::produce(k, p, m),
        3 => e3::produce(k, p, m),
        _ => unreachable!(),
    }
}

/////////////////////////////////////////////////////////// reference grammar

/// The documented productions of the table, as a reference grammar
pub struct Model {
    pub t: Table,
    pub g: Cfg,
    pub inf: Info,
    /// node of each entry / leaf
    ent: [usize; ENTRIES],
    leaf: usize,
}
impl Model {
    pub fn new(t: &Table, root: usize) -> Model {
        let mut nodes = vec![];
        for l in 0..TERMS.len() {
            nodes.push(Body::Term(TERMS[l].1));
        }
        let eps = nodes.len();
        nodes.push(Body::Eps);
        let mut ent = [usize::MAX; ENTRIES];
        for e in 0..t.n {
            if !t.kind[e].transparent() {
                ent[e] = nodes.len();
                nodes.push(Body::Eps);
            }
        }
        for e in 0..t.n {
            let mut at = e as u8;
            while at < LEAF && t.kind[at as usize].transparent() {
                at = t.kid[at as usize][0];
            }
            ent[e] = if at >= LEAF { (at - LEAF) as usize } else { ent[at as usize] };
        }
        let of = |x: u8| if x >= LEAF { (x - LEAF) as usize } else { ent[x as usize] };
        for e in 0..t.n {
            let k = t.kind[e];
            if k.transparent() {
                continue;
            }
            let c: Vec<usize> = t.kids(e).iter().map(|x| of(*x)).collect();
            let me = ent[e];
            let mut add = |b: Body| {
                nodes.push(b);
                nodes.len() - 1
            };
            let body = match k {
                K::S1 | K::S2 | K::N2 | K::S3 | K::N3 | K::T2 | K::T3 | K::S4 | K::N4 | K::T4 | K::S5 | K::N5 | K::T5 | K::Recover | K::M1 | K::M2 | K::M3 | K::M4 => Body::Seq(c),
                K::E2 | K::E3 | K::E4 | K::E5 | K::ME2 | K::ME4 => Body::Union(c),
                K::Opt | K::Exists => Body::Union(vec![c[0], eps]),
                // Plus => T Star, Star => Option<Plus>
                K::Nev | K::NevD | K::Loop => {
                    let o = add(Body::Union(vec![me, eps]));
                    Body::Seq(vec![c[0], o])
                }
                K::Vec | K::VecD => {
                    let p = add(Body::Seq(vec![c[0], me]));
                    Body::Union(vec![p, eps])
                }
                // Split => T Star<(P, T)>
                K::Split => {
                    let pair = add(Body::Seq(vec![c[1], c[0]]));
                    let p = add(Body::Eps);
                    let o = add(Body::Union(vec![p, eps]));
                    nodes[p] = Body::Seq(vec![pair, o]);
                    Body::Seq(vec![c[0], o])
                }
                // Punct => T Option<(P, Option<Punct>)>
                K::Punct => {
                    let o = add(Body::Union(vec![me, eps]));
                    let pair = add(Body::Seq(vec![c[1], o]));
                    let o2 = add(Body::Union(vec![pair, eps]));
                    Body::Seq(vec![c[0], o2])
                }
                K::Quote | K::Parse | K::Bx => unreachable!(),
            };
            nodes[me] = body;
        }
        let g = Cfg { nodes, root: of(t.root[root]) };
        let inf = g.analyse();
        Model { t: *t, g, inf, ent, leaf: 0 }
    }
    pub fn node(&self, t: u8) -> usize {
        if t >= LEAF { (t - LEAF) as usize } else { self.ent[t as usize] }
    }
    pub fn first(&self, t: u8) -> Mask {
        self.inf.first[self.node(t)]
    }
    pub fn nullable(&self, t: u8) -> bool {
        self.inf.nullable[self.node(t)]
    }
    pub fn follow(&self, t: u8) -> Mask {
        self.inf.follow[self.node(t)]
    }
    /// Every reachable node derives some token string
    pub fn productive(&self) -> bool {
        let n = self.g.nodes.len();
        let mut pr = vec![false; n];
        for _ in 0..=n {
            for i in 0..n {
                pr[i] = match &self.g.nodes[i] {
                    Body::Term(_) | Body::Eps => true,
                    Body::Seq(v) => v.iter().all(|k| pr[*k]),
                    Body::Union(v) => v.iter().any(|k| pr[*k]),
                };
            }
        }
        (0..n).all(|i| !self.inf.reach[i] || pr[i])
    }
}

/////////////////////////////////////////////////////////// Earley recognizer (incremental)

pub struct Earley {
    rules: Vec<(usize, Vec<usize>)>,
    by_lhs: Vec<Vec<usize>>,
    term: Vec<Option<Mask>>,
    nullable: Vec<bool>,
    root: usize,
    cols: Vec<Vec<(u16, u8, u16)>>,
}
impl Earley {
    pub fn new(m: &Model) -> Earley {
        let g = &m.g;
        let mut rules = vec![];
        let mut by_lhs = vec![vec![]; g.nodes.len()];
        let mut term = vec![None; g.nodes.len()];
        for (i, b) in g.nodes.iter().enumerate() {
            if !m.inf.reach[i] {
                continue;
            }
            match b {
                Body::Term(t) => term[i] = Some(*t),
                Body::Eps => {
                    by_lhs[i].push(rules.len());
                    rules.push((i, vec![]));
                }
                Body::Seq(v) => {
                    by_lhs[i].push(rules.len());
                    rules.push((i, v.clone()));
                }
                Body::Union(v) => {
                    for k in v {
                        by_lhs[i].push(rules.len());
                        rules.push((i, vec![*k]));
                    }
                }
            }
        }
        let mut e = Earley { rules, by_lhs, term, nullable: m.inf.nullable.clone(), root: g.root, cols: vec![] };
        let mut c: Vec<(u16, u8, u16)> = vec![];
        if e.term[e.root].is_none() {
            for r in &e.by_lhs[e.root] {
                c.push((*r as u16, 0, 0));
            }
            e.close(&mut c);
        }
        e.cols.push(c);
        e
    }
    fn close(&self, c: &mut Vec<(u16, u8, u16)>) {
        let here = self.cols.len() as u16;
        let mut i = 0;
        while i < c.len() {
            let (r, d, o) = c[i];
            i += 1;
            let (lhs, rhs) = &self.rules[r as usize];
            if (d as usize) < rhs.len() {
                let s = rhs[d as usize];
                if self.term[s].is_some() {
                    continue;
                }
                for q in &self.by_lhs[s] {
                    let it = (*q as u16, 0, here);
                    if !c.contains(&it) {
                        c.push(it);
                    }
                }
                if self.nullable[s] {
                    let it = (r, d + 1, o);
                    if !c.contains(&it) {
                        c.push(it);
                    }
                }
            } else if o < here {
                for k in 0..self.cols[o as usize].len() {
                    let (pr, pd, po) = self.cols[o as usize][k];
                    if self.rules[pr as usize].1.get(pd as usize) == Some(lhs) {
                        let it = (pr, pd + 1, po);
                        if !c.contains(&it) {
                            c.push(it);
                        }
                    }
                }
            } else {
                // empty completion: handled by `nullable`
            }
        }
    }
    /// Root is a bare terminal
    fn bare(&self) -> Option<Mask> {
        self.term[self.root]
    }
    /// Extend by a token; the number of columns grows by one. Returns whether the prefix is viable.
    pub fn push(&mut self, class: usize) -> bool {
        if let Some(m) = self.bare() {
            let ok = self.cols.len() == 1 && m >> class & 1 == 1;
            self.cols.push(if ok { vec![(u16::MAX, 0, 0)] } else { vec![] });
            return ok;
        }
        let last = self.cols.last().unwrap();
        let mut c = vec![];
        for (r, d, o) in last {
            if let Some(s) = self.rules[*r as usize].1.get(*d as usize) {
                if self.term[*s].is_some_and(|m| m >> class & 1 == 1) {
                    c.push((*r, d + 1, *o));
                }
            }
        }
        self.close(&mut c);
        let ok = !c.is_empty();
        self.cols.push(c);
        ok
    }
    /// Tokens pushed
    pub fn len(&self) -> usize {
        self.cols.len() - 1
    }
    pub fn pop(&mut self) {
        self.cols.pop();
    }
    /// Is the prefix of length `n` of the current one a sentence?
    pub fn sentence_at(&self, n: usize) -> bool {
        if self.bare().is_some() {
            return n == 1 && !self.cols[1].is_empty();
        }
        self.cols[n].iter().any(|(r, d, o)| {
            let (lhs, rhs) = &self.rules[*r as usize];
            *lhs == self.root && *o == 0 && *d as usize == rhs.len()
        }) || (n == 0 && self.nullable[self.root])
    }
}

/////////////////////////////////////////////////////////// derivations

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Tok {
    pub class: usize,
    pub lo: usize,
    pub hi: usize,
}

/// All derivations of `target` from token `i`: (end, tree). Spans follow the documented rule: from
/// the first child to the last, an empty node where the previous token ended.
pub fn derive(m: &Model, src: &str, toks: &[Tok], i: usize, target: u8, depth: usize) -> Vec<(usize, Tree)> {
    if depth > 3000 {
        return vec![];
    }
    if target >= LEAF {
        return match toks.get(i) {
            Some(t) if TERMS[(target - LEAF) as usize].1 >> t.class & 1 == 1 => {
                vec![(i + 1, Tree::new(Tag::Leaf(target - LEAF), t.lo, t.hi, vec![]))]
            }
            _ => vec![],
        };
    }
    let empty_at = |i: usize| if i == 0 { 0 } else { toks[i - 1].hi };
    let e = target as usize;
    let k = m.t.kind[e];
    let c = m.t.kids(e);
    let one = |i: usize, t: u8| derive(m, src, toks, i, t, depth + 1);
    let seq = |ts: &[u8]| -> Vec<(usize, Vec<Tree>)> {
        let mut acc: Vec<(usize, Vec<Tree>)> = vec![(i, vec![])];
        for t in ts {
            let mut next = vec![];
            for (at, v) in acc {
                for (end, tr) in one(at, *t) {
                    let mut v = v.clone();
                    v.push(tr);
                    next.push((end, v));
                }
            }
            acc = next;
        }
        acc
    };
    let span = |v: &[Tree]| (v.first().unwrap().lo, v.last().unwrap().hi);
    match k {
        K::S1 | K::S2 | K::N2 | K::S3 | K::N3 | K::T2 | K::T3 | K::S4 | K::N4 | K::T4 | K::S5 | K::N5 | K::T5 | K::M1 | K::M2 | K::M3 | K::M4 | K::Recover => seq(c)
            .into_iter()
            .map(|(end, v)| {
                let s = span(&v);
                (end, Tree::new(if k == K::Recover { Tag::Recover } else { Tag::Seq }, s.0, s.1, v))
            })
            .collect(),
        K::E2 | K::E3 | K::E4 | K::E5 | K::ME2 | K::ME4 => {
            let mut o = vec![];
            for (n, t) in c.iter().enumerate() {
                for (end, tr) in one(i, *t) {
                    o.push((end, Tree::new(Tag::Alt(n as u8), tr.lo, tr.hi, vec![tr])));
                }
            }
            o
        }
        K::Opt | K::Exists => {
            let at = empty_at(i);
            let none = if k == K::Opt { Tag::None_ } else { Tag::Bool(false) };
            let mut o = vec![(i, Tree::new(none, at, at, vec![]))];
            for (end, tr) in one(i, c[0]) {
                o.push((end, if k == K::Opt { Tree::new(Tag::Some_, tr.lo, tr.hi, vec![tr]) } else { Tree::new(Tag::Bool(true), tr.lo, tr.hi, vec![]) }));
            }
            o
        }
        K::Nev | K::NevD | K::Vec | K::VecD | K::Loop => {
            let mut o = vec![];
            if matches!(k, K::Vec | K::VecD) {
                let at = empty_at(i);
                o.push((i, Tree::new(Tag::List, at, at, vec![])));
            }
            let mut acc: Vec<(usize, Vec<Tree>)> = vec![(i, vec![])];
            while let Some((at, v)) = acc.pop() {
                for (end, tr) in one(at, c[0]) {
                    if end == at {
                        continue;
                    }
                    let mut v = v.clone();
                    v.push(tr);
                    let s = span(&v);
                    o.push((end, Tree::new(Tag::List, s.0, s.1, v.clone())));
                    acc.push((end, v));
                }
            }
            o
        }
        K::Split | K::Punct => {
            let tag = if k == K::Split { Tag::Split } else { Tag::Punct };
            let mut o = vec![];
            let mk = |v: &[Tree], p: &[Tree], trailing: bool| {
                let hi = if trailing { p.last().unwrap().hi } else { v.last().unwrap().hi };
                let mut t = Tree::new(tag, v[0].lo, hi, v.to_vec());
                t.extra = p.to_vec();
                t
            };
            let mut acc: Vec<(usize, Vec<Tree>, Vec<Tree>)> = vec![];
            for (end, tr) in one(i, c[0]) {
                acc.push((end, vec![tr], vec![]));
            }
            while let Some((at, v, p)) = acc.pop() {
                o.push((at, mk(&v, &p, false)));
                for (e1, ptr) in one(at, c[1]) {
                    let mut p2 = p.clone();
                    p2.push(ptr);
                    if k == K::Punct {
                        o.push((e1, mk(&v, &p2, true)));
                    }
                    for (e2, tr) in one(e1, c[0]) {
                        if e2 == at {
                            continue;
                        }
                        let mut v2 = v.clone();
                        v2.push(tr);
                        acc.push((e2, v2, p2.clone()));
                    }
                }
            }
            o
        }
        K::Quote | K::Parse => one(i, c[0])
            .into_iter()
            .map(|(end, tr)| {
                let mut t = Tree::new(Tag::Text, tr.lo, tr.hi, vec![]);
                t.text = Some(if tr.lo < tr.hi { src[tr.lo..tr.hi].to_string() } else { String::new() });
                (end, t)
            })
            .collect(),
        K::Bx => one(i, c[0]),
    }
}

/// Semantic types each token gets in the derivation of `target` over toks[i..end): bit 0 = S1, 1 = S2.
/// Returns None unless there is exactly one derivation.
pub fn semantics(m: &Model, toks: &[Tok], i: usize, end: usize, target: u8, out: &mut [u8]) -> Option<()> {
    // exhaustive search over annotated spans: derive as a list of (node, from, to)
    fn go(m: &Model, toks: &[Tok], i: usize, target: u8, depth: usize) -> Vec<(usize, Vec<(usize, usize, u8)>)> {
        if depth > 3000 {
            return vec![];
        }
        if target >= LEAF {
            return match toks.get(i) {
                Some(t) if TERMS[(target - LEAF) as usize].1 >> t.class & 1 == 1 => vec![(i + 1, vec![])],
                _ => vec![],
            };
        }
        let e = target as usize;
        let c = m.t.kids(e).to_vec();
        let k = m.t.kind[e];
        type R = Vec<(usize, Vec<(usize, usize, u8)>)>;
        let ann = |r: R, from: usize, bits: u8| -> R {
            r.into_iter().map(|(end, mut v)| { if bits != 0 { v.push((from, end, bits)); } (end, v) }).collect()
        };
        let seq = |ts: &[(u8, u8)], i: usize| -> R {
            let mut acc: R = vec![(i, vec![])];
            for (t, bits) in ts {
                let mut next: R = vec![];
                for (at, v) in acc {
                    for (end, w) in ann(go(m, toks, at, *t, depth + 1), at, *bits) {
                        let mut v = v.clone();
                        v.extend(w);
                        next.push((end, v));
                    }
                }
                acc = next;
            }
            acc
        };
        let plain = |c: &[u8]| -> Vec<(u8, u8)> { c.iter().map(|x| (*x, 0)).collect() };
        match k {
            K::M1 => seq(&[(c[0], 1)], i),
            K::M2 => seq(&[(c[0], 1), (c[1], 2)], i),
            K::M3 => seq(&[(c[0], 0), (c[1], 3), (c[2], 0)], i),
            K::M4 => seq(&[(c[0], 2), (c[1], 0), (c[2], 0), (c[3], 1)], i),
            K::ME4 => (0..4).flat_map(|n| seq(&[(c[n], sem_of(k, n))], i)).collect(),
            K::ME2 => {
                let mut o = seq(&[(c[0], 1)], i);
                o.extend(seq(&[(c[1], 3)], i));
                o
            }
            K::S1 | K::S2 | K::N2 | K::S3 | K::N3 | K::T2 | K::T3 | K::S4 | K::N4 | K::T4 | K::S5 | K::N5 | K::T5 | K::Recover | K::Quote | K::Parse | K::Bx => seq(&plain(&c), i),
            K::E2 | K::E3 | K::E4 | K::E5 => c.iter().flat_map(|t| seq(&[(*t, 0)], i)).collect(),
            K::Opt | K::Exists => {
                let mut o = vec![(i, vec![])];
                o.extend(seq(&[(c[0], 0)], i));
                o
            }
            K::Nev | K::NevD | K::Vec | K::VecD | K::Loop | K::Split | K::Punct => {
                let mut o: R = vec![];
                if matches!(k, K::Vec | K::VecD) {
                    o.push((i, vec![]));
                }
                let delim = matches!(k, K::Split | K::Punct);
                let mut acc: R = seq(&[(c[0], 0)], i);
                while let Some((at, v)) = acc.pop() {
                    o.push((at, v.clone()));
                    if delim && k == K::Punct {
                        for (e1, w) in seq(&[(c[1], 0)], at) {
                            let mut v = v.clone();
                            v.extend(w);
                            o.push((e1, v));
                        }
                    }
                    let step = if delim { seq(&[(c[1], 0), (c[0], 0)], at) } else { seq(&[(c[0], 0)], at) };
                    for (e2, w) in step {
                        if e2 > at {
                            let mut v = v.clone();
                            v.extend(w);
                            acc.push((e2, v));
                        }
                    }
                }
                o
            }
        }
    }
    let all: Vec<_> = go(m, toks, i, target, 0).into_iter().filter(|r| r.0 == end).collect();
    if all.len() != 1 {
        return None;
    }
    for (a, b, bits) in &all[0].1 {
        for x in &mut out[*a..*b] {
            *x |= bits;
        }
    }
    Some(())
}

/////////////////////////////////////////////////////////// operational model of the documented recovery

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Er {
    /// a literal was filled in: names the terminal
    Fill(u8),
    /// any other expectation or end of input
    Expect,
    /// skipped tokens of a looping list
    Skip,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Err_ {
    pub lo: usize,
    pub hi: usize,
    pub k: Er,
}
pub enum Out {
    Ok(Tree, Vec<Err_>),
    Panic(Vec<Err_>),
}
pub struct Op<'a> {
    pub m: &'a Model,
    pub src: &'a str,
    pub toks: &'a [Tok],
    pub pos: usize,
    /// end of the last consumed token
    pub last: usize,
    /// what the run did (for coverage)
    pub used: u32,
    /// what the first error must name
    pub first: Option<Mask>,
}
pub const U_FILL: u32 = 1;
pub const U_FILL_EOF: u32 = 2;
pub const U_OPT_BAD: u32 = 4;
pub const U_LIST_BAD: u32 = 8;
pub const U_LOOP_SKIP: u32 = 16;
pub const U_SPLIT_REC: u32 = 32;
pub const U_PUNCT_REC: u32 = 64;
pub const U_RECOVER: u32 = 128;
pub const U_PANIC: u32 = 256;
pub const U_RETRY: u32 = 512;

/// Semantic bits of field or variant `i`
pub fn sem_of(k: K, i: usize) -> u8 {
    match (k, i) {
        (K::M1, 0) | (K::M2, 0) | (K::ME2, 0) => 1,
        (K::M2, 1) => 2,
        (K::M3, 1) | (K::ME2, 1) => 3,
        (K::M4, 0) | (K::ME4, 2) => 2,
        (K::M4, 3) | (K::ME4, 3) => 1,
        _ => 0,
    }
}

impl<'a> Op<'a> {
    fn cur(&self) -> (usize, usize) {
        self.toks.get(self.pos).map(|t| (t.lo, t.hi)).unwrap_or((self.src.len(), self.src.len()))
    }
    /// class bit of the next token, or EOF
    fn next(&self) -> Mask {
        self.toks.get(self.pos).map(|t| 1 << t.class).unwrap_or(EOF)
    }
    fn take(&mut self) {
        if let Some(t) = self.toks.get(self.pos) {
            self.last = t.hi;
            self.pos += 1;
        }
    }
    fn err(&self, k: Er) -> Err_ {
        let c = self.cur();
        Err_ { lo: c.0, hi: c.1, k }
    }
    /// An error about a node that can start with these
    fn expect(&mut self, m: Mask) -> Err_ {
        self.first.get_or_insert(m);
        self.err(Er::Expect)
    }
    fn starts(&self, t: u8) -> bool {
        let n = self.next();
        n != EOF && self.m.first(t) & n != 0
    }
    pub fn parse(&mut self, t: u8) -> Out {
        if t >= LEAF {
            let (_, mask, lit) = TERMS[(t - LEAF) as usize];
            let n = self.next();
            let tag = Tag::Leaf(t - LEAF);
            if n != EOF && mask & n != 0 {
                let s = self.cur();
                self.take();
                return Out::Ok(Tree::new(tag, s.0, s.1, vec![]), vec![]);
            }
            if lit && self.m.follow(t) & n != 0 {
                self.used |= if n == EOF { U_FILL_EOF } else { U_FILL };
                let at = self.last;
                self.first.get_or_insert(mask);
                return Out::Ok(Tree::new(tag, at, at, vec![]), vec![self.err(Er::Fill(t - LEAF))]);
            }
            self.used |= U_PANIC;
            return Out::Panic(vec![self.expect(mask)]);
        }
        let e = t as usize;
        let k = self.m.t.kind[e];
        let c: Vec<u8> = self.m.t.kids(e).to_vec();
        match k {
            K::S1 | K::S2 | K::N2 | K::S3 | K::N3 | K::T2 | K::T3 | K::S4 | K::N4 | K::T4 | K::S5 | K::N5 | K::T5 | K::M1 | K::M2 | K::M3 | K::M4 => {
                let mut v = vec![];
                let mut errs = vec![];
                for (i, x) in c.into_iter().enumerate() {
                    match self.parse(x) {
                        Out::Ok(mut t, e) => {
                            t.sem |= sem_of(k, i);
                            v.push(t);
                            errs.extend(e);
                        }
                        Out::Panic(e) => {
                            errs.extend(e);
                            return Out::Panic(errs);
                        }
                    }
                }
                let (lo, hi) = (v[0].lo, v[v.len() - 1].hi);
                Out::Ok(Tree::new(Tag::Seq, lo, hi, v), errs)
            }
            K::E2 | K::E3 | K::E4 | K::E5 | K::ME2 | K::ME4 => {
                let n = self.next();
                let starts = c.iter().position(|x| n != EOF && self.m.first(*x) & n != 0);
                let empty = c.iter().position(|x| self.m.nullable(*x));
                let pick = starts.or(if n == EOF || self.m.follow(t) & n != 0 { empty } else { None });
                match pick {
                    Some(i) => match self.parse(c[i]) {
                        Out::Ok(mut t, e) => Out::Ok(Tree::new(Tag::Alt(i as u8), t.lo, t.hi, vec![{ t.sem |= sem_of(k, i); t }]), e),
                        p => p,
                    },
                    None => {
                        self.used |= U_PANIC;
                        let m = self.m.first(t);
                        Out::Panic(vec![self.expect(m)])
                    }
                }
            }
            K::Opt | K::Exists => {
                let none = |at: usize| Tree::new(if k == K::Opt { Tag::None_ } else { Tag::Bool(false) }, at, at, vec![]);
                if !self.starts(c[0]) {
                    return Out::Ok(none(self.last), vec![]);
                }
                match self.parse(c[0]) {
                    Out::Ok(t, e) => Out::Ok(if k == K::Opt { Tree::new(Tag::Some_, t.lo, t.hi, vec![t]) } else { Tree::new(Tag::Bool(true), t.lo, t.hi, vec![]) }, e),
                    Out::Panic(e) => {
                        self.used |= U_OPT_BAD;
                        Out::Ok(none(self.last), e)
                    }
                }
            }
            K::Nev | K::NevD | K::Vec | K::VecD => {
                let star = matches!(k, K::Vec | K::VecD);
                let mut v = vec![];
                let mut errs = vec![];
                if star && !self.starts(c[0]) {
                    return Out::Ok(Tree::new(Tag::List, self.last, self.last, v), errs);
                }
                loop {
                    if !v.is_empty() && !self.starts(c[0]) {
                        break;
                    }
                    match self.parse(c[0]) {
                        Out::Ok(t, e) => {
                            v.push(t);
                            errs.extend(e);
                        }
                        Out::Panic(e) => {
                            errs.extend(e);
                            self.used |= U_LIST_BAD;
                            if v.is_empty() {
                                if star {
                                    return Out::Ok(Tree::new(Tag::List, self.last, self.last, v), errs);
                                }
                                return Out::Panic(errs);
                            }
                            break;
                        }
                    }
                }
                let (lo, hi) = (v[0].lo, v[v.len() - 1].hi);
                Out::Ok(Tree::new(Tag::List, lo, hi, v), errs)
            }
            K::Loop => {
                let mut v: Vec<Tree> = vec![];
                let mut errs = vec![];
                while self.next() != EOF {
                    if !self.starts(c[0]) {
                        let mut e = self.err(Er::Skip);
                        while self.next() != EOF && !self.starts(c[0]) {
                            e.hi = self.cur().1;
                            self.take();
                        }
                        self.used |= U_LOOP_SKIP;
                        errs.push(e);
                        continue;
                    }
                    match self.parse(c[0]) {
                        Out::Ok(t, e) => {
                            v.push(t);
                            errs.extend(e);
                        }
                        Out::Panic(e) => {
                            self.used |= U_LIST_BAD;
                            errs.extend(e)
                        }
                    }
                }
                let (lo, hi) = if v.is_empty() { (self.last, self.last) } else { (v[0].lo, v[v.len() - 1].hi) };
                Out::Ok(Tree::new(Tag::List, lo, hi, v), errs)
            }
            K::Split | K::Punct => self.delimited(t, k == K::Punct, c[0], c[1]),
            K::Recover => {
                let mut errs = vec![];
                let mut bad: Option<Err_> = None;
                let mut head = None;
                if self.starts(c[0]) || self.m.nullable(c[0]) {
                    match self.parse(c[0]) {
                        Out::Ok(t, e) => {
                            errs.extend(e);
                            head = Some(t);
                        }
                        Out::Panic(e) => merge(&mut bad, &mut errs, e),
                    }
                } else {
                    let m = self.m.first(c[0]);
                    bad = Some(self.expect(m));
                }
                let head_at = head.as_ref().map(|h| (h.lo, h.hi)).unwrap_or((self.last, self.last));
                let tail = loop {
                    let eof = self.next() == EOF;
                    if self.starts(c[1]) || self.m.nullable(c[1]) {
                        match self.parse(c[1]) {
                            Out::Ok(t, e) => {
                                errs.extend(e);
                                break Some(t);
                            }
                            Out::Panic(e) => merge(&mut bad, &mut errs, e),
                        }
                    }
                    if eof {
                        // nothing left to find the terminator in
                        if bad.is_none() {
                            bad = Some(self.expect(0));
                        }
                        break None;
                    }
                    self.used |= U_RECOVER;
                    match &mut bad {
                        Some(b) => b.hi = self.cur().1,
                        None => {
                            let m = self.m.first(c[1]);
                            bad = Some(self.expect(m))
                        }
                    }
                    self.take();
                };
                errs.extend(bad);
                match tail {
                    Some(t) => {
                        let hi = t.hi;
                        let (tag, kids) = match head {
                            Some(h) => (Tag::Recover, vec![h, t]),
                            None => (Tag::RecoverNone, vec![t]),
                        };
                        Out::Ok(Tree::new(tag, head_at.0, hi, kids), errs)
                    }
                    None => Out::Panic(errs),
                }
            }
            K::Quote | K::Parse => match self.parse(c[0]) {
                Out::Ok(t, e) => {
                    let mut q = Tree::new(Tag::Text, t.lo, t.hi, vec![]);
                    q.text = Some(if t.lo < t.hi { self.src[t.lo..t.hi].to_string() } else { String::new() });
                    Out::Ok(q, e)
                }
                p => p,
            },
            K::Bx => self.parse(c[0]),
        }
    }
    fn delimited(&mut self, me: u8, punct: bool, item: u8, delim: u8) -> Out {
        let mut v = vec![];
        let mut p: Vec<Tree> = vec![];
        let mut errs = vec![];
        match self.parse(item) {
            Out::Ok(t, e) => {
                v.push(t);
                errs.extend(e);
            }
            Out::Panic(e) => return Out::Panic(e),
        }
        let follow = self.m.follow(me);
        'list: loop {
            let omit = !punct && self.m.nullable(delim) && self.starts(item);
            if !self.starts(delim) && !omit {
                break;
            }
            let d = match self.parse(delim) {
                Out::Ok(t, e) => {
                    errs.extend(e);
                    t
                }
                Out::Panic(e) => {
                    errs.extend(e);
                    break;
                }
            };
            let mut keep = Some(d);
            if punct {
                p.push(keep.take().unwrap());
            }
            let mut bad: Option<Err_> = None;
            loop {
                let n = self.next();
                if punct && (n == EOF || !self.starts(item) && follow & n != 0) {
                    // may end on the delimiter
                    errs.extend(bad);
                    break 'list;
                }
                if self.starts(item) || !punct && self.m.nullable(item) {
                    match self.parse(item) {
                        Out::Ok(t, e) => {
                            v.push(t);
                            p.extend(keep.take());
                            errs.extend(e);
                            errs.extend(bad);
                            continue 'list;
                        }
                        Out::Panic(e) => {
                            if bad.is_some() {
                                self.used |= U_RETRY;
                            }
                            merge(&mut bad, &mut errs, e)
                        }
                    }
                } else {
                    match &mut bad {
                        Some(b) => b.hi = self.cur().1,
                        None => {
                            let m = self.m.first(item);
                            bad = Some(self.expect(m))
                        }
                    }
                }
                self.used |= if punct { U_PUNCT_REC } else { U_SPLIT_REC };
                if self.starts(delim) {
                    errs.extend(bad);
                    continue 'list;
                }
                let n = self.next();
                if n == EOF || follow & n != 0 {
                    errs.extend(bad);
                    break 'list;
                }
                self.take();
            }
        }
        let lo = v[0].lo;
        let mut hi = v[v.len() - 1].hi;
        if punct {
            hi = hi.max(p.last().map(|x| x.hi).unwrap_or(0));
        }
        let mut t = Tree::new(if punct { Tag::Punct } else { Tag::Split }, lo, hi, v);
        t.extra = p;
        Out::Ok(t, errs)
    }
}
/// A failed attempt: the last error is what stopped it; it becomes, or extends, the one error of the
/// skipped input. What the first attempt reported before it stopped stays.
fn merge(bad: &mut Option<Err_>, errs: &mut Vec<Err_>, mut e: Vec<Err_>) {
    if let Some(x) = e.pop() {
        match bad {
            Some(b) => b.hi = x.hi,
            None => {
                errs.extend(e);
                *bad = Some(x)
            }
        }
    }
}

/////////////////////////////////////////////////////////// running the real parser

pub struct Ran {
    pub tree: Option<Tree>,
    pub errs: Vec<Err_>,
    pub invalid: Vec<(usize, usize)>,
    /// spans, types and semantic bits of recorded tokens
    pub consumed: Vec<(usize, usize, T, u8)>,
    pub extracted: Vec<(usize, usize)>,
    /// tokens read from the parser afterwards
    pub rest: Vec<(usize, usize, T)>,
    pub raw_errors: String,
    /// kinds, expectations and messages of all errors, if asked for
    pub told: Vec<Told>,
}
/// What one error says
pub struct Told {
    pub lo: usize,
    pub hi: usize,
    /// classes it expects, and whether nothing would do
    pub expects: Option<(Mask, bool)>,
    pub eof: bool,
    pub chars: bool,
    pub message: String,
}
pub fn told(p: &Parser<'_, T>, src: &str) -> Vec<Told> {
    p.info()
        .errors
        .iter()
        .map(|e| Told {
            lo: e.span.lo,
            hi: e.span.hi,
            expects: match &e.data {
                ErrorKind::Expecting(s) => Some(((0..CLASSES.len()).filter(|c| s.contains(class_src(*c))).fold(0, |m, c| m | 1 << c), s.contains_epsilon())),
                _ => None,
            },
            eof: matches!(e.data, ErrorKind::UnexpectedEof),
            chars: matches!(e.data, ErrorKind::UnexpectedCharacters),
            message: e.message(src),
        })
        .collect()
}

pub fn error_kind(e: &teleparse::syntax::Error<T>) -> Er {
    match &e.data {
        ErrorKind::Expecting(s) => {
            for (i, (_, m, lit)) in TERMS.iter().enumerate() {
                let c = CLASSES[m.trailing_zeros() as usize];
                if *lit && *s == FirstSet::one(c.1, Some(c.0)) {
                    return Er::Fill(i as u8);
                }
            }
            Er::Expect
        }
        ErrorKind::UnexpectedTokens => Er::Skip,
        _ => Er::Expect,
    }
}

/// Read the outcome of calls on `p`
pub fn collect(p: &mut Parser<'_, T>, tree: Option<Tree>, drain: bool) -> Ran {
    let mut errs = vec![];
    let mut invalid = vec![];
    let mut raw = String::new();
    for e in &p.info().errors {
        let (lo, hi) = (e.span.lo, e.span.hi);
        raw.push_str(&format!("{lo}..{hi} {:?}; ", e.data));
        match &e.data {
            ErrorKind::UnexpectedCharacters => invalid.push((lo, hi)),
            _ => errs.push(Err_ { lo, hi, k: error_kind(e) }),
        }
    }
    let consumed = p
        .info()
        .tokens
        .iter()
        .map(|t| {
            let b = u8::from(t.semantic.contains(T::S1)) | u8::from(t.semantic.contains(T::S2)) << 1;
            (t.span().lo, t.span().hi, t.ty, b)
        })
        .collect();
    let extracted = p.info().extracted_tokens.iter().map(|t| (t.span.lo, t.span.hi)).collect();
    let mut rest = vec![];
    if drain {
        while let Some(t) = p.consume_token() {
            rest.push((t.span.lo, t.span.hi, t.ty));
        }
    }
    Ran { tree, errs, invalid, consumed, extracted, rest, raw_errors: raw, told: vec![] }
}

/// One parse of root 0
pub fn run(src: &str, drain: bool) -> Ran {
    let mut p = Parser::<T>::new(src).unwrap();
    let tree = p.parse::<D<ROOT0>>().expect("accepted").map(|d| d.0);
    collect(&mut p, tree, drain)
}

/// One parse of root 0, and what its errors say
pub fn run_told(src: &str) -> Ran {
    let mut p = Parser::<T>::new(src).unwrap();
    let tree = p.parse::<D<ROOT0>>().expect("accepted").map(|d| d.0);
    let told = told(&p, src);
    Ran { told, ..collect(&mut p, tree, false) }
}

/////////////////////////////////////////////////////////// sets of the analysis

fn class_src(c: usize) -> Option<TokenSrc<'static, T>> {
    Some(TokenSrc { ty: CLASSES[c].1, src: CLASSES[c].0 })
}
/// FIRST of a target as classes, and whether it has the empty symbol
pub fn first_of(m: &Metadata<T>, t: u8) -> (Mask, bool) {
    let s = m.first.get(&target_id(t));
    ((0..CLASSES.len()).filter(|c| s.contains(class_src(*c))).fold(0, |m, c| m | 1 << c), s.contains_epsilon())
}
/// FOLLOW of a target as classes and EOF
pub fn follow_of(m: &Metadata<T>, t: u8) -> Mask {
    let s = m.follow.get(&target_id(t));
    (0..CLASSES.len()).filter(|c| s.contains(class_src(*c))).fold(0, |m, c| m | 1 << c) | if s.contains_eof() { EOF } else { 0 }
}
