//! SCHED (P19): runs small programs of "get the metadata" and "parse" calls on real threads under a
//! controlled scheduler, enumerates every schedule up to a preemption bound, and compares what
//! every caller got with what a process that only ever used that root gets. Every schedule runs in
//! a forked child, because metadata is cached for the life of the process.
use mc::{Check, Ctx, Job};
use std::borrow::{Borrow, BorrowMut, Cow};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use teleparse::lex::Lexer;
use teleparse::parser::{Parser, Produce, Root};
use teleparse::prelude::*;
use teleparse::syntax::{Metadata, MetadataBuilder, Production, Result as Syn};
use teleparse::GrammarError;
use teleparse::ToSpan;

type Opt<X> = std::option::Option<X>;

// ---------------------------------------------------------------- yield points
const Y_LEXER: u32 = 1; // building of metadata or a parser starts
const Y_REG: u32 = 2; // a terminal is registered
const Y_NAME: u32 = 4; // a terminal is named
const Y_NEXT: u32 = 8; // a token is read
const Y_PROD: u32 = 16; // a terminal is parsed
const Y_ID: u32 = 32; // a set or table entry is looked up
const COARSE: u32 = Y_LEXER | Y_REG | Y_NAME | Y_NEXT | Y_PROD;
const Y_MAP: u32 = 64; // a set or table is read or written as a whole
const FINE: u32 = COARSE | Y_ID;
const FINEST: u32 = Y_LEXER | Y_ID | Y_MAP;

const MAXT: usize = 3;
const RUN: u32 = 0;
const WOKEN: u32 = 1;
const ATYIELD: u32 = 2;
const DONE: u32 = 3;
static STATE: [AtomicU32; MAXT] = [const { AtomicU32::new(RUN) }; MAXT];
static TID: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static STEPS: AtomicU64 = AtomicU64::new(0);
static KINDS: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn gettid() -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
fn yield_point(kind: u32) {
    let s = SLOT.with(|s| s.get());
    if s == usize::MAX || (kind != 0 && KINDS.load(SeqCst) & kind == 0) {
        return;
    }
    GO[s].store(0, SeqCst);
    STATE[s].store(ATYIELD, SeqCst);
    while GO[s].load(SeqCst) == 0 {
        std::thread::park();
    }
    STATE[s].store(WOKEN, SeqCst);
}
/// Run without yield points (all other threads are stopped)
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let s = SLOT.with(|s| s.replace(usize::MAX));
    let r = f();
    SLOT.with(|x| x.set(s));
    r
}

// ---------------------------------------------------------------- a lexicon with yield points
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(usize)]
pub enum Y {
    A,
    B,
    C,
    D,
}
pub struct YLex<'s> {
    src: &'s str,
    at: usize,
}
impl<'s> Lexer<'s> for YLex<'s> {
    type L = Y;
    fn next(&mut self) -> (Opt<Span>, Opt<Token<Y>>) {
        yield_point(Y_NEXT);
        loop {
            let c = match self.src.as_bytes().get(self.at) {
                None => return (None, None),
                Some(c) => *c,
            };
            let sp = Span::new(self.at, self.at + 1);
            self.at += 1;
            return match c {
                b' ' => continue,
                b'a' => (None, Some(Token::new(sp, Y::A))),
                b'b' | b'x' => (None, Some(Token::new(sp, Y::B))),
                b'c' => (None, Some(Token::new(sp, Y::C))),
                b'd' => (None, Some(Token::new(sp, Y::D))),
                _ => (Some(sp), None),
            };
        }
    }
}
/// A table with yield points
#[derive(Default, Clone)]
pub struct YMap<T>([T; 4]);
impl<T> Borrow<[T]> for YMap<T> {
    fn borrow(&self) -> &[T] {
        yield_point(Y_MAP);
        &self.0
    }
}
impl<T> BorrowMut<[T]> for YMap<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        yield_point(Y_MAP);
        &mut self.0
    }
}
impl Lexicon for Y {
    type Bit = u8;
    type Lexer<'s> = YLex<'s>;
    type Map<T: Default + Clone> = YMap<T>;
    fn id(&self) -> usize {
        yield_point(Y_ID);
        *self as usize
    }
    fn from_id_unchecked(id: usize) -> Self {
        [Y::A, Y::B, Y::C, Y::D][id]
    }
    fn to_bit(&self) -> u8 {
        1 << (*self as usize)
    }
    fn first() -> Self {
        Y::A
    }
    fn next(&self) -> Opt<Self> {
        [Opt::Some(Y::B), Opt::Some(Y::C), Opt::Some(Y::D), None][*self as usize]
    }
    fn should_extract(&self) -> bool {
        false
    }
    fn lexer(source: &str) -> Result<YLex<'_>, GrammarError> {
        yield_point(Y_LEXER);
        Ok(YLex { src: source, at: 0 })
    }
}
use teleparse::Lexicon;
macro_rules! terminal {
    ($N:ident, $ty:expr, $lit:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub struct $N(pub Token<Y>);
        impl ToSpan for $N {
            fn lo(&self) -> Pos {
                self.0.span.lo
            }
            fn hi(&self) -> Pos {
                self.0.span.hi
            }
        }
        impl Production for $N {
            type L = Y;
            fn debug() -> Cow<'static, str> {
                yield_point(Y_NAME);
                Cow::Borrowed(stringify!($N))
            }
            fn register(meta: &mut MetadataBuilder<Y>) {
                yield_point(Y_REG);
                let t = Self::id();
                if meta.visit(t, || Self::debug().into_owned()) {
                    meta.add_terminal(t, $ty, $lit);
                }
            }
        }
        impl Produce for $N {
            type Prod = Self;
            fn produce(parser: &mut Parser<'_, Y>, meta: &Metadata<Y>) -> Syn<Self, Y> {
                yield_point(Y_PROD);
                let lit: Opt<&'static str> = $lit;
                match lit {
                    Some(l) => parser
                        .parse_token_lit($ty, l, meta.follow.get(&Self::id()))
                        .map($N),
                    None => parser.parse_token($ty).map($N),
                }
            }
        }
    };
}
terminal!(Ta, Y::A, None);
terminal!(Tb, Y::B, None);
terminal!(Tx, Y::B, Some("x"));
terminal!(Tc, Y::C, Some("c"));
terminal!(Td, Y::D, None);

/// Two roots of the same name with different grammars, in two modules
mod one {
    use super::*;
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub struct S(pub Ta, pub tp::Option<Tb>, pub Tc);
}
mod two {
    use super::*;
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub enum S {
        A(Tx),
        B(super::one::S),
        N(Td),
    }
}
/// Not LL(1)
#[derive_syntax]
#[teleparse(root, no_test)]
#[derive(Debug)]
pub struct Bad(tp::Option<Ta>, one::S);
/// Uses both others, and is recursive
#[derive_syntax]
#[teleparse(root)]
#[derive(Debug)]
pub struct Rec(tp::Vec<two::S>, tp::Option<(Tc, Box<Rec>)>);

/// Roots over a derived lexicon (no yield points inside)
pub mod der {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(" "), terminal_parse)]
    pub enum L {
        #[teleparse(regex("[a-z]"), terminal(Id, Kx = "x"))]
        W,
        #[teleparse(terminal(Plus = "+", Semi = ";"))]
        P,
    }
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub struct S(pub tp::Split<Id, Plus>, pub Semi);
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub enum E {
        S(S),
        P(Plus),
    }
    #[derive_syntax]
    #[teleparse(root, no_test)]
    #[derive(Debug)]
    pub enum Bad {
        A(Id),
        B(Kx),
    }
}
/// A second derived lexicon with the same names
pub mod der2 {
    use teleparse::prelude::*;
    #[derive_lexicon]
    #[teleparse(ignore(" "), terminal_parse)]
    pub enum L {
        #[teleparse(terminal(Plus = "-", Semi = ","))]
        P,
        #[teleparse(regex("[0-9]"), terminal(Id))]
        W,
    }
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub struct S(pub tp::Split<Id, Plus>, pub Semi);
}

/// Many roots that share nodes, which are followed by different things
pub mod sh {
    pub use super::der::*;
    use teleparse::prelude::*;
    #[derive_syntax]
    #[derive(Debug)]
    pub struct Sh(pub tp::Option<Id>, pub tp::Option<Plus>);
    #[derive_syntax]
    #[derive(Debug)]
    pub enum Eh {
        O(tp::Option<Kx>),
        P(Plus),
    }
    #[derive_syntax]
    #[derive(Debug)]
    pub struct Ye(pub Plus, pub Eh);
    macro_rules! root {
        ($n:ident($($t:tt)*)) => {
            #[derive_syntax]
            #[teleparse(root, no_test)]
            #[derive(Debug)]
            pub struct $n($($t)*);
        };
    }
    root!(ROi(pub tp::Option<Id>));
    root!(ROiId(pub tp::Option<Id>, pub Id));
    root!(ROiKx(pub tp::Option<Id>, pub Kx));
    root!(ROiPlus(pub tp::Option<Id>, pub Plus));
    root!(ROiSemi(pub tp::Option<Id>, pub Semi));
    root!(ROiYe(pub tp::Option<Id>, pub Ye));
    root!(RVi(pub tp::Vec<Id>));
    root!(RViId(pub tp::Vec<Id>, pub Id));
    root!(RViKx(pub tp::Vec<Id>, pub Kx));
    root!(RViPlus(pub tp::Vec<Id>, pub Plus));
    root!(RViSemi(pub tp::Vec<Id>, pub Semi));
    root!(RViYe(pub tp::Vec<Id>, pub Ye));
    root!(RNi(pub tp::Nev<Id>));
    root!(RNiId(pub tp::Nev<Id>, pub Id));
    root!(RNiKx(pub tp::Nev<Id>, pub Kx));
    root!(RNiPlus(pub tp::Nev<Id>, pub Plus));
    root!(RNiSemi(pub tp::Nev<Id>, pub Semi));
    root!(RNiYe(pub tp::Nev<Id>, pub Ye));
    root!(RSp(pub tp::Split<Id, Plus>));
    root!(RSpId(pub tp::Split<Id, Plus>, pub Id));
    root!(RSpKx(pub tp::Split<Id, Plus>, pub Kx));
    root!(RSpPlus(pub tp::Split<Id, Plus>, pub Plus));
    root!(RSpSemi(pub tp::Split<Id, Plus>, pub Semi));
    root!(RSpYe(pub tp::Split<Id, Plus>, pub Ye));
    root!(RPu(pub tp::Punct<Id, Plus>));
    root!(RPuId(pub tp::Punct<Id, Plus>, pub Id));
    root!(RPuKx(pub tp::Punct<Id, Plus>, pub Kx));
    root!(RPuPlus(pub tp::Punct<Id, Plus>, pub Plus));
    root!(RPuSemi(pub tp::Punct<Id, Plus>, pub Semi));
    root!(RPuYe(pub tp::Punct<Id, Plus>, pub Ye));
    root!(RSh(pub Sh));
    root!(RShId(pub Sh, pub Id));
    root!(RShKx(pub Sh, pub Kx));
    root!(RShPlus(pub Sh, pub Plus));
    root!(RShSemi(pub Sh, pub Semi));
    root!(RShYe(pub Sh, pub Ye));
    root!(REh(pub Eh));
    root!(REhId(pub Eh, pub Id));
    root!(REhKx(pub Eh, pub Kx));
    root!(REhPlus(pub Eh, pub Plus));
    root!(REhSemi(pub Eh, pub Semi));
    root!(REhYe(pub Eh, pub Ye));
    root!(RBh(pub Box<Sh>));
    root!(RBhId(pub Box<Sh>, pub Id));
    root!(RBhKx(pub Box<Sh>, pub Kx));
    root!(RBhPlus(pub Box<Sh>, pub Plus));
    root!(RBhSemi(pub Box<Sh>, pub Semi));
    root!(RBhYe(pub Box<Sh>, pub Ye));
    root!(RShSemiVi(pub Sh, pub Semi, pub tp::Vec<Id>));
    root!(RViSemiSh(pub tp::Vec<Id>, pub Semi, pub Sh));
    root!(ROiSemiEh(pub tp::Option<Id>, pub Semi, pub Eh));
    root!(REhSemiOi(pub Eh, pub Semi, pub tp::Option<Id>));
    // roots that are parts of other roots
    root!(RIn(pub Id, pub Kx));
    root!(RInId(pub RIn, pub Id));
    root!(RInSemi(pub RIn, pub Semi));
    root!(RInIdPlus(pub RInId, pub Plus));
    root!(RVIn(pub tp::Vec<RIn>, pub Semi));
    root!(ROIn(pub tp::Option<RIn>, pub Plus));
    root!(RBIn(pub Box<RIn>, pub Box<RInId>));
    root!(RTIn(pub (RIn, Plus), pub ROi));
    root!(ROiSelf(pub ROi, pub Semi));
    root!(RRec(pub Plus, pub tp::Option<Box<RRec>>, pub Kx));
    root!(RRecId(pub RRec, pub Id));
    root!(RSpIn(pub tp::Split<RIn, Plus>, pub RRec));
}

// ---------------------------------------------------------------- operations
const ROOTS: usize = 10;
const ALL: usize = ROOTS + MORE.len();
const NAMES: [&str; ROOTS] = [
    "one::S",
    "two::S",
    "Bad",
    "Rec",
    "der::S",
    "der::E",
    "der::Bad",
    "der2::S",
    "der::Semi",
    "der2::Semi",
];
const INPUTS: [&str; ROOTS] = [
    "a c d",
    "x b",
    "a c",
    "x a c d c b",
    "a+;b",
    "+;",
    "x",
    "1-2 3,",
    "; ;",
    ",;",
];
type More = (&'static str, &'static str, fn() -> Obs, fn(&'static str) -> Obs);
macro_rules! more {
    ($n:ident, $i:expr) => {
        (concat!("sh::", stringify!($n)), $i, meta_of::<sh::$n>, parse_of::<sh::$n>)
    };
}
/// Further roots, numbered from ROOTS
const MORE: [More; 64] = [
    more!(ROi, "x  ; a"),
    more!(ROiId, "x a ; a"),
    more!(ROiKx, "x x ; a"),
    more!(ROiPlus, "x + ; a"),
    more!(ROiSemi, "x ; ; a"),
    more!(ROiYe, "x + a ; a"),
    more!(RVi, "a b  ; a"),
    more!(RViId, "a b a ; a"),
    more!(RViKx, "a b x ; a"),
    more!(RViPlus, "a b + ; a"),
    more!(RViSemi, "a b ; ; a"),
    more!(RViYe, "a b + a ; a"),
    more!(RNi, "a b  ; a"),
    more!(RNiId, "a b a ; a"),
    more!(RNiKx, "a b x ; a"),
    more!(RNiPlus, "a b + ; a"),
    more!(RNiSemi, "a b ; ; a"),
    more!(RNiYe, "a b + a ; a"),
    more!(RSp, "a+b  ; a"),
    more!(RSpId, "a+b a ; a"),
    more!(RSpKx, "a+b x ; a"),
    more!(RSpPlus, "a+b + ; a"),
    more!(RSpSemi, "a+b ; ; a"),
    more!(RSpYe, "a+b + a ; a"),
    more!(RPu, "a+b+  ; a"),
    more!(RPuId, "a+b+ a ; a"),
    more!(RPuKx, "a+b+ x ; a"),
    more!(RPuPlus, "a+b+ + ; a"),
    more!(RPuSemi, "a+b+ ; ; a"),
    more!(RPuYe, "a+b+ + a ; a"),
    more!(RSh, "a+  ; a"),
    more!(RShId, "a+ a ; a"),
    more!(RShKx, "a+ x ; a"),
    more!(RShPlus, "a+ + ; a"),
    more!(RShSemi, "a+ ; ; a"),
    more!(RShYe, "a+ + a ; a"),
    more!(REh, "+  ; a"),
    more!(REhId, "+ a ; a"),
    more!(REhKx, "+ x ; a"),
    more!(REhPlus, "+ + ; a"),
    more!(REhSemi, "+ ; ; a"),
    more!(REhYe, "+ + a ; a"),
    more!(RBh, "+  ; a"),
    more!(RBhId, "+ a ; a"),
    more!(RBhKx, "+ x ; a"),
    more!(RBhPlus, "+ + ; a"),
    more!(RBhSemi, "+ ; ; a"),
    more!(RBhYe, "+ + a ; a"),
    more!(RShSemiVi, "a ; + a"),
    more!(RViSemiSh, "a ; + a"),
    more!(ROiSemiEh, "a ; + a"),
    more!(REhSemiOi, "a ; + a"),
    more!(RIn, "a x ; a"),
    more!(RInId, "a x a ; a"),
    more!(RInSemi, "a ; a"),
    more!(RInIdPlus, "a x a"),
    more!(RVIn, "a x a x ; a"),
    more!(ROIn, "a + ; a"),
    more!(RBIn, "a x a"),
    more!(RTIn, "a x + a"),
    more!(ROiSelf, "a ; a"),
    more!(RRec, "+ + x x ; a"),
    more!(RRecId, "+ + x"),
    more!(RSpIn, "a x + a x + x"),
];
fn root_name(r: usize) -> &'static str {
    NAMES.get(r).copied().unwrap_or_else(|| MORE[r - ROOTS].0)
}
fn root_input(r: usize) -> &'static str {
    INPUTS.get(r).copied().unwrap_or_else(|| MORE[r - ROOTS].1)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Meta(usize),
    Parse(usize),
}
impl Op {
    fn root(self) -> usize {
        match self {
            Op::Meta(r) | Op::Parse(r) => r,
        }
    }
    fn show(self) -> String {
        match self {
            Op::Meta(r) => format!("metadata of {}", root_name(r)),
            Op::Parse(r) => format!("parse {:?} as {}", root_input(r), root_name(r)),
        }
    }
}
/// (address of the object or 0, hash of everything seen, everything seen)
type Obs = (u64, String);
fn meta_of<R: Root>() -> Obs {
    let m = R::metadata();
    quiet(|| {
        let t = match m {
            Ok(m) => format!(
                "{m:?} names {:?} jumps {:?}",
                m.names.values().collect::<Vec<_>>(),
                m.names.len()
            ),
            Err(e) => format!("error {e:?}"),
        };
        (m as *const _ as *const u8 as u64, t)
    })
}
fn parse_of<R: Root + std::fmt::Debug>(src: &'static str) -> Obs {
    let mut p = match Parser::<<R::Prod as Production>::L>::new(src) {
        Ok(p) => p,
        Err(e) => return (0, format!("no parser {e:?}")),
    };
    let a = p.parse::<R>();
    let b = p.parse::<R>();
    quiet(|| {
        let i = p.info();
        let t = format!(
            "{a:?} {b:?} errors {:?} tokens {:?} invalid {:?} extracted {:?}",
            i.errors, i.tokens, i.invalid_source, i.extracted_tokens
        );
        let r = p.remaining();
        (0, format!("{t} left {r:?}"))
    })
}
fn perform(op: Op) -> Obs {
    macro_rules! all {
        ($f:ident, $r:expr $(, $x:expr)?) => {
            match $r {
                0 => $f::<one::S>($($x)?),
                1 => $f::<two::S>($($x)?),
                2 => $f::<Bad>($($x)?),
                3 => $f::<Rec>($($x)?),
                4 => $f::<der::S>($($x)?),
                5 => $f::<der::E>($($x)?),
                6 => $f::<der::Bad>($($x)?),
                7 => $f::<der2::S>($($x)?),
                8 => $f::<der::Semi>($($x)?),
                _ => $f::<der2::Semi>($($x)?),
            }
        };
    }
    match op {
        Op::Meta(r) if r >= ROOTS => MORE[r - ROOTS].2(),
        Op::Parse(r) if r >= ROOTS => MORE[r - ROOTS].3(root_input(r)),
        Op::Meta(r) => all!(meta_of, r),
        Op::Parse(r) => all!(parse_of, r, INPUTS[r]),
    }
}

// ---------------------------------------------------------------- one run, in a child process
const BUF: usize = 1 << 18;
fn shared() -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), BUF, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        p
    }
}
/// Run f in a child and return the bytes it returns, or how it ended
fn in_child(buf: *mut u8, f: impl FnOnce() -> String) -> Result<String, String> {
    let head = buf as *mut u64;
    unsafe {
        head.write_volatile(0);
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            alarm(40);
            let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(s) => s,
                Err(_) => "PANIC\tcontroller".into(),
            };
            let b = s.as_bytes();
            let n = b.len().min(BUF - 16);
            for (i, x) in b[..n].iter().enumerate() {
                buf.add(16 + i).write_volatile(*x);
            }
            head.add(1).write_volatile(b.len() as u64);
            head.write_volatile(n as u64 + 1);
            _exit(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        let n = head.read_volatile() as usize;
        let want = head.add(1).read_volatile() as usize;
        if st != 0 || n == 0 {
            return Err(match st & 0x7f {
                14 => "not over after 40 seconds (hang)".into(),
                0 => format!("the process exited with {}", st >> 8),
                s => format!("the process was killed by signal {s}"),
            });
        }
        assert!(want <= BUF - 16, "trace too long: {want}");
        let bytes: Vec<u8> = (0..n - 1)
            .map(|i| buf.add(16 + i).read_volatile())
            .collect();
        Ok(String::from_utf8_lossy(&bytes).into_owned())
    }
}
fn stat_of(tid: u32) -> u8 {
    let s = std::fs::read(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.iter()
        .rposition(|c| *c == b')')
        .and_then(|i| s.get(i + 2).copied())
        .unwrap_or(b'?')
}
/// Processor time of a thread in milliseconds
fn cpu_of(tid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).unwrap_or_default();
    s.split(' ')
        .next()
        .and_then(|x| x.parse::<u64>().ok())
        .unwrap_or(0)
        / 1_000_000
}
fn obs_line(o: &Result<Obs, String>, refs: &[String], op: Op) -> String {
    let want = &refs[match op {
        Op::Meta(r) => r,
        Op::Parse(r) => ALL + r,
    }];
    match o {
        Err(e) => format!("P\t{e}"),
        Ok((p, t)) if t == want => format!("=\t{p}"),
        Ok((p, t)) => format!("!\t{p}\t{}", t.replace(['\n', '\t'], " ")),
    }
}
/// Runs the programs under the schedule `prefix` (continued without preemption), and returns lines
/// "S chosen enabled" per step and "R thread op ..." per result.
fn controlled(progs: &[Vec<Op>], kinds: u32, prefix: &[u8], refs: &[String]) -> String {
    let n = progs.len();
    KINDS.store(kinds, SeqCst);
    let out = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let refs = std::sync::Arc::new(refs.to_vec());
    let handles: Vec<_> = (0..n)
        .map(|i| {
            let ops = progs[i].clone();
            let out = out.clone();
            let refs = refs.clone();
            std::thread::spawn(move || {
                TID[i].store(unsafe { gettid() } as u32, SeqCst);
                SLOT.with(|s| s.set(i));
                yield_point(0);
                for (k, op) in ops.iter().enumerate() {
                    let r = std::panic::catch_unwind(|| perform(*op));
                    let line = obs_line(&r.map_err(|_| "panic".to_string()), &refs, *op);
                    out.lock()
                        .unwrap()
                        .push_str(&format!("R\t{i}\t{k}\t{line}\n"));
                    if k + 1 < ops.len() {
                        yield_point(0);
                    }
                }
                STATE[i].store(DONE, SeqCst);
                // ends only when all are done, as ending takes locks
                while GO[i].load(SeqCst) != 2 {
                    std::thread::park();
                }
            })
        })
        .collect();
    let mut trace = String::new();
    let mut blocked = [false; MAXT];
    let mut spins = [false; MAXT];
    let mut last: Opt<usize> = None;
    let mut step = 0;
    loop {
        // wait until every thread has stopped
        // (twice, as one that waited may have been woken by one that stopped later)
        let mut quiet_passes = 0;
        while quiet_passes < 2 {
            quiet_passes += 1;
            for i in 0..n {
                let was = (STATE[i].load(SeqCst), blocked[i]);
                let start = std::time::Instant::now();
                let mut cpu = None;
                let mut asleep = 0;
                loop {
                    let s = STATE[i].load(SeqCst);
                    if s == ATYIELD || s == DONE {
                        blocked[i] = false;
                        break;
                    }
                    if s == WOKEN || blocked[i] {
                        // asleep outside a yield point: waits for another thread
                        if stat_of(TID[i].load(SeqCst)) == b'S' && STATE[i].load(SeqCst) == s {
                            asleep += 1;
                            if blocked[i] || asleep >= 4 {
                                blocked[i] = true;
                                break;
                            }
                            std::thread::sleep(std::time::Duration::from_micros(30));
                        } else {
                            asleep = 0;
                            blocked[i] = false;
                        }
                        // waits by spinning: much processor time without getting anywhere
                        if start.elapsed().as_millis() > 20 {
                            let now = cpu_of(TID[i].load(SeqCst));
                            let from = *cpu.get_or_insert(now);
                            if now - from <= if spins[i] { 20 } else { 500 } {
                                continue;
                            }
                            blocked[i] = true;
                            spins[i] = true;
                            break;
                        }
                    }
                    if start.elapsed().as_micros() > 200 {
                        std::thread::sleep(std::time::Duration::from_micros(20));
                    } else {
                        std::hint::spin_loop();
                    }
                }
                if was != (STATE[i].load(SeqCst), blocked[i]) {
                    quiet_passes = 0;
                }
            }
        }
        let mut enabled = 0u32;
        let mut done = 0;
        for i in 0..n {
            match STATE[i].load(SeqCst) {
                ATYIELD => enabled |= 1 << i,
                DONE => done += 1,
                _ => {}
            }
        }
        if done == n {
            break;
        }
        if enabled == 0 {
            trace.push_str("X\tdeadlock\n");
            trace.push_str(&out.lock().unwrap());
            return trace;
        }
        let pick = match prefix.get(step) {
            Some(p) => {
                if enabled >> *p & 1 == 0 {
                    trace.push_str(&format!("N\tstep {step}: thread {p} cannot run\n"));
                    return trace;
                }
                *p as usize
            }
            None => match last {
                Some(l) if enabled >> l & 1 == 1 => l,
                _ => enabled.trailing_zeros() as usize,
            },
        };
        let b = (0..n).filter(|i| blocked[*i]).fold(0u32, |a, i| a | 1 << i);
        trace.push_str(&format!("S\t{pick}\t{enabled}\t{b}\n"));
        last = Some(pick);
        step += 1;
        STEPS.store(step as u64, SeqCst);
        STATE[pick].store(RUN, SeqCst);
        GO[pick].store(1, SeqCst);
        handles[pick].thread().unpark();
    }
    for (i, h) in handles.into_iter().enumerate() {
        GO[i].store(2, SeqCst);
        h.thread().unpark();
        let _ = h.join();
    }
    trace.push_str(&out.lock().unwrap());
    // once more, when all is over
    let mut roots: Vec<usize> = progs.iter().flatten().map(|o| o.root()).collect();
    roots.sort();
    roots.dedup();
    for r in roots {
        for op in [Op::Meta(r), Op::Parse(r)] {
            let o = std::panic::catch_unwind(|| perform(op)).map_err(|_| "panic".to_string());
            trace.push_str(&format!(
                "E\t{r}\t{}\t{}\n",
                matches!(op, Op::Meta(_)),
                obs_line(&o, &refs, op)
            ));
        }
    }
    trace
}

/// What each operation gives in a process that does nothing else: for every root, metadata and parse
fn references(buf: *mut u8) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for k in 0..2 {
        for r in 0..ALL {
            let op = if k == 0 { Op::Meta(r) } else { Op::Parse(r) };
            v.push(
                in_child(buf, || perform(op).1.replace(['\n', '\t'], " "))
                    .map_err(|e| format!("{}: {e}", op.show()))?,
            );
        }
    }
    Ok(v)
}

struct Ran {
    sched: Vec<(u8, u32)>,
    bad: Vec<String>,
    states: Vec<u64>,
}
fn run(
    buf: *mut u8,
    progs: &[Vec<Op>],
    kinds: u32,
    prefix: &[u8],
    refs: &[String],
) -> Result<Ran, String> {
    let text = in_child(buf, || controlled(progs, kinds, prefix, refs))?;
    let mut r = Ran {
        sched: vec![],
        bad: vec![],
        states: vec![],
    };
    let mut addr: [u64; ALL] = [0; ALL];
    let mut pos = [0u16; MAXT];
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "S" => {
                let p: u8 = f[1].parse().unwrap();
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (pos, f[2], f[3]).hash(&mut h);
                r.states.push(h.finish());
                pos[p as usize] += 1;
                r.sched.push((p, f[2].parse().unwrap()));
            }
            "X" => r.bad.push("no thread can go on".into()),
            "N" => return Err(f[1].into()),
            _ => {
                let (op, who) = if f[0] == "R" {
                    let (i, k): (usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap());
                    (progs[i][k], format!("thread {i}"))
                } else {
                    let root = f[1].parse().unwrap();
                    (
                        if f[2] == "true" {
                            Op::Meta(root)
                        } else {
                            Op::Parse(root)
                        },
                        "afterwards".to_string(),
                    )
                };
                match f[3] {
                    "P" => r.bad.push(format!("{who}, {}: panic", op.show())),
                    x => {
                        let p: u64 = f[4].parse().unwrap();
                        if x == "!" {
                            r.bad.push(format!(
                                "{who}, {}: {}",
                                op.show(),
                                f.get(5).unwrap_or(&"")
                            ));
                        }
                        if let Op::Meta(k) = op {
                            if addr[k] != 0 && addr[k] != p {
                                r.bad.push(format!(
                                    "{who}, {}: another object than an earlier caller",
                                    op.show()
                                ));
                            }
                            addr[k] = p;
                        }
                    }
                }
            }
        }
    }
    Ok(r)
}
fn show(progs: &[Vec<Op>]) -> String {
    progs
        .iter()
        .enumerate()
        .map(|(i, p)| {
            format!(
                "thread {i}: {}",
                p.iter()
                    .map(|o| o.show())
                    .collect::<Vec<_>>()
                    .join(", then ")
            )
        })
        .collect::<Vec<_>>()
        .join("\n")
}

thread_local! {
    static REFS: std::cell::OnceCell<(Result<Vec<String>, String>, *mut u8)> = const { std::cell::OnceCell::new() };
}
fn with<R>(f: impl FnOnce(*mut u8, &Result<Vec<String>, String>) -> R) -> R {
    REFS.with(|c| {
        let (r, p) = c.get_or_init(|| {
            let b = shared();
            (references(b), b)
        });
        f(*p, r)
    })
}

fn explore(progs: &[Vec<Op>], kinds: u32, bound: u32, ctx: &mut Ctx) {
    with(|buf, refs| {
        let refs = match refs {
            Ok(r) => r,
            Err(e) => {
                ctx.fail("reference", format!("a single call fails: {e}"));
                return;
            }
        };
        let mut stack: Vec<Vec<u8>> = vec![vec![]];
        let mut n = 0u64;
        while let Some(prefix) = stack.pop() {
            ctx.sub(n);
            n += 1;
            let bad = |r: &Result<Ran, String>| r.as_ref().map_or(true, |r| !r.bad.is_empty());
            let mut r = run(buf, progs, kinds, &prefix, refs);
            // a schedule decides everything, so what it shows, it shows again
            for _ in 0..2 {
                if bad(&r) {
                    let again = run(buf, progs, kinds, &prefix, refs);
                    if bad(&again) {
                        break;
                    }
                    ctx.count("not confirmed", 1);
                    r = again;
                }
            }
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    ctx.fail(
                        format!("{progs:?}/{prefix:?}"),
                        format!("{}\nschedule {prefix:?}: {e}", show(progs)),
                    );
                    return;
                }
            };
            ctx.count("traces", 1);
            ctx.count("transitions", r.sched.len() as u64);
            ctx.max("schedule length", r.sched.len() as u64);
            for s in &r.states {
                ctx.distinct("states", &(progs, kinds, s));
            }
            if !r.bad.is_empty() {
                let s: Vec<u8> = r.sched.iter().map(|x| x.0).collect();
                ctx.fail(
                    format!("{progs:?}/{s:?}"),
                    format!(
                        "{}\nschedule (thread that runs at each step): {s:?}\n{}",
                        show(progs),
                        r.bad.join("\n")
                    ),
                );
                return;
            }
            let mut cost = 0;
            let mut last: Opt<u8> = None;
            for (i, (p, en)) in r.sched.iter().enumerate() {
                if i >= prefix.len() {
                    for alt in 0..progs.len() as u8 {
                        if alt == *p || en >> alt & 1 == 0 {
                            continue;
                        }
                        let c =
                            cost + u32::from(last.is_some_and(|l| l != alt && en >> l & 1 == 1));
                        if c <= bound {
                            let mut q: Vec<u8> = r.sched[..i].iter().map(|x| x.0).collect();
                            q.push(alt);
                            stack.push(q);
                        }
                    }
                }
                cost += u32::from(last.is_some_and(|l| l != *p && en >> l & 1 == 1));
                last = Some(*p);
            }
        }
        ctx.max("schedules of one program", n);
        if n > 1 {
            ctx.count("programs with a choice", 1);
        }
    })
}

fn programs(ops: &[Op], threads: usize, len: usize) -> Vec<Vec<Vec<Op>>> {
    let mut one: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..len {
        one = one
            .into_iter()
            .flat_map(|p| {
                ops.iter().map(move |o| {
                    let mut p = p.clone();
                    p.push(*o);
                    p
                })
            })
            .collect();
    }
    let mut all: Vec<Vec<Vec<Op>>> = vec![vec![]];
    for _ in 0..threads {
        // threads are interchangeable: programs in ascending order
        all = all
            .into_iter()
            .flat_map(|v| {
                let from = v
                    .last()
                    .map(|l| one.iter().position(|o| o == l).unwrap())
                    .unwrap_or(0);
                one[from..]
                    .iter()
                    .map(move |o| {
                        let mut v = v.clone();
                        v.push(o.clone());
                        v
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    all
}

fn job(name: String, progs: Vec<Vec<Vec<Op>>>, kinds: u32, bound: u32) -> Job {
    let progs = Rc::new(progs);
    let p2 = progs.clone();
    let mut j = Job::new(
        name,
        progs.len() as u64,
        move |i, ctx| explore(&progs[i as usize], kinds, bound, ctx),
        move |i, _| show(&p2[i as usize]),
    );
    j.chunk = 1;
    j
}

/// Every order of first use of the given roots on one thread
fn orders(of: &[usize]) -> Vec<Vec<usize>> {
    if of.len() <= 1 {
        return vec![of.to_vec()];
    }
    let mut v = vec![];
    for (i, x) in of.iter().enumerate() {
        let mut rest = of.to_vec();
        rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, *x);
            v.push(o);
        }
    }
    v
}
fn choose(n: usize, k: usize, from: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    (from..n)
        .flat_map(|i| {
            choose(n, k - 1, i + 1).into_iter().map(move |mut v| {
                v.insert(0, i);
                v
            })
        })
        .collect()
}

fn build_check(prop: &str, thorough: bool) -> Opt<Check> {
    if prop != "P19" {
        return None;
    }
    use Op::*;
    let y = [
        Meta(0),
        Meta(1),
        Meta(2),
        Meta(3),
        Parse(0),
        Parse(1),
        Parse(2),
        Parse(3),
    ];
    let some = [Meta(0), Meta(1), Meta(2), Parse(1), Parse(3), Parse(4)];
    let der: Vec<Op> = (4..ROOTS).flat_map(|r| [Meta(r), Parse(r)]).collect();
    let mut jobs = vec![];
    let d = |q: u32, t: u32| if thorough { t } else { q };
    // two threads, one call each, every point inside the calls
    jobs.push(job(
        format!("pairs-coarse-{}", d(2, 3)),
        programs(&y, 2, 1),
        COARSE,
        d(2, 3),
    ));
    jobs.push(job(
        format!("pairs-fine-{}", d(1, 2)),
        programs(&y, 2, 1),
        FINE,
        d(1, 2),
    ));
    // the same with points inside every look at a set
    let metas = [Meta(0), Meta(1), Meta(2), Meta(3)];
    jobs.push(job(
        format!("pairs-finest-{}", d(1, 2)),
        programs(&metas, 2, 1),
        FINEST,
        d(1, 2),
    ));
    // two calls each
    jobs.push(job(
        format!("twice-{}", d(1, 2)),
        programs(&some, 2, 2),
        COARSE,
        d(1, 2),
    ));
    // three threads
    jobs.push(job(
        format!("three-{}", d(1, 2)),
        programs(&some, 3, 1),
        COARSE,
        d(1, 2),
    ));
    // roots without yield points: calls are steps
    jobs.push(job("derived".into(), programs(&der, 2, 1), FINE, 9));
    // orders of first use
    let k = if thorough { 4 } else { 3 };
    let mut progs = vec![];
    for c in choose(ROOTS, k, 0) {
        for o in orders(&c) {
            progs.push(vec![o.iter().map(|r| Meta(*r)).collect()]);
            progs.push(vec![o.iter().map(|r| Parse(*r)).collect()]);
        }
    }
    for o in orders(&(0..if thorough { 7 } else { 5 }).collect::<Vec<_>>()) {
        progs.push(vec![o.iter().map(|r| Meta(*r)).collect()]);
    }
    jobs.push(job(format!("orders-{k}"), progs, 0, 0));
    // pairs of roots that share nodes, in both orders, and all of them in turn
    let all: Vec<usize> = (ROOTS..ROOTS + MORE.len()).collect();
    let mut progs = vec![];
    for a in &all {
        for b in &all {
            if a != b {
                progs.push(vec![vec![Meta(*a), Meta(*b)]]);
                progs.push(vec![vec![Parse(*a), Parse(*b)]]);
            }
        }
    }
    for k in 0..all.len() {
        let turn: Vec<usize> = all[k..].iter().chain(&all[..k]).copied().collect();
        progs.push(vec![turn.iter().map(|r| Meta(*r)).collect()]);
        progs.push(vec![turn.iter().rev().map(|r| Parse(*r)).collect()]);
    }
    if thorough {
        for c in choose(all.len(), 3, 0) {
            for o in orders(&c) {
                progs.push(vec![o.iter().map(|r| Meta(all[*r])).collect()]);
            }
        }
    }
    jobs.push(job("shared".into(), progs, 0, 0));
    Some(Check {
        prop: "P19",
        level: "model_checking",
        rule: "traces: complete schedules of the threads of a program; transitions: steps of a thread from one yield point to the next; states: positions of all threads and which of them are blocked".into(),
        assumptions: vec![
            "threads are preempted at calls the library makes into the lexicon and the terminals of the grammar (creating a lexer, registering, naming, reading a token, parsing a terminal, every access to a set or table entry) and between calls, not between single instructions".into(),
            "schedules with more preemptions than the bound are not explored".into(),
        ],
        jobs,
        cap_s: if thorough { 840 } else { 300 },
        hang_s: 120,
        workers: 0,
    })
}

fn main() {
    mc::main(build_check)
}
