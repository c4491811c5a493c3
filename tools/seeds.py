HEAD='''
use teleparse::prelude::*;
use teleparse::syntax::ErrorKind;
use teleparse::{GrammarError, Parser};

#[derive_lexicon]
#[teleparse(ignore(r"[ \\n]+"))]
pub enum T {
    #[teleparse(regex(r"[a-z]+"), terminal(Id, KwIf = "if", KwBe = "be"))]
    Word,
    #[teleparse(terminal(Plus = "+", Minus = "-", Comma = ",", Semi = ";", Open = "(", Close = ")"))]
    Op,
    #[teleparse(regex(r"[0-9]+"), terminal(Num))]
    Number,
    #[teleparse(regex(r"#[a-z]*"))]
    Comment,
    #[teleparse(terminal())]
    TagA,
    #[teleparse(terminal())]
    TagB,
}
#[allow(unused)]
fn spans(p: &Parser<T>) -> Vec<(usize, usize)> { p.info().errors.iter().map(|e| (e.span.lo, e.span.hi)).collect() }
'''
MANUAL='''
use teleparse::syntax::{Epsilon, Metadata, MetadataBuilder};
use teleparse::Production;
macro_rules! prod {
    ($n:ident = $k:ident($($t:ty),*)) => {
        #[derive(Debug)]
        struct $n;
        impl Production for $n {
            type L = T;
            fn debug() -> std::borrow::Cow<'static, str> { stringify!($n).into() }
            fn register(meta: &mut MetadataBuilder<T>) { teleparse::$k!(meta, $($t),*) }
        }
    };
}
'''
TP='teleparse/src/'
MA='macros/src/'
SEEDS=[
 dict(id='lexer-run-restarts',property='P01',also=['P18'],
  edits=[(TP+'lex/lexer.rs','            if !has_invalid {\n                // logos','            if !has_invalid || invalid_span.start > invalid_end {\n                // logos')],
  needs='two pieces of invalid text with ignored text between them and no token',
  breaks='only the last piece of an interrupted invalid run is reported; the earlier characters are in no token, ignored text or error',
  demo=HEAD+'''
fn main() {
    let mut p = Parser::<T>::new("a @@ ?? b").unwrap();
    while p.consume_token().is_some() {}
    assert_eq!(p.info().invalid_source, vec![Span::new(2, 7)]);
}
'''),
 dict(id='first-conditional-once',property='P02',also=['P04','P07'],
  edits=[(TP+'syntax/first/builder.rs','                    *self = *inner;\n                    return (changed, retain);','                    *self = *inner;\n                    return (changed, retain && !changed);')],
  needs='a sequence whose first element can be empty and whose second gets more FIRST terminals after the rule was first applied',
  breaks='FIRST of such a sequence misses terminals that are found late',
  demo=HEAD+'''
// B's FIRST grows in several steps after A's emptiness is known
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Option<Plus>, B);
#[derive_syntax] #[derive(Debug)]
enum B { M(Minus), C(C) }
#[derive_syntax] #[derive(Debug)]
enum C { N(Num), D(D) }
#[derive_syntax] #[derive(Debug)]
enum D { O(Open), E(E) }
#[derive_syntax] #[derive(Debug)]
struct E(Semi);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct Top(tp::Vec<S>);
fn main() {
    for s in ["-", "1", "(", ";", "+-", "+;"] {
        let m = S::metadata().as_ref().unwrap();
        let mut p = Parser::<T>::new(s).unwrap();
        let t = p.peek_token_src();
        assert!(m.first.get(&S::prod_id()).contains(t), "{s}");
        let mut p = Parser::<T>::new(s).unwrap();
        let t = p.parse::<Top>().unwrap().unwrap();
        assert_eq!(t.0.len(), 1, "{s}");
    }
}
'''),
 dict(id='first-conditional-dropped',property='P02',also=['P07'],
  edits=[(TP+'syntax/first/builder.rs','''                    Some(set) => !set.contains_epsilon(),
                    None => true,''','''                    Some(set) => !set.contains_epsilon(),
                    None => false,''')],
  needs='a rule that is processed before the set of the element it depends on exists',
  breaks='FIRST of a sequence contains the terminals of elements after one that cannot be empty, and the empty symbol',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(A, B);
#[derive_syntax] #[derive(Debug)]
struct A(Num, tp::Option<Plus>);
#[derive_syntax] #[derive(Debug)]
struct B(Minus, Semi);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct Top(tp::Option<S>, Minus);
fn main() {
    assert!(Top::metadata().is_ok(), "{:?}", Top::metadata().as_ref().err());
    let m = S::metadata().as_ref().unwrap();
    let mut p = Parser::<T>::new("-").unwrap();
    let t = p.peek_token_src();
    assert!(!m.first.get(&S::prod_id()).contains(t));
    assert!(!m.first.get(&S::prod_id()).contains_epsilon());
}
'''),
 dict(id='follow-eof-leak',property='P03',also=['P12'],
  edits=[(TP+'syntax/follow/set.rs','self.0.union(other.as_terminal_set(), false)','self.0.union(other.as_terminal_set(), true)')],
  needs='an element followed by one that can be empty, itself followed by something that cannot',
  breaks='the empty symbol of a FIRST set leaks into FOLLOW as end of input',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Open, A, tp::Option<Num>, Close);
#[derive_syntax] #[derive(Debug)]
struct A(Plus, Minus);
fn main() {
    let m = S::metadata().as_ref().unwrap();
    assert!(!m.follow.get(&A::prod_id()).contains(None));
    assert!(m.follow.get(&S::prod_id()).contains(None));
}
'''),
 dict(id='union-conflict-neighbours',property='P04',also=['P05'],
  edits=[(TP+'syntax/metadata.rs','                check_set.union(first_set);','                check_set = first_set.clone();')],
  needs='two alternatives with a common first terminal and another alternative between them',
  breaks='an ambiguous enum is accepted',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
enum S { A(A), B(Num), C(C) }
#[derive_syntax] #[derive(Debug)]
struct A(Id, Plus);
#[derive_syntax] #[derive(Debug)]
struct C(KwIf, Minus);
fn main() {
    assert!(matches!(S::metadata(), Err(GrammarError::FirstFirstConflict(..))));
}
'''),
 dict(id='left-recursion-leftmost-only-struct',property='P05',
  edits=[(TP+'lib.rs','let message = format!("{} -> {}", stack.join(" -> "), current);','let stack = stack.iter().position(|x| *x == current).map(|i| &stack[i + 1..]).unwrap_or(stack);\n        let message = format!("{} -> {}", stack.join(" -> "), current);')],
  needs='a left-recursive grammar',
  breaks='the stack shown does not start with the production that recurs, so it is no cycle',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root, no_test)]
struct S(A, Plus);
#[derive_syntax] #[derive(Debug)]
struct A(tp::Option<Num>, Box<B>);
#[derive_syntax] #[derive(Debug)]
struct B(tp::Option<Minus>, A, Semi);
fn main() {
    match S::metadata() {
        Err(GrammarError::LeftRecursion(s)) => { let v: Vec<&str> = s.split(" -> ").collect(); assert!(v[..v.len() - 1].contains(v.last().unwrap()), "{s}"); }
        Err(_) => {}
        Ok(_) => panic!("accepted"),
    }
}
'''),
 dict(id='jump-default-empty',property='P06',also=['P07','P08'],
  edits=[(TP+'syntax/jump.rs','''        token
            .map(|token| self.look_up_token(&token))
            .unwrap_or(self.epsilon)''','''        token
            .and_then(|token| self.look_up_token(&token))
            .or(self.epsilon)''')],
  needs='an enum with an alternative that can be empty, and a token that neither starts nor may follow it',
  breaks='the empty alternative is predicted for a token that cannot follow; the enum succeeds and the error is reported by its parent',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Open, E, Close);
#[derive_syntax] #[derive(Debug)]
enum E { A(tp::Option<Num>), B(Plus) }
fn main() {
    let mut p = Parser::<T>::new("(;)").unwrap();
    p.parse::<S>().unwrap();
    assert_eq!(p.info().errors.len(), 1);
    assert!(matches!(&p.info().errors[0].data, ErrorKind::Expecting(s) if s.contains_epsilon()), "{:?}", p.info().errors);
}
'''),
 dict(id='literal-by-prefix',property='P07',also=['P12','P18','P08'],
  edits=[(TP+'parser/parser_impl.rs','token.ty == ty && token_src.src == match_lit','token.ty == ty && token_src.src.starts_with(match_lit)')],
  needs='a literal of a token type with longer texts that begin with it, in a place reached without prediction',
  breaks='a longer word is taken for the literal',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, KwIf, Num);
fn main() {
    let mut p = Parser::<T>::new("1 iffy 2").unwrap();
    let t = p.parse::<S>().unwrap();
    assert!(t.is_none());
    assert_eq!(spans(&p), vec![(2, 6)]);
}
'''),
 dict(id='eof-before-trailing-text',property='P08',also=['P18','P12'],
  edits=[(TP+'parser/info.rs','Span::new(self.source.len(), self.source.len())','let end = self.source.trim_end().len();\n        Span::new(end, end)')],
  needs='input that ends too early and has ignored text at its end',
  breaks='the end-of-input error is not at the end of the input',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, Num);
fn main() {
    let mut p = Parser::<T>::new("1  \\n").unwrap();
    assert!(p.parse::<S>().unwrap().is_none());
    assert_eq!(spans(&p), vec![(4, 4)]);
}
'''),
 dict(id='split-eof-hang',property='P09',also=['P10'],
  edits=[(TP+'tp_impl/split.rs','                if token.is_none() || follow.contains(token) {','                if follow.contains(token) {')],
  needs='input that ends inside a delimited list that must be followed by something',
  breaks='the parser never returns',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Open, tp::Split<Num, Comma>, Close);
fn main() {
    let mut p = Parser::<T>::new("(1, ").unwrap();
    assert!(p.parse::<S>().unwrap().is_none());
}
'''),
 dict(id='split-recovered-loses-skip',property='P10',also=['P08'],
  edits=[(TP+'tp_impl/split.rs','''                            errors.extend(e);
                            if let Some(e) = panic {
                                errors.push(e);
                            }
                            continue 'outer;''','''                            errors.extend(e);
                            continue 'outer;''')],
  needs='a bad item of a delimited list after which an item is found that itself recovers from an error',
  breaks='the error covering the skipped input is lost',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Split<I, Comma>);
#[derive_syntax] #[derive(Debug)]
struct I(Num, Semi);
fn main() {
    let mut p = Parser::<T>::new("1;, + - 2, 3;").unwrap();
    let t = p.parse::<S>().unwrap().unwrap();
    assert_eq!(t.0.elems.len(), 3);
    assert_eq!(spans(&p), vec![(9, 10), (4, 7)]);
}
'''),
 dict(id='loop-drops-recovered',property='P11',also=['P08'],
  edits=[(TP+'tp_impl/iter.rs','''                SynResult::Recovered(t, e) => {
                    output.push(t);
                    errors.extend(e);
                }
                SynResult::Panic(e) => {
                    errors.extend(e);
                }
            }
            let span''','''                SynResult::Recovered(t, e) => {
                    output.push(t);
                    if errors.is_empty() {
                        errors = e;
                    }
                }
                SynResult::Panic(e) => {
                    errors.extend(e);
                }
            }
            let span''')],
  needs='a looping list that reported an error before an element that recovers from one',
  breaks='the second error is lost',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Loop<I>);
#[derive_syntax] #[derive(Debug)]
struct I(Num, Semi);
fn main() {
    let mut p = Parser::<T>::new("+ 1; 2 3;").unwrap();
    let t = p.parse::<S>().unwrap().unwrap();
    assert_eq!(t.0.len(), 3);
    assert_eq!(spans(&p), vec![(0, 1), (7, 8)]);
}
'''),
 dict(id='fill-in-needs-other-type',property='P12',also=['P07'],
  edits=[(TP+'parser/parser_impl.rs','        if follow.contains(Some(token_src)) {','        if token.ty != ty && follow.contains(Some(token_src)) {')],
  needs='a missing literal where the next token has the same token type as the literal and may follow it',
  breaks='the literal is not filled in and the node fails',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, Close, Semi);
fn main() {
    let mut p = Parser::<T>::new("1 ;").unwrap();
    let t = p.parse::<S>().unwrap().unwrap();
    assert_eq!((t.1.span(), t.2.span()), (Span::new(1, 1), Span::new(2, 3)));
    assert_eq!(spans(&p), vec![(2, 3)]);
}
'''),
 dict(id='tuple4-span',property='P13',
  edits=[(TP+'lex/span.rs','derive_to_span_tuple!(3, A, B, C, D);','derive_to_span_tuple!(2, A, B, C, D);')],
  needs='a tuple of four nodes whose span is used',
  breaks='the span of a tuple of four ends before its last part',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Vec<(Num, Plus, Num, Semi)>, tp::String<tp::Option<(Open, Id, Comma, Close)>>);
fn main() {
    let mut p = Parser::<T>::new("1+2; (a,) ").unwrap();
    let t = p.parse::<S>().unwrap().unwrap();
    assert_eq!(t.0.span(), Span::new(0, 4));
    assert_eq!(&*t.1, "(a,)");
}
'''),
 dict(id='semantic-toggles',property='P14',also=['P16'],
  edits=[(TP+'lex/set.rs','Self(self.0 | other.0)','Self(self.0 ^ other.0)')],
  needs='two nested nodes annotated with the same semantic type',
  breaks='the type annotated twice is removed again',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, #[teleparse(semantic(TagA))] I);
#[derive_syntax] #[derive(Debug)]
struct I(Plus, #[teleparse(semantic(TagA, TagB))] Id);
fn main() {
    let mut p = Parser::<T>::new("1 + x").unwrap();
    p.parse::<S>().unwrap().unwrap();
    let v: Vec<_> = p.info().tokens.iter().map(|c| c.semantics()).collect();
    assert_eq!(v, vec![token_set!(T), token_set!(T { TagA }), token_set!(T { TagA | TagB })]);
}
'''),
 dict(id='overlap-last-token',property='P15',
  edits=[(TP+'lex/vec.rs','if i < self.0.len() && self.0[i].span.lo < span.hi {','if i + 1 < self.0.len() && self.0[i].span.lo < span.hi {')],
  needs='a span that ends inside the last token',
  breaks='the last token is left out of the overlap query',
  demo=HEAD+'''
fn main() {
    let mut p = Parser::<T>::new("aa bb cc").unwrap();
    while p.consume_token().is_some() {}
    let v: Vec<_> = p.info().tokens.overlap(4..7).iter().map(|c| c.span()).collect();
    assert_eq!(v, vec![Span::new(3, 5), Span::new(6, 8)]);
}
'''),
 dict(id='ends-at-first',property='P15',
  edits=[(TP+'lex/vec.rs','        while lo > 0 && predicate(&self.0[lo - 1]) {','        while lo > 1 && predicate(&self.0[lo - 1]) {')],
  needs='a run of matching tokens that reaches the very first token',
  breaks='the first token is left out of the run',
  demo=HEAD+'''
fn main() {
    let mut p = Parser::<T>::new("aa bb cc").unwrap();
    while p.consume_token().is_some() {}
    let v = p.info().tokens.ends_at_matches(5, |_| true).map(|s| s.iter().count());
    assert_eq!(v, Some(2));
    let v = p.info().tokens.ends_at_matches(2, |_| true).map(|s| s.iter().count());
    assert_eq!(v, Some(1));
}
'''),
 dict(id='set-iter-sentinel',property='P16',
  edits=[(TP+'lex/set.rs','const START: usize = 129;','const START: usize = 127;')],
  needs='a lexicon with 128 token types and a set that contains the last one',
  breaks='iterating starts over after the last type, forever',
  demo='''
use teleparse::prelude::*;
use teleparse::lex::Set;
#[derive_lexicon]
pub enum L { '''+', '.join('A%d'%i for i in range(127))+''', #[teleparse(terminal(X = "x"))] Z }
fn main() {
    let mut s = Set::<L>::new();
    s.insert(L::A3);
    s.insert(L::Z);
    let v: Vec<_> = s.into_iter().take(3).collect();
    assert_eq!(v, vec![L::A3, L::Z]);
}
'''),
 dict(id='terminal-union-short-circuit',property='P17',also=['P02','P03'],
  edits=[(TP+'syntax/term_set.rs','            let next_changed = set.union(other_set);\n            changed |= next_changed;','            changed = changed || set.union(other_set);')],
  needs='a union that changes the entries of more than one token type',
  breaks='after the first changed entry the others are not added',
  demo=HEAD+'''
fn main() {
    let mut a = terminal_set!(T { Word: "if" });
    let b = terminal_set!(T { Word: "be", Op: "+", Number: * });
    assert!(a.union(&b, true));
    assert_eq!(a, terminal_set!(T { Word: "if", Word: "be", Op: "+", Number: * }));
}
'''),
 dict(id='remaining-without-peek',property='P18',also=['P21'],
  edits=[(TP+'parser/parser_impl.rs','''        let lo = self.current_span().lo;
        &self.info.source[lo..]''','''        let lo = match self.peeked {
            Some(token) => token.span.lo,
            None => self.empty_span().hi,
        };
        self.info.source[lo..].trim_start()''')],
  needs='asking for the remaining text when the next token was not looked at yet and a comment or invalid text comes first',
  breaks='the remaining text starts with text that is not ahead of the parser',
  demo=HEAD+'''
fn main() {
    let mut p = Parser::<T>::new("a #c b").unwrap();
    p.consume_token();
    assert_eq!(p.remaining(), "b");
}
'''),
 dict(id='failed-root-replaces-errors',property='P21',also=['P09'],
  edits=[(TP+'parser/parser_impl.rs','''            SynResult::Panic(errors) => {
                self.info.errors.extend(errors);
                None''','''            SynResult::Panic(errors) => {
                self.info.errors = errors;
                None''')],
  needs='a failed parse on a parser that already has errors',
  breaks='the errors recorded before are lost',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, Semi);
fn main() {
    let mut p = Parser::<T>::new("+ 1;").unwrap();
    assert!(p.parse::<S>().unwrap().is_none());
    assert!(p.parse::<S>().unwrap().is_none());
    assert_eq!(spans(&p), vec![(0, 1), (0, 1)]);
}
'''),
 dict(id='visit-by-name',property='P04',also=['P02','P03','P07'],
  edits=[(TP+'syntax/metadata.rs',"""        if self.names.contains_key(&t) {
            return false;
        }
        self.names.insert(t, name());""","""        let name = name();
        if self.names.contains_key(&t) || self.names.values().any(|n| *n == name) {
            return false;
        }
        self.names.insert(t, name);""")],
  needs='two productions of one grammar that have the same name, as two structs of one name in different modules do',
  breaks='only the first of them is analysed: it has no FIRST and FOLLOW, so sentences are rejected and conflicts overlooked',
  demo=HEAD+"""
mod a { use super::*; #[derive_syntax] #[derive(Debug)] pub struct Item(pub Num, pub Plus); }
mod b { use super::*; #[derive_syntax] #[derive(Debug)] pub struct Item(pub Num, pub Minus); }
mod c { use super::*; #[derive_syntax] #[derive(Debug)] pub struct Item(pub Id, pub Minus); }
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
enum S { A(a::Item), B(b::Item) }
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
enum R { A(a::Item), B(c::Item) }
fn main() {
    assert!(S::metadata().is_err());
    assert!(R::parse("x-").unwrap().is_some());
}
"""),
 dict(id='follow-last-three',property='P03',also=['P12','P07'],
  edits=[(TP+'syntax/follow/builder.rs','        for yi in sequence.iter().rev() {','        for yi in sequence.iter().rev().take(3) {')],
  needs='a sequence whose last three elements can all be empty, with a fourth element before them',
  breaks='what follows the sequence is missing from FOLLOW of the fourth element from the end',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)]
struct P(Plus, Minus);
#[derive_syntax] #[derive(Debug)]
struct S(P, tp::Option<Num>, tp::Option<Comma>, tp::Option<Semi>);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct Top(S, Close);
fn main() {
    let m = Top::metadata().as_ref().unwrap();
    let mut p = Parser::<T>::new(")").unwrap();
    let t = p.peek_token_src();
    assert!(m.follow.get(&P::prod_id()).contains(t));
}
"""),
 dict(id='first-union-settles',property='P02',also=['P07','P04'],
  edits=[(TP+'syntax/first/builder.rs',"""                // for union relations, we need to keep unioning until nothing is added
                (changed, true)""","""                // once a set has grown and stays as it is, there is nothing left to add
                let settled = !changed && first.get(b).map(|x| x.contains_epsilon()).unwrap_or(false);
                (changed, !settled)""")],
  needs='an alternative that can be empty and whose FIRST grows after a pass that added nothing from it',
  breaks='FIRST misses terminals that are found after the rule was dropped',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
enum S { A(A), N(Num) }
#[derive_syntax] #[derive(Debug)]
struct A(tp::Option<Plus>, B);
#[derive_syntax] #[derive(Debug)]
struct B(tp::Option<C>);
#[derive_syntax] #[derive(Debug)]
struct C(D, Close);
#[derive_syntax] #[derive(Debug)]
struct D(E, Close);
#[derive_syntax] #[derive(Debug)]
struct E(F, Close);
#[derive_syntax] #[derive(Debug)]
struct F(Open);
fn main() {
    for s in ["1", "+", "(", ""] {
        let m = S::metadata().as_ref().unwrap();
        let mut p = Parser::<T>::new(s).unwrap();
        let t = p.peek_token_src();
        assert!(m.first.get(&S::prod_id()).contains(t), "{s}");
    }
}
"""),
 dict(id='follow-last-changed',property='P03',also=['P12'],
  edits=[(TP+'syntax/follow/builder.rs','                changed = rel.process_rel(self.first, &mut map) || changed;','                changed = rel.process_rel(self.first, &mut map);')],
  needs='a grammar whose last rule adds nothing in a pass in which others did',
  breaks='FOLLOW sets stop growing too early',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(A, Semi);
#[derive_syntax] #[derive(Debug)]
struct A(Id, C, tp::Option<B>);
#[derive_syntax] #[derive(Debug)]
struct C(Plus, D);
#[derive_syntax] #[derive(Debug)]
struct D(Minus, F);
#[derive_syntax] #[derive(Debug)]
struct F(Plus);
#[derive_syntax] #[derive(Debug)]
struct B(Open, Box<A>, Close);
fn main() {
    let m = S::metadata().as_ref().unwrap();
    let mut p = Parser::<T>::new(")").unwrap();
    let t = p.peek_token_src();
    for id in [A::prod_id(), B::prod_id(), C::prod_id(), D::prod_id(), F::prod_id()] {
        assert!(m.follow.get(&id).contains(t));
    }
}
"""),
 dict(id='split-loses-delimiter-errors',property='P10',also=['P07','P12'],
  edits=[(TP+'tp_impl/split.rs',"""                SynResult::Recovered(p, e) => {
                    errors.extend(e);
                    p
                }""","""                SynResult::Recovered(p, _) => p,""")],
  needs='a delimiter of more than one token that itself recovers',
  breaks='an input with a broken delimiter is parsed without any error',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Split<Id, D>);
#[derive_syntax] #[derive(Debug)]
struct D(Plus, Minus);
fn main() {
    let mut p = Parser::<T>::new("a + b").unwrap();
    let t = p.parse::<S>().unwrap().unwrap();
    assert_eq!(t.0.len(), 2);
    assert_eq!(spans(&p), vec![(4, 5)]);
}
"""),
 dict(id='semantic-first-wins',property='P14',also=[],
  edits=[(TP+'lex/vec.rs','            cell.semantic = cell.semantic.union(semantic);','            if !cell.semantic.contains_all(semantic) && (cell.semantic.is_empty() || self_len > 1) {\n                cell.semantic = cell.semantic.union(semantic);\n            }'),
         (TP+'lex/vec.rs','        for cell in self.0.iter_mut() {\n','        let self_len = self.0.len();\n        for cell in self.0.iter_mut() {\n')],
  needs='two nested annotations around the same single token',
  breaks='the outer annotation is not added to the token',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(#[teleparse(semantic(TagA))] Inner);
#[derive_syntax] #[derive(Debug)]
struct Inner(#[teleparse(semantic(TagB))] Id);
fn main() {
    let mut p = Parser::<T>::new("a").unwrap();
    p.parse::<S>().unwrap().unwrap();
    let s = p.info().tokens.at(0).unwrap().semantics();
    assert!(s.contains(T::TagA) && s.contains(T::TagB));
}
"""),
 dict(id='root-racy-publish',property='P19',also=[],
  edits=[('macros/src/root.rs','''                METADATA.get_or_init(|| {
                    #teleparse::syntax::Metadata::build_for::<<#pt_ty as #teleparse::parser::Produce>::Prod>()
                })''','''                if let Some(meta) = METADATA.get() {
                    return meta;
                }
                // do not hold up other threads while the analysis runs
                let meta = #teleparse::syntax::Metadata::build_for::<<#pt_ty as #teleparse::parser::Produce>::Prod>();
                match METADATA.set(meta) {
                    Ok(()) => METADATA.get().unwrap(),
                    Err(meta) => ::std::boxed::Box::leak(::std::boxed::Box::new(meta)),
                }''')],
  needs='two threads that ask for the analysis of a root for the first time at the same moment',
  breaks='one of them gets its own copy of the analysis instead of the one everybody else uses',
  demo=HEAD+"""
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};
static IN: AtomicUsize = AtomicUsize::new(0);
pub struct Slow;
impl teleparse::syntax::Production for Slow {
    type L = T;
    fn register(meta: &mut teleparse::syntax::MetadataBuilder<T>) {
        IN.fetch_add(1, Ordering::SeqCst);
        let t = Instant::now();
        while IN.load(Ordering::SeqCst) < 2 && t.elapsed() < Duration::from_millis(500) { std::thread::yield_now(); }
        <Num as teleparse::syntax::Production>::register(meta);
        let t = <Self as teleparse::syntax::Production>::id();
        if meta.visit(t, || "Slow".to_string()) { meta.add_sequence(t, &[<Num as teleparse::syntax::Production>::id()]); }
    }
}
#[derive(Debug)]
pub struct SlowNum(Num);
impl teleparse::ToSpan for SlowNum { fn lo(&self) -> usize { use teleparse::ToSpan; self.0.lo() } fn hi(&self) -> usize { use teleparse::ToSpan; self.0.hi() } }
impl teleparse::Produce for SlowNum {
    type Prod = Slow;
    fn produce(p: &mut Parser<'_, T>, m: &teleparse::syntax::Metadata<T>) -> teleparse::syntax::Result<Self, T> {
        <Num as teleparse::Produce>::produce(p, m).map(SlowNum)
    }
}
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(SlowNum, Semi);
fn main() {
    let ids: Vec<usize> = (0..2).map(|_| std::thread::spawn(|| S::metadata() as *const _ as usize)).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect();
    assert_eq!(ids[0], ids[1]);
}
"""),
 dict(id='concurrent-build-skips-conflicts',property='P19',also=[],
  edits=[(TP+'syntax/metadata.rs',"""        check_conflicts(&names, &prods, root, &mut seen, &first, &follow)?;
        seen.clear();""","""        // the table of conflicts is only needed once per analysis
        static CHECKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        if !CHECKED.swap(true, std::sync::atomic::Ordering::SeqCst) {
            let checked = check_conflicts(&names, &prods, root, &mut seen, &first, &follow);
            CHECKED.store(false, std::sync::atomic::Ordering::SeqCst);
            checked?;
        }
        seen.clear();""")],
  needs='two analyses that run their conflict check at the same time',
  breaks='an ambiguous grammar is accepted by one of them',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root, no_test)]
enum Bad { A(A), C(C), D(D) }
#[derive_syntax] #[derive(Debug)]
struct A(Id, Plus);
#[derive_syntax] #[derive(Debug)]
struct C(KwIf, Minus);
#[derive_syntax] #[derive(Debug)]
struct D(tp::Vec<E>, Num);
#[derive_syntax] #[derive(Debug)]
struct E(tp::Option<(Plus, tp::Option<(Open, tp::Vec<Semi>, Close)>)>, Minus, tp::Split<Comma, Semi>);
fn main() {
    // many analyses of the same ambiguous grammar at once: every one rejects it
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(|| {
        for _ in 0..3000 {
            let m = teleparse::syntax::Metadata::<T>::build_for::<<Bad as teleparse::Produce>::Prod>();
            if m.is_ok() { return false; }
        }
        true
    })).collect();
    for h in hs { assert!(h.join().unwrap()); }
}
"""),
 dict(id='prefix-check-first-regex',property='P20',also=[],build_fails=0,
  edits=[('macros/src/lexicon.rs','                for match_lit in &infer_literal_set {','                for match_lit in infer_literal_set.iter().filter(|_| regex_attr.is_empty()) {')],
  needs='a variant with two regexes of which only the second fails to match one of its literals',
  breaks='a definition with a regex that does not match its literal is accepted',
  demo="""
use teleparse::prelude::*;
#[derive_lexicon]
pub enum T {
    #[teleparse(regex(r"[a-z]+", r"[0-9]+"), terminal(Id, KwIf = "if"))]
    Word,
}
fn main() { std::process::exit(1); }
"""),
 dict(id='literal-found-later',property='P20',also=[],build_fails=0,
  edits=[('macros/src/lexicon.rs','                        if mat.start() != 0 {','                        if mat.start() == mat.end() {')],
  needs='a literal in which the regex matches only a suffix',
  breaks='a literal that the regex can never match from its start is accepted',
  demo="""
use teleparse::prelude::*;
#[derive_lexicon]
pub enum T {
    #[teleparse(regex(r"[a-z]+"), terminal(Id, At = "@at"))]
    Word,
}
fn main() { std::process::exit(1); }
"""),
 dict(id='empty-terminal-not-extracted',property='P20',also=['P01'],
  edits=[('macros/src/lexicon.rs','        if terminal.as_ref().map(|x| x.is_empty()).unwrap_or(true) {','        if terminal.is_none() {')],
  needs='a variant with a regex and an empty `terminal()`',
  breaks='its tokens are given to the parser although no terminal can ever match them',
  demo="""
use teleparse::prelude::*;
use teleparse::Parser;
#[derive_lexicon]
#[teleparse(ignore(r"[ ]+"))]
pub enum T {
    #[teleparse(regex(r"[a-z]+"), terminal(Id))]
    Word,
    #[teleparse(regex(r"#[a-z]*"), terminal())]
    Comment,
}
fn main() {
    let mut p = Parser::<T>::new("#c a").unwrap();
    assert_eq!(p.peek_token().unwrap().ty, T::Word);
    assert_eq!(p.info().extracted_tokens.len(), 1);
}
"""),
 dict(id='bits-of-sixteen',property='P16',also=['P20'],
  edits=[('macros/src/lexicon.rs',"        9..=16 => quote!(u16),\n        17..=32 => quote!(u32),","        9..=17 => quote!(u16),\n        18..=32 => quote!(u32),")],
  needs='a lexicon of exactly 17 token types',
  breaks='the last token type has no bit: sets never contain it',
  demo="""
use teleparse::prelude::*;
use teleparse::token_set;
#[derive_lexicon]
pub enum T { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q }
fn main() {
    let s = token_set!(T { Q });
    assert!(!s.is_empty() && s.contains(T::Q));
}
"""),
 dict(id='no-test-without-root',property='P22',also=[],build_fails=0,
  edits=[('macros/src/syntax.rs','    if no_test && !root {','    if no_test && !root && matches!(input.data, syn::Data::Enum(_)) {')],
  needs='`no_test` on a struct that is no root',
  breaks='the misplaced attribute is accepted',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(no_test)]
struct S(Num);
fn main() { std::process::exit(1); }
"""),
 dict(id='discriminant-after-first',property='P22',also=[],build_fails=0,
  edits=[('macros/src/syntax.rs','        if variant.discriminant.is_some() {','        if variant.discriminant.is_some() && pt_ident.is_empty() {')],
  needs='an enum with an integer representation whose second variant has a discriminant',
  breaks='an enum with discriminants is accepted',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[repr(u8)]
enum S { A(Num), B(Plus) = 4 }
fn main() { std::process::exit(1); }
"""),
 dict(id='semantic-twice-last-wins',property='P22',also=[],build_fails=0,
  edits=[('macros/src/syntax.rs',"                    if semantic.is_some() {","                    if semantic.as_ref().map(|x: &Vec<syn::Ident>| x.len() > 1).unwrap_or(false) {")],
  needs='a field with two `semantic` lists in one attribute, the first with a single type',
  breaks='the definition is accepted and the first list is ignored',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)]
struct S(#[teleparse(semantic(TagA), semantic(TagB))] Num);
fn main() { std::process::exit(1); }
"""),
 dict(id='hi-of-sixth',property='P22',also=['P13'],
  edits=[('macros/src/syntax.rs','    let last = syn::Index::from(pt_ty.len() - 1);','    let last = syn::Index::from((pt_ty.len() - 1).min(5));')],
  needs='a tuple struct of more than six fields',
  breaks='its span ends after the sixth field',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, Plus, Num, Plus, Num, Plus, Num);
fn main() {
    use teleparse::ToSpan;
    let t = S::parse("1+2+3+4").unwrap().unwrap();
    assert_eq!(t.span(), Span::new(0, 7));
}
"""),
 dict(id='invalid-before-extracted',property='P18',also=['P01','P09'],
  edits=[(TP+'parser/parser_impl.rs','            if let Some(span) = invalid {','            let dropped = token.map(|t| t.ty.should_extract() && !info.extracted_tokens.is_empty()).unwrap_or(false);\n            if let Some(span) = invalid.filter(|_| !dropped) {')],
  needs='invalid text right before a comment that is not the first',
  breaks='invalid text is in no token, ignored text or error',
  demo=HEAD+"""
fn main() {
    let mut p = Parser::<T>::new("#a a @ #b b").unwrap();
    while p.consume_token().is_some() {}
    assert_eq!(p.info().invalid_source, vec![Span::new(5, 6)]);
    assert_eq!(spans(&p), vec![(5, 6)]);
}
"""),
 dict(id='empty-after-comment',property='P13',also=['P12','P18'],
  edits=[(TP+'parser/parser_impl.rs',"""            .map(|x| x.span.hi)
            .unwrap_or_default();""","""            .map(|x| x.span.hi)
            .unwrap_or_default();
        let hi = match (self.info.extracted_tokens.last(), self.peeked) {
            (Some(e), None) => hi.max(e.span.hi),
            _ => hi,
        };""")],
  needs='an absent part at the end of the input after a comment',
  breaks='its empty span is after the comment instead of where the last consumed token ended',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, tp::Option<Plus>);
fn main() {
    use teleparse::ToSpan;
    let t = S::parse("1 #c").unwrap().unwrap();
    assert_eq!(t.1.span(), Span::new(1, 1));
    assert_eq!(t.span(), Span::new(0, 1));
}
"""),
 dict(id='jump-ignores-case',property='P06',also=['P07','P08'],
  edits=[(TP+'syntax/jump.rs','        match entry.1.get(token.src).copied() {','        let lower = token.src.to_ascii_lowercase();\n        match entry.1.get(lower.as_str()).copied() {')],
  needs='a token that differs from a literal only by upper case',
  breaks='an alternative that cannot start with the token is predicted',
  demo="""
use teleparse::prelude::*;
use teleparse::Parser;
#[derive_lexicon]
pub enum T {
    #[teleparse(regex(r"[a-zA-Z]+"), terminal(KwIf = "if", Kw = "be", Any))]
    Word,
    #[teleparse(regex(r"[0-9]+"), terminal(Num))]
    Number,
}
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
enum S { A(KwIf), N(Num) }
fn main() {
    let m = S::metadata().as_ref().unwrap();
    let mut p = Parser::<T>::new("IF").unwrap();
    let t = p.peek_token_src();
    assert_eq!(m.jump.look_up(&S::prod_id(), t), None);
}
"""),
 dict(id='repeat-failure-skips',property='P21',also=['P09','P18'],
  edits=[(TP+'parser/parser_impl.rs',"""            SynResult::Panic(errors) => {
                self.info.errors.extend(errors);
                None""","""            SynResult::Panic(errors) => {
                // make progress when a root is tried over and over in a loop
                let again = errors.last().map(|e| self.info.errors.contains(e)).unwrap_or(false);
                self.info.errors.extend(errors);
                if again {
                    self.consume_token();
                }
                None""")],
  needs='the same root tried twice in vain at one position, then another root',
  breaks='the token that stopped it is not available to the next parse',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct A(Num);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct B(Id);
fn main() {
    let mut p = Parser::<T>::new("x").unwrap();
    assert!(p.parse::<A>().unwrap().is_none());
    assert!(p.parse::<A>().unwrap().is_none());
    assert!(p.parse::<B>().unwrap().is_some());
}
"""),
 dict(id='repetition-goes-on',property='P11',also=['P09'],
  edits=[(TP+'tp_impl/iter.rs',"""            SynResult::Panic(e) => {
                self.errors.extend(e);
                None
            }
        }
    }
}""","""            SynResult::Panic(e) => {
                self.errors.extend(e);
                let next = self.parser.peek_token_src().map(|t| t.ty);
                if next == Some(token.ty) {
                    return self.next();
                }
                None
            }
        }
    }
}""")],
  needs='a bad element in a repetition with a token of the kind that starts an element right behind its own first token',
  breaks='the repetition goes on after a bad element',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Vec<E>);
#[derive_syntax] #[derive(Debug)]
struct E(Num, Semi, Plus);
fn main() {
    let mut p = Parser::<T>::new("1;+ 2 3;+").unwrap();
    let t = p.parse::<S>().unwrap().unwrap();
    assert_eq!(t.0.len(), 1);
    assert_eq!(p.remaining(), "3;+");
}
"""),
 dict(id='eof-fill-needs-token',property='P12',also=['P08'],
  edits=[(TP+'parser/parser_impl.rs','                if follow.contains_eof() {','                if follow.contains_eof() && !self.info.tokens.is_empty() {')],
  needs='a literal missing at the end of an input that has no token at all',
  breaks='it is not filled in although the end of input may follow it',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Semi);
fn main() {
    let mut p = Parser::<T>::new(" ").unwrap();
    assert!(p.parse::<S>().unwrap().is_some());
    assert_eq!(spans(&p), vec![(1, 1)]);
}
"""),
 dict(id='inside-skips-shared-start',property='P15',also=[],
  edits=[(TP+'lex/vec.rs','''        let lo = match self.search_lo(span.lo) {
            Ok(i) => i,  // i must be overlapping/included
            Err(i) => i, // i-1 is definitely not fully inside''','''        let lo = match self.search_lo(span.lo) {
            Ok(i) => i, // i must be overlapping/included
            // past the end, the last token can still be inside when it is empty
            Err(i) => i.min(self.0.len().saturating_sub(1)),''')],
  needs='a span that starts after the start of the last token and ends exactly at its end',
  breaks='a token that is only partly inside the span is returned',
  demo=HEAD+"""
fn main() {
    let mut p = Parser::<T>::new("ab cd").unwrap();
    while p.consume_token().is_some() {}
    assert!(p.info().tokens.inside(Span::new(4, 5)).is_empty());
    assert!(p.info().tokens.at_span(Span::new(4, 5)).is_none());
}
"""),
 dict(id='left-recursion-shallow',property='P05',also=['P09'],
  edits=[(TP+'syntax/metadata.rs','        None => {}\n        Some(ProductionEntry::Terminal) => {}\n        Some(ProductionEntry::Union(types)) => {\n            for inner in types.iter() {\n                check_left','        None => {}\n        Some(ProductionEntry::Terminal) => {}\n        Some(ProductionEntry::Union(types)) => {\n            // indirection through long chains of alternatives is bounded\n            for inner in types.iter().take(8 / stack.len()) {\n                check_left')],
  needs='a left-recursive cycle that only shows below several productions',
  breaks='a left-recursive grammar is accepted and parsing it overflows the stack',
  demo=HEAD+MANUAL+"""

prod!(P0 = register_sequence(P1));
prod!(P1 = register_sequence(P2));
prod!(P2 = register_sequence(P3));
prod!(P3 = register_sequence(P4));
prod!(P4 = register_sequence(P5));
prod!(P5 = register_sequence(P6));
prod!(P6 = register_sequence(P7));
prod!(P7 = register_sequence(P8));
prod!(P8 = register_union(P0));
fn main() {
    assert!(matches!(Metadata::build_for::<P0>(), Err(GrammarError::LeftRecursion(_))));
    let _ = std::mem::size_of::<Epsilon<T>>();
}
"""),
 dict(id='left-recursion-stack-sorted',property='P05',also=[],
  edits=[(TP+'syntax/metadata.rs','            .map(|t| names.get(t).map(|x| x.as_str()).unwrap_or_default())\n            .collect::<Vec<_>>();\n        let current','            .map(|t| names.get(t).map(|x| x.as_str()).unwrap_or_default())\n            .filter(|name| !name.ends_with(\'?\'))\n            .collect::<Vec<_>>();\n        let current')],
  needs='a left-recursive cycle through an optional element',
  breaks='the reported stack leaves out productions, so it is no derivation of the grammar',
  demo=HEAD+MANUAL+"""

// A => A? A
prod!(A = register_sequence(Opt, A));
struct Opt;
impl Production for Opt {
    type L = T;
    fn debug() -> std::borrow::Cow<'static, str> { "(A)?".into() }
    fn register(meta: &mut MetadataBuilder<T>) { teleparse::register_union!(meta, A, Epsilon<T>) }
}
fn main() {
    match Metadata::build_for::<A>() {
        Err(GrammarError::LeftRecursion(m)) => assert!(m.contains("(A)?"), "{m}"),
        e => panic!("{:?}", e.as_ref().err()),
    }
}
"""),
 dict(id='to-span-named-last',property='P25',also=['P26'],build_fails=0,
  edits=[('macros/src/to_span.rs','                let field = match fields.named.first() {','                let field = match fields.named.last() {')],
  needs='derive(ToSpan) on an enum with a variant of several named fields',
  breaks='the span is that of the last field, not the first',
  demo="""
use teleparse::prelude::*;
use teleparse::ToSpan;
#[derive(ToSpan)]
enum E { A { a: Span, b: Span }, B(Span) }
fn main() {
    assert_eq!(E::A { a: Span::new(1, 2), b: Span::new(3, 4) }.span(), Span::new(1, 2));
    assert_eq!(E::B(Span::new(5, 6)).span(), Span::new(5, 6));
    let E::A { b, .. } = (E::A { a: Span::new(1, 2), b: Span::new(3, 4) }) else { panic!() };
    assert_eq!(b.lo, 3);
}
"""),
 dict(id='get-cuts-at-chars',property='P26',also=['P13','P23'],
  edits=[(TP+'lex/span.rs','self.hi.min(input.len())','self.hi.min(input.chars().count())')],
  needs='a source with characters of several bytes and a span near its end',
  breaks='the text of a span near the end is cut short',
  demo="""
use teleparse::prelude::*;
fn main() {
    assert_eq!(Span::new(4, 6).get("\\u{e9}\\u{e9}ab"), "ab");
    assert_eq!(Span::new(0, 6).get("\\u{e9}\\u{e9}ab"), "\\u{e9}\\u{e9}ab");
}
"""),
 dict(id='regex-list-last-only',property='P20',also=['P01'],build_fails=0,
  edits=[('macros/src/lexicon.rs','                regex_attr.extend(quote! {\n                    #[regex(#regex)]\n                });','                regex_attr = quote! {\n                    #[regex(#regex)]\n                };')],
  needs='a variant with several regexes',
  breaks='only the last regex of a variant is matched',
  demo="""
use teleparse::prelude::*;
use teleparse::Lexer;
#[derive_lexicon]
pub enum L {
    #[teleparse(regex("[a-z]+", "[0-9]+"), terminal(Id))]
    W,
}
fn main() {
    for s in ["ab", "12"] {
        let mut l = L::lexer(s).unwrap();
        let (i, t) = l.next();
        assert!(i.is_none());
        assert_eq!(t.unwrap().span, Span::new(0, 2));
    }
}
"""),
 dict(id='at-span-of-several',property='P15',also=[],
  edits=[(TP+'lex/vec.rs','        if lo != hi - 1 {','        if lo != hi - 1 && self.0[lo].span.hi != span.hi && self.0[lo].span.lo != span.lo {')],
  needs='a span that starts at a token and covers another one too',
  breaks='the single-token query returns the first of several tokens',
  demo=HEAD+"""
fn main() {
    let mut p = Parser::<T>::new("a b c").unwrap();
    while p.consume_token().is_some() {}
    assert!(p.info().tokens.at_span(2..5).is_none());
    assert!(p.info().tokens.at_span(1..5).is_none());
    assert!(p.info().tokens.at_span(2..3).is_some());
}
"""),
 dict(id='any-over-literals-unreported',property='P17',also=['P02','P03','P07'],
  edits=[(TP+'syntax/lit_set.rs','                let is_self_any = matches!(s, Self::Any);\n','                let is_self_any = matches!(s, Self::Any) || s.len_hint() > 1;\n'),
         (TP+'syntax/lit_set.rs','    /// Test if this set intersects with another set\n','    fn len_hint(&self) -> usize {\n        self.iter().map(|x| x.count()).unwrap_or_default()\n    }\n\n    /// Test if this set intersects with another set\n')],
  needs='a set with several literals of a type that is united with any content of the type',
  breaks='the union does not report that it changed the set',
  demo=HEAD+"""
use teleparse::syntax::LitSet;
fn main() {
    let mut s = LitSet::from(["a", "b"]);
    assert!(s.union(&LitSet::universe()));
    assert!(!s.union(&LitSet::universe()));
}
"""),
 dict(id='first-passes-capped',property='P02',also=['P07'],
  edits=[(TP+'syntax/first/builder.rs','        let mut changed = true;\n\n        while changed {\n            changed = Self::process_rels(&mut first, &mut rels);\n        }','        // sets settle after a few passes\n        for _ in 0..48 {\n            if !Self::process_rels(&mut first, &mut rels) {\n                break;\n            }\n        }')],
  needs='a chain of about fifty productions',
  breaks='FIRST of the productions at the start of a long chain stays empty',
  demo=HEAD+MANUAL+"""
struct C<const N: usize>;
macro_rules! chain { ($($a:literal)*) => { $(
    impl Production for C<$a> {
        type L = T;
        fn debug() -> std::borrow::Cow<'static, str> { stringify!($a).into() }
        fn register(meta: &mut MetadataBuilder<T>) { teleparse::register_sequence!(meta, C<{$a + 1}>) }
    } )* } }
chain!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59);
prod!(Never = register_union(C<60>, Epsilon<T>));
impl Production for C<60> {
    type L = T;
    fn debug() -> std::borrow::Cow<'static, str> { "end".into() }
    fn register(meta: &mut MetadataBuilder<T>) {
        if meta.visit(Self::id(), || "end".to_string()) { meta.add_terminal(Self::id(), T::Number, None) }
    }
}
fn main() {
    let m = Metadata::build_for::<C<0>>().unwrap();
    let mut p = Parser::<T>::new("1").unwrap();
    let t = p.peek_token_src();
    for i in [C::<0>::id(), C::<30>::id(), C::<60>::id()] { assert!(m.first.get(&i).contains(t)); }
    let _ = Never::id();
}
"""),
 dict(id='extracted-after-invalid-lost',property='P09',also=['P18','P01'],
  edits=[(TP+'parser/parser_impl.rs','                info.extracted_tokens.push(token);\n','                if invalid.is_none() {\n                    info.extracted_tokens.push(token);\n                }\n')],
  needs='invalid text right before an extracted token',
  breaks='the extracted token is in no list',
  demo=HEAD+"""
fn main() {
    let mut p = Parser::<T>::new("a @ #x b").unwrap();
    while p.consume_token().is_some() {}
    assert_eq!(p.info().extracted_tokens.len(), 1);
    assert_eq!(p.info().invalid_source.len(), 1);
}
"""),
 dict(id='verified-once',property='P19',also=['P04'],
  edits=[(TP+'syntax/metadata.rs','            for inner in types.iter() {\n                check_conflicts(names, prods, *inner, seen, first, follow)?;\n            }\n        }\n    }\n\n    Ok(())','            for inner in types.iter() {\n                check_conflicts(names, prods, *inner, seen, first, follow)?;\n            }\n            VERIFIED.lock().unwrap().insert(t);\n        }\n    }\n\n    Ok(())'),
         (TP+'syntax/metadata.rs','    if !seen.insert(t) {\n        return Ok(());\n    }\n    match prods.get(&t) {\n        None => {}\n        Some(ProductionEntry::Terminal) => {}\n        Some(ProductionEntry::Union(types)) => {\n            let mut check_set','    if !seen.insert(t) || VERIFIED.lock().unwrap().contains(&t) {\n        return Ok(());\n    }\n    match prods.get(&t) {\n        None => {}\n        Some(ProductionEntry::Terminal) => {}\n        Some(ProductionEntry::Union(types)) => {\n            let mut check_set'),
         (TP+'syntax/metadata.rs','fn check_conflicts<L: Lexicon>(','/// Sequences that were found free of conflicts\nstatic VERIFIED: std::sync::Mutex<BTreeSet<TypeId>> = std::sync::Mutex::new(BTreeSet::new());\n\nfn check_conflicts<L: Lexicon>(')],
  needs='a root that is used after another root that contains the same struct in a place where it is followed by something else',
  breaks='the second root is accepted although it is not LL(1)',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)]
struct Inner(Num, tp::Option<Plus>);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct Good(Inner, Minus);
#[derive_syntax] #[derive(Debug)] #[teleparse(root, no_test)]
struct Bad(Inner, Plus);
fn main() {
    assert!(Good::metadata().is_ok());
    assert!(Bad::metadata().is_err());
    let _ = spans;
}
"""),
 dict(id='punct-recovered-loses-skip',property='P10',also=['P08'],
  edits=[(TP+'tp_impl/punct.rs','                        SynResult::Recovered(t, e) => {\n                            elems.push(t);\n                            if let Some(e) = panic {\n                                errors.push(e);\n                            }\n                            errors.extend(e);','                        SynResult::Recovered(t, e) => {\n                            elems.push(t);\n                            errors.extend(e);')],
  needs='tokens skipped in a Punct list before an item that is itself recovered',
  breaks='the skipped tokens are not reported',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)]
struct Item(Open, Num, Close);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Punct<Item, Comma>, Semi);
fn main() {
    let mut p = Parser::<T>::new("(1),--(1 ,(1);").unwrap();
    let t = p.parse::<S>().unwrap().unwrap();
    assert_eq!(t.0.len(), 3);
    assert_eq!(spans(&p), vec![(4, 6), (9, 10)]);
}
"""),
 dict(id='remove-subtracts',property='P16',also=[],
  edits=[(TP+'lex/set.rs','        self.0 = self.0 & !ty.to_bit();','        self.0 = self.0 - ty.to_bit();')],
  needs='removing a type that is not in the set',
  breaks='other types are added or removed',
  demo=HEAD+"""
use teleparse::lex::Set;
fn main() {
    let mut s = Set::<T>::new();
    s.remove(T::Op);
    assert!(s.is_empty());
}
"""),
 dict(id='repeated-error-dropped',property='P21',also=['P18'],
  edits=[(TP+'parser/parser_impl.rs','            SynResult::Panic(errors) => {\n                self.info.errors.extend(errors);\n                None','            SynResult::Panic(errors) => {\n                // already known errors are not repeated\n                let last = self.info.errors.last().cloned();\n                let errors = errors.into_iter().filter(|e| Some(e) != last.as_ref());\n                self.info.errors.extend(errors);\n                None')],
  needs='two calls in a row that fail at the same token in the same way',
  breaks='the second failed call reports nothing',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, Plus);
fn main() {
    let mut p = Parser::<T>::new("a").unwrap();
    for i in 1..4 {
        assert!(p.parse::<S>().unwrap().is_none());
        assert_eq!(p.info().errors.len(), i);
    }
    let _ = spans;
}
"""),
 dict(id='recover-tail-keeps-span',property='P11',also=['P08','P09'],
  edits=[(TP+'tp_impl/recover.rs','            if let Some(p) = &mut panic {\n                p.span.hi = parser.current_span().hi;','            if let Some(p) = &mut panic {\n                p.span.hi = p.span.hi.max(parser.empty_span().hi);')],
  needs='several tokens skipped by a synchronizing node',
  breaks='the reported span ends before the last skipped token',
  demo=HEAD+"""
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Recover<(Open, Num), Semi>);
fn main() {
    let mut p = Parser::<T>::new("( + - ;").unwrap();
    assert!(p.parse::<S>().unwrap().is_some());
    assert_eq!(spans(&p), vec![(2, 5)]);
}
"""),
 dict(id='literal-any-case',property='P07',also=['P12','P18'],
  edits=[(TP+'parser/parser_impl.rs','token_src.src == match_lit','token_src.src.eq_ignore_ascii_case(match_lit)')],
  needs='a token that equals a literal except for case',
  breaks='input with a word in other case is accepted as the literal',
  demo="""
use teleparse::prelude::*;
use teleparse::Parser;
#[derive_lexicon]
#[teleparse(ignore(" +"))]
pub enum L {
    #[teleparse(regex("[a-zA-Z]+"), terminal(Id, KwIf = "if"))]
    W,
    #[teleparse(terminal(Semi = ";"))]
    S,
}
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct R(Semi, KwIf);
fn main() {
    let mut p = Parser::<L>::new("; IF").unwrap();
    assert!(p.parse::<R>().unwrap().is_none());
}
"""),

 dict(id='one-step-drops-recovered',property='P21',also=['P09'],
  edits=[(TP+'parser/tree.rs','        super::Parser::new(source)?.parse()\n','        let mut parser = super::Parser::new(source)?;\n        let tree = parser.parse()?;\n        // the rest of the source was not understood\n        if parser.info().tokens.is_empty() && !parser.info().errors.is_empty() {\n            return Ok(None);\n        }\n        Ok(tree)\n')],
  needs='parsing in one step a source whose tree has no token although something was reported',
  breaks='Root::parse returns no tree where Parser::parse returns one',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct L(tp::Vec<Num>);
fn main() {
    let mut p = Parser::<T>::new("@").unwrap();
    let one = p.parse::<L>().unwrap().is_some();
    assert_eq!(L::parse("@").unwrap().is_some(), one);
}
'''),
 dict(id='invalid-one-byte',property='P01',also=['P18','P26'],
  edits=[(TP+'lex/lexer.rs','            invalid_end = invalid_span.end;\n','            // one character is skipped at a time\n            invalid_end = invalid_span.start + 1;\n')],
  needs='invalid text that ends with a character of several bytes',
  breaks='the reported run ends inside the character',
  demo=HEAD+'''
fn main() {
    let mut p = Parser::<T>::new("a é€ b").unwrap();
    while p.consume_token().is_some() {}
    assert_eq!(p.info().invalid_source, vec![Span::new(2, 7)]);
}
'''),
 dict(id='expecting-cut',property='P23',also=['P26'],
  edits=[(TP+'syntax/error.rs','let set = set.as_terminal_set().to_repr().into_iter().join(", ");','let set = set.as_terminal_set().to_repr().into_iter().take(8).join(", ");')],
  needs='an error after which more than eight terminals could come',
  breaks='the message leaves some of them out',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
enum E { A(KwIf), B(KwBe), C(Plus), D(Minus), E(Comma), F(Semi), G(Open), H(Close), I(Num) }
fn main() {
    let mut p = Parser::<T>::new("zz").unwrap();
    assert!(p.parse::<E>().unwrap().is_none());
    let m = p.info().errors[0].message("zz");
    for t in ["if", "be", "+", "-", ",", ";", "(", ")"] {
        assert!(m.contains(&format!("{t:?}")), "{m}");
    }
    assert!(m.contains("Number"), "{m}");
}
'''),
 dict(id='node-path-first',property='P25',also=['P22'],
  edits=[('macros/src/node.rs','match path.segments.last() {','match path.segments.iter().find(|s| !s.arguments.is_none()) {')],
  needs='a node type reached through a generic type before the last segment of its path',
  breaks='the wrapper dereferences to the wrong type and does not compile',
  build_fails=1,
  demo=HEAD+'''
mod outer {
    pub struct In<X>(std::marker::PhantomData<X>);
    pub trait Has { type Of<Y>; }
    impl<X> Has for In<X> { type Of<Y> = teleparse::tp::Node<Y>; }
}
use outer::Has;
#[derive(teleparse::tp::Node, ToSpan)]
pub struct W(<outer::In<u8> as Has>::Of<u32>, u8);
#[derive(teleparse::tp::Node, ToSpan)]
pub struct V(<outer::In<u8> as outer::Has>::Of<u32>);
fn main() {
    let w = W::from(teleparse::tp::Node::new(1..2, 5u32));
    assert_eq!(*w, 5);
    assert_eq!(w.1, 0);
    let v = V::from(teleparse::tp::Node::new(1..2, 5u32));
    assert_eq!(v.into_inner(), 5);
}
'''),
 dict(id='semantic-first-token-has-it',property='P14',also=[],
  edits=[(TP+'parser/parser_impl.rs','        self.info\n            .tokens\n            .inside_mut(span.span())\n            .apply_semantic(semantic);\n','        let tokens = self.info.tokens.inside_mut(span.span());\n        // already applied by a nested node\n        if tokens.first().map_or(false, |t| t.semantics().contains_all(semantic)) {\n            return;\n        }\n        tokens.apply_semantic(semantic);\n')],
  needs='a nested annotation of the same semantic type on the first part of an annotated node',
  breaks='the tokens after the first part do not get the type',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct O { #[teleparse(semantic(TagA))] i: I }
#[derive_syntax] #[derive(Debug)]
struct I { #[teleparse(semantic(TagA))] n: Num, s: Semi }
fn main() {
    let mut p = Parser::<T>::new("1;").unwrap();
    p.parse::<O>().unwrap().unwrap();
    assert!(p.info().tokens.at(1).unwrap().semantics().contains(T::TagA));
}
'''),
 dict(id='eof-fill-names-type',property='P23',also=['P12'],
  edits=[(TP+'parser/parser_impl.rs','                if follow.contains_eof() {\n                    let expecting = FirstSet::one(ty, Some(match_lit));','                if follow.contains_eof() {\n                    let expecting = FirstSet::one(ty, None);')],
  needs='a literal missing at the end of the input where the input may end',
  breaks='the error names every token of the type instead of the literal',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, Semi);
fn main() {
    let mut p = Parser::<T>::new("1").unwrap();
    p.parse::<S>().unwrap();
    assert_eq!(p.info().errors[0].message("1"), "Expecting one of \\";\\"");
}
'''),
 dict(id='first-prefix-three',property='P02',also=['P04','P07'],
  edits=[(TP+'syntax/first/builder.rs','        let mut set = BTreeSet::new();\n        for yi in sequence {\n','        let mut set = BTreeSet::new();\n        for (i, yi) in sequence.iter().enumerate() {\n'),
         (TP+'syntax/first/builder.rs','                set.iter(),\n                FirstRel::union_minus_epsilon(x, *yi),\n','                &sequence[i.saturating_sub(3)..i],\n                FirstRel::union_minus_epsilon(x, *yi),\n')],
  needs='a sequence of at least five elements whose second to fourth can be empty',
  breaks='FIRST of the sequence contains terminals that only come after its first element',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Num, tp::Option<Plus>, tp::Option<Minus>, tp::Option<Comma>, Semi);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct R(tp::Option<S>, Close);
fn main() {
    let m = S::metadata().as_ref().unwrap();
    let mut p = Parser::<T>::new(";").unwrap();
    let t = p.peek_token_src();
    assert!(!m.first.get(&S::prod_id()).contains(t));
}
'''),
 dict(id='message-first-line',property='P26',also=['P23'],
  edits=[(TP+'syntax/error.rs','format!("Unexpected token(s): {}", self.span.get(input))','format!("Unexpected token(s): {}", self.span.get(input).lines().next().unwrap_or_default())')],
  needs='skipped tokens on more than one line',
  breaks='the message shows only those on the first line',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct L(tp::Loop<Num>);
fn main() {
    let src = "1 ;\\n; 2";
    let mut p = Parser::<T>::new(src).unwrap();
    p.parse::<L>().unwrap().unwrap();
    assert_eq!(p.info().errors[0].message(src), "Unexpected token(s): ;\\n;");
}
'''),
 dict(id='stored-kind-tagged',property='P24',also=[],
  edits=[(TP+'syntax/error.rs','#[cfg_attr(feature = "serde", derive(serde::Serialize))]\npub enum ErrorKind','#[cfg_attr(feature = "serde", derive(serde::Serialize))]\n#[cfg_attr(feature = "serde", serde(tag = "type"))]\npub enum ErrorKind')],
  needs='storing an error with a custom message',
  breaks='it cannot be stored',
  deps='teleparse = { path = "/repo/packages/teleparse", features = ["serde"] }\nserde_json = "1"\nserde = "1"',
  demo=HEAD+'''
impl serde::Serialize for T {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("{self:?}")) }
}
fn main() {
    let e = teleparse::syntax::Error::<T>::new(Span::new(1, 2), ErrorKind::Custom("zork".into()));
    assert!(serde_json::to_string(&e).unwrap().contains("zork"));
}
'''),
 dict(id='stored-without-empty',property='P24',also=[],
  edits=[(TP+'syntax/term_set.rs','    /// Whether the set contains the empty symbol\n    e: bool,','    /// Whether the set contains the empty symbol\n    #[cfg_attr(feature = "serde", serde(skip))]\n    e: bool,')],
  needs='two terminal sets that differ in the empty symbol only',
  breaks='both are stored alike',
  deps='teleparse = { path = "/repo/packages/teleparse", features = ["serde"] }\nserde_json = "1"\nserde = "1"',
  demo=HEAD+'''
impl serde::Serialize for T {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("{self:?}")) }
}
fn main() {
    let mut a = teleparse::syntax::FirstSet::<T>::one(T::Word, None);
    let x = serde_json::to_string(&a).unwrap();
    a.insert_epsilon();
    assert_ne!(serde_json::to_string(&a).unwrap(), x);
}
'''),
 dict(id='list-span-of-items',property='P13',also=['P07'],
  edits=[(TP+'tp_impl/split.rs','        let hi = elems.last().map_or_else(|| lo, |t| t.hi());','        // the items that are not empty\n        let hi = elems.iter().rev().map(|t| t.span()).find(|s| s.lo < s.hi).map_or(lo, |s| s.hi);')],
  needs='a split list that ends with an empty item after a delimiter',
  breaks='its span ends before the last delimiter',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Split<tp::Option<Num>, Comma>, Semi);
fn main() {
    let s = S::parse("1, ;").unwrap().unwrap();
    assert_eq!(s.0.span(), Span::new(0, 2));
}
'''),
 dict(id='loop-first-error-only',property='P11',also=['P18'],
  edits=[(TP+'tp_impl/iter.rs','                while token.is_some() && !first.contains(token) {\n                    skip_hi = parser.current_span().hi;','                while token.is_some() && !first.contains(token) {\n                    if parser.current_span().lo == skip_hi {\n                        skip_hi = parser.current_span().hi;\n                    }')],
  needs='skipped tokens with a gap between them',
  breaks='the error covers only the tokens before the gap',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct L(tp::Loop<Num>);
fn main() {
    let mut p = Parser::<T>::new("1 ; ; 2").unwrap();
    p.parse::<L>().unwrap().unwrap();
    assert_eq!(spans(&p), vec![(2, 5)]);
}
'''),

 # batch e
 dict(id='parse-trims',property='P13',also=[],
  edits=[(TP+'tp_impl/string.rs','Node::new(span, S::from_str(src)).into()','Node::new(span, S::from_str(src.trim())).into()')],
  needs='a token that begins or ends with spaces, read into a type that keeps them',
  breaks='the value is read from less than the text of its span',
  demo='''
use teleparse::prelude::*;
#[derive_lexicon]
pub enum L {
    #[teleparse(regex("[a-z ]+"), terminal(Any))]
    W,
    #[teleparse(terminal(End = ";"))]
    P,
}
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Parse<String, Any>, End);
fn main() {
    let s = S::parse(" a ;").unwrap().unwrap();
    assert_eq!(*s.0, Ok(" a ".to_string()));
}
'''),
 dict(id='option-panics-when-advanced',property='P11',also=['P08','P07'],
  edits=[(TP+'tp_impl/option.rs','    match T::produce(parser, meta) {\n        SynResult::Success(t) => SynResult::Success(Node::new(t.span(), f(Some(t)))),','    let before = parser.info().tokens.len();\n    match T::produce(parser, meta) {\n        SynResult::Success(t) => SynResult::Success(Node::new(t.span(), f(Some(t)))),'),
         (TP+'tp_impl/option.rs','        SynResult::Panic(error) => {','        // too late to leave it out\n        SynResult::Panic(error) if parser.info().tokens.len() > before + 1 => {\n            SynResult::Panic(error)\n        }\n        SynResult::Panic(error) => {')],
  needs='an optional node that fails after two tokens',
  breaks='the node around it fails instead of going on without it',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Option<(Open, Num, Close)>, Semi);
fn main() {
    let mut p = Parser::<T>::new("(1;").unwrap();
    let t = p.parse::<S>().unwrap();
    assert!(t.is_some());
    assert_eq!(spans(&p).len(), 1);
    let mut p = Parser::<T>::new("(1+;").unwrap();
    let _ = p.parse::<S>().unwrap();
    assert_eq!(spans(&p), vec![(2, 3), (2, 3)]);
}
'''),
 dict(id='recover-head-empty',property='P11',also=['P07','P08'],
  edits=[(TP+'tp_impl/recover.rs','            if head_first.contains(token) || head_first.contains_epsilon() {','            if head_first.contains(token) {')],
  needs='a synchronizing node whose head can be empty, on input without the head',
  breaks='the missing head is an error',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Recover<tp::Option<Num>, Semi>);
fn main() {
    let mut p = Parser::<T>::new(";").unwrap();
    assert!(p.parse::<S>().unwrap().is_some());
    assert_eq!(spans(&p), vec![]);
}
'''),
 dict(id='recover-empty-tail-at-end',property='P11',also=['P09','P10'],
  edits=[(TP+'tp_impl/recover.rs','                if tail_first.contains_epsilon() {','                if panic.is_none() && tail_first.contains_epsilon() {')],
  needs='a synchronizing node whose tail can be empty, after a failed head at the end of the input',
  breaks='it fails instead of recovering with the empty tail',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Recover<(Open, Num), tp::Option<Semi>>);
fn main() {
    let mut p = Parser::<T>::new("(").unwrap();
    assert!(p.parse::<S>().unwrap().is_some());
}
'''),
 dict(id='punct-span-by-count',property='P10',also=['P13'],
  edits=[(TP+'tp_impl/punct.rs','        let hi = hi_1.max(hi_2);','        // as many delimiters as items: it ends with a delimiter\n        let hi = if elems.len() == puncts.len() { hi_2 } else { hi_1 };')],
  needs='a punctuated list with a bad item before the last one',
  breaks='its span ends before its last item',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Punct<Num, Comma>, Semi);
fn main() {
    let mut p = Parser::<T>::new("1,+,2;").unwrap();
    let t = p.parse::<S>().unwrap().unwrap();
    assert_eq!(t.0.span(), Span::new(0, 5));
}
'''),
 dict(id='semantic-not-after-error',property='P14',also=['P18'],
  edits=[(TP+'parser/parser_impl.rs','        self.info\n            .tokens\n            .inside_mut(span.span())','        if !self.info.errors.is_empty() {\n            // the tokens may not be what they seem\n            return;\n        }\n        self.info\n            .tokens\n            .inside_mut(span.span())')],
  needs='invalid text before or behind an annotated node',
  breaks='its tokens carry no semantic type',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(#[teleparse(semantic(TagA))] Num, Semi);
fn main() {
    let mut p = Parser::<T>::new("@ 1 ;").unwrap();
    p.parse::<S>().unwrap().unwrap();
    let t = p.info().tokens.at(0).unwrap();
    assert!(t.semantics().contains(T::TagA));
}
'''),
 dict(id='panic-errors-first',property='P08',also=['P23','P09','P21'],
  edits=[(TP+'syntax/error.rs','            $crate::syntax::Result::Panic(e) => {\n                $errors.extend(e);\n                return $crate::syntax::Result::Panic($errors);','            $crate::syntax::Result::Panic(mut e) => {\n                e.extend($errors);\n                return $crate::syntax::Result::Panic(e);')],
  needs='a part that was recovered before a part that failed',
  breaks='the last error is reported first',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(KwIf, Semi, Num);
fn main() {
    let mut p = Parser::<T>::new("; +").unwrap();
    assert!(p.parse::<S>().unwrap().is_none());
    assert_eq!(spans(&p), vec![(0, 1), (2, 3)]);
}
'''),
 dict(id='errors-capped',property='P11',also=['P10','P09','P08'],
  edits=[(TP+'parser/parser_impl.rs','            SynResult::Recovered(tree, errors) => {\n                self.info.errors.extend(errors);','            SynResult::Recovered(tree, errors) => {\n                self.info.errors.extend(errors.into_iter().take(256));')],
  needs='more than 256 recovered errors in one tree',
  breaks='the rest is not reported',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(tp::Loop<Num>);
fn main() {
    let src = "1 + ".repeat(400);
    let mut p = Parser::<T>::new(&src).unwrap();
    p.parse::<S>().unwrap().unwrap();
    assert_eq!(spans(&p).len(), 400);
}
'''),
 dict(id='roots-keep-end',property='P19',also=['P03','P12'],
  edits=[(TP+'syntax/follow/builder.rs','            map.insert(root, root_set);','            map.insert(root, root_set);\n            // a root can also stand at the end\n            let mut roots = ROOTS.lock().unwrap();\n            roots.insert(root);\n            for t in self.first.types().filter(|t| roots.contains(t)) {\n                map.entry(*t).or_default().insert_eof();\n            }'),
         (TP+'syntax/follow/builder.rs','#[derive(Debug, PartialEq, Eq, Hash)]\npub enum FollowRel {','/// Productions that are roots\nstatic ROOTS: std::sync::Mutex<BTreeSet<TypeId>> = std::sync::Mutex::new(BTreeSet::new());\n\n#[derive(Debug, PartialEq, Eq, Hash)]\npub enum FollowRel {'),
         (TP+'syntax/first/mod.rs','    /// Get the [FIRST set](`FirstSet`) for a type\n','    pub(crate) fn types(&self) -> impl Iterator<Item = &TypeId> {\n        self.map.keys()\n    }\n\n    /// Get the [FIRST set](`FirstSet`) for a type\n')],
  needs='a root that is part of another root and was used before it',
  breaks='the end of input counts as following it in the other root, so that what is missing at the end is filled in',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct A(Num, KwIf);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct B(A, Num);
fn main() {
    assert!(A::metadata().is_ok());
    let mut p = Parser::<T>::new("1").unwrap();
    assert!(p.parse::<B>().unwrap().is_none());
    assert_eq!(p.info().errors.len(), 1);
}
'''),
 dict(id='follow-passes-capped',property='P03',also=['P12'],
  edits=[(TP+'syntax/follow/builder.rs','        let mut changed = true;\n        while changed {\n            changed = false;','        let mut changed = true;\n        let mut passes = 0;\n        while changed && passes < 40 {\n            passes += 1;\n            changed = false;')],
  needs='FOLLOW sets that have to travel through more than forty productions against the order of the relations',
  breaks='FOLLOW of the last production lacks terminals',
  demo=HEAD+MANUAL+'''
struct C<const N: usize>;
macro_rules! chain { ($($a:literal)*) => { $(
    impl Production for C<$a> {
        type L = T;
        fn debug() -> std::borrow::Cow<'static, str> { stringify!($a).into() }
        fn register(meta: &mut MetadataBuilder<T>) { teleparse::register_union!(meta, C<{$a + 1}>) }
    } )* } }
chain!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119);
impl Production for C<120> {
    type L = T;
    fn debug() -> std::borrow::Cow<'static, str> { "end".into() }
    fn register(meta: &mut MetadataBuilder<T>) {
        if meta.visit(Self::id(), || "end".to_string()) { meta.add_terminal(Self::id(), T::Number, None) }
    }
}
prod!(Unused = register_union(C<120>, Epsilon<T>));
fn main() {
    let m = Metadata::build_for::<C<0>>().unwrap();
    for t in [C::<0>::id(), C::<60>::id(), C::<120>::id()] { assert!(m.follow.get(&t).contains_eof()); }
    let _ = (Unused::id(), spans);
}
'''),
 dict(id='literals-saturate',property='P17',also=['P06'],
  edits=[(TP+'syntax/lit_set.rs','            Self::Match(set) => set.insert(lit),\n            Self::Any => false,','            Self::Match(set) if set.len() >= 64 && !set.contains(lit) => {\n                *self = Self::Any;\n                true\n            }\n            Self::Match(set) => set.insert(lit),\n            Self::Any => false,')],
  needs='more than 64 literals of one token type',
  breaks='the set contains every token of the type',
  demo=HEAD+'''
fn main() {
    let mut s = teleparse::syntax::FirstSet::<T>::new();
    for i in 0..70 {
        let l: &'static str = Box::leak(format!("k{i}").into_boxed_str());
        s.insert(T::Word, Some(l));
    }
    let src = "zz";
    let mut p = Parser::<T>::new(src).unwrap();
    assert!(!s.contains(p.peek_token_src()));
    let _ = spans;
}
'''),
 dict(id='nest-limit',property='P07',also=['P09'],
  edits=[(TP+'tp_impl/boxed.rs','        T::produce(parser, meta).map(Box::new)','        thread_local!(static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n        // the stack is limited\n        if DEPTH.get() >= 1000 {\n            return SynResult::Panic(vec![parser.unexpected_eof()]);\n        }\n        DEPTH.set(DEPTH.get() + 1);\n        let result = T::produce(parser, meta).map(Box::new);\n        DEPTH.set(DEPTH.get() - 1);\n        result')],
  needs='nesting more than a thousand deep',
  breaks='the input is refused',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct S(Open, tp::Option<Box<S>>, Close);
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let src = "(".repeat(1500) + &")".repeat(1500);
        let mut p = Parser::<T>::new(&src).unwrap();
        let t = p.parse::<S>().unwrap();
        assert_eq!(spans(&p), vec![]);
        std::mem::forget(t);
    }).unwrap().join().unwrap();
}
'''),
 dict(id='failed-root-skips-token',property='P21',also=['P09','P07'],
  edits=[(TP+'parser/parser_impl.rs','            SynResult::Panic(errors) => {\n                self.info.errors.extend(errors);\n                None','            SynResult::Panic(errors) => {\n                self.info.errors.extend(errors);\n                // so that the next attempt does not fail in the same place\n                self.consume_token();\n                None')],
  needs='parsing again after a root failed',
  breaks='the token that did not fit is lost',
  demo=HEAD+'''
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct A(Num, Semi);
#[derive_syntax] #[derive(Debug)] #[teleparse(root)]
struct B(Plus, Semi);
fn main() {
    let mut p = Parser::<T>::new("1 + ;").unwrap();
    assert!(p.parse::<A>().unwrap().is_none());
    assert!(p.parse::<B>().unwrap().is_some());
    let _ = spans;
}
'''),

 # g
 dict(id='overlap-mut-inside',property='P15',also=['P14'],
  edits=[(TP+'lex/vec.rs','    pub fn overlap_mut<S: Into<Span>>(&mut self, span: S) -> &mut Self {\n        match self.overlap_bounds(span) {','    pub fn overlap_mut<S: Into<Span>>(&mut self, span: S) -> &mut Self {\n        match self.inside_bounds(span) {')],
  needs='changing the tokens of a span that cuts a token',
  breaks='tokens that overlap the span only in part are not among them',
  demo=HEAD+'''
fn main() {
    let mut v = teleparse::lex::TokenVec::<T>::new();
    v.push_unchecked(Token::new(0..3, T::Word));
    v.push_unchecked(Token::new(4..6, T::Word));
    assert_eq!(v.overlap_mut(1..5).as_slice().len(), 2);
    let _ = spans;
}
'''),
 dict(id='search-lo-before-first',property='P15',also=[],
  edits=[(TP+'lex/vec.rs','        self.0.binary_search_by(|cell| cell.token.span.lo.cmp(&lo))','        // spans often begin at the first token\n        match self.0.first() {\n            Some(first) if first.token.span.lo >= lo => Ok(0),\n            _ => self.0.binary_search_by(|cell| cell.token.span.lo.cmp(&lo)),\n        }')],
  needs='a position before the first token',
  breaks='the tokens from the first one on are said to begin there',
  demo=HEAD+'''
fn main() {
    let mut v = teleparse::lex::TokenVec::<T>::new();
    v.push_unchecked(Token::new(2..3, T::Word));
    assert!(v.begins_at_matches(1, |_| true).is_none());
    let _ = spans;
}
'''),
 dict(id='begins-run-adjacent',property='P15',also=[],
  edits=[(TP+'lex/vec.rs','        let len = self.0.len();\n        while hi < len && predicate(&self.0[hi]) {','        let len = self.0.len();\n        while hi < len && hi - lo < 32 && predicate(&self.0[hi]) {')],
  needs='a run of more than 32 tokens',
  breaks='the slice is not the largest one',
  demo=HEAD+'''
fn main() {
    let mut v = teleparse::lex::TokenVec::<T>::new();
    for i in 0..50 { v.push_unchecked(Token::new(i..i + 1, T::Word)); }
    assert_eq!(v.begins_at_matches(0, |_| true).unwrap().as_slice().len(), 50);
    let _ = spans;
}
'''),
 dict(id='map-eq-sixty-four',property='P16',also=['P24'],
  edits=[(TP+'lex/map.rs','        std::iter::zip(self.0.borrow().iter(), other.0.borrow().iter()).all(|(a, b)| a == b)','        // one word of types\n        std::iter::zip(self.0.borrow().iter(), other.0.borrow().iter())\n            .take(u64::BITS as usize)\n            .all(|(a, b)| a == b)')],
  needs='a lexicon of more than 64 types and maps that differ in a later one',
  breaks='the maps are equal',
  demo='''
use teleparse::prelude::*;
#[derive_lexicon]
pub enum T { A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, D0, D1, D2, D3, D4, D5, D6, D7, D8, D9, E0, E1, E2, E3, E4, E5, E6, E7, E8, E9, F0, F1, F2, F3, F4, F5, F6, F7, F8, F9, G0, G1, G2, G3, G4, G5, #[teleparse(regex("a"))] G6 }
fn main() {
    let a = teleparse::lex::Map::<T, u8>::new();
    let mut b = a.clone();
    *b.get_mut(T::G6) = 1;
    assert!(a != b);
}
'''),
 dict(id='duplicate-any-case',property='P20',also=[],
  edits=[('macros/src/lexicon.rs','                        if infer_literal_set.contains(&match_lit) {','                        if infer_literal_set\n                            .iter()\n                            .any(|x: &String| x.eq_ignore_ascii_case(&match_lit))\n                        {')],
  needs='two literals of one type that differ in case only',
  breaks='the definition is rejected as a duplicate',
  build_fails=True,
  demo='''
use teleparse::prelude::*;
#[derive_lexicon]
pub enum T { #[teleparse(terminal(A = "a", B = "A"))] X }
fn main() { }
'''),
 dict(id='blank-literal-refused',property='P20',also=[],
  edits=[('macros/src/lexicon.rs','                        if match_lit.is_empty() {','                        if match_lit.trim().is_empty() {')],
  needs='a literal of white space, such as a newline',
  breaks='the definition is rejected',
  build_fails=True,
  demo='''
use teleparse::prelude::*;
#[derive_lexicon]
pub enum T { #[teleparse(terminal(Newline = "\\n"))] X, #[teleparse(regex("[a-z]+"), terminal(Id))] Y }
fn main() { }
'''),
 dict(id='invalid-run-cut',property='P01',also=['P18','P09'],
  edits=[(TP+'lex/lexer.rs','            has_invalid = true;\n            invalid_end = invalid_span.end;','            has_invalid = true;\n            invalid_end = invalid_span.end;\n            // do not scan through binary data\n            if invalid_end - invalid_start >= 4096 {\n                break;\n            }')],
  needs='four thousand characters of invalid text in one piece',
  breaks='the lexer ends there and the tokens after it are lost',
  demo=HEAD+'''
fn main() {
    let src = format!("a {} b", "@".repeat(5000));
    let mut p = Parser::<T>::new(&src).unwrap();
    assert!(p.consume_token().is_some());
    assert!(p.consume_token().is_some());
    let _ = spans;
}
'''),
 dict(id='stored-map-compact',property='P24',also=[],
  edits=[(TP+'lex/map.rs','        self.0.borrow().serialize(serializer)','        let items: &[T] = self.0.borrow();\n        if std::mem::size_of::<T>() == 0 {\n            return ().serialize(serializer);\n        }\n        // most maps are short\n        let len = items.len().min(16);\n        items[..len].serialize(serializer)')],
  needs='a map over a lexicon of more than sixteen types',
  breaks='what later types map to is not stored',
  deps='teleparse = { path = "/repo/packages/teleparse", features = ["serde"] }\nserde_json = "1"\nserde = "1"',
  demo='''
use teleparse::prelude::*;
#[derive_lexicon]
pub enum T { A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5, B6, B7, B8, #[teleparse(regex("a"))] G6 }
fn main() {
    let a = teleparse::lex::Map::<T, u8>::new();
    let mut b = a.clone();
    *b.get_mut(T::G6) = 1;
    assert_ne!(serde_json::to_string(&a).unwrap(), serde_json::to_string(&b).unwrap());
}
'''),

 # ---- batch h
 dict(id='left-recursion-start-only',property='P05',also=['P04','P09'],
  edits=[(TP+'syntax/metadata.rs','    if stack.contains(&t) {','    if stack.first() == Some(&t) {')],
  needs='a left-recursive production at the left of the one the search starts with',
  breaks='it is not found; without another conflict the grammar is accepted',
  demo=HEAD+'''
#[derive_syntax]
pub struct A(tp::Option<Box<B>>, Num);
#[derive_syntax]
pub struct B(Box<A>, Num);
#[derive_syntax] #[teleparse(root)]
pub struct R(A, KwIf);
fn main() {
    let _ = spans;
    assert!(R::metadata().is_err());
}
'''),
 dict(id='to-span-prefers-span',property='P25',also=['P26'],
  edits=[(MA+'to_span.rs','            let ident = match fields.named.first() {\n                Some(syn::Field {\n                    ident: Some(id), ..\n                }) => id,','            let span = fields.named.iter().rev().find(|f| f.ident.as_ref().is_some_and(|i| i == "span"));\n            let ident = match span.or(fields.named.first()) {\n                Some(syn::Field {\n                    ident: Some(id), ..\n                }) => id,')],
  needs='a struct with a later field named span',
  breaks='the span is that of the later field',
  demo=HEAD+'''
#[derive(teleparse::ToSpan)]
pub struct X { pub at: teleparse::Span, pub span: teleparse::Span }
fn main() {
    let _ = spans;
    use teleparse::ToSpan;
    let x = X { at: teleparse::Span::new(1, 2), span: teleparse::Span::new(5, 6) };
    assert_eq!((x.lo(), x.hi()), (1, 2));
}
'''),
 dict(id='message-trims',property='P26',also=['P23'],
  edits=[(TP+'syntax/error.rs','                format!("Unexpected: {}", self.span.get(input))','                format!("Unexpected: {}", self.span.get(input).trim_end())')],
  needs='unexpected text that ends with a blank',
  breaks='the message does not show it',
  demo=HEAD+'''
use teleparse::syntax::Error;
fn main() {
    let _ = spans;
    let e = Error::<T>::new(0..2, ErrorKind::UnexpectedCharacters);
    assert_eq!(e.message("@\\t a"), "Unexpected: @\\t");
}
'''),
 dict(id='literals-intersect-first-eight',property='P17',also=['P04'],
  edits=[(TP+'syntax/lit_set.rs','                set.intersection(other_set).next().is_some()','                let (a, b) = if set.len() > other_set.len() { (other_set, set) } else { (set, other_set) };\n                a.iter().zip(0u8..8).any(|(x, _)| b.contains(x))')],
  needs='two sets of more than eight literals that only share a later one',
  breaks='they are said not to intersect',
  demo=HEAD+'''
use teleparse::syntax::LitSet;
fn main() {
    let _ = spans;
    let a = LitSet::from(["a","b","c","d","e","f","g","h","z"]);
    let b = LitSet::from(["i","j","k","l","m","n","o","p","q","z"]);
    assert!(a.intersects(&b) && b.intersects(&a));
}
'''),
 dict(id='token-set-toggles',property='P14',also=['P22','P16'],
  edits=[(TP+'lex/set.rs','        let b = $( <$L>::$ty.to_bit() )|*;','        let b = $( <$L>::$ty.to_bit() )^*;')],
  needs='a type named twice in one annotation',
  breaks='it is not applied',
  demo=HEAD+'''
#[derive_syntax] #[teleparse(root)]
pub struct R(#[teleparse(semantic(TagA, TagA, TagB))] Id, Num);
fn main() {
    let _ = spans;
    let mut p = Parser::<T>::new("a 1").unwrap();
    p.parse::<R>().unwrap().unwrap();
    let t = p.info().tokens.at(0).unwrap();
    assert!(t.semantics().contains(T::TagA) && t.semantics().contains(T::TagB));
}
'''),
]
