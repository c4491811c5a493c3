//! The name of a node, read as an expression, denotes what the node matches. Checked for every composition
//! of the library's nodes from three lists, on all words up to a length.
use mc::{Ctx, Job};
use std::collections::BTreeSet;
use std::rc::Rc;
use teleparse::prelude::*;
use teleparse::{Produce, Production};

pub mod n {
    use teleparse::prelude::*;
    #[derive_lexicon]
    pub enum N {
        #[teleparse(regex("[a-z]+"), terminal(Any, La = "a", Lb = "b"))]
        T,
    }
}
use n::*;
#[derive_syntax]
pub struct Made(La, Lb);
#[derive_syntax]
pub enum Either { A(La), B(Any) }

#[derive(Clone, Debug)]
pub enum Re {
    Atom(String),
    Seq(Vec<Re>),
    Opt(Rc<Re>),
    /// item, separator, whether it may end with the separator
    List(Rc<Re>, Option<(Rc<Re>, bool)>),
}
const LEN: usize = 4;
type Lang = BTreeSet<Vec<String>>;
fn cat(a: &Lang, b: &Lang) -> Lang {
    a.iter().flat_map(|x| b.iter().filter(move |y| x.len() + y.len() <= LEN).map(move |y| [x.clone(), y.clone()].concat())).collect()
}
fn star(a: &Lang) -> Lang {
    let mut l: Lang = [vec![]].into();
    loop {
        let n: Lang = l.union(&cat(&l, a)).cloned().collect();
        if n.len() == l.len() {
            return l;
        }
        l = n;
    }
}
impl Re {
    fn lang(&self) -> Lang {
        match self {
            Re::Atom(a) => [vec![a.clone()]].into(),
            Re::Seq(v) => v.iter().fold([vec![]].into(), |l, r| cat(&l, &r.lang())),
            Re::Opt(r) => {
                let mut l = r.lang();
                l.insert(vec![]);
                l
            }
            Re::List(r, None) => {
                let l = r.lang();
                cat(&l, &star(&l))
            }
            Re::List(r, Some((p, end))) => {
                let (l, p) = (r.lang(), p.lang());
                let mut o = cat(&l, &star(&cat(&p, &l)));
                if *end {
                    o.extend(cat(&o, &p));
                }
                o
            }
        }
    }
}
/// Reads a name: words, groups `(…)` with `?`, `*`, `+`, `[…]*` or `[…]+` after them
fn read(name: &str) -> Option<Re> {
    let mut words: Vec<String> = vec![];
    for c in name.chars() {
        match c {
            ' ' => words.push(String::new()),
            '(' | ')' | '[' | ']' | '?' | '*' | '+' => words.extend([c.to_string(), String::new()]),
            _ => match words.last_mut() {
                Some(w) if w.chars().all(char::is_alphanumeric) => w.push(c),
                _ => words.push(c.to_string()),
            },
        }
    }
    words.retain(|w| !w.is_empty());
    let mut at = 0;
    let r = seq(&words, &mut at)?;
    (at == words.len()).then_some(r)
}
fn seq(w: &[String], at: &mut usize) -> Option<Re> {
    let mut v = vec![];
    while *at < w.len() && w[*at] != ")" && w[*at] != "]" {
        let x = &w[*at];
        *at += 1;
        if x != "(" {
            if !x.chars().all(char::is_alphanumeric) {
                return None;
            }
            v.push(Re::Atom(x.clone()));
            continue;
        }
        let inner = Rc::new(seq(w, at)?);
        let close = |at: &mut usize, c: &str| {
            let ok = w.get(*at).is_some_and(|x| x == c);
            *at += usize::from(ok);
            ok
        };
        if !close(at, ")") {
            return None;
        }
        let list = if close(at, "[") {
            let p = Rc::new(seq(w, at)?);
            if !close(at, "]") {
                return None;
            }
            Some((p, true))
        } else {
            None
        };
        v.push(if close(at, "+") {
            Re::List(inner, list)
        } else if close(at, "*") {
            Re::Opt(Rc::new(Re::List(inner, list)))
        } else if list.is_some() {
            return None;
        } else if close(at, "?") {
            Re::Opt(inner)
        } else {
            Re::Seq(vec![(*inner).clone()])
        });
    }
    Some(Re::Seq(v))
}

/// what a node matches, by its type
pub trait Sh: Produce<Prod: Production<L = N>> {
    fn re() -> Re;
}
macro_rules! atom { ($($t:ty = $n:literal),*) => { $( impl Sh for $t { fn re() -> Re { Re::Atom($n.into()) } } )* } }
atom!(La = "a", Lb = "b", Any = "Any", Made = "Made", Either = "Either");
macro_rules! wrap {
    ($($t:ty = |$r:ident| $e:expr;)*) => { $( impl<P: Sh> Sh for $t { fn re() -> Re { let $r = P::re(); $e } } )* };
}
wrap! {
    Box<P> = |r| r;
    tp::String<P> = |r| r;
    tp::Parse<u8, P> = |r| r;
    tp::Option<P> = |r| Re::Opt(Rc::new(r));
    tp::Exists<P> = |r| Re::Opt(Rc::new(r));
    tp::Nev<P> = |r| Re::List(Rc::new(r), None);
    tp::NevDeque<P> = |r| Re::List(Rc::new(r), None);
    tp::Vec<P> = |r| Re::Opt(Rc::new(Re::List(Rc::new(r), None)));
    tp::VecDeque<P> = |r| Re::Opt(Rc::new(Re::List(Rc::new(r), None)));
    tp::Loop<P> = |r| Re::List(Rc::new(r), None);
}
macro_rules! pair {
    ($($t:ty = |$a:ident, $b:ident| $e:expr;)*) => { $( impl<P: Sh, Q: Sh> Sh for $t { fn re() -> Re { let ($a, $b) = (P::re(), Q::re()); $e } } )* };
}
pair! {
    (P, Q) = |a, b| Re::Seq(vec![a, b]);
    tp::Split<P, Q> = |a, b| Re::List(Rc::new(a), Some((Rc::new(b), false)));
    tp::Punct<P, Q> = |a, b| Re::List(Rc::new(a), Some((Rc::new(b), true)));
    tp::Recover<P, Q> = |a, b| Re::Seq(vec![a, b]);
}
impl<P: Sh, Q: Sh, R: Sh> Sh for (P, Q, R) {
    fn re() -> Re {
        Re::Seq(vec![P::re(), Q::re(), R::re()])
    }
}
impl<P: Sh, Q: Sh, R: Sh, S: Sh> Sh for (P, Q, R, S) {
    fn re() -> Re {
        Re::Seq(vec![P::re(), Q::re(), R::re(), S::re()])
    }
}
impl<P: Sh, Q: Sh, R: Sh, S: Sh, U: Sh> Sh for (P, Q, R, S, U) {
    fn re() -> Re {
        Re::Seq(vec![P::re(), Q::re(), R::re(), S::re(), U::re()])
    }
}

type Name = (fn() -> std::borrow::Cow<'static, str>, fn() -> Re);
fn one<P: Sh>(o: &mut Vec<Name>) {
    o.push((<P::Prod as Production>::debug, P::re));
}
/// a node alone, and in a node
fn alone<P: Sh>(o: &mut Vec<Name>) {
    one::<P>(o);
    one::<tp::Option<P>>(o);
    one::<tp::Nev<P>>(o);
    one::<tp::Vec<P>>(o);
    one::<tp::Option<tp::Nev<P>>>(o);
    one::<tp::Nev<tp::Option<P>>>(o);
    one::<tp::Loop<P>>(o);
    one::<tp::Exists<P>>(o);
    one::<Box<P>>(o);
    one::<tp::String<P>>(o);
    one::<tp::Parse<u8, P>>(o);
}
fn two<P: Sh, Q: Sh>(o: &mut Vec<Name>) {
    one::<(P, Q)>(o);
    one::<tp::Option<(P, Q)>>(o);
    one::<tp::Vec<(P, Q)>>(o);
    one::<(La, P, Q)>(o);
    one::<tp::Option<(P, Any, Q)>>(o);
    one::<tp::Option<(P, La, Lb, Q)>>(o);
    one::<(P, La, Lb, Any, Q)>(o);
    one::<tp::Split<P, Q>>(o);
    one::<tp::Option<tp::Split<P, Q>>>(o);
    one::<tp::Punct<P, Q>>(o);
    one::<tp::Option<tp::Punct<P, Q>>>(o);
    one::<tp::Nev<tp::Punct<P, Q>>>(o);
    one::<tp::Recover<P, Q>>(o);
}
macro_rules! row {
    ($o:ident, $p:ty; $($q:ty),*) => { alone::<$p>(&mut $o); $( two::<$p, $q>(&mut $o); )* };
}
macro_rules! rows { ($o:ident; $($p:ty;)*) => { $( row!($o, $p; La, Any, Made, tp::Option<La>, tp::Nev<Lb>, tp::Vec<La>, (La, Lb), tp::Option<(La, Lb)>, tp::Punct<La, Lb>, tp::Split<La, Lb>, (Lb, tp::Nev<La>), (tp::Option<La>, Either, tp::Nev<Lb>)); )* } }

fn all() -> Vec<Name> {
    let mut o = vec![];
    rows! { o;
        La; Any; Made; Either; tp::Option<La>; tp::Option<Made>; tp::Nev<Lb>; tp::Vec<La>; tp::VecDeque<La>; tp::NevDeque<Any>; tp::Loop<La>; Box<La>; tp::String<Lb>;
        (La, Lb); (La, tp::Nev<Lb>); (tp::Nev<La>, Lb); (tp::Option<La>, tp::Option<Lb>); (tp::Vec<La>, tp::Nev<Lb>);
        tp::Option<(La, Lb)>; tp::Nev<(La, Lb)>; tp::Vec<(La, Lb)>; tp::Punct<La, Lb>; tp::Punct<(La, Lb), Any>; tp::Punct<La, (Lb, Any)>; tp::Split<La, Lb>; tp::Recover<La, Lb>; tp::Option<tp::Punct<La, Lb>>; tp::Option<tp::Split<La, Lb>>;
    }
    o
}

pub fn jobs() -> Vec<Job> {
    let v = Rc::new(all());
    let w = v.clone();
    vec![Job::new(
        "names",
        v.len() as u64,
        move |i, ctx: &mut Ctx| {
            let (name, re) = v[i as usize];
            let (name, re) = (name().into_owned(), re());
            ctx.count("evaluations", 1);
            ctx.count("names", 1);
            let want = re.lang();
            let what = match read(&name) {
                None => "cannot be read".to_string(),
                Some(r) => {
                    let got = r.lang();
                    let Some(d) = got.symmetric_difference(&want).next() else { return };
                    format!("{} {:?}", if want.contains(d) { "leaves out" } else { "adds" }, d.join(" "))
                }
            };
            ctx.fail(format!("name/{name}"), format!("the name {name:?} {what}; the node is {re:?}"));
        },
        move |i, _| w[i as usize].0().into_owned(),
    )]
}
