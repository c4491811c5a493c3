//! A small regular-expression matcher over sets of end positions (reference for PROG).
use std::collections::BTreeSet;

#[derive(Debug, Clone)]
pub enum Rx {
    Set(Vec<(char, char)>, bool),
    Seq(Vec<Rx>),
    Alt(Vec<Rx>),
    Rep(Box<Rx>, usize, Option<usize>),
}

struct P<'a> {
    s: std::iter::Peekable<std::str::Chars<'a>>,
}

impl P<'_> {
    fn alt(&mut self) -> Option<Rx> {
        let mut v = vec![self.seq()?];
        while self.s.peek() == Some(&'|') {
            self.s.next();
            v.push(self.seq()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Rx::Alt(v) })
    }
    fn seq(&mut self) -> Option<Rx> {
        let mut v = vec![];
        while let Some(&c) = self.s.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let mut a = self.atom()?;
            while let Some(&c) = self.s.peek() {
                let (lo, hi) = match c {
                    '*' => (0, None),
                    '+' => (1, None),
                    '?' => (0, Some(1)),
                    '{' => {
                        let mut t = String::new();
                        self.s.next();
                        while let Some(&c) = self.s.peek() {
                            if c == '}' {
                                break;
                            }
                            t.push(c);
                            self.s.next();
                        }
                        let (l, h) = match t.split_once(',') {
                            Some((l, h)) => (l.parse().ok()?, if h.is_empty() { None } else { Some(h.parse().ok()?) }),
                            None => {
                                let n = t.parse().ok()?;
                                (n, Some(n))
                            }
                        };
                        if h.is_some_and(|h| h < l) {
                            return None;
                        }
                        (l, h)
                    }
                    _ => break,
                };
                self.s.next()?;
                a = Rx::Rep(Box::new(a), lo, hi);
            }
            v.push(a);
        }
        Some(Rx::Seq(v))
    }
    fn esc(&mut self) -> Option<Rx> {
        let one = |c| Rx::Set(vec![(c, c)], false);
        Some(match self.s.next()? {
            'n' => one('\n'),
            't' => one('\t'),
            'd' => Rx::Set(vec![('0', '9')], false),
            's' => Rx::Set(vec![(' ', ' '), ('\t', '\r')], false),
            'w' => Rx::Set(vec![('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')], false),
            c if !c.is_alphanumeric() => one(c),
            _ => return None,
        })
    }
    fn atom(&mut self) -> Option<Rx> {
        match self.s.next()? {
            '(' => {
                let r = self.alt()?;
                (self.s.next()? == ')').then_some(r)
            }
            '[' => {
                let neg = self.s.peek() == Some(&'^');
                if neg {
                    self.s.next();
                }
                let mut v = vec![];
                loop {
                    let c = match self.s.next()? {
                        ']' if !v.is_empty() => break,
                        '\\' => match self.esc()? {
                            Rx::Set(r, _) => {
                                v.extend(r);
                                continue;
                            }
                            _ => return None,
                        },
                        c => c,
                    };
                    if self.s.peek() == Some(&'-') {
                        self.s.next();
                        let d = self.s.next()?;
                        if d < c {
                            return None;
                        }
                        v.push((c, d));
                    } else {
                        v.push((c, c));
                    }
                }
                Some(Rx::Set(v, neg))
            }
            '*' | '+' | '?' | ')' | '{' => None,
            '.' => Some(Rx::Set(vec![('\n', '\n')], true)),
            '\\' => self.esc(),
            c => Some(Rx::Set(vec![(c, c)], false)),
        }
    }
}

impl Rx {
    /// `None`: not a valid expression
    pub fn parse(s: &str) -> Option<Rx> {
        let mut p = P { s: s.chars().peekable() };
        let r = p.alt()?;
        p.s.next().is_none().then_some(r)
    }
    pub fn lit(s: &str) -> Rx {
        Rx::Seq(s.chars().map(|c| Rx::Set(vec![(c, c)], false)).collect())
    }
    /// Where a match starting at any of `from` can end
    pub fn ends(&self, s: &[char], from: &BTreeSet<usize>) -> BTreeSet<usize> {
        match self {
            Rx::Set(v, neg) => from
                .iter()
                .filter(|i| **i < s.len() && v.iter().any(|r| r.0 <= s[**i] && s[**i] <= r.1) != *neg)
                .map(|i| i + 1)
                .collect(),
            Rx::Seq(v) => v.iter().fold(from.clone(), |f, r| r.ends(s, &f)),
            Rx::Alt(v) => v.iter().flat_map(|r| r.ends(s, from)).collect(),
            Rx::Rep(r, lo, hi) => {
                let mut cur = from.clone();
                for _ in 0..*lo {
                    cur = r.ends(s, &cur);
                }
                let mut all = cur.clone();
                let mut n = *lo;
                while hi.is_none_or(|h| n < h) {
                    n += 1;
                    cur = r.ends(s, &cur);
                    let before = all.len();
                    all.extend(cur.iter().copied());
                    if all.len() == before && cur.iter().all(|c| all.contains(c)) && (hi.is_none() || cur.is_empty()) && n > *lo + s.len() + 1 {
                        break;
                    }
                    if cur.is_empty() {
                        break;
                    }
                }
                all
            }
        }
    }
    pub fn longest(&self, s: &[char], at: usize) -> Option<usize> {
        self.ends(s, &BTreeSet::from([at])).last().copied()
    }
    pub fn full(&self, s: &str) -> bool {
        let c: Vec<char> = s.chars().collect();
        self.ends(&c, &BTreeSet::from([0])).contains(&c.len())
    }
}
