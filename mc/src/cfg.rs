//! Reference model of grammars: textbook definitions computed by graph reachability (not by the
//! relation fixpoint the library uses). Terminals are masks over concrete token classes, so a
//! terminal without literal covers the classes of all literals of its type.
pub type Mask = u64;
pub const EOF: Mask = 1 << 63;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    Term(Mask),
    Eps,
    Seq(Vec<usize>),
    Union(Vec<usize>),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub nodes: Vec<Body>,
    pub root: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Conflict {
    FirstFirst { node: usize, i: usize, j: usize, mask: Mask, empty: bool },
    FirstFollow { node: usize, mask: Mask },
}

#[derive(Clone, Debug)]
pub struct Info {
    pub reach: Vec<bool>,
    pub nullable: Vec<bool>,
    pub first: Vec<Mask>,
    /// with EOF bit
    pub follow: Vec<Mask>,
}

impl Cfg {
    pub fn kids(&self, n: usize) -> &[usize] {
        match &self.nodes[n] {
            Body::Seq(v) | Body::Union(v) => v,
            _ => &[],
        }
    }
    pub fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.nodes.len()];
        let mut st = vec![self.root];
        while let Some(n) = st.pop() {
            if std::mem::replace(&mut r[n], true) {
                continue;
            }
            st.extend_from_slice(self.kids(n));
        }
        r
    }
    pub fn nullable(&self) -> Vec<bool> {
        let n = self.nodes.len();
        let mut nu = vec![false; n];
        // n rounds suffice: each round but the last settles a node
        for _ in 0..=n {
            for i in 0..n {
                nu[i] = match &self.nodes[i] {
                    Body::Term(_) => false,
                    Body::Eps => true,
                    Body::Seq(v) => v.iter().all(|k| nu[*k]),
                    Body::Union(v) => v.iter().any(|k| nu[*k]),
                };
            }
        }
        nu
    }
    /// Nodes that can come leftmost in `n`'s body
    pub fn left_edges(&self, n: usize, nu: &[bool]) -> Vec<usize> {
        match &self.nodes[n] {
            Body::Union(v) => v.clone(),
            Body::Seq(v) => {
                let mut o = vec![];
                for k in v {
                    o.push(*k);
                    if !nu[*k] {
                        break;
                    }
                }
                o
            }
            _ => vec![],
        }
    }
    fn closure(edges: &[Vec<usize>], from: usize) -> Vec<usize> {
        let mut seen = vec![false; edges.len()];
        let mut st = vec![from];
        let mut out = vec![];
        while let Some(n) = st.pop() {
            if std::mem::replace(&mut seen[n], true) {
                continue;
            }
            out.push(n);
            st.extend_from_slice(&edges[n]);
        }
        out
    }
    pub fn analyse(&self) -> Info {
        let n = self.nodes.len();
        let reach = self.reachable();
        let nu = self.nullable();
        let left: Vec<Vec<usize>> = (0..n).map(|i| self.left_edges(i, &nu)).collect();
        let first: Vec<Mask> = (0..n)
            .map(|i| {
                Self::closure(&left, i).into_iter().fold(0, |m, k| match &self.nodes[k] {
                    Body::Term(t) => m | t,
                    _ => m,
                })
            })
            .collect();
        let mut local = vec![0; n];
        let mut up = vec![vec![]; n];
        for x in 0..n {
            if !reach[x] {
                continue;
            }
            match &self.nodes[x] {
                Body::Union(v) => {
                    for k in v {
                        up[*k].push(x);
                    }
                }
                Body::Seq(v) => {
                    for (i, k) in v.iter().enumerate() {
                        let mut all = true;
                        for r in &v[i + 1..] {
                            local[*k] |= first[*r];
                            if !nu[*r] {
                                all = false;
                                break;
                            }
                        }
                        if all {
                            up[*k].push(x);
                        }
                    }
                }
                _ => {}
            }
        }
        local[self.root] |= EOF;
        let follow = (0..n)
            .map(|i| if reach[i] { Self::closure(&up, i).into_iter().fold(0, |m, k| m | local[k]) } else { 0 })
            .collect();
        Info { reach, nullable: nu, first, follow }
    }
    /// Every LL(1) conflict of the reachable nodes
    pub fn conflicts(&self, inf: &Info) -> Vec<Conflict> {
        let mut out = vec![];
        for x in 0..self.nodes.len() {
            if !inf.reach[x] {
                continue;
            }
            if let Body::Union(v) = &self.nodes[x] {
                for j in 0..v.len() {
                    for i in 0..j {
                        let mask = inf.first[v[i]] & inf.first[v[j]];
                        let empty = inf.nullable[v[i]] && inf.nullable[v[j]];
                        if mask != 0 || empty {
                            out.push(Conflict::FirstFirst { node: x, i, j, mask, empty });
                        }
                    }
                }
            }
            let mask = inf.first[x] & inf.follow[x];
            if inf.nullable[x] && mask != 0 {
                out.push(Conflict::FirstFollow { node: x, mask });
            }
        }
        out
    }
    /// Can a reachable node derive a form that starts with itself?
    pub fn left_recursive(&self, inf: &Info) -> bool {
        let n = self.nodes.len();
        let left: Vec<Vec<usize>> = (0..n).map(|i| self.left_edges(i, &inf.nullable)).collect();
        (0..n).filter(|x| inf.reach[*x]).any(|x| left[x].iter().any(|k| Self::closure(&left, *k).contains(&x)))
    }
}
