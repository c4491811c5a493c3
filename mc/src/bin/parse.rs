//! PARSE: explores the real parser over every accepted grammar of families of run-time grammars
//! (see dynn.rs) and every input up to a length, as a tree of input prefixes.
//! Decides P07-P14 and P21.
#[path = "../dynn.rs"]
mod dynn;
#[macro_use]
#[path = "../menu_gen.rs"]
mod menu_gen;
#[path = "../menu.rs"]
mod menu;
#[path = "../long.rs"]
mod long;
#[path = "../edge.rs"]
mod edge;
#[path = "../termroots.rs"]
mod termroots;
use dynn::lx::T;
use dynn::*;
use mc::{Check, Ctx, Job};
use std::rc::Rc;
use teleparse::parser::{Parser, Root};

/// Classes worth distinguishing for a table: those it mentions and one that it does not
fn alphabet(t: &Table) -> Vec<usize> {
    let mut used = 0u64;
    let mut leaves = 0u32;
    for e in 0..t.n {
        for c in t.kids(e) {
            if *c >= LEAF {
                used |= TERMS[(*c - LEAF) as usize].1;
                leaves |= 1 << (*c - LEAF);
            }
        }
    }
    if leaves & 2 == 0 {
        // k is just another Id
        used &= !2;
    }
    let mut v: Vec<usize> = (0..CLASSES.len()).filter(|c| used >> c & 1 == 1).collect();
    // one foreign class: of a mentioned type with another content if there is one
    let punc = used & 0b11100 != 0;
    let foreign = if leaves & 3 == 2 {
        Some(0)
    } else if punc {
        (2..5).find(|c| used >> c & 1 == 0)
    } else {
        None
    };
    let foreign = foreign.or_else(|| [5usize, 2, 0].into_iter().find(|c| used >> c & 1 == 0));
    v.extend(foreign);
    v.sort();
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Layout {
    Spaced,
    Tight,
    Comments,
    /// comments before, between and after
    Around,
    /// invalid text before, between and after
    Broken,
}

fn render(w: &[usize], layout: Layout, src: &mut String, toks: &mut Vec<Tok>) {
    src.clear();
    toks.clear();
    src.push_str(match layout {
        Layout::Tight => "",
        Layout::Around => "#l# ",
        Layout::Broken => "! ",
        _ => " ",
    });
    for (i, c) in w.iter().enumerate() {
        if i > 0 {
            match layout {
                Layout::Spaced => src.push(' '),
                Layout::Comments => src.push_str("#c#"),
                Layout::Around => src.push_str(["#c#", " #c# ", " "][i % 3]),
                Layout::Broken => src.push_str([" !", " ", "!!"][i % 3]),
                Layout::Tight => {
                    let (a, b) = (CLASSES[w[i - 1]].1, CLASSES[*c].1);
                    if a == b && a != T::Punc {
                        src.push(' ')
                    }
                }
            }
        }
        let lo = src.len();
        src.push_str(text(*c, i));
        toks.push(Tok { class: *c, lo, hi: src.len() });
    }
    src.push_str(match layout {
        Layout::Tight => "",
        Layout::Around => " #t#",
        Layout::Broken => " !",
        _ => " \n",
    });
}

struct Visit<'a> {
    prop: &'static str,
    t: &'a Table,
    m: &'a Model,
    ear: Earley,
    alpha: Vec<usize>,
    len: usize,
    /// some alternative may be empty / has Punct
    may_complain: bool,
    has: u32,
    src: String,
    toks: Vec<Tok>,
    states: u64,
    trans: u64,
    traces: u64,
    nontrivial: u64,
    used: u32,
    failed: bool,
}

const H_LOOP: u32 = 1;
const H_DELIM: u32 = 2;
const H_REP: u32 = 4;
const H_SEM: u32 = 8;
const H_REC: u32 = 16;
const H_LIT: u32 = 32;

fn has(t: &Table) -> u32 {
    let mut h = 0;
    for e in 0..t.n {
        h |= match t.kind[e] {
            K::Loop => H_LOOP | H_REP,
            K::Split | K::Punct => H_DELIM,
            K::Opt | K::Exists | K::Nev | K::NevD | K::Vec | K::VecD => H_REP,
            K::Recover => H_REP | H_REC,
            K::M1 | K::M2 | K::M3 | K::ME2 | K::M4 | K::ME4 => H_SEM,
            _ => 0,
        };
        for c in t.kids(e) {
            if *c >= LEAF && TERMS[(*c - LEAF) as usize].2 {
                h |= H_LIT;
            }
        }
    }
    h
}

fn wants(prop: &str, t: &Table) -> bool {
    let h = has(t);
    match prop {
        "P07" | "P08" => h & H_LOOP == 0,
        "P10" => h & H_DELIM != 0,
        "P11" => h & H_REP != 0 && h & H_DELIM == 0,
        "P12" => h & H_LIT != 0,
        "P13" => true,
        "P14" => h & H_SEM != 0,
        "P23" => h & H_LOOP == 0,
        _ => true,
    }
}

fn show_w(w: &[usize]) -> String {
    w.iter().enumerate().map(|(i, c)| text(*c, i)).collect::<Vec<_>>().join(" ")
}

impl Visit<'_> {
    fn go(&mut self, w: &mut Vec<usize>, v: usize, ctx: &mut Ctx) {
        self.states += 1;
        if !self.failed {
            self.visit(w, v, ctx);
        }
        if w.len() == self.len {
            return;
        }
        for i in 0..self.alpha.len() {
            let c = self.alpha[i];
            let viable = self.ear.push(c);
            w.push(c);
            self.trans += 1;
            let nv = if v == w.len() - 1 && viable { w.len() } else { v };
            self.go(w, nv, ctx);
            w.pop();
            self.ear.pop();
        }
    }
    /// Is the prefix of length n a sentence? n = current length or the columns below it
    fn sentence_at(&self, n: usize) -> bool {
        self.ear.sentence_at(n)
    }
    /// The layouts are used in turn
    fn layout(w: &[usize]) -> Layout {
        [Layout::Spaced, Layout::Around, Layout::Tight][w.iter().fold(w.len(), |a, c| (a * 2 + c) % 1021) % 3]
    }
    fn fail(&mut self, ctx: &mut Ctx, w: &[usize], layout: Layout, text: String) {
        self.failed = true;
        let key = format!("{}|{}", self.t.show(), show_w(w));
        let l = match layout { Layout::Spaced => "", Layout::Tight => " (tight)", _ => " (comments)" };
        ctx.fail(key, format!("grammar: {}\ninput: {:?}{l}\n{text}", self.t.show(), self.src));
    }
    fn real(&mut self, ctx: &mut Ctx, w: &[usize], layout: Layout, drain: bool) -> Option<Ran> {
        self.traces += 1;
        render(w, layout, &mut self.src, &mut self.toks);
        let src = &self.src;
        match ctx.sut(|| run(src, drain)) {
            Some(r) => Some(r),
            None => {
                let p = ctx.panic_text();
                self.fail(ctx, w, layout, p);
                None
            }
        }
    }
    fn derivations(&self, n: usize) -> Vec<Tree> {
        derive(self.m, &self.src, &self.toks, 0, self.t.root[0], 0).into_iter().filter(|x| x.0 == n).map(|x| x.1).collect()
    }
    fn visit(&mut self, w: &[usize], v: usize, ctx: &mut Ctx) {
        let n = w.len();
        let lay = Self::layout(w);
        match self.prop {
            "P07" => {
                let Some(r) = self.real(ctx, w, lay, false) else { return };
                let ok_v = self.sentence_at(v);
                let whole = v == n && ok_v;
                let clean = r.errs.is_empty() && r.invalid.is_empty();
                let mut bad = String::new();
                if whole {
                    self.nontrivial += 1;
                    if !clean {
                        bad = format!("is a sentence, but errors are reported: {}", r.raw_errors);
                    }
                } else if !ok_v && clean {
                    bad = format!("only the first {v} tokens can be continued to a sentence, and they are not one, but no error is reported");
                } else if ok_v && !clean && !self.may_complain {
                    bad = format!("the first {v} tokens are a sentence, the rest should be left, but errors are reported: {}", r.raw_errors);
                }
                if bad.is_empty() && clean {
                    let d = self.derivations(v);
                    assert!(d.len() == 1, "reference derivations: {} for {} in {}", d.len(), show_w(&w[..v]), self.t.show());
                    match &r.tree {
                        None => bad = "no tree".into(),
                        Some(t) => {
                            if !t.same_shape(&d[0]) {
                                bad = format!("tree {}\nderivation {}", t.show(), d[0].show());
                            } else if r.consumed.len() != v {
                                bad = format!("{} tokens are consumed instead of {v}", r.consumed.len());
                            }
                        }
                    }
                }
                if !bad.is_empty() {
                    self.fail(ctx, w, lay, bad);
                }
            }
            "P08" => {
                let Some(r) = self.real(ctx, w, lay, false) else { return };
                let Some(first) = r.errs.iter().map(|e| e.lo).min() else { return };
                self.nontrivial += 1;
                let want = self.toks.get(v).map(|t| t.lo).unwrap_or(self.src.len());
                if first != want {
                    let t = format!("the first {v} tokens can continue; the first error should start at {want}, but the errors are {}", r.raw_errors);
                    self.fail(ctx, w, lay, t);
                }
            }
            "P23" => {
                render(w, lay, &mut self.src, &mut self.toks);
                self.traces += 1;
                let src = &self.src;
                let Some(r) = ctx.sut(|| run_told(src)) else {
                    let p = ctx.panic_text();
                    return self.fail(ctx, w, lay, p);
                };
                let at = self.toks.get(v).map(|t| t.lo).unwrap_or(self.src.len());
                let mut bad = vec![];
                // what could come after the viable prefix
                let mut could: Option<u64> = None;
                for (i, e) in r.told.iter().enumerate() {
                    if i == 0 && e.lo == at && e.expects.is_some() {
                        self.nontrivial += 1;
                        let could = *could.get_or_insert_with(|| {
                            while self.ear.len() > v {
                                self.ear.pop();
                            }
                            let mut m = 0;
                            for c in 0..CLASSES.len() {
                                if self.ear.push(c) {
                                    m |= 1 << c;
                                }
                                self.ear.pop();
                            }
                            for c in &w[v..] {
                                self.ear.push(*c);
                            }
                            // a trailing delimiter asks for what may follow the list anywhere
                            for e in 0..self.t.n {
                                if self.t.kind[e] == K::Punct {
                                    m |= self.m.follow(e as u8);
                                }
                            }
                            m
                        });
                        let (m, _) = e.expects.unwrap();
                        let mut op = Op { m: self.m, src: &self.src, toks: &self.toks, pos: 0, last: 0, used: 0, first: None };
                        op.parse(self.t.root[0]);
                        let must = op.first.unwrap_or(0) & ((1 << CLASSES.len()) - 1);
                        if must & !m != 0 {
                            let c = (must & !m).trailing_zeros() as usize;
                            bad.push(format!("the error at {} does not name {:?}, with which what is missing there can start", e.lo, CLASSES[c].0));
                        }
                        if m & !could != 0 {
                            let c = (m & !could).trailing_zeros() as usize;
                            bad.push(format!("the error at {} expects {:?}, which cannot come after the first {v} tokens", e.lo, CLASSES[c].0));
                        }
                    }
                    if let Some(want) = wrong_message(e, &self.src) {
                        bad.push(format!("the error {}..{} says {:?} instead of {want:?}", e.lo, e.hi, e.message));
                    }
                }
                if !bad.is_empty() {
                    self.fail(ctx, w, lay, bad.join("\n") + "\nerrors: " + &r.raw_errors);
                }
            }
            "P10" | "P11" | "P12" => {
                let Some(r) = self.real(ctx, w, lay, false) else { return };
                let mut op = Op { m: self.m, src: &self.src, toks: &self.toks, pos: 0, last: 0, used: 0, first: None };
                let out = op.parse(self.t.root[0]);
                let (used, pos) = (op.used, op.pos);
                self.used |= used;
                let (tree, errs) = match out {
                    Out::Ok(t, e) => (Some(t), e),
                    Out::Panic(e) => (None, e),
                };
                if self.prop == "P12" && self.has & (H_DELIM | H_LOOP | H_REC) != 0 {
                    return;
                }
                let nontriv = match self.prop {
                    "P10" => used & (U_SPLIT_REC | U_PUNCT_REC) != 0,
                    "P11" => used & (U_OPT_BAD | U_LIST_BAD | U_LOOP_SKIP | U_RECOVER | U_PANIC) != 0,
                    _ => used & (U_FILL | U_FILL_EOF) != 0,
                };
                if nontriv {
                    self.nontrivial += 1;
                }
                if let Some(bad) = differs(&r, tree.as_ref(), &errs, pos, &self.toks) {
                    self.fail(ctx, w, lay, bad);
                }
            }
            "P13" => {
                if !(v == n && self.sentence_at(n)) {
                    return;
                }
                for layout in [Layout::Tight, Layout::Spaced, Layout::Comments, Layout::Around, Layout::Broken] {
                    let Some(r) = self.real(ctx, w, layout, false) else { return };
                    self.nontrivial += 1;
                    if self.has & H_LOOP != 0 && !(r.errs.is_empty() && r.consumed.len() == n) {
                        continue;
                    }
                    let d = self.derivations(n);
                    if d.len() != 1 {
                        continue;
                    }
                    let Some(t) = &r.tree else { continue };
                    if *t != d[0] {
                        let bad = format!("tree {}\nshould be {}", t.show(), d[0].show());
                        self.fail(ctx, w, layout, bad);
                        return;
                    }
                }
            }
            "P14" => {
                let whole = v == n && self.sentence_at(n);
                for layout in [Layout::Tight, Layout::Spaced] {
                    let Some(r) = self.real(ctx, w, layout, false) else { return };
                    let Some(tree) = &r.tree else { return };
                    let mut want = vec![0u8; n];
                    if whole && r.errs.is_empty() {
                        if semantics(self.m, &self.toks, 0, n, self.t.root[0], &mut want).is_none() {
                            continue;
                        }
                        self.nontrivial += 1;
                        for (i, c) in r.consumed.iter().enumerate() {
                            if c.3 != want[i] || c.2 != CLASSES[w[i]].1 {
                                let bad = format!("token {i} has type {:?} and semantic bits {} instead of {:?} and {} (1 = S1, 2 = S2)", c.2, c.3, CLASSES[w[i]].1, want[i]);
                                self.fail(ctx, w, layout, bad);
                                return;
                            }
                        }
                    } else {
                        // recovered: tokens inside annotated nodes of the tree carry the bits
                        let mut op = Op { m: self.m, src: &self.src, toks: &self.toks, pos: 0, last: 0, used: 0, first: None };
                        let Out::Ok(t, _) = op.parse(self.t.root[0]) else { return };
                        if !t.same_shape(tree) {
                            continue;
                        }
                        let mut marks = vec![];
                        t.each(&mut |x| {
                            if x.sem != 0 {
                                marks.push((x.lo, x.hi, x.sem));
                            }
                        });
                        let mut bad = None;
                        for c in &r.consumed {
                            let want = marks.iter().filter(|m| m.0 <= c.0 && c.1 <= m.1).fold(0, |a, m| a | m.2);
                            if want != 0 {
                                self.nontrivial += 1;
                            }
                            if c.3 & want != want {
                                bad = Some(format!("token {}..{} has semantic bits {} but lies in nodes annotated with {want}", c.0, c.1, c.3));
                            }
                        }
                        if let Some(b) = bad {
                            self.fail(ctx, w, layout, b);
                            return;
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
    }
}

/// What the message should be, if it is something else
fn wrong_message(e: &Told, src: &str) -> Option<String> {
    let text = || src.get(e.lo..e.hi).unwrap_or("");
    let want = if let Some((m, empty)) = e.expects {
        let mut names = vec![];
        if m & 1 != 0 {
            names.push("Word".to_string());
        } else if m & 2 != 0 {
            names.push("\"ké\"".into());
        }
        for (c, x) in CLASSES.iter().enumerate().skip(2) {
            if m >> c & 1 == 1 {
                names.push(if x.1 == T::Num { "Num".to_string() } else { format!("{:?}", x.0) });
            }
        }
        if empty {
            names.push("<empty>".into());
        }
        if names.is_empty() {
            return Some("Expecting one of ...".into());
        }
        names.sort();
        let mut said: Vec<&str> = e.message.strip_prefix("Expecting one of ").unwrap_or("").split(", ").collect();
        said.sort();
        if said == names { return None }
        format!("Expecting one of {}", names.join(", "))
    } else if e.eof {
        if e.lo != src.len() { "something other than the end of the input".into() } else { "Unexpected end of file".into() }
    } else if e.chars {
        format!("Unexpected: {}", text())
    } else {
        format!("Unexpected token(s): {}", text())
    };
    (e.message != want).then_some(want)
}

/// Compare the real outcome with the operational model
fn differs(r: &Ran, tree: Option<&Tree>, errs: &[Err_], pos: usize, toks: &[Tok]) -> Option<String> {
    let mut bad = vec![];
    match (&r.tree, tree) {
        (None, None) => {}
        (Some(a), Some(b)) if a.same_shape(b) => {}
        (a, b) => {
            let s = |x: Option<&Tree>| x.map(|t| t.show()).unwrap_or("none".into());
            bad.push(format!("tree {}\nshould be {}", s(a.as_ref()), s(b)));
        }
    }
    let mut a: Vec<(usize, usize)> = r.errs.iter().map(|e| (e.lo, e.hi)).collect();
    let mut b: Vec<(usize, usize)> = errs.iter().map(|e| (e.lo, e.hi)).collect();
    a.sort();
    b.sort();
    if a != b {
        bad.push(format!("errors {}\nshould be at {b:?}", r.raw_errors));
    } else {
        for e in errs {
            let named = match e.k {
                Er::Fill(_) | Er::Skip => r.errs.contains(e),
                Er::Expect => r.errs.iter().any(|x| (x.lo, x.hi) == (e.lo, e.hi) && x.k != Er::Skip),
            };
            if !named {
                bad.push(format!("errors {}\nat {}..{} should be {}", r.raw_errors, e.lo, e.hi, match e.k {
                    Er::Fill(t) => format!("expecting {}", TERMS[t as usize].0),
                    Er::Skip => "unexpected tokens".into(),
                    Er::Expect => "an expectation".into(),
                }));
            }
        }
    }
    let got: Vec<(usize, usize)> = r.consumed.iter().map(|c| (c.0, c.1)).collect();
    let want: Vec<(usize, usize)> = toks[..pos].iter().map(|t| (t.lo, t.hi)).collect();
    if got != want {
        bad.push(format!("recorded tokens {got:?}\nshould be {want:?}"));
    }
    if bad.is_empty() { None } else { Some(bad.join("\n")) }
}

/// How far to pump: the longest u, v and w, and how often v is repeated
struct Pump {
    u: usize,
    v: usize,
    w: usize,
    n: Vec<usize>,
}
struct Sub {
    fam: Fam,
    len: usize,
    pump: Option<Pump>,
}

/// Has a list or a production inside itself, so that inputs can be long
fn unbounded(t: &Table) -> bool {
    (0..t.n).any(|e| {
        matches!(t.kind[e], K::Nev | K::NevD | K::Vec | K::VecD | K::Loop | K::Split | K::Punct) || {
            let mut seen = [false; ENTRIES];
            let mut todo: Vec<u8> = t.kids(e).to_vec();
            while let Some(k) = todo.pop() {
                if k < LEAF && !seen[k as usize] {
                    seen[k as usize] = true;
                    todo.extend_from_slice(t.kids(k as usize));
                }
            }
            seen[e]
        }
    })
}

/// The table as a grammar that the reference accepts, or nothing
fn accepted(t: &Table, ctx: &mut Ctx) -> Option<Model> {
    let m = Model::new(t, 0);
    if !m.productive() || m.g.left_recursive(&m.inf) || !m.g.conflicts(&m.inf).is_empty() {
        return None;
    }
    if t.root[1] != 0 {
        let m1 = Model::new(t, 1);
        if !m1.productive() || m1.g.left_recursive(&m1.inf) || !m1.g.conflicts(&m1.inf).is_empty() {
            return None;
        }
    }
    let two = t.root[1] != 0;
    let ok = ctx.sut(|| {
        SAME_NAMES.with(|s| s.set(true));
        set_table(t);
        D::<ROOT0>::metadata().is_ok() && (!two || D::<ROOT1>::metadata().is_ok())
    });
    match ok {
        Some(true) => {}
        _ => {
            ctx.count("ll1_but_rejected", 1);
            return None;
        }
    }
    ctx.count("grammars", 1);
    Some(m)
}

fn explore(prop: &'static str, f: &Sub, t: &Table, ctx: &mut Ctx) {
    if !wants(prop, t) || f.pump.is_some() && !unbounded(t) {
        return;
    }
    let Some(m) = accepted(t, ctx) else { return };
    match prop {
        "P09" => return total(f, t, ctx),
        "P21" => return sequence(f, t, ctx),
        _ => {}
    }
    let may_complain = (0..t.n).any(|e| t.kind[e] == K::Punct || matches!(t.kind[e], K::E2 | K::E3 | K::E4 | K::E5 | K::ME2 | K::ME4) && m.nullable(e as u8));
    let ear = Earley::new(&m);
    let mut v = Visit {
        prop, t, m: &m, ear, alpha: alphabet(t), len: f.len, may_complain, has: has(t),
        src: String::new(), toks: vec![], states: 0, trans: 0, traces: 0, nontrivial: 0, used: 0, failed: false,
    };
    match &f.pump {
        None => v.go(&mut vec![], 0, ctx),
        Some(p) => {
            let alpha = v.alpha.clone();
            pumped(alpha.len(), p, &mut |x, more| {
                let mut w = vec![];
                let mut ok = 0;
                for i in x {
                    let viable = v.ear.push(alpha[*i]);
                    w.push(alpha[*i]);
                    if viable && ok + 1 == w.len() {
                        ok += 1;
                    }
                }
                v.len = w.len() + more;
                v.trans += w.len() as u64;
                v.go(&mut w, ok, ctx);
                for _ in x {
                    v.ear.pop();
                }
                v.failed
            });
        }
    }
    let (s, tr, tc, nt, used) = (v.states, v.trans, v.traces, v.nontrivial, v.used);
    ctx.count("states", s);
    ctx.count("transitions", tr);
    ctx.count("traces", tc);
    ctx.count("nontrivial_inputs", nt);
    if matches!(prop, "P10" | "P11" | "P12") {
        for (b, name) in [(U_FILL, "fill"), (U_FILL_EOF, "fill_eof"), (U_OPT_BAD, "bad_optional"), (U_LIST_BAD, "bad_repeated"), (U_LOOP_SKIP, "loop_skip"), (U_SPLIT_REC, "split_recovery"), (U_PUNCT_REC, "punct_recovery"), (U_RECOVER, "synchronized"), (U_PANIC, "failed"), (U_RETRY, "repeated_failure")] {
            if used & b != 0 {
                ctx.count(&format!("grammars_reaching_{name}"), 1);
            }
        }
    }
    ctx.sample("grammar", || t.show());
}

const INV: usize = 100;
const CMT: usize = 101;

/// Every string of at most `len` indices below `k`, in prefix order, until `f` says stop
fn strings(k: usize, len: usize, f: &mut dyn FnMut(&[usize]) -> bool) {
    let mut idx: Vec<usize> = vec![];
    loop {
        if f(&idx) {
            return;
        }
        if idx.len() < len {
            idx.push(0);
            continue;
        }
        loop {
            match idx.pop() {
                None => return,
                Some(i) if i + 1 < k => {
                    idx.push(i + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}

/// Pumped inputs: every u v^n w and every v^n w^n, where u, v, w are short strings below `k`
fn pumped(k: usize, p: &Pump, f: &mut dyn FnMut(&[usize], usize) -> bool) {
    let mut us = vec![];
    let mut vs = vec![];
    strings(k, p.u, &mut |x| { us.push(x.to_vec()); false });
    strings(k, p.v, &mut |x| { if !x.is_empty() { vs.push(x.to_vec()) }; false });
    let mut w = vec![];
    for n in &p.n {
        for v in &vs {
            for u in &us {
                w.clear();
                w.extend_from_slice(u);
                for _ in 0..*n {
                    w.extend_from_slice(v);
                }
                if f(&w, p.w) {
                    return;
                }
            }
            if v.len() > 1 {
                continue;
            }
            // as many of another token, and the middle
            for x in 0..k {
                for mid in 0..=k {
                    if x == v[0] {
                        continue;
                    }
                    w.clear();
                    w.extend(std::iter::repeat_n(v[0], *n));
                    if mid < k {
                        w.push(mid);
                    }
                    w.extend(std::iter::repeat_n(x, *n));
                    if f(&w, p.w.min(1)) {
                        return;
                    }
                }
            }
        }
    }
}

/// P09: every input over the classes, an invalid character and an extracted token
fn total(f: &Sub, t: &Table, ctx: &mut Ctx) {
    let mut alpha = alphabet(t);
    alpha.push(INV);
    alpha.push(CMT);
    let mut states = 0u64;
    let mut src = String::new();
    let k = alpha.len();
    let mut one = |idx: &[usize]| {
        states += 1;
        total_one(&alpha, idx, t, &mut src, ctx)
    };
    match &f.pump {
        None => strings(k, f.len, &mut one),
        Some(p) => pumped(k, p, &mut |w, len| {
            let mut x = w.to_vec();
            let mut stop = false;
            strings(k, len, &mut |y| {
                x.truncate(w.len());
                x.extend_from_slice(y);
                stop = one(&x);
                stop
            });
            stop
        }),
    }
    ctx.count("states", states);
    ctx.count("transitions", states - 1);
    ctx.count("traces", states * 2);
    ctx.sample("grammar", || t.show());
}

fn total_one(alpha: &[usize], idx: &[usize], t: &Table, src: &mut String, ctx: &mut Ctx) -> bool {
    src.clear();
    let w: Vec<usize> = idx.iter().map(|i| alpha[*i]).collect();
    let mut want: Vec<(usize, usize, u8)> = vec![]; // 0 token, 1 extracted
    let mut inv = vec![];
    for (i, c) in w.iter().enumerate() {
        if i > 0 {
            src.push(' ');
        }
        let lo = src.len();
        match *c {
            INV => {
                src.push('!');
                inv.push((lo, lo + 1));
            }
            CMT => {
                src.push_str("#c#");
                want.push((lo, src.len(), 1));
            }
            c => {
                src.push_str(text(c, i));
                want.push((lo, src.len(), 0));
            }
        }
    }
    let s = &*src;
    let r = ctx.sut(|| {
        let mut p = Parser::<T>::new(s).unwrap();
        let tree = p.parse::<D<ROOT0>>().expect("accepted").map(|d| d.0);
        let rem = s.len() - p.remaining().len();
        let r = collect(&mut p, tree, true);
        (r, rem, p.info().extracted_tokens.iter().map(|t| (t.span.lo, t.span.hi)).collect::<Vec<_>>())
    });
    let mut bad = vec![];
    match r {
        None => bad.push(ctx.panic_text()),
        Some((r, rem, extracted)) => {
            let mut got: Vec<(usize, usize, u8)> = r.consumed.iter().map(|c| (c.0, c.1, 0)).collect();
            let n = got.len();
            if n > 0 && r.rest.first().is_some_and(|x| x.0 < got[n - 1].1) {
                bad.push("tokens still ahead lie before consumed ones".to_string());
            }
            got.extend(r.rest.iter().map(|c| (c.0, c.1, 0)));
            if !got.windows(2).all(|p| p[0].1 <= p[1].0) {
                bad.push("consumed and remaining tokens are not in source order".to_string());
            }
            got.extend(extracted.iter().map(|c| (c.0, c.1, 1)));
            got.sort();
            if got != want {
                bad.push(format!("tokens (from, to, 1 = extracted) {got:?}\nshould be {want:?}"));
            }
            let next = r.rest.first().map(|x| x.0).unwrap_or(src.len());
            if rem != next {
                bad.push(format!("the remaining text starts at {rem}, the next token at {next}"));
            }
            if r.tree.is_none() && r.errs.is_empty() {
                bad.push("no tree and no syntax error".into());
            }
            let len = src.len();
            let within = |lo: usize, hi: usize| lo <= hi && hi <= len;
            if let Some(e) = r.errs.iter().find(|e| !within(e.lo, e.hi)) {
                bad.push(format!("error span {}..{} is not within the input (length {len})", e.lo, e.hi));
            }
            if let Some(t) = &r.tree {
                t.each(&mut |x| {
                    if !within(x.lo, x.hi) {
                        bad.push(format!("tree span {}..{} is not within the input (length {len})", x.lo, x.hi));
                    }
                });
            }
            match ctx.sut(|| run(s, true)) {
                None => bad.push(ctx.panic_text()),
                Some(r2) => {
                    let mut inv2 = r2.invalid.clone();
                    inv2.dedup();
                    if r2.tree != r.tree || r2.raw_errors != r.raw_errors && r2.errs != r.errs {
                        bad.push("parsing again gives another result".into());
                    }
                    let _ = inv2;
                }
            }
        }
    }
    if !bad.is_empty() {
        ctx.fail(format!("{}|{}", t.show(), src), format!("grammar: {}\ninput: {src:?}\n{}", t.show(), bad.join("\n")));
        return true;
    }
    false
}

struct Step {
    tree: Option<Tree>,
    errs: Vec<Err_>,
    invalid: Vec<(usize, usize)>,
    consumed: Vec<(usize, usize, T, u8)>,
    extracted: Vec<(usize, usize)>,
    next: usize,
}
/// `roots` in turn on one parser; the outcome after each call is what the call added
fn calls(src: &str, roots: &[usize]) -> Vec<Step> {
    let mut p = Parser::<T>::new(src).unwrap();
    let mut out = vec![];
    let (mut ne, mut nt, mut nx) = (0, 0, 0);
    for r in roots {
        let tree = if *r == 0 { p.parse::<D<ROOT0>>().unwrap().map(|d| d.0) } else { p.parse::<D<ROOT1>>().unwrap().map(|d| d.0) };
        // the next token is looked at so that what precedes it has been reported
        let next = src.len() - p.remaining().len();
        let all = collect(&mut p, tree, false);
        let info = p.info();
        let bits = |e: &teleparse::syntax::Error<T>| matches!(e.data, teleparse::syntax::ErrorKind::UnexpectedCharacters);
        let inv_before = info.errors[..ne].iter().filter(|e| bits(e)).count();
        let err_before = ne - inv_before;
        let mut consumed = all.consumed;
        let rest = consumed.split_off(nt);
        out.push(Step {
            tree: all.tree,
            errs: all.errs[err_before..].to_vec(),
            invalid: all.invalid[inv_before..].to_vec(),
            consumed: rest,
            extracted: all.extracted[nx..].to_vec(),
            next,
        });
        ne = info.errors.len();
        nt = info.tokens.len();
        nx = info.extracted_tokens.len();
    }
    out
}

/// P21
fn sequence(f: &Sub, t: &Table, ctx: &mut Ctx) {
    let mut alpha = alphabet(t);
    alpha.push(INV);
    alpha.push(CMT);
    let mut n = [0u64; 3];
    let mut src = String::new();
    let k = alpha.len();
    let mut one = |idx: &[usize]| sequence_one(&alpha, idx, t, &mut src, &mut n, ctx);
    match &f.pump {
        None => strings(k, f.len, &mut one),
        Some(p) => pumped(k, p, &mut |w, len| {
            let mut x = w.to_vec();
            let mut stop = false;
            strings(k, len, &mut |y| {
                x.truncate(w.len());
                x.extend_from_slice(y);
                stop = one(&x);
                stop
            });
            stop
        }),
    }
    ctx.count("states", n[0]);
    ctx.count("transitions", n[1]);
    ctx.count("traces", n[2]);
    ctx.sample("grammar", || t.show());
}

fn sequence_one(alpha: &[usize], idx: &[usize], t: &Table, src: &mut String, n: &mut [u64; 3], ctx: &mut Ctx) -> bool {
    src.clear();
    let specials = idx.iter().filter(|i| alpha[**i] >= INV).count();
    if specials <= 1 {
        src.push(' ');
        for (i, c) in idx.iter().enumerate() {
            if i > 0 {
                src.push(' ');
            }
            src.push_str(match alpha[*c] { INV => "!", CMT => "#c#", c => text(c, i) });
        }
        for len in 2..=3usize {
            for bits in 0..1usize << len {
                let roots: Vec<usize> = (0..len).map(|i| bits >> i & 1).collect();
                n[0] += len as u64;
                let s = &*src;
                n[2] += 1;
                let Some(all) = ctx.sut(|| calls(s, &roots)) else {
                    ctx.fail(format!("{}|{src}|{roots:?}", t.show()), format!("grammar: {}\ninput: {src:?} roots {roots:?}\n{}", t.show(), ctx.panic_text()));
                    return true;
                };
                // in one step
                if bits >> 1 == 0 || len == 3 && bits == 7 {
                    n[2] += 1;
                    let Some(one) = ctx.sut(|| {
                        if roots[0] == 0 { <D<ROOT0> as Root>::parse(s).unwrap().map(|d| d.0) } else { <D<ROOT1> as Root>::parse(s).unwrap().map(|d| d.0) }
                    }) else {
                        ctx.fail(format!("{}|{src}|one step", t.show()), format!("grammar: {}\ninput: {src:?} in one step\n{}", t.show(), ctx.panic_text()));
                        return true;
                    };
                    if one != all[0].tree {
                        let text = format!("tree in one step {:?}\nfirst call of a parser {:?}", one.map(|t| t.show()), all[0].tree.as_ref().map(|t| t.show()));
                        ctx.fail(format!("{}|{src}|one step", t.show()), format!("grammar: {}\ninput: {src:?}\n{text}", t.show()));
                        return true;
                    }
                }
                // the text before the next token, and the end of the last consumed token
                let (mut from, mut last) = (0usize, 0usize);
                for (i, st) in all.iter().enumerate() {
                    let blank: String = " ".repeat(from) + &src[from..];
                    n[2] += 1;
                    let Some(want) = ctx.sut(|| calls(&blank, &roots[i..i + 1])) else { return true };
                    let want = &want[0];
                    let shift = |x: usize| if x < from || from == 0 && x == 0 { last } else { x };
                    let bad = {
                        let fix = |t: &Tree| {
                            fn go(t: &Tree, f: &dyn Fn(usize) -> usize, src: &str) -> Tree {
                                let mut n = t.clone();
                                n.lo = f(t.lo);
                                n.hi = f(t.hi);
                                if n.lo != t.lo && n.text.is_some() {
                                    // starts at an empty part: the blanked text is not what lies there
                                    n.text = Some(if n.lo < n.hi { src[n.lo..n.hi].to_string() } else { String::new() });
                                }
                                n.kids = t.kids.iter().map(|k| go(k, f, src)).collect();
                                n.extra = t.extra.iter().map(|k| go(k, f, src)).collect();
                                n
                            }
                            go(t, &shift, &src)
                        };
                        let wt = want.tree.as_ref().map(fix);
                        let mut b = vec![];
                        if wt != st.tree {
                            b.push(format!("tree {:?}\nshould be {:?}", st.tree.as_ref().map(|t| t.show()), wt.map(|t| t.show())));
                        }
                        if st.errs != want.errs {
                            b.push(format!("errors {:?}\nshould be {:?}", st.errs, want.errs));
                        }
                        if st.invalid != want.invalid {
                            b.push(format!("invalid text {:?}\nshould be {:?}", st.invalid, want.invalid));
                        }
                        if st.consumed != want.consumed {
                            b.push(format!("recorded {:?}\nshould be {:?}", st.consumed, want.consumed));
                        }
                        if st.extracted != want.extracted {
                            b.push(format!("extracted {:?}\nshould be {:?}", st.extracted, want.extracted));
                        }
                        if st.next != want.next {
                            b.push(format!("next token at {} should be {}", st.next, want.next));
                        }
                        b
                    };
                    if !bad.is_empty() {
                        ctx.fail(format!("{}|{src}|{roots:?}|{i}", t.show()), format!("grammar: {}\ninput: {src:?} roots {roots:?} call {i}\n{}", t.show(), bad.join("\n")));
                        return true;
                    }
                    from = st.next;
                    if let Some(c) = st.consumed.last() {
                        last = c.1;
                    }
                }
                n[1] += len as u64;
            }
        }
    }
    false
}

use K::*;
const SIMPLE: &[K] = &[S1, S2, N2, S3, N3, T2, T3, E2, E3, Opt, Exists, Nev, NevD, Vec, VecD, Loop, Split, Punct, Recover, Quote, Parse, Bx, M1, M2, M3, ME2];
const LISTS: &[K] = &[Opt, Nev, Vec, Loop, Split, Punct, Recover];
type Vec<X> = std::vec::Vec<X>;
type Opt<X> = std::option::Option<X>;
use std::option::Option;

fn fams(prop: &str, thorough: bool) -> Vec<Fam> {
    let d = |q: usize, t: usize| if thorough { t } else { q };
    let mut v = vec![];
    if prop == "P21" {
        for s in [1u8, 2] {
            let name = format!("roots-{s}");
            let mut e: Vec<(&[K], &[u8])> = vec![(&[S2, E2, Opt, Punct, Nev, Recover], &[1, 2, ID, SEMI])];
            e.push((&[S2, Opt, Vec, Split, Quote, M2], if s == 2 { &[2, ID, SEMI] } else { &[1, ID, KW, SEMI] }));
            if s == 2 {
                e.push((&[S2, Bx, Vec], &[ID, SEMI]));
            }
            v.push(Fam::new(&name, &e, 5, d(3, 4)).second(s));
        }
        return v;
    }
    let short = prop == "P09";
    let l = |q: usize, t: usize| d(q, t) - usize::from(short);
    // every kind over every terminal and itself
    v.push(Fam::new("one", &[(SIMPLE, &[0, ID, KW, SEMI, COMMA, NUM])], 3, l(4, 5)));
    // every pair of kinds
    v.push(Fam::new("two", &[(SIMPLE, &[0, 1, ID, SEMI]), (SIMPLE, &[0, 1, ID, KW, SEMI])], d(4, 5), l(4, 5)));
    // a list in context: before, between and after terminals
    let ctx_: &[K] = &[S1, S3, E2, Vec];
    v.push(Fam::new("ctx", &[(ctx_, &[1, ID, SEMI, DOT]), (LISTS, &[2, COMMA, ID, 3]), (&[S2, S3, E2, Opt, Vec, Split, Punct], &[ID, COMMA, SEMI, NUM])], d(7, 8), l(4, 5)));
    // delimiters that are nodes
    v.push(Fam::new("delim", &[(&[S1, S2, Recover], &[1, SEMI, ID]), (&[Split, Punct], &[2, 3, ID]), (&[S2, Opt, E2, S1], &[ID, NUM]), (&[Opt, E2, S2, Exists], &[COMMA, DOT])], 9, l(5, 6)));
    // nesting of lists in lists
    v.push(Fam::new("nest", &[(LISTS, &[1, SEMI]), (LISTS, &[2, COMMA, SEMI]), (&[S2, S3, E2, Bx, Quote, M2, M3, ME2], &[ID, NUM, 0, DOT])], d(6, 7), l(5, 6)));
    // sequences and choices of four and five
    let wide: &[K] = &[S4, N4, T4, E4, S5, N5, T5, E5, M4, ME4];
    v.push(Fam::new("wide", &[(wide, &[ID, KW, SEMI, NUM])], 5, l(5, 6)));
    v.push(Fam::new("wide-in", &[(wide, if thorough { &[1, ID, SEMI, KW] } else { &[1, SEMI, KW] }), (&[Opt, E2, Vec, S2, Punct, Exists], &[ID, COMMA])], 7, l(5, 6)));
    // semantic marks in nested nodes
    if matches!(prop, "P14" | "P13" | "P07") {
        v.push(Fam::new("marks", &[(&[M1, M2, M3, ME2], &[1, 2, ID, SEMI]), (&[M1, M2, ME2, Opt, Vec, S2, Split, Punct, Recover, Bx, Quote], &[2, ID, COMMA]), (&[M2, Opt, E2, M1], &[ID, NUM, COMMA])], d(6, 7), l(5, 6)));
    }
    v
}

/// Long inputs: every short string repeated many times, in every short context
fn pumps(prop: &str, thorough: bool) -> Vec<Sub> {
    let mut v = vec![];
    let n = |q: &[usize], t: &[usize]| if thorough { t.to_vec() } else { q.to_vec() };
    let mut add = |fam: Fam, u, v_, w, n| v.push(Sub { len: 0, fam, pump: Some(Pump { u, v: v_, w, n }) });
    if prop == "P21" {
        for s in [1u8, 2] {
            let mut e: Vec<(&[K], &[u8])> = vec![(&[Punct, Nev, Split, Loop], &[1, ID, SEMI])];
            e.push((&[S2, Opt, Vec, Split, M2], if s == 2 { &[2, ID, SEMI] } else { &[1, ID, SEMI] }));
            if s == 2 {
                e.push((&[S2, Vec], &[ID, SEMI]));
            }
            add(Fam::new(&format!("roots-{s}"), &e, 5, 0).second(s), 1, 2, 1, n(&[9], &[5, 9, 17]));
        }
        return v;
    }
    let w = if prop == "P09" { 0 } else { 1 };
    add(Fam::new("one", &[(SIMPLE, &[0, ID, KW, SEMI, COMMA])], 3, 0), 1, 2, w, n(&[140], &[70, 140, 300]));
    add(Fam::new("one", &[(SIMPLE, &[0, ID, KW, SEMI, COMMA])], 3, 0), 1, 3, w + 1, n(&[4, 8, 16], &[3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32]));
    add(Fam::new("two", &[(SIMPLE, &[0, 1, ID, SEMI]), (SIMPLE, &[0, 1, ID, KW, SEMI])], if thorough { 5 } else { 4 }, 0), 1, 2, w, n(&[10], &[4, 7, 10, 20]));
    add(Fam::new("nest", &[(LISTS, &[1]), (LISTS, &[2, SEMI]), (&[S2, S3, E2, Opt, Bx, Quote, M2], &[ID, NUM, 0, COMMA])], if thorough { 6 } else { 5 }, 0), w, 2, w, n(&[7], &[4, 7, 10, 20]));
    let ctx_: &[K] = &[S1, S3, E2, Vec];
    add(Fam::new("ctx", &[(ctx_, &[1, ID, SEMI, DOT]), (LISTS, &[2, COMMA, ID, 3]), (&[S2, S3, E2, Opt, Vec, Split, Punct], &[ID, COMMA, SEMI, NUM])], if thorough { 8 } else { 6 }, 0), if prop == "P09" { 0 } else { 1 }, 2, 0, n(&[5], &[4, 7, 12]));
    v
}

fn build_check(prop: &str, thorough: bool) -> Opt<Check> {
    let prop: &'static str = ["P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P21", "P23"].into_iter().find(|p| *p == prop)?;
    let mut subs: Vec<Sub> = fams(prop, thorough).into_iter().map(|fam| Sub { len: fam.len, fam, pump: None }).collect();
    subs.extend(pumps(prop, thorough));
    let mut jobs: std::vec::Vec<Job> = subs
        .into_iter()
        .map(|f| {
            let f = Rc::new(f);
            let g = f.clone();
            let name = match &f.pump {
                None => format!("{}-len{}", f.fam.name, f.len),
                Some(p) => format!("{}-pump{:?}", f.fam.name, p.n),
            };
            Job::new(
                name,
                f.fam.total(),
                move |i, ctx| {
                    if let Some(t) = f.fam.decode(i) {
                        explore(prop, &f, &t, ctx)
                    }
                },
                move |i, _| g.fam.decode(i).map(|t| t.show()).unwrap_or("not canonical".into()),
            )
        })
        .collect();
    jobs.extend(menu::jobs(prop));
    jobs.extend(long::jobs(prop, thorough));
    jobs.extend(edge::jobs(prop, thorough));
    jobs.extend(termroots::jobs(prop, thorough));
    Some(Check {
        prop,
        level: "model_checking",
        rule: "states: (grammar, input prefix) nodes of the prefix tree, and pumped inputs u v^n w, v^n m x^n; transitions: one more token; traces: runs of the real parser, each compared with the reference grammar (Earley recognizer, derivations) or the operational model".into(),
        assumptions: vec![
            "small scope: grammars and inputs beyond the families are not explored; inputs longer than the bound are explored only as pumped inputs".into(),
            "the classes of tokens a grammar mentions and one it does not represent all tokens".into(),
        ],
        jobs,
        cap_s: if thorough { 840 } else { 400 },
        hang_s: 20,
        workers: 0,
    })
}

fn main() {
    mc::main(build_check)
}
