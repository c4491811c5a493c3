//! PROG: compiles enumerated lexicon and syntax definitions with the real derives, compares the
//! compiler's verdict on each with the documented rules, and runs every accepted definition on every
//! short input. Decides P20, P22 and P25.
#[path = "../rx.rs"]
mod rx;
#[path = "../prog_lex.rs"]
mod prog_lex;
#[path = "../prog_syn.rs"]
mod prog_syn;
#[path = "../prog_node.rs"]
mod prog_node;
use mc::{Check, Ctx, Job};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Accept,
    /// must not compile
    Reject(&'static str),
    /// not decided by the documented rules
    Any,
}

/// One definition, as the body of a module of its own
pub trait Def {
    fn src(&self) -> String;
    fn verdict(&self) -> Verdict;
    /// body of a function `fn run(o: &mut String)` that writes lines, or nothing to run
    fn runner(&self, thorough: bool) -> Option<String>;
    /// what is wrong with what it wrote (tests: names of the `#[test]`s of the module and whether they pass)
    fn judge(&self, thorough: bool, lines: &[&str], ctx: &mut Ctx) -> Vec<String>;
    /// tests the derive has to generate: name inside the module, whether it passes
    fn tests(&self) -> Vec<(String, bool)> {
        vec![]
    }
    /// what it is called in a report
    fn key(&self) -> String {
        self.src()
    }
}

/// Names a user may pick that also mean something in the standard library or in this one
pub const NAMES: [&str; 54] = [
    "Option", "Some", "None", "Result", "Ok", "Err", "Vec", "Box", "String", "Default", "Clone", "Copy", "Debug", "PartialEq", "Eq", "Hash", "Drop", "Fn", "From", "Into", "Iterator", "Send", "Sync", "Sized", "Produce", "Production", "Parser",
    "Root", "Metadata", "Lexicon", "Lexer", "ToSpan", "Span", "Pos", "Token", "Node", "Set", "Jump", "First", "Follow", "Parse", "Split", "Logos", "DerivedLogos", "GrammarError", "Cow", "OnceLock", "L", "S", "Item", "Target", "Bit", "Map", "Prod",
];

fn dir(tag: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc-prog-{}-{tag}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

struct Batch<'a> {
    dir: PathBuf,
    defs: Vec<(usize, &'a dyn Def)>,
    common: &'static str,
}

enum Out {
    Ok,
    /// by definition
    Errors(BTreeMap<usize, String>),
    /// not attributed to any definition
    Unplaced(String),
}

impl Batch<'_> {
    /// Module text of the definitions, and the first line of each
    fn text(&self, alive: &BTreeSet<usize>, run: Option<bool>) -> (String, Vec<(usize, usize)>) {
        let mut o = String::from("#![allow(warnings)]\n#![recursion_limit = \"512\"]\n");
        o.push_str(self.common);
        o.push('\n');
        let mut at = vec![];
        let mut calls = String::new();
        for (i, d) in &self.defs {
            if !alive.contains(i) {
                continue;
            }
            at.push((o.matches('\n').count() + 1, *i));
            o.push_str(&format!("pub mod d{i} {{\n{}\n", d.src()));
            if let Some(r) = run.and_then(|t| d.runner(t)) {
                o.push_str(&format!("pub fn run(o: &mut String) {{ use std::fmt::Write; {r} }}\n"));
                calls.push_str(&format!("go({i}, d{i}::run);\n"));
            }
            o.push_str("}\n");
        }
        if run.is_some() {
            o.push_str("fn go(i: usize, f: fn(&mut String)) {\n    use std::io::Write;\n    let mut s = String::new();\n    println!(\"@{i}\");\n    std::io::stdout().flush().unwrap();\n    f(&mut s);\n    print!(\"{s}\");\n}\n");
        }
        o.push_str(&format!("fn main() {{\n{calls}}}\n"));
        (o, at)
    }
    fn rustc(&self, alive: &BTreeSet<usize>, run: Option<bool>, args: &[&str]) -> Out {
        let (text, at) = self.text(alive, run);
        std::fs::write(self.dir.join("main.rs"), text).expect("write");
        let rlib = std::env::var("PROG_RLIB").expect("PROG_RLIB is set by check.sh");
        let deps = PathBuf::from(&rlib).parent().unwrap().to_path_buf();
        let deps = if deps.ends_with("deps") { deps } else { deps.join("deps") };
        let out = Command::new("timeout")
            .arg("300")
            .arg("rustc")
            .args(["--edition", "2021", "--error-format=short", "-C", "debuginfo=0", "--extern"])
            .arg(format!("teleparse={rlib}"))
            .arg("-L")
            .arg(format!("dependency={}", deps.display()))
            .args(args)
            .arg("main.rs")
            .current_dir(&self.dir)
            .env_remove("CARGO_MANIFEST_DIR")
            .stdin(Stdio::null())
            .output()
            .expect("rustc");
        if out.status.success() {
            return Out::Ok;
        }
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let mut m: BTreeMap<usize, String> = BTreeMap::new();
        for l in err.lines() {
            let Some(rest) = l.strip_prefix("main.rs:") else { continue };
            let Some((n, rest)) = rest.split_once(':') else { continue };
            let Some((_, msg)) = rest.split_once(": ") else { continue };
            if !msg.starts_with("error") {
                continue;
            }
            let n: usize = n.parse().unwrap();
            let i = at.partition_point(|a| a.0 <= n);
            if i > 0 {
                m.entry(at[i - 1].1).or_insert(msg.to_string());
            }
        }
        if m.is_empty() {
            Out::Unplaced(err.chars().take(2000).collect())
        } else {
            Out::Errors(m)
        }
    }
    /// First error of every definition that does not compile
    fn verdicts(&self, alive: BTreeSet<usize>, args: &[&str], bad: &mut BTreeMap<usize, String>) {
        let mut alive = alive;
        loop {
            match self.rustc(&alive, None, args) {
                Out::Ok => return,
                Out::Errors(m) => {
                    for (i, e) in m {
                        alive.remove(&i);
                        bad.insert(i, e);
                    }
                }
                Out::Unplaced(e) => {
                    if alive.len() <= 1 {
                        match alive.pop_first() {
                            Some(i) => bad.insert(i, e),
                            None => panic!("an empty program does not compile: {e}"),
                        };
                        return;
                    }
                    let v: Vec<usize> = alive.iter().copied().collect();
                    let (a, b) = v.split_at(v.len() / 2);
                    self.verdicts(a.iter().copied().collect(), args, bad);
                    self.verdicts(b.iter().copied().collect(), args, bad);
                    return;
                }
            }
        }
    }
}

fn explore(common: &'static str, tests: bool, thorough: bool, defs: Vec<(usize, &dyn Def)>, tag: &str, ctx: &mut Ctx) {
    let b = Batch { dir: dir(tag), defs, common };
    let alive: BTreeSet<usize> = b.defs.iter().map(|d| d.0).collect();
    let mut bad = BTreeMap::new();
    b.verdicts(alive.clone(), &["--crate-type", "bin", "--emit=metadata"], &mut bad);
    let mut run: BTreeSet<usize> = BTreeSet::new();
    for (i, d) in &b.defs {
        ctx.sub(*i as u64);
        ctx.count("evaluations", 1);
        let src = d.src();
        let what = match (d.verdict(), bad.get(i)) {
            (Verdict::Accept, Some(e)) => Some(format!("satisfies the rules, but does not compile: {e}")),
            (Verdict::Reject(why), None) => Some(format!("compiles, but should be rejected: {why}")),
            (v, e) => {
                ctx.count(if e.is_some() { "rejected" } else { "accepted" }, 1);
                if v == Verdict::Any {
                    ctx.count("undecided", 1);
                }
                if let Some(e) = e {
                    ctx.sample("rejected", || format!("{src} => {e}"));
                }
                None
            }
        };
        if let Some(w) = what {
            ctx.fail(d.key(), format!("{w}\n{src}"));
        }
        if !bad.contains_key(i) {
            ctx.distinct("nontrivial", &src);
            run.insert(*i);
        }
    }
    let by = |i: &usize| b.defs.iter().find(|d| d.0 == *i).unwrap().1;
    // the accepted ones are run
    run.retain(|i| by(i).runner(thorough).is_some());
    if !run.is_empty() {
        match b.rustc(&run, Some(thorough), &["--crate-type", "bin", "-o", "run"]) {
            Out::Ok => {}
            Out::Errors(m) => {
                for (i, e) in m {
                    run.remove(&i);
                    ctx.fail(by(&i).key(), format!("accepted, but it cannot be used as declared: {e}\n{}", by(&i).src()));
                }
                match b.rustc(&run, Some(thorough), &["--crate-type", "bin", "-o", "run"]) {
                    Out::Ok => {}
                    _ => run.clear(),
                }
            }
            Out::Unplaced(e) => panic!("the program of the accepted definitions does not build: {e}"),
        }
    }
    if !run.is_empty() {
        let out = Command::new("timeout").arg("120").arg("./run").current_dir(&b.dir).stdin(Stdio::null()).output().expect("run");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut per: BTreeMap<usize, Vec<&str>> = BTreeMap::new();
        let mut cur = None;
        for l in text.lines() {
            if let Some(i) = l.strip_prefix('@') {
                cur = Some(i.parse::<usize>().unwrap());
                per.insert(cur.unwrap(), vec![]);
            } else if let Some(c) = cur {
                per.get_mut(&c).unwrap().push(l);
            }
        }
        if !out.status.success() {
            let i = cur.expect("no definition was run");
            let e: String = String::from_utf8_lossy(&out.stderr).chars().take(500).collect();
            ctx.fail(by(&i).key(), format!("panics, crashes or does not return when run ({}): {e}\n{}", out.status, by(&i).src()));
            per.remove(&i);
        }
        for (i, lines) in per {
            ctx.count("runs", lines.len() as u64);
            let bad = by(&i).judge(thorough, &lines, ctx);
            if !bad.is_empty() {
                ctx.fail(by(&i).key(), format!("{}\n{}", by(&i).src(), bad.into_iter().take(8).collect::<Vec<_>>().join("\n")));
            } else {
                ctx.sample("run", || format!("{} => {}", by(&i).src(), lines.iter().take(4).map(|s| s.to_string()).collect::<Vec<_>>().join(" ; ")));
            }
        }
    }
    if tests {
        generated_tests(&b, &alive, &bad, ctx);
    }
    let _ = std::fs::remove_dir_all(&b.dir);
}

/// The tests the derive generates
fn generated_tests(b: &Batch, alive: &BTreeSet<usize>, bad: &BTreeMap<usize, String>, ctx: &mut Ctx) {
    let good: BTreeSet<usize> = alive.iter().filter(|i| !bad.contains_key(i)).copied().collect();
    let by = |i: &usize| b.defs.iter().find(|d| d.0 == *i).unwrap().1;
    let mut tbad = BTreeMap::new();
    b.verdicts(good.clone(), &["--test", "--emit=metadata"], &mut tbad);
    for (i, e) in &tbad {
        ctx.fail(by(i).key(), format!("does not compile with tests: {e}\n{}", by(i).src()));
    }
    let good: BTreeSet<usize> = good.into_iter().filter(|i| !tbad.contains_key(i)).collect();
    if !matches!(b.rustc(&good, None, &["--test", "-o", "tests"]), Out::Ok) {
        panic!("the test program of the accepted definitions does not build");
    }
    let out = Command::new("timeout").args(["120", "./tests", "--test-threads", "1"]).current_dir(&b.dir).stdin(Stdio::null()).output().expect("tests");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut got: BTreeMap<usize, Vec<(String, bool)>> = BTreeMap::new();
    for l in text.lines() {
        let Some(l) = l.strip_prefix("test d") else { continue };
        let Some((name, res)) = l.split_once(" ... ") else { continue };
        let Some((i, name)) = name.split_once("::") else { continue };
        if let Ok(i) = i.parse() {
            got.entry(i).or_default().push((name.trim_end_matches(" - should panic").to_string(), res.trim() == "ok"));
        }
    }
    for i in &good {
        if by(i).verdict() == Verdict::Any {
            continue;
        }
        let mut want = by(i).tests();
        let mut have = got.remove(i).unwrap_or_default();
        want.sort();
        have.sort();
        ctx.count("generated_tests", have.len() as u64);
        if want != have {
            ctx.fail(by(i).key(), format!("generated tests (name, passes) are {have:?}, should be {want:?}\n{}", by(i).src()));
        }
    }
}

fn build_check(prop: &str, thorough: bool) -> Option<Check> {
    type Maker = fn(bool) -> Vec<(String, Vec<Box<dyn Def>>)>;
    let (prop, make, common, per, tests, rule, assume): (&'static str, Maker, &'static str, usize, bool, String, Vec<String>) = match prop {
        "P20" => ("P20", prog_lex::families, "", 40, false, prog_lex::RULE.into(), prog_lex::ASSUME.iter().map(|s| s.to_string()).collect()),
        "P22" => ("P22", prog_syn::families, prog_syn::COMMON, 60, true, prog_syn::RULE.into(), prog_syn::ASSUME.iter().map(|s| s.to_string()).collect()),
        "P25" => ("P25", prog_node::families, prog_node::COMMON, 60, false, prog_node::RULE.into(), prog_node::ASSUME.iter().map(|s| s.to_string()).collect()),
        _ => return None,
    };
    let mut jobs = vec![];
    for (name, defs) in make(thorough) {
        let defs = Rc::new(defs);
        let n = defs.len().div_ceil(per).max(16.min(defs.len())).max(1);
        let (d2, nm) = (defs.clone(), name.clone());
        let mut j = Job::new(
            name,
            n as u64,
            move |case, ctx| {
                let v: Vec<(usize, &dyn Def)> = (0..defs.len()).filter(|i| i % n == case as usize).map(|i| (i, &*defs[i])).collect();
                explore(common, tests, thorough, v, &format!("{nm}-{case}"), ctx)
            },
            move |_, sub| d2.get(sub as usize).map(|d| d.src()).unwrap_or_default(),
        );
        j.chunk = 1;
        jobs.push(j);
    }
    Some(Check { prop, level: "exploration", rule, assumptions: assume, jobs, cap_s: if thorough { 3000 } else { 600 }, hang_s: 60, workers: 0 })
}

fn main() {
    mc::main(build_check)
}
