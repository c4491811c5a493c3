//! Supervisor: shards a job's cases over worker processes.
use crate::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Job {
    pub name: String,
    pub total: u64,
    pub chunk: u64,
    #[allow(clippy::type_complexity)]
    pub run: Box<dyn Fn(u64, &mut Ctx)>,
    #[allow(clippy::type_complexity)]
    pub describe: Box<dyn Fn(u64, u64) -> String>,
}
impl Job {
    pub fn new(
        name: impl Into<String>,
        total: u64,
        run: impl Fn(u64, &mut Ctx) + 'static,
        describe: impl Fn(u64, u64) -> String + 'static,
    ) -> Self {
        let total_ = total;
        Job {
            name: name.into(),
            total,
            chunk: (total_ / 4096).clamp(1, 256),
            run: Box::new(run),
            describe: Box::new(describe),
        }
    }
}

pub struct Check {
    pub prop: &'static str,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub jobs: Vec<Job>,
    /// Wall-clock cap in seconds for the whole exploration
    pub cap_s: u64,
    /// No progress for that long inside the code under test is a hang
    pub hang_s: u64,
    /// Worker processes (0: one per core)
    pub workers: u64,
}

pub struct Violation {
    pub job: String,
    pub case: u64,
    pub key: String,
    pub text: String,
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

struct Progress {
    p: *mut u64,
    _f: Option<std::fs::File>,
    _own: Option<Box<[u64; 8]>>,
}
const P_JOB: usize = 0;
const P_CASE: usize = 1;
const P_SUB: usize = 2;
const P_PHASE: usize = 3;
const P_BEAT: usize = 4;
impl Progress {
    fn open(path: Option<&Path>) -> Progress {
        match path {
            None => {
                let mut b = Box::new([0u64; 8]);
                Progress { p: b.as_mut_ptr(), _f: None, _own: Some(b) }
            }
            Some(p) => {
                use std::os::fd::AsRawFd;
                let f = std::fs::OpenOptions::new()
                    .read(true).write(true).create(true).truncate(false).open(p).unwrap();
                f.set_len(64).unwrap();
                let p = unsafe { mmap(std::ptr::null_mut(), 64, 3, 1, f.as_raw_fd(), 0) };
                assert!(p as isize != -1, "mmap failed");
                Progress { p: p as *mut u64, _f: Some(f), _own: None }
            }
        }
    }
    #[inline]
    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.p.add(i), v) }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.p.add(i)) }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Ctx {
    prog: Progress,
    pub job: String,
    pub case: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<(String, String)>,
    pub violations: Vec<Violation>,
    pub verbose: bool,
    /// Keys of the recorded findings, and those met
    known: HashSet<String>,
    met: std::collections::BTreeSet<String>,
    last_panic: String,
}

impl Ctx {
    fn new(prog: Progress) -> Self {
        Ctx {
            prog, job: String::new(), case: 0, counters: BTreeMap::new(), distinct: BTreeMap::new(),
            samples: vec![], violations: vec![], verbose: false, known: HashSet::new(), met: Default::default(), last_panic: String::new(),
        }
    }
    #[inline]
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max:{k}");
        let c = self.counters.entry(k).or_default();
        *c = (*c).max(n);
    }
    /// Count a distinct observation
    #[inline]
    pub fn distinct<H: Hash>(&mut self, k: &str, v: &H) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.hash(&mut h);
        let h = h.finish();
        if let Some(c) = self.distinct.get_mut(k) {
            c.insert(h);
        } else {
            self.distinct.insert(k.to_string(), HashSet::from([h]));
        }
    }
    /// Keep the first few samples of each label
    pub fn sample(&mut self, label: &str, f: impl FnOnce() -> String) {
        if self.samples.iter().filter(|x| x.0 == label).count() < 2 {
            let s = f();
            self.samples.push((label.to_string(), s));
        }
    }
    #[inline]
    pub fn sub(&mut self, i: u64) {
        self.prog.set(P_SUB, i);
    }
    /// Run code under test. A panic is caught and `None` is returned; see `panic_text`.
    #[inline]
    pub fn sut<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        self.prog.set(P_PHASE, 1);
        self.prog.set(P_BEAT, self.prog.get(P_BEAT) + 1);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.prog.set(P_PHASE, 0);
        match r {
            Ok(r) => Some(r),
            Err(_) => {
                self.last_panic = PANIC_MSG.with(|m| m.borrow().clone());
                None
            }
        }
    }
    pub fn panic_text(&self) -> String {
        self.last_panic.clone()
    }
    /// Report a violation. `key` identifies the failing input (for the known-findings file).
    pub fn fail(&mut self, key: impl Into<String>, text: impl Into<String>) {
        let v = Violation { job: self.job.clone(), case: self.case, key: key.into(), text: text.into() };
        if self.verbose {
            println!("FAIL job={} case={} key={}\n{}\n", v.job, v.case, v.key, v.text);
        }
        if self.known.contains(&v.key) {
            self.met.insert(v.key);
            return;
        }
        self.count("violations", 1);
        if self.violations.len() < 20 || all() {
            self.violations.push(v);
        }
    }
}

fn root() -> PathBuf {
    match std::env::var("MC_ROOT") {
        Ok(r) => PathBuf::from(r),
        Err(_) => Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}

/// Triage aid: do not stop at the first violations
fn all() -> bool {
    std::env::var_os("MC_ALL").is_some()
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn un_line(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("panic at {loc}: {msg}"));
        if std::env::var_os("MC_PANIC").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

/// Entry point of an explorer binary.
pub fn main(build: fn(&str, bool) -> Option<Check>) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} PROP quick|thorough [replay JOB CASE]", args[0]);
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let thorough = match args[2].as_str() {
        "quick" => false,
        "thorough" => true,
        x => {
            eprintln!("unknown tier {x}");
            std::process::exit(2)
        }
    };
    if let Ok(w) = std::env::var("MC_WORKER") {
        // stack overflow of the code under test must not depend on the default stack size
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || worker(build, &prop, thorough, &w)).unwrap();
        let code = h.join().unwrap_or(3);
        std::process::exit(code);
    }
    if args.get(3).map(|s| s.as_str()) == Some("replay") {
        let (job, case) = (args[4].clone(), args[5].parse::<u64>().unwrap());
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            install_hook();
            let check = build(&prop, thorough).expect("unknown property");
            let mut ctx = Ctx::new(Progress::open(None));
            ctx.verbose = true;
            let j = check.jobs.iter().find(|j| j.name == job).expect("unknown job");
            println!("{}", (j.describe)(case, 0));
            ctx.job = job.clone();
            ctx.case = case;
            (j.run)(case, &mut ctx);
            println!("violations: {}", ctx.violations.len());
            for v in &ctx.violations {
                println!("VIOLATION property={prop} replay={}:{} key={}", v.job, v.case, v.key);
            }
            i32::from(!ctx.violations.is_empty())
        }).unwrap();
        std::process::exit(h.join().unwrap_or(3));
    }
    let code = parent(build, &prop, thorough);
    std::process::exit(code);
}

fn worker(build: fn(&str, bool) -> Option<Check>, prop: &str, thorough: bool, spec: &str) -> i32 {
    install_hook();
    unsafe {
        prctl(1, 9, 0, 0, 0); // die with the parent
        let lim = [6u64 << 30, 6u64 << 30];
        setrlimit(9, &lim);
        let core = [0u64, 0u64];
        setrlimit(4, &core);
    }
    // spec: job,shard,shards,from,to,dir,deadline_ms
    let p: Vec<&str> = spec.split(',').collect();
    let (jobi, shard, shards, from, to): (usize, u64, u64, u64, u64) =
        (p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].parse().unwrap(), p[4].parse().unwrap());
    let base = PathBuf::from(p[5]);
    let deadline = Instant::now() + Duration::from_millis(p[6].parse().unwrap());
    let check = build(prop, thorough).expect("unknown property");
    let job = &check.jobs[jobi];
    let mut ctx = Ctx::new(Progress::open(Some(&base.with_extension("prog"))));
    ctx.job = job.name.clone();
    ctx.known = known(&root(), prop).into_iter().map(|k| k.0).collect();
    ctx.prog.set(P_JOB, jobi as u64);
    let chunk = job.chunk;
    let mut capped = 0u64;
    let mut c = from / chunk;
    'outer: while c * chunk < to {
        if c % shards == shard {
            if Instant::now() > deadline {
                capped = 1;
                break;
            }
            for i in (c * chunk).max(from)..((c + 1) * chunk).min(to) {
                ctx.case = i;
                ctx.prog.set(P_CASE, i);
                (job.run)(i, &mut ctx);
                ctx.count("cases", 1);
                if ctx.violations.len() >= 3 && !all() {
                    break 'outer;
                }
            }
        }
        c += 1;
    }
    let mut o = String::new();
    ctx.count("capped", capped);
    for (k, v) in &ctx.counters {
        o.push_str(&format!("C\t{}\t{}\n", k, v));
    }
    for k in &ctx.met {
        o.push_str(&format!("K\t{}\n", one_line(k)));
    }
    for (l, s) in &ctx.samples {
        o.push_str(&format!("S\t{}\t{}\n", l, one_line(s)));
    }
    for v in &ctx.violations {
        o.push_str(&format!("V\t{}\t{}\t{}\t{}\n", v.job, v.case, one_line(&v.key), one_line(&v.text)));
    }
    let mut bin = Vec::new();
    for (k, v) in &ctx.distinct {
        o.push_str(&format!("D\t{}\t{}\n", k, v.len()));
        for h in v {
            bin.extend_from_slice(&h.to_le_bytes());
        }
    }
    o.push_str("END\n");
    std::fs::write(base.with_extension("bin"), bin).unwrap();
    std::fs::write(base.with_extension("out"), o).unwrap();
    0
}

enum End {
    Ok,
    Crash(String),
    Hang,
    Harness(String),
}

fn phase_of(base: &Path) -> (u64, u64, u64, u64) {
    let b = std::fs::read(base.with_extension("prog")).unwrap_or_default();
    let g = |i: usize| b.get(i * 8..i * 8 + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0);
    (g(P_CASE), g(P_SUB), g(P_PHASE), g(P_BEAT))
}

fn run_workers(exe: &Path, args: &[String], specs: Vec<(String, PathBuf)>, hang_s: u64) -> Vec<End> {
    use std::os::unix::process::ExitStatusExt;
    let mut kids: Vec<_> = specs
        .iter()
        .map(|(s, base)| {
            let _ = std::fs::remove_file(base.with_extension("prog"));
            let k = Command::new(exe).args(args).env("MC_WORKER", s).stdin(Stdio::null())
                .stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("spawn worker");
            (k, base.clone(), None::<End>, (0, 0, 0, 0), Instant::now())
        })
        .collect();
    let mut nap = 5;
    loop {
        let mut running = false;
        for (k, base, end, last, since) in kids.iter_mut() {
            if end.is_some() {
                continue;
            }
            match k.try_wait().unwrap() {
                Some(st) => {
                    *end = Some(if st.success() && base.with_extension("out").exists() {
                        End::Ok
                    } else {
                        let ph = phase_of(base);
                        let how = match st.signal() {
                            Some(s) => format!("killed by signal {s}"),
                            None => format!("exit {:?}", st.code()),
                        };
                        use std::io::Read;
                        let mut err = String::new();
                        if let Some(mut e) = k.stderr.take() {
                            let _ = e.read_to_string(&mut err);
                        }
                        let err: String = err.chars().take(400).collect();
                        if ph.2 == 1 { End::Crash(format!("{how} {err}")) } else { End::Harness(format!("{how} at {ph:?} {err}")) }
                    });
                }
                None => {
                    running = true;
                    let ph = phase_of(base);
                    if ph != *last {
                        *last = ph;
                        *since = Instant::now();
                    } else if since.elapsed() > Duration::from_secs(hang_s * if ph.2 == 1 { 1 } else { 10 }) {
                        unsafe { kill(k.id() as i32, 9) };
                        let _ = k.wait();
                        *end = Some(if ph.2 == 1 { End::Hang } else { End::Harness(format!("no progress in the harness at {ph:?}")) });
                    }
                }
            }
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 5).min(100);
    }
    kids.into_iter().map(|k| k.2.unwrap()).collect()
}

fn known(root: &Path, prop: &str) -> Vec<(String, String)> {
    // finding: property=P07 key=<key> :: text
    let txt = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != prop {
                return None;
            }
            let rest = rest.strip_prefix("key=")?;
            let (k, t) = rest.split_once(" :: ")?;
            Some((k.trim().to_string(), t.to_string()))
        })
        .collect()
}

fn parent(build: fn(&str, bool) -> Option<Check>, prop: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let root = root();
    let Some(check) = build(prop, thorough) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let shards: u64 = if check.workers > 0 { check.workers } else {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16)
    };
    let exe = std::env::current_exe().unwrap();
    let args: Vec<String> = std::env::args().skip(1).take(2).collect();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let cleanup = |code: i32| {
        let _ = std::fs::remove_dir_all(&dir);
        code
    };
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut violations: Vec<Violation> = vec![];
    let mut met: std::collections::BTreeSet<String> = Default::default();
    let mut jobs_ev = vec![];
    for (ji, job) in check.jobs.iter().enumerate() {
        let tj = Instant::now();
        let left = Duration::from_secs(check.cap_s).saturating_sub(t0.elapsed());
        let n = shards.min(job.total.div_ceil(job.chunk)).max(1);
        let specs: Vec<_> = (0..n)
            .map(|s| {
                let base = dir.join(format!("j{ji}s{s}"));
                (format!("{ji},{s},{n},0,{},{},{}", job.total, base.display(), left.as_millis()), base)
            })
            .collect();
        let bases: Vec<_> = specs.iter().map(|s| s.1.clone()).collect();
        let ends = run_workers(&exe, &args, specs, check.hang_s);
        let mut jc: BTreeMap<String, u64> = BTreeMap::new();
        for (end, base) in ends.into_iter().zip(&bases) {
            match end {
                End::Ok => {}
                End::Harness(e) => {
                    eprintln!("harness error in job {}: {e}", job.name);
                    return cleanup(2);
                }
                End::Crash(_) | End::Hang => {
                    let (case, sub, _, _) = phase_of(base);
                    // confirm alone
                    let b2 = dir.join("confirm");
                    let _ = std::fs::remove_file(b2.with_extension("out"));
                    let spec = format!("{ji},0,1,{case},{},{},600000", case + 1, b2.display());
                    // chunk filter: one shard sees every chunk
                    let e2 = run_workers(&exe, &args, vec![(spec, b2.clone())], check.hang_s).pop().unwrap();
                    let sub2 = phase_of(&b2).1;
                    let what = match e2 {
                        End::Crash(e) => format!("the code under test crashes: {e}"),
                        End::Hang => format!("the code under test does not return ({} s without progress)", check.hang_s),
                        End::Harness(e) => {
                            eprintln!("harness error on rerun of job {} case {case}: {e}", job.name);
                            return cleanup(2);
                        }
                        End::Ok => {
                            eprintln!("crash or hang of job {} case {case} sub {sub} did not happen again", job.name);
                            return cleanup(2);
                        }
                    };
                    violations.push(Violation {
                        job: job.name.clone(), case,
                        key: format!("{}:{case}:crash", job.name),
                        text: format!("{what}\n{}", (job.describe)(case, sub2)),
                    });
                    *jc.entry("violations".into()).or_default() += 1;
                    *jc.entry("capped".into()).or_default() += 1;
                    continue;
                }
            }
            let out = std::fs::read_to_string(base.with_extension("out")).unwrap();
            if !out.ends_with("END\n") {
                eprintln!("truncated worker output");
                return cleanup(2);
            }
            let bin = std::fs::read(base.with_extension("bin")).unwrap();
            let mut off = 0;
            for l in out.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "C" => {
                        let v: u64 = f[2].parse().unwrap();
                        if f[1].starts_with("max:") {
                            let c = counters.entry(f[1].to_string()).or_default();
                            *c = (*c).max(v);
                        } else {
                            *jc.entry(f[1].to_string()).or_default() += v;
                        }
                    }
                    "S" => {
                        if samples.len() < 12 {
                            samples.push(format!("[{} {}] {}", job.name, f[1], un_line(f[2])));
                        }
                    }
                    "K" => {
                        met.insert(un_line(f[1]));
                    }
                    "V" => violations.push(Violation { job: f[1].into(), case: f[2].parse().unwrap(), key: un_line(f[3]), text: un_line(f[4]) }),
                    "D" => {
                        let n: usize = f[2].parse().unwrap();
                        let set = distinct.entry(f[1].to_string()).or_default();
                        for k in 0..n {
                            let i = off + k * 8;
                            set.insert(u64::from_le_bytes(bin[i..i + 8].try_into().unwrap()));
                        }
                        off += n * 8;
                    }
                    _ => {}
                }
            }
            let _ = std::fs::remove_file(base.with_extension("bin"));
        }
        for (k, v) in &jc {
            *counters.entry(k.clone()).or_default() += v;
        }
        jobs_ev.push(format!(
            "{{\"job\": {}, \"cases\": {}, \"of\": {}, \"wall_s\": {:.2}, {}}}",
            json::esc(&job.name), jc.get("cases").copied().unwrap_or(0), job.total, tj.elapsed().as_secs_f64(),
            jc.iter().filter(|x| x.0 != "cases").map(|(k, v)| format!("{}: {}", json::esc(k), v)).collect::<Vec<_>>().join(", ")
        ));
        if !violations.is_empty() && !all() {
            break;
        }
    }
    // triage against the known findings
    let known = known(&root, prop);
    let mut fresh: Vec<&Violation> = vec![];
    violations.sort_by(|a, b| (&a.job, a.case).cmp(&(&b.job, b.case)));
    for v in &violations {
        // crashes are only known to the supervisor
        if known.iter().any(|k| k.0 == v.key) {
            met.insert(v.key.clone());
        } else {
            fresh.push(v);
        }
    }
    for k in known.iter().filter(|k| met.contains(&k.0)) {
        println!("KNOWN-FINDING: property={prop} {}", k.1);
    }
    if all() {
        for v in &fresh {
            println!("ALL {} {} {}", v.job, v.case, v.key);
        }
    }
    let tier = if thorough { "thorough" } else { "quick" };
    let get = |k: &str| counters.get(k).copied().unwrap_or(0);
    let capped = get("capped") > 0;
    let dn = |k: &str| distinct.get(k).map(|d| d.len() as u64).unwrap_or(0);
    let mut cov: Vec<String> = vec![];
    if check.level == "model_checking" {
        cov.push(format!("\"states\": {}", if distinct.contains_key("states") { dn("states") } else { get("states") }));
        cov.push(format!("\"transitions\": {}", get("transitions")));
        cov.push(format!("\"traces_validated_against_impl\": {}", get("traces")));
    } else {
        cov.push(format!("\"evaluations\": {}", get("evaluations")));
        cov.push(format!("\"distinct_nontrivial\": {}", if distinct.contains_key("nontrivial") { dn("nontrivial") } else { get("nontrivial") }));
    }
    cov.push(format!("\"rule\": {}", json::esc(&check.rule)));
    cov.push(format!("\"samples\": {}", json::arr(&samples)));
    cov.push(format!("\"exhaustive\": {}", !capped && violations.is_empty()));
    cov.push(format!("\"jobs\": [{}]", jobs_ev.join(", ")));
    let others: Vec<String> = counters.iter().map(|(k, v)| format!("{}: {}", json::esc(k), v)).collect();
    cov.push(format!("\"counters\": {{{}}}", others.join(", ")));
    let ds: Vec<String> = distinct.iter().map(|(k, v)| format!("{}: {}", json::esc(k), v.len())).collect();
    cov.push(format!("\"distinct_observations\": {{{}}}", ds.join(", ")));
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": \"{tier}\", \"seed\": {seed}, \"level\": \"{}\",\n \"coverage\": {{{}}},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json::esc(prop), check.level, cov.join(",\n  "), json::arr(&check.assumptions), t0.elapsed().as_secs_f64(), fresh.len()
    );
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{prop}.json")), ev).expect("write evidence");
    println!(
        "{prop} {tier}: {} cases, {:.1} s{}; {}",
        get("cases"), t0.elapsed().as_secs_f64(), if capped { " (capped)" } else { "" },
        counters.iter().filter(|x| x.0 != "cases" && x.0 != "capped").map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    );
    let code = if let Some(v) = fresh.first() {
        let rdir = root.join("replay");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{prop}-{}-{}.txt", v.job, v.case));
        let mut f = std::fs::File::create(&path).expect("replay file");
        let _ = writeln!(f, "property {prop}, job {}, case {}\nkey: {}\n\n{}\n\nreplay: mc/check.sh {prop} {tier} replay {} {}", v.job, v.case, v.key, v.text, v.job, v.case);
        for o in fresh.iter().skip(1).take(4) {
            let _ = writeln!(f, "\nalso: job {} case {}\nkey: {}\n{}", o.job, o.case, o.key, o.text);
        }
        println!("VIOLATION property={prop} replay={}", path.display());
        println!("{}", v.text);
        1
    } else if capped && !thorough {
        println!("note: the wall-clock cap was reached; see evidence");
        0
    } else {
        0
    };
    cleanup(code)
}
