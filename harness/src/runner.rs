//! Drives the cases of a check: eight worker processes, each a pure function
//! of (VERIF_SEED, worker index); failures are shrunk on the tape; crashes and
//! exhausted step budgets of a worker are attributed to the tape it was on.
use crate::cov;
use crate::json::J;
use crate::tape::{mix, Rng, Tape};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub type Verdict = Result<(), String>;
pub type PropFn = fn(&mut Tape, &mut Case) -> Verdict;

/// One executable statement of the property, with its generator.
pub struct Sub {
    pub name: &'static str,
    pub f: PropFn,
    /// Number of cases in the quick and in the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// Drive it with coverage feedback instead of independent random tapes.
    pub guided: bool,
    /// Budget of basic-block edges of the crate under test, per case.
    pub fuel: u64,
    /// Tapes longer than this are not generated.
    pub max_tape: usize,
}

impl Sub {
    pub fn new(name: &'static str, f: PropFn, quick: u64, thorough: u64) -> Sub {
        Sub {
            name,
            f,
            quick,
            thorough,
            guided: false,
            fuel: 3_000_000_000,
            max_tape: 8192,
        }
    }
    pub fn guided(mut self) -> Sub {
        self.guided = true;
        self
    }
    pub fn fuel(mut self, f: u64) -> Sub {
        self.fuel = f;
        self
    }
    pub fn tape(mut self, n: usize) -> Sub {
        self.max_tape = n;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Case {
    pub desc: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Work allowance of this case; 0 keeps the one of the sub-check.
    pub sig: String,
}

impl Case {
    pub fn input(&mut self, s: String) {
        self.desc = s;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
}

enum Outcome {
    Pass,
    Fail(String),
    Harness(String),
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs code under test, turning a panic of it into an error message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness_loc(&loc) {
                panic!("harness panicked at {}: {}", loc, msg);
            }
            Err(format!("{} panicked: {} ({})", what, msg, short(&loc)))
        }
    }
}

fn is_harness_loc(loc: &str) -> bool {
    (loc.starts_with("src/") || loc.contains("/harness/src/")) && !loc.contains("layout/src/")
}
fn short(loc: &str) -> String {
    match loc.rfind("layout/src/") {
        Some(i) => loc[i..].to_string(),
        None => loc.to_string(),
    }
}

fn exec(sub: &Sub, tape: &[u8], case: &mut Case, used: &mut usize) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    cov::start(sub.fuel);
    let mut pos = 0;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut t = Tape::new(tape);
        let r = (sub.f)(&mut t, case);
        pos = t.pos;
        r
    }));
    cov::stop();
    *used = if pos == 0 { tape.len() } else { pos };
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_loc(&loc) {
                Outcome::Harness(format!("{} at {}", msg, loc))
            } else {
                Outcome::Fail(format!("the code panicked: {} ({})", msg, short(&loc)))
            }
        }
    }
}

fn tape_len(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(5) {
        0 => 16 + r.below(112),
        1 => 64 + r.below(448),
        2 => 256 + r.below(1792),
        _ => max,
    };
    n.min(max)
}

fn mutate(r: &mut Rng, corpus: &[Vec<u8>], max: usize) -> Vec<u8> {
    let mut t = corpus[r.below(corpus.len())].clone();
    for _ in 0..1 + r.below(6) {
        let n = t.len();
        match r.below(9) {
            0 if n > 0 => {
                let i = r.below(n);
                t[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                let i = r.below(n);
                t[i] = r.next() as u8;
            }
            2 if n > 0 => {
                let i = r.below(n);
                t[i] = t[i].wrapping_add(1 + 254 * r.below(2) as u8);
            }
            3 => {
                let i = r.below(n + 1);
                let k = 1 + r.below(16);
                let b = r.bytes(k);
                t.splice(i..i, b);
            }
            4 if n > 1 => {
                let i = r.below(n);
                let k = 1 + r.below((n - i).min(24));
                t.drain(i..i + k);
            }
            5 if n > 1 => {
                let i = r.below(n);
                let k = 1 + r.below((n - i).min(48));
                let c = t[i..i + k].to_vec();
                let j = r.below(t.len() + 1);
                t.splice(j..j, c);
            }
            6 => {
                let o = &corpus[r.below(corpus.len())];
                let i = r.below(n + 1);
                let j = r.below(o.len() + 1);
                t.truncate(i);
                t.extend_from_slice(&o[j..]);
            }
            7 if n > 0 => {
                let i = r.below(n);
                t[i] = [0u8, 255, 128, 1, 254][r.below(5)];
            }
            _ => {
                let k = 1 + r.below(200);
                let b = r.bytes(k);
                t.extend(b);
            }
        }
    }
    t.truncate(max);
    t
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}

/// Greedy tape shrinking. `fails` returns true when the candidate still fails;
/// it is also given the chance to keep a record of it.
fn shrink(tape: Vec<u8>, mut fails: impl FnMut(&[u8]) -> Option<usize>, max_exec: usize) -> Vec<u8> {
    let t0 = Instant::now();
    let mut best = tape;
    let mut n = 0usize;
    let mut try_ = |c: Vec<u8>, best: &mut Vec<u8>| -> bool {
        if n >= max_exec || t0.elapsed() > Duration::from_secs(40) {
            return false;
        }
        n += 1;
        if let Some(used) = fails(&c) {
            let mut c = c;
            c.truncate(used);
            while c.last() == Some(&0) {
                c.pop();
            }
            *best = c;
            return true;
        }
        false
    };
    {
        let c = best.clone();
        try_(c, &mut best);
    }
    let mut improved = true;
    while improved {
        improved = false;
        let before = best.clone();
        // Delete chunks.
        let mut k = best.len().next_power_of_two() / 2;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[e..]);
                if !try_(c, &mut best) {
                    i += k;
                }
            }
            k /= 2;
        }
        // Zero chunks, then reduce single bytes.
        let mut k = 16;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    try_(c, &mut best);
                }
                i += k;
            }
            k /= 4;
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u16, best[i] as u16);
            while lo < hi {
                let m = (lo + hi) / 2;
                if i >= best.len() {
                    break;
                }
                let mut c = best.clone();
                c[i] = m as u8;
                if try_(c, &mut best) {
                    hi = m;
                } else {
                    lo = m + 1;
                }
            }
            i += 1;
        }
        if best != before && (best.len() < before.len() || best < before) {
            improved = true;
        }
    }
    best
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(p) {
        for l in s.lines() {
            // known: property=<id> sig=<sig> :: <what fails>
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((pid, rest)) = r.split_once(' ') {
                    if pid == id {
                        if let Some((sig, what)) =
                            rest.trim_start_matches("sig=").split_once(" :: ")
                        {
                            v.push((sig.to_string(), what.to_string()));
                        }
                    }
                }
            }
        }
    }
    v
}

fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("VP_VERIF_DIR") {
        return PathBuf::from(d);
    }
    PathBuf::from("/verif")
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    per_sub: BTreeMap<String, u64>,
    labels: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<String>,
    edges: usize,
    max_steps: u64,
    corpus: usize,
}

fn write_fail(dir: &Path, k: usize, sub: &str, tape: &[u8], msg: &str, desc: &str) {
    let j = J::Obj(vec![
        ("sub".into(), J::s(sub)),
        ("tape".into(), J::Str(hex(tape))),
        ("message".into(), J::s(msg)),
        ("input".into(), J::s(desc)),
    ]);
    let tmp = dir.join(format!("fail{}.tmp", k));
    let _ = fs::write(&tmp, j.dump());
    let _ = fs::rename(&tmp, dir.join(format!("fail{}.json", k)));
}

fn worker(check: &Check, k: usize, w: usize, dir: PathBuf) -> i32 {
    let thorough = tier() == "thorough";
    let seed = seed();
    let known = known_findings(check.id);
    let mut st = Stats::default();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut virgin = vec![0u8; cov::MAP];
    let cur = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(dir.join(format!("cur{}", k)))
        .expect("scratch");
    for (si, sub) in check.subs.iter().enumerate() {
        let total = if thorough { sub.thorough } else { sub.quick };
        let only = std::env::var("VP_SUB").unwrap_or_default();
        if !only.is_empty() && only != sub.name {
            continue;
        }
        let scale: f64 = std::env::var("VP_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.);
        let total = ((total as f64) * scale) as u64;
        let mut corpus: Vec<Vec<u8>> = Vec::new();
        let mut sub_new = 0u64;
        let mut wr = Rng::new(mix(&[seed, si as u64, k as u64, 77]));
        let mut idx = k as u64;
        let mut sub_nt = 0u64;
        while idx < total {
            let tape: Vec<u8> = if sub.guided && corpus.len() > 3 && wr.below(8) < 6 {
                mutate(&mut wr, &corpus, sub.max_tape)
            } else {
                let mut r = Rng::new(mix(&[seed, si as u64, idx]));
                let n = tape_len(&mut r, sub.max_tape);
                r.bytes(n)
            };
            // Name the tape before running it, for crash attribution.
            if sub.guided {
                let mut rec = vec![1u8];
                rec.extend((si as u32).to_le_bytes());
                rec.extend((tape.len() as u32).to_le_bytes());
                rec.extend(&tape);
                let _ = cur.write_at(&rec, 0);
            } else {
                let mut rec = vec![0u8];
                rec.extend((si as u32).to_le_bytes());
                rec.extend(idx.to_le_bytes());
                let _ = cur.write_at(&rec, 0);
            }
            cov::clear_hits();
            let mut case = Case::default();
            let mut used = 0;
            let out = exec(sub, &tape, &mut case, &mut used);
            st.max_steps = st.max_steps.max(cov::steps());
            let new = cov::fold_new(&mut virgin);
            st.evals += 1;
            *st.per_sub.entry(sub.name.to_string()).or_default() += 1;
            for l in &case.labels {
                *st.labels.entry(format!("{}: {}", sub.name, l)).or_default() += 1;
            }
            if case.nontrivial {
                st.nontrivial += 1;
                sub_nt += 1;
                keys.insert(hash(&case.desc) ^ (si as u64).wrapping_mul(0x9e37_79b9));
                if k == 0 && (sub_nt == 1 || sub_nt == 40 || sub_nt == 400) {
                    let mut d: String = case.desc.chars().take(500).collect();
                    if case.desc.chars().count() > 500 {
                        d.push_str("...");
                    }
                    st.samples.push(format!("[{}] {}", sub.name, d));
                }
            }
            match out {
                Outcome::Pass => {
                    if sub.guided && new {
                        let mut t = tape;
                        t.truncate(used);
                        corpus.push(t);
                        sub_new += 1;
                    }
                }
                Outcome::Harness(m) => {
                    eprintln!("HARNESS ERROR in {}/{}: {}", check.id, sub.name, m);
                    eprintln!("tape {}", hex(&tape));
                    return 3;
                }
                Outcome::Fail(m) => {
                    let sig = format!("{}/{}", sub.name, case.sig);
                    if known.iter().any(|(s, _)| *s == sig) {
                        *st.known.entry(sig).or_default() += 1;
                        idx += w as u64;
                        continue;
                    }
                    write_fail(&dir, k, sub.name, &tape, &m, &case.desc);
                    let mut t = tape;
                    t.truncate(used);
                    let best = shrink(
                        t,
                        |c| {
                            let mut case = Case::default();
                            let mut used = 0;
                            match exec(sub, c, &mut case, &mut used) {
                                Outcome::Fail(m) => {
                                    let sig = format!("{}/{}", sub.name, case.sig);
                                    if known.iter().any(|(s, _)| *s == sig) {
                                        return None;
                                    }
                                    write_fail(&dir, k, sub.name, c, &m, &case.desc);
                                    Some(used)
                                }
                                _ => None,
                            }
                        },
                        6000,
                    );
                    let _ = best;
                    return 1;
                }
            }
            idx += w as u64;
        }
        st.corpus += sub_new as usize;
    }
    st.edges = cov::edges(&virgin);
    let mut kb = Vec::with_capacity(keys.len() * 8);
    for x in &keys {
        kb.extend(x.to_le_bytes());
    }
    let _ = fs::write(dir.join(format!("keys{}", k)), kb);
    let _ = fs::write(dir.join(format!("virgin{}", k)), &virgin);
    let map = |m: &BTreeMap<String, u64>| {
        J::Obj(m.iter().map(|(a, b)| (a.clone(), J::Int(*b as i64))).collect())
    };
    let j = J::Obj(vec![
        ("evals".into(), J::Int(st.evals as i64)),
        ("nontrivial".into(), J::Int(st.nontrivial as i64)),
        ("per_sub".into(), map(&st.per_sub)),
        ("labels".into(), map(&st.labels)),
        ("known".into(), map(&st.known)),
        (
            "samples".into(),
            J::Arr(st.samples.iter().map(|x| J::s(x)).collect()),
        ),
        ("guards".into(), J::Int(cov::guards() as i64)),
        ("max_steps".into(), J::Int(st.max_steps as i64)),
        ("corpus".into(), J::Int(st.corpus as i64)),
    ]);
    let _ = fs::write(dir.join(format!("stats{}", k)), j.dump());
    0
}

fn tier() -> String {
    match std::env::var("VERIF_TIER") {
        Ok(t) if t == "thorough" => t,
        _ => "quick".into(),
    }
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1)
}

/// Runs `f` on a thread whose stack has the size of a main thread's.
fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(f)
        .expect("thread")
        .join()
        .unwrap_or_else(|_| std::process::exit(3))
}

fn spawn_self(args: &[&str]) -> Child {
    Command::new(std::env::current_exe().expect("exe"))
        .args(args)
        .stdin(Stdio::null())
        // The code under test may print.
        .stdout(Stdio::null())
        .spawn()
        .expect("spawn")
}

enum One {
    Pass,
    Fail(String, usize, String),
    Error(String),
}

/// Runs one tape in a child process, so that crashes are outcomes.
fn run_one(check: &Check, sub: &str, tape: &[u8], dir: &Path, tag: &str) -> One {
    let tf = dir.join(format!("one-{}.tape", tag));
    let rf = dir.join(format!("one-{}.json", tag));
    let _ = fs::write(&tf, tape);
    let _ = fs::remove_file(&rf);
    let mut ch = spawn_self(&[
        "one",
        sub,
        tf.to_str().unwrap_or(""),
        rf.to_str().unwrap_or(""),
    ]);
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                let res = fs::read_to_string(&rf).ok().and_then(|s| J::parse(&s));
                let desc = res.as_ref().map(|j| j.str("input")).unwrap_or_default();
                let used = res
                    .as_ref()
                    .map(|j| j.int("used") as usize)
                    .unwrap_or(tape.len());
                return match s.code() {
                    Some(0) => One::Pass,
                    Some(1) => One::Fail(
                        res.map(|j| j.str("message")).unwrap_or_default(),
                        used,
                        desc,
                    ),
                    Some(c) if c == cov::EXIT_FUEL => {
                        let f = check.subs.iter().find(|s| s.name == sub).map(|s| s.fuel);
                        One::Fail(
                            format!(
                                "no result within {} basic-block steps (does not terminate, or its work explodes)",
                                f.unwrap_or(0)
                            ),
                            tape.len(),
                            desc,
                        )
                    }
                    Some(c) => One::Error(format!("child exit code {}", c)),
                    None => match s.signal() {
                        // SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGTRAP
                        Some(sg) if [4, 5, 6, 7, 8, 11].contains(&sg) => One::Fail(
                            format!("the process was killed by signal {} (crash)", sg),
                            tape.len(),
                            desc,
                        ),
                        Some(sg) => One::Error(format!("child killed by signal {}", sg)),
                        None => One::Error("child vanished".into()),
                    },
                };
            }
            Ok(None) => {
                if t0.elapsed() > Duration::from_secs(240) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return One::Error("child timed out".into());
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(e) => return One::Error(format!("{}", e)),
        }
    }
}

fn one_main(check: &'static Check, sub: String, tf: String, rf: String) -> i32 {
    on_big_stack(move || {
        install_hook();
        limit_memory();
        let sub = match check.subs.iter().find(|s| s.name == sub) {
            Some(s) => s,
            None => return 3,
        };
        let tape = fs::read(&tf).unwrap_or_default();
        // The description is not known if the case crashes; take it from a
        // first record written by the case, if any.
        let mut case = Case::default();
        let mut used = 0;
        let out = exec(sub, &tape, &mut case, &mut used);
        let (code, msg) = match out {
            Outcome::Pass => (0, String::new()),
            Outcome::Fail(m) => (1, m),
            Outcome::Harness(m) => {
                eprintln!("HARNESS ERROR: {}", m);
                (3, m)
            }
        };
        let j = J::Obj(vec![
            ("message".into(), J::Str(msg)),
            ("input".into(), J::Str(case.desc.clone())),
            ("used".into(), J::Int(used as i64)),
            ("sig".into(), J::Str(format!("{}/{}", sub.name, case.sig))),
        ]);
        let _ = fs::write(&rf, j.dump());
        code
    })
}

fn limit_memory() {
    unsafe {
        let l = [3u64 << 30, 3u64 << 30];
        setrlimit(9, &l);
        // No core files.
        let c = [0u64, 0u64];
        setrlimit(4, &c);
    }
}

pub fn run_main(check: Check) {
    let check: &'static Check = Box::leak(Box::new(check));
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| &s[..]) {
        Some("worker") => {
            let k: usize = args[2].parse().unwrap_or(0);
            let w: usize = args[3].parse().unwrap_or(1);
            let dir = PathBuf::from(&args[4]);
            on_big_stack(move || {
                install_hook();
                limit_memory();
                worker(check, k, w, dir)
            })
        }
        Some("one") => one_main(check, args[2].clone(), args[3].clone(), args[4].clone()),
        Some("replay") => replay_main(check, &args[2]),
        _ => parent(check),
    };
    std::process::exit(code);
}

fn replay_main(check: &'static Check, file: &str) -> i32 {
    let j = match fs::read_to_string(file).ok().and_then(|s| J::parse(&s)) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let dir = scratch(check);
    let r = run_one(check, &j.str("sub"), &unhex(&j.str("tape")), &dir, "replay");
    let _ = fs::remove_dir_all(&dir);
    match r {
        One::Pass => {
            println!("replay passes");
            0
        }
        One::Fail(m, _, d) => {
            println!("input: {}", d);
            println!("failure: {}", m);
            println!("VIOLATION property={} replay={}", check.id, file);
            1
        }
        One::Error(m) => {
            eprintln!("error: {}", m);
            2
        }
    }
}

fn scratch(check: &Check) -> PathBuf {
    let d = std::env::temp_dir().join(format!("vp-{}-{}", check.id, std::process::id()));
    let _ = fs::create_dir_all(&d);
    d
}

fn parent(check: &'static Check) -> i32 {
    let t0 = Instant::now();
    let w = 8usize;
    let dir = scratch(check);
    let dirs = dir.to_string_lossy().to_string();
    let mut kids: Vec<(usize, Option<Child>)> = (0..w)
        .map(|k| {
            let c = spawn_self(&["worker", &k.to_string(), &w.to_string(), &dirs]);
            (k, Some(c))
        })
        .collect();
    let limit = if tier() == "thorough" { 3 * 3600 } else { 840 };
    let mut fail: Option<(String, Vec<u8>, String, String)> = None; // sub, tape, msg, input
    let mut error: Option<String> = None;
    'poll: loop {
        let mut alive = 0;
        for (k, slot) in kids.iter_mut() {
            let done = match slot {
                None => continue,
                Some(c) => match c.try_wait() {
                    Ok(Some(s)) => s,
                    Ok(None) => {
                        alive += 1;
                        continue;
                    }
                    Err(e) => {
                        error = Some(format!("{}", e));
                        break 'poll;
                    }
                },
            };
            *slot = None;
            if done.code() == Some(0) {
                continue;
            }
            let fj = dir.join(format!("fail{}.json", k));
            if let Some(j) = fs::read_to_string(fj).ok().and_then(|s| J::parse(&s)) {
                // Also when the worker died while it was shrinking.
                fail = Some((
                    j.str("sub"),
                    unhex(&j.str("tape")),
                    j.str("message"),
                    j.str("input"),
                ));
                break 'poll;
            }
            let crash = match (done.code(), done.signal()) {
                (Some(c), _) => c == cov::EXIT_FUEL,
                (_, Some(s)) => [4, 5, 6, 7, 8, 11].contains(&s),
                _ => false,
            };
            if crash {
                if let Some((sub, tape)) = current_tape(check, &dir, *k) {
                    fail = Some((sub, tape, String::new(), String::new()));
                    break 'poll;
                }
            }
            error = Some(format!("worker {} ended with {:?}", k, done));
            break 'poll;
        }
        if alive == 0 && kids.iter().all(|k| k.1.is_none()) {
            break;
        }
        if t0.elapsed() > Duration::from_secs(limit) {
            error = Some("wall-clock watchdog: inconclusive".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for (_, slot) in kids.iter_mut() {
        if let Some(c) = slot {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((sub, tape, msg, input)) = fail {
        match finish_failure(check, &dir, sub, tape, msg, input) {
            Ok(line) => {
                println!("{}", line);
                violations = 1;
                code = 1;
            }
            Err(e) => error = Some(e),
        }
    }
    let ok = write_evidence(check, &dir, w, t0.elapsed().as_secs_f64(), violations);
    let _ = fs::remove_dir_all(&dir);
    if code == 0 {
        if let Some(e) = error {
            eprintln!("ERROR property={} {}", check.id, e);
            return 2;
        }
        if let Err(e) = ok {
            eprintln!("ERROR property={} {}", check.id, e);
            return 2;
        }
        println!(
            "OK property={} held on everything explored ({:.1} s)",
            check.id,
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn current_tape(check: &Check, dir: &Path, k: usize) -> Option<(String, Vec<u8>)> {
    let b = fs::read(dir.join(format!("cur{}", k))).ok()?;
    let si = u32::from_le_bytes(b.get(1..5)?.try_into().ok()?) as usize;
    let sub = check.subs.get(si)?;
    if b[0] == 1 {
        let n = u32::from_le_bytes(b.get(5..9)?.try_into().ok()?) as usize;
        return Some((sub.name.to_string(), b.get(9..9 + n)?.to_vec()));
    }
    let idx = u64::from_le_bytes(b.get(5..13)?.try_into().ok()?);
    let mut r = Rng::new(mix(&[seed(), si as u64, idx]));
    let n = tape_len(&mut r, sub.max_tape);
    Some((sub.name.to_string(), r.bytes(n)))
}

fn finish_failure(
    check: &'static Check,
    dir: &Path,
    sub: String,
    tape: Vec<u8>,
    msg: String,
    input: String,
) -> Result<String, String> {
    let (mut tape, mut msg, mut input) = (tape, msg, input);
    if msg.is_empty() {
        // A crash or an exhausted budget: confirm it, then shrink with one
        // process per candidate.
        match run_one(check, &sub, &tape, dir, "confirm") {
            One::Fail(m, _, d) => {
                msg = m;
                input = d;
            }
            One::Pass => return Err("a worker crash did not reproduce".into()),
            One::Error(e) => return Err(e),
        }
        let mut last = (msg.clone(), input.clone());
        tape = shrink(
            tape,
            |c| match run_one(check, &sub, c, dir, "shrink") {
                One::Fail(m, u, d) => {
                    last = (m, d);
                    Some(u)
                }
                _ => None,
            },
            150,
        );
        msg = last.0;
        input = last.1;
    }
    let out = verif_dir().join("out");
    let _ = fs::create_dir_all(&out);
    let f = out.join(format!("{}-{}-{:08x}.json", check.id, sub, hash(&hex(&tape)) as u32));
    let j = J::Obj(vec![
        ("property".into(), J::s(check.id)),
        ("sub".into(), J::s(&sub)),
        ("tape".into(), J::Str(hex(&tape))),
        ("message".into(), J::s(&msg)),
        ("input".into(), J::s(&input)),
        (
            "replay".into(),
            J::Str(format!("bash check.sh {} replay {}", check.id, f.display())),
        ),
    ]);
    fs::write(&f, j.dump()).map_err(|e| format!("{}", e))?;
    println!("sub-check: {}", sub);
    println!("input: {}", input);
    println!("failure: {}", msg);
    Ok(format!("VIOLATION property={} replay={}", check.id, f.display()))
}

fn write_evidence(
    check: &Check,
    dir: &Path,
    w: usize,
    wall: f64,
    violations: i64,
) -> Result<(), String> {
    let mut evals = 0;
    let mut per_sub: BTreeMap<String, i64> = BTreeMap::new();
    let mut labels: BTreeMap<String, i64> = BTreeMap::new();
    let mut known: BTreeMap<String, i64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut virgin = vec![0u8; cov::MAP];
    let mut guards = 0;
    let mut max_steps = 0;
    let mut corpus = 0;
    for k in 0..w {
        if let Some(j) = fs::read_to_string(dir.join(format!("stats{}", k)))
            .ok()
            .and_then(|s| J::parse(&s))
        {
            evals += j.int("evals");
            guards = guards.max(j.int("guards"));
            max_steps = max_steps.max(j.int("max_steps"));
            corpus += j.int("corpus");
            for (name, m) in [
                ("per_sub", &mut per_sub),
                ("labels", &mut labels),
                ("known", &mut known),
            ] {
                if let Some(J::Obj(v)) = j.get(name) {
                    for (a, b) in v {
                        if let J::Int(b) = b {
                            *m.entry(a.clone()).or_default() += b;
                        }
                    }
                }
            }
            if let Some(J::Arr(v)) = j.get("samples") {
                samples.extend(v.iter().cloned());
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("keys{}", k))) {
            for c in b.chunks(8) {
                if let Ok(a) = c.try_into() {
                    keys.insert(u64::from_le_bytes(a));
                }
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("virgin{}", k))) {
            for (v, x) in virgin.iter_mut().zip(b) {
                *v |= x;
            }
        }
    }
    for (sig, what) in known_findings(check.id) {
        println!(
            "KNOWN-FINDING: property={} {} ({} cases hit it)",
            check.id,
            what,
            known.get(&sig).copied().unwrap_or(0)
        );
    }
    samples.truncate(12);
    let obj = |m: &BTreeMap<String, i64>| {
        J::Obj(m.iter().map(|(a, b)| (a.clone(), J::Int(*b))).collect())
    };
    let j = J::Obj(vec![
        ("property".into(), J::s(check.id)),
        ("tier".into(), J::Str(tier())),
        ("seed".into(), J::Int(seed() as i64)),
        ("level".into(), J::s("exploration")),
        (
            "coverage".into(),
            J::Obj(vec![
                ("evaluations".into(), J::Int(evals)),
                ("distinct_nontrivial".into(), J::Int(keys.len() as i64)),
                ("rule".into(), J::s(check.rule)),
                ("samples".into(), J::Arr(samples)),
                ("cases_per_subcheck".into(), obj(&per_sub)),
                ("case_classes".into(), obj(&labels)),
                ("known_finding_hits".into(), obj(&known)),
                ("edges_of_crate_covered".into(), J::Int(cov::edges(&virgin) as i64)),
                ("edges_of_crate_instrumented".into(), J::Int(guards)),
                ("max_steps_of_a_case".into(), J::Int(max_steps)),
                ("coverage_guided_corpus".into(), J::Int(corpus)),
            ]),
        ),
        (
            "assumptions".into(),
            J::Arr(check.assumptions.iter().map(|x| J::s(x)).collect()),
        ),
        ("wall_s".into(), J::Num((wall * 100.).round() / 100.)),
        ("violations".into(), J::Int(violations)),
    ]);
    let d = verif_dir().join("evidence");
    fs::create_dir_all(&d).map_err(|e| format!("{}", e))?;
    fs::write(d.join(format!("{}.json", check.id)), j.dump() + "\n")
        .map_err(|e| format!("evidence: {}", e))
}
