//! Property engine: choice-sequence generation, multi-process execution, shrinking, evidence.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ hash_str(prop));
    let a = r.next();
    Rng::new(a ^ index.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

/// A source of choices. Every choice is recorded, so that a failing case can be replayed and
/// shrunk by editing the recorded sequence. Generators are written so that 0 is the simplest choice.
pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub labels: Vec<&'static str>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Rng::new(seed), replay: None, pos: 0, rec: vec![], labels: vec![] }
    }
    pub fn from_choices(c: Vec<u64>) -> Self {
        Src { rng: Rng::new(0), replay: Some(c), pos: 0, rec: vec![], labels: vec![] }
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if v >= n as u64 { v % n as u64 } else { v }
            }
            None => self.rng.next() % n as u64,
        };
        self.pos += 1;
        self.rec.push(v);
        v as usize
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true with probability num/den (recorded so that 0 == false)
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Weighted index; put the simplest alternative first.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let tot: usize = w.iter().sum();
        let mut v = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32) as u64;
        let lo = self.below(1 << 32) as u64;
        (hi << 32) | lo
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

// ---------------------------------------------------------------- property interface

pub struct Case {
    /// non-trivial by the property's stated rule
    pub nontrivial: bool,
    /// canonical rendering of the generated input (used for distinctness, samples and reports)
    pub repr: String,
    pub fail: Option<String>,
    pub discard: bool,
}
impl Case {
    pub fn ok(repr: String, nontrivial: bool) -> Self {
        Case { nontrivial, repr, fail: None, discard: false }
    }
    pub fn fail(repr: String, msg: impl Into<String>) -> Self {
        Case { nontrivial: true, repr, fail: Some(msg.into()), discard: false }
    }
    pub fn discard() -> Self {
        Case { nontrivial: false, repr: String::new(), fail: None, discard: true }
    }
    pub fn check(repr: String, nontrivial: bool, r: Result<(), String>) -> Self {
        match r {
            Ok(()) => Case::ok(repr, nontrivial),
            Err(e) => Case::fail(repr, e),
        }
    }
}

pub struct Ctx {
    pub scratch: PathBuf,
    pub bin: PathBuf,
    pub thorough: bool,
    pub n: u64,
}
impl Ctx {
    /// A fresh, empty directory inside this worker's scratch directory.
    pub fn fresh_dir(&mut self, name: &str) -> PathBuf {
        self.n += 1;
        let d = self.scratch.join(format!("{name}{}", self.n));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> Case,
    pub quick: u64,
    pub thorough: u64,
    /// seconds without progress on a single case after which the case counts as a hang
    pub hang: u64,
    pub rule: &'static str,
    pub oracle: &'static str,
    pub known: fn(&mut Ctx) -> Vec<Known>,
}
/// Outcome of re-running the witness of an entry of known_findings.txt
pub struct Known {
    pub id: String,
    pub what: String,
    pub still_fails: bool,
}
pub fn no_known(_: &mut Ctx) -> Vec<Known> {
    vec![]
}

// ---------------------------------------------------------------- executing one case

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static ANY_PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("panic at {loc}: {msg}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m.clone()));
        *ANY_PANIC.lock().unwrap() = Some(m);
    }));
}

/// Runs `f`, turning a panic into Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .or_else(|| ANY_PANIC.lock().unwrap().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Case {
    match guard(|| (p.run)(src, ctx)) {
        Ok(c) => c,
        Err(e) => Case::fail(String::from("<panicked while the case was executing>"), e),
    }
}

// ---------------------------------------------------------------- shrinking

fn shrink(
    start: Vec<u64>,
    budget: Duration,
    max_runs: usize,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut runs = 0usize;
    let mut improved = true;
    let key = |v: &Vec<u64>| (v.len(), v.iter().map(|x| *x as u128).sum::<u128>());
    macro_rules! attempt {
        ($cand:expr) => {{
            runs += 1;
            if runs > max_runs || t0.elapsed() > budget {
                return best;
            }
            match fails(&$cand) {
                Some(rec) => {
                    let mut rec = rec;
                    while rec.last() == Some(&0) {
                        rec.pop();
                    }
                    if key(&rec) < key(&best) {
                        best = rec;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    while improved {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if attempt!(c) {
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).clamp(1, 16);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if attempt!(c) {
                        improved = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // reduce single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            let mut lo = 0u64;
            let mut hi = v;
            let mut tries = 0;
            while lo < hi && tries < 8 && i < best.len() {
                tries += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) {
                    improved = true;
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i];
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // remove (decrement i, delete later element) pairs: helps with counts
        let mut i = 0;
        while i + 1 < best.len() && best.len() < 300 {
            if best[i] > 0 {
                for j in i + 1..(i + 8).min(best.len()) {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.remove(j);
                    if attempt!(c) {
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}

// ---------------------------------------------------------------- worker

pub struct WorkerArgs {
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub cases: u64,
    pub thorough: bool,
    pub dir: PathBuf,
    pub bin: PathBuf,
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(16 << 20).spawn(f).unwrap().join().unwrap()
}

pub fn worker(p: &'static Prop, a: WorkerArgs) {
    limit_memory();
    install_panic_hook();
    on_big_stack(move || worker_main(p, a));
}

fn worker_main(p: &'static Prop, a: WorkerArgs) {
    let scratch = a.dir.join(format!("w{}", a.shard));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut ctx = Ctx { scratch, bin: a.bin.clone(), thorough: a.thorough, n: 0 };
    let prog = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(a.dir.join(format!("prog{}", a.shard)))
        .unwrap();
    use std::os::unix::fs::FileExt;
    let mut evals = 0u64;
    let mut discards = 0u64;
    let mut nontrivial = 0u64;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut failure: Option<Value> = None;
    let mut i = a.shard;
    while i < a.cases {
        prog.write_at(&(i + 1).to_le_bytes(), 0).unwrap();
        let cs = case_seed(a.seed, p.id, i);
        let mut src = Src::random(cs);
        let c = run_case(p, &mut src, &mut ctx);
        if c.discard {
            discards += 1;
            i += a.nshards;
            continue;
        }
        evals += 1;
        for l in &src.labels {
            *labels.entry(l).or_default() += 1;
        }
        if c.nontrivial {
            nontrivial += 1;
            if keys.insert(hash_str(&c.repr)) && samples.len() < 3 && (evals % 7 == 3 || evals > 200) {
                samples.push(truncate(&c.repr, 600));
            }
        }
        if let Some(msg) = c.fail {
            prog.write_at(&u64::MAX.to_le_bytes(), 0).unwrap();
            // used while developing: stop at the first failure, without shrinking
            let budget = if std::env::var_os("VH_FIRST").is_some() { 0 } else { 40 };
            let best = shrink(src.rec.clone(), Duration::from_secs(budget), 6000, |cand| {
                let mut s = Src::from_choices(cand.to_vec());
                let c = run_case(p, &mut s, &mut ctx);
                c.fail.map(|_| s.rec)
            });
            let mut s = Src::from_choices(best.clone());
            let c2 = run_case(p, &mut s, &mut ctx);
            let (m, r) = match c2.fail {
                Some(m) => (m, c2.repr),
                None => (format!("{msg} (did not fail again on replay)"), c.repr),
            };
            failure = Some(json!({"index": i, "choices": best, "message": m, "input": r, "kind": "assertion"}));
            break;
        }
        i += a.nshards;
    }
    let out = json!({
        "evals": evals, "discards": discards, "nontrivial": nontrivial,
        "keys": keys.into_iter().collect::<Vec<_>>(),
        "samples": samples,
        "labels": labels.into_iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
        "failure": failure,
    });
    std::fs::write(a.dir.join(format!("out{}", a.shard)), serde_json::to_vec(&out).unwrap()).unwrap();
    prog.write_at(&u64::MAX.to_le_bytes(), 0).unwrap();
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

// ---------------------------------------------------------------- parent

pub fn scratch_root(id: &str) -> PathBuf {
    let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp/vh-scratch".into());
    let d = PathBuf::from(base).join(format!("{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn kill_group(child: &mut std::process::Child) {
    unsafe {
        libc::kill(-(child.id() as i32), libc::SIGKILL);
    }
    let _ = child.wait();
}

pub fn check(p: &'static Prop, tier: &str, seed: u64, verif: &Path, bin: &Path, override_cases: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let cases = override_cases.unwrap_or(if thorough { p.thorough } else { p.quick });
    let dir = scratch_root(p.id);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8) as u64;
    let n = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    let first = std::env::var_os("VH_FIRST").is_some();
    let exe = std::env::current_exe().unwrap();
    let spawn = |shard: u64| {
        use std::os::unix::process::CommandExt;
        Command::new(&exe)
            .args(["worker", p.id, tier, &seed.to_string(), &shard.to_string(), &n.to_string(), &cases.to_string()])
            .arg(&dir)
            .arg(bin)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(dir.join(format!("err{shard}"))).unwrap())
            .process_group(0)
            .spawn()
            .unwrap()
    };
    let mut kids: Vec<(u64, Option<std::process::Child>, u64, Instant)> =
        (0..n).map(|s| (s, Some(spawn(s)), 0, Instant::now())).collect();
    let mut failures: Vec<Value> = vec![];
    let read_prog = |s: u64| -> u64 {
        std::fs::read(dir.join(format!("prog{s}")))
            .ok()
            .filter(|b| b.len() >= 8)
            .map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()))
            .unwrap_or(0)
    };
    loop {
        let mut alive = false;
        for (s, kid, last, at) in kids.iter_mut() {
            let Some(k) = kid.as_mut() else { continue };
            let prog = read_prog(*s);
            match k.try_wait().unwrap() {
                Some(st) => {
                    if !st.success() {
                        let err = std::fs::read_to_string(dir.join(format!("err{s}"))).unwrap_or_default();
                        let idx = read_prog(*s).wrapping_sub(1);
                        failures.push(json!({"index": idx, "kind": "crash",
                            "message": format!("the process running the case died: {st}; stderr: {}", truncate(&err, 600)),
                            "input": "", "choices": []}));
                    }
                    kill_group(k);
                    *kid = None;
                }
                None => {
                    alive = true;
                    if prog != *last {
                        *last = prog;
                        *at = Instant::now();
                    } else if prog != u64::MAX && at.elapsed() > Duration::from_secs(if first { 15 } else { p.hang }) {
                        kill_group(k);
                        *kid = None;
                        failures.push(json!({"index": prog.wrapping_sub(1), "kind": "hang",
                            "message": format!("no answer within {} s (does not terminate)", p.hang),
                            "input": "", "choices": []}));
                    }
                }
            }
        }
        if !alive {
            break;
        }
        if first && (!failures.is_empty() || (0..n).any(|s| dir.join(format!("out{s}")).exists() && std::fs::read_to_string(dir.join(format!("out{s}"))).is_ok_and(|t| !t.contains("\"failure\":null") && t.ends_with('}')))) {
            for (_, k, _, _) in kids.iter_mut() {
                if let Some(k) = k {
                    kill_group(k);
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // aggregate
    let mut evals = 0;
    let mut discards = 0;
    let mut nontrivial = 0;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    for s in 0..n {
        let Ok(b) = std::fs::read(dir.join(format!("out{s}"))) else { continue };
        let v: Value = serde_json::from_slice(&b).unwrap();
        evals += v["evals"].as_u64().unwrap();
        discards += v["discards"].as_u64().unwrap();
        nontrivial += v["nontrivial"].as_u64().unwrap();
        for k in v["keys"].as_array().unwrap() {
            keys.insert(k.as_u64().unwrap());
        }
        for x in v["samples"].as_array().unwrap() {
            if samples.len() < 6 {
                samples.push(x.as_str().unwrap().to_string());
            }
        }
        for (k, x) in v["labels"].as_object().unwrap() {
            *labels.entry(k.clone()).or_default() += x.as_u64().unwrap();
        }
        if !v["failure"].is_null() {
            failures.push(v["failure"].clone());
        }
    }
    // A hang or crash: reproduce the generated input, and shrink it in sub-processes.
    for f in failures.iter_mut() {
        if f["kind"] == "assertion" || first {
            continue;
        }
        let idx = f["index"].as_u64().unwrap_or(0);
        let (choices, repr) = external_shrink(p, seed, idx, tier, &dir, bin, f["kind"].as_str().unwrap());
        f["choices"] = json!(choices);
        if !repr.is_empty() {
            f["input"] = json!(repr);
        }
    }
    failures.sort_by_key(|f| f["choices"].as_array().map(|a| a.len()).unwrap_or(usize::MAX));
    let mut ctx = Ctx { scratch: dir.join("known"), bin: bin.to_path_buf(), thorough, n: 0 };
    std::fs::create_dir_all(&ctx.scratch).unwrap();
    install_panic_hook();
    let mut known_out = vec![];
    for k in (p.known)(&mut ctx) {
        if k.still_fails {
            println!("KNOWN-FINDING: property={} {} {}", p.id, k.id, k.what);
        } else {
            println!("note: known finding {} of {} no longer fails", k.id, p.id);
        }
        known_out.push(json!({"id": k.id, "still_fails": k.still_fails}));
    }
    let replays = verif.join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let mut viol = vec![];
    for (i, f) in failures.iter().take(3).enumerate() {
        let path = replays.join(format!("{}-{}-{}.json", p.id, seed, i));
        let mut o = f.clone();
        o["property"] = json!(p.id);
        o["seed"] = json!(seed);
        o["tier"] = json!(tier);
        std::fs::write(&path, serde_json::to_vec_pretty(&o).unwrap()).unwrap();
        println!("VIOLATION property={} replay={}", p.id, path.display());
        println!("  {}", f["message"].as_str().unwrap_or("").replace('\n', "\n  "));
        println!("  input: {}", truncate(f["input"].as_str().unwrap_or(""), 2500).replace('\n', "\n  "));
        viol.push(json!({"replay": path.display().to_string(), "message": f["message"]}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": keys.len(), "rule": p.rule, "samples": samples,
            "discarded": discards, "nontrivial": nontrivial, "classes": labels, "oracle": p.oracle,
            "cases_requested": cases, "known_findings": known_out,
        },
        "assumptions": [
            "the oracle in /verif/harness states the property; inputs outside the generator's domain (described in DESIGN.md) are not explored",
            format!("checked binary and libraries were built from /repo's working tree (debug assertions and overflow checks on)"),
        ],
        "wall_s": wall,
        "violations": failures.len(),
        "violation_details": viol,
    });
    let evd = verif.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s, {} violation(s)",
        p.id, tier, evals, keys.len(), discards, wall, failures.len()
    );
    let _ = std::io::stdout().flush();
    if !failures.is_empty() {
        return 1;
    }
    if evals == 0 || keys.is_empty() {
        eprintln!("no non-trivial case was explored");
        return 2;
    }
    0
}

/// Runs one case in a sub-process; Some(true) if it hangs/crashes.
fn external_run(p: &Prop, file: &Path, tier: &str, dir: &Path, bin: &Path, limit: Duration) -> (bool, String) {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().unwrap();
    let outp = dir.join("ext-out");
    let mut c = Command::new(exe)
        .args(["one", p.id, tier])
        .arg(file)
        .arg(dir)
        .arg(bin)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&outp).unwrap())
        .stderr(Stdio::null())
        .process_group(0)
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let o = std::fs::read_to_string(&outp).unwrap_or_default();
            kill_group(&mut c);
            return (!st.success(), o);
        }
        if t.elapsed() > limit {
            kill_group(&mut c);
            return (true, std::fs::read_to_string(&outp).unwrap_or_default());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn external_shrink(p: &Prop, seed: u64, idx: u64, tier: &str, dir: &Path, bin: &Path, kind: &str) -> (Vec<u64>, String) {
    // The choices are re-recorded by the sub-process up to the point of failure.
    let f = dir.join("ext.json");
    std::fs::write(&f, json!({"random": case_seed(seed, p.id, idx)}).to_string()).unwrap();
    let limit = if kind == "hang" { Duration::from_secs(4) } else { Duration::from_secs(20) };
    let (_, out) = external_run(p, &f, tier, dir, bin, limit);
    let recs = |o: &str| -> Vec<u64> {
        o.lines().filter_map(|l| l.strip_prefix("C ")).filter_map(|x| x.trim().parse().ok()).collect()
    };
    let start = recs(&out);
    let best = shrink(start, Duration::from_secs(60), 150, |c| {
        std::fs::write(&f, json!({"choices": c}).to_string()).unwrap();
        let (bad, o) = external_run(p, &f, tier, dir, bin, limit);
        if bad { Some(recs(&o)) } else { None }
    });
    std::fs::write(&f, json!({"choices": best}).to_string()).unwrap();
    let (_, o) = external_run(p, &f, tier, dir, bin, limit);
    let repr: String = o.lines().filter_map(|l| l.strip_prefix("R ")).collect::<Vec<_>>().join("\n");
    (best, repr)
}

thread_local! {
    pub static TRACE: RefCell<bool> = const { RefCell::new(false) };
}
/// Announce the input of the case about to be executed (used to describe hangs and crashes).
pub fn announce(src: &Src, repr: &str) {
    if TRACE.with(|t| *t.borrow()) {
        let mut o = std::io::stdout().lock();
        for c in &src.rec {
            let _ = writeln!(o, "C {c}");
        }
        for l in repr.lines() {
            let _ = writeln!(o, "R {l}");
        }
        let _ = o.flush();
    }
}

pub fn one(p: &'static Prop, tier: &str, file: &Path, dir: &Path, bin: &Path) -> i32 {
    limit_memory();
    install_panic_hook();
    // A hanging case must not outlive the check which started it
    let parent = unsafe { libc::getppid() };
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if unsafe { libc::getppid() } != parent {
                std::process::exit(4);
            }
        }
    });
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let scratch = dir.join("one");
    std::fs::create_dir_all(&scratch).unwrap();
    let thorough = tier == "thorough";
    let bin = bin.to_path_buf();
    on_big_stack(move || {
        TRACE.with(|t| *t.borrow_mut() = true);
        let mut ctx = Ctx { scratch, bin, thorough, n: 0 };
        let mut src = match v["random"].as_u64() {
            Some(s) => Src::random(s),
            None => Src::from_choices(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()),
        };
        let _ = run_case(p, &mut src, &mut ctx);
    });
    0
}

pub fn replay(p: &'static Prop, file: &Path, bin: &Path) -> i32 {
    install_panic_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let dir = scratch_root(p.id);
    let bin = bin.to_path_buf();
    let thorough = v["tier"] == "thorough";
    let d = dir.clone();
    let kind = v["kind"].as_str().unwrap_or("").to_string();
    if kind == "hang" || kind == "crash" {
        let f = dir.join("ext.json");
        std::fs::write(&f, json!({"choices": v["choices"]}).to_string()).unwrap();
        let (bad, o) = external_run(p, &f, v["tier"].as_str().unwrap_or("quick"), &dir, &bin, Duration::from_secs(p.hang));
        println!("{o}");
        let _ = std::fs::remove_dir_all(&dir);
        println!("{}", if bad { "still fails" } else { "passes" });
        return bad as i32;
    }
    let r = on_big_stack(move || {
        let mut ctx = Ctx { scratch: d, bin, thorough, n: 0 };
        let mut src = Src::from_choices(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect());
        let c = run_case(p, &mut src, &mut ctx);
        println!("input:\n{}", c.repr);
        match c.fail {
            Some(m) => {
                println!("FAILS: {m}");
                1
            }
            None => {
                println!("passes");
                0
            }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    r
}
