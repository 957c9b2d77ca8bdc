//! Properties of lit, decided by running the litcheck binary on generated test suites.
use crate::engine::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub elapsed: Duration,
    pub killed: bool,
}

/// Run the litcheck binary in its own process group with a clean environment. Whatever is left of
/// the process group afterwards is killed.
pub fn run_bin(bin: &Path, args: &[String], cwd: &Path, tmp: &Path, stdin: Option<&[u8]>, limit: u64) -> Out {
    run_bin_env(bin, args, cwd, tmp, stdin, limit, &[])
}

pub fn run_bin_env(bin: &Path, args: &[String], cwd: &Path, tmp: &Path, stdin: Option<&[u8]>, limit: u64, env: &[(&str, String)]) -> Out {
    let t0 = Instant::now();
    let mut c = Command::new(bin);
    c.args(args)
        .current_dir(cwd)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("TMPDIR", tmp)
        .env("HOME", tmp)
        .env("INHERITED", "outer")
        .env("NO_COLOR", "1")
        .envs(env.iter().map(|(k, v)| (*k, v.as_str())))
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .process_group(0);
    // Signals which are ignored where the check is started (e.g. in the background) stay ignored in
    // programs run from it
    unsafe {
        c.pre_exec(|| {
            for sig in 1..32 {
                libc::signal(sig, libc::SIG_DFL);
            }
            libc::umask(0o022);
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("cannot run litcheck");
    let pid = ch.id() as i32;
    if let (Some(mut i), Some(b)) = (ch.stdin.take(), stdin) {
        let b = b.to_vec();
        std::thread::spawn(move || {
            use std::io::Write;
            let _ = i.write_all(&b);
        });
    }
    fn rd<R: Read + Send + 'static>(mut r: R) -> std::thread::JoinHandle<Vec<u8>> {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = r.read_to_end(&mut v);
            v
        })
    }
    let (o, e) = (rd(ch.stdout.take().unwrap()), rd(ch.stderr.take().unwrap()));
    let mut killed = false;
    let status = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(limit) {
            killed = true;
            unsafe { libc::kill(-pid, libc::SIGKILL) };
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let elapsed = t0.elapsed();
    unsafe { libc::kill(-pid, libc::SIGKILL) };
    let lossy = |h: std::thread::JoinHandle<Vec<u8>>| String::from_utf8_lossy(&h.join().unwrap()).into_owned();
    Out { code: status.code(), stdout: lossy(o), stderr: lossy(e), elapsed, killed }
}

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|x| x.to_string()).collect()
}

/// A directory tree written to disk for one case, removed on drop.
pub struct Tree {
    pub root: PathBuf,
    pub files: Vec<(String, String)>,
}
impl Tree {
    pub fn new(ctx: &mut Ctx) -> Self {
        let root = ctx.fresh_dir("suite").canonicalize().unwrap();
        std::fs::create_dir_all(root.join("tmp")).unwrap();
        std::fs::create_dir_all(root.join("w")).unwrap();
        Tree { root, files: vec![] }
    }
    /// the directory lit is run in
    pub fn w(&self) -> PathBuf {
        self.root.join("w")
    }
    pub fn dir(&self, rel: &str) {
        std::fs::create_dir_all(self.w().join(rel)).unwrap();
    }
    pub fn file(&mut self, rel: &str, text: &str) {
        let p = self.w().join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
        self.files.push((s(rel), s(text)));
    }
    pub fn lit(&self, ctx: &Ctx, args: &[String]) -> Out {
        self.lit_limit(ctx, args, 60)
    }
    pub fn lit_limit(&self, ctx: &Ctx, args: &[String], limit: u64) -> Out {
        let mut a = strs(&["lit"]);
        a.extend(args.iter().cloned());
        run_bin(&ctx.bin, &a, &self.w(), &self.root.join("tmp"), None, limit)
    }
    pub fn read(&self, rel: &str) -> String {
        std::fs::read(self.w().join(rel)).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()
    }
    pub fn show(&self, args: &[String]) -> String {
        let mut o = format!("litcheck lit {}\n", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "));
        for (n, t) in &self.files {
            o.push_str(&format!("==== {n}\n{}\n", t.replace('\r', "\\r")));
        }
        o
    }
}
impl Drop for Tree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

pub const TAGS: &[&str] = &["PASS", "FLAKYPASS", "FAIL", "XFAIL", "XPASS", "UNRESOLVED", "TIMEOUT", "UNSUPPORTED", "EXCLUDED", "SKIPPED"];

/// `TAG: name` lines of the output, in order
pub fn tags(out: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in out.lines() {
        if let Some((t, n)) = l.split_once(": ") {
            if TAGS.contains(&t) && n.contains("::") {
                v.push((s(t), s(n)));
            }
        }
    }
    v
}
pub fn label(tag: &str) -> &'static str {
    match tag {
        "PASS" => "Passed",
        "FLAKYPASS" => "Passed With Retry",
        "FAIL" => "Failed",
        "XFAIL" => "Failed As Expected",
        "XPASS" => "Unexpectedly Passed",
        "UNRESOLVED" => "Unresolved",
        "TIMEOUT" => "Timed Out",
        "UNSUPPORTED" => "Unsupported",
        "EXCLUDED" => "Excluded",
        _ => "Skipped",
    }
}
pub fn is_failure(tag: &str) -> bool {
    ["FAIL", "XPASS", "UNRESOLVED", "TIMEOUT"].contains(&tag)
}
fn clip(o: &Out) -> String {
    format!("exit={:?} killed={}\nstdout:\n{}\nstderr:\n{}", o.code, o.killed, truncate(&o.stdout, 2500), truncate(&o.stderr, 1500))
}

/// Check the complete report of a run against the expected outcome of every test.
/// `want`: test name -> tag (EXCLUDED for those which are filtered out).
pub fn check_report(o: &Out, want: &BTreeMap<String, String>, quiet: bool) -> Result<(), String> {
    if o.killed {
        return Err(format!("lit did not terminate\n{}", clip(o)));
    }
    let selected = want.values().any(|t| t != "EXCLUDED");
    if !selected {
        return if o.code == Some(0) { Err(format!("no test was selected, but lit exited with 0\n{}", clip(o))) } else { Ok(()) };
    }
    let mut exp: Vec<(String, String)> = want.iter().filter(|(_, t)| *t != "EXCLUDED" && (!quiet || is_failure(t))).map(|(n, t)| (t.clone(), n.clone())).collect();
    exp.sort();
    let mut got = tags(&o.stdout);
    got.sort();
    if exp != got {
        let a: Vec<_> = exp.iter().filter(|x| !got.contains(x)).collect();
        let b: Vec<_> = got.iter().filter(|x| !exp.contains(x)).collect();
        return Err(format!("outcomes differ: expected but not reported {a:?}, reported but not expected {b:?} (or a different number of times)\n{}", clip(o)));
    }
    let fails = want.values().any(|t| is_failure(t));
    if (o.code == Some(0)) == fails || o.code.is_none() {
        return Err(format!("exit status {:?}, but {} test failed\n{}", o.code, if fails { "a" } else { "no" }, clip(o)));
    }
    // grouped lists and the summary
    let mut by: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for (n, t) in want {
        by.entry(t).or_default().insert(n);
    }
    let mut groups: BTreeMap<String, (usize, Vec<String>)> = BTreeMap::new();
    let mut cur: Option<String> = None;
    let mut total = None;
    let mut summary: BTreeMap<String, usize> = BTreeMap::new();
    for l in o.stdout.lines() {
        if let Some(r) = l.strip_prefix("******************** ") {
            let (lab, n) = r.rsplit_once(" Tests (").ok_or(format!("bad group header {l:?}"))?;
            let n = n.trim_end_matches("):").parse().map_err(|_| format!("bad group header {l:?}"))?;
            groups.insert(s(lab), (n, vec![]));
            cur = Some(s(lab));
        } else if let Some(r) = l.strip_prefix("Total Discovered Tests: ") {
            total = r.trim().parse::<usize>().ok();
            cur = None;
        } else if total.is_some() {
            if let Some((lab, r)) = l.split_once(": ") {
                if let Some(n) = r.trim().split(' ').next().and_then(|x| x.parse().ok()) {
                    summary.insert(s(lab.trim()), n);
                }
            }
        } else if let (Some(c), Some(n)) = (&cur, l.strip_prefix("  ")) {
            groups.get_mut(c).unwrap().1.push(s(n));
        }
    }
    if total != Some(want.len()) {
        return Err(format!("{} tests were discovered, the summary says {total:?}\n{}", want.len(), clip(o)));
    }
    let exp: BTreeMap<String, usize> = by.iter().map(|(t, v)| (s(label(t)), v.len())).collect();
    if exp != summary {
        return Err(format!("summary counts are {summary:?}, expected {exp:?}\n{}", clip(o)));
    }
    for (t, names) in &by {
        if quiet && !is_failure(t) {
            continue;
        }
        let Some((n, l)) = groups.get(label(t)) else {
            return Err(format!("no list of {t} tests\n{}", clip(o)));
        };
        let mut l: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
        l.sort();
        if *n != names.len() || l != names.iter().copied().collect::<Vec<_>>() {
            return Err(format!("list of {t} tests is {l:?} ({n}), expected {names:?}\n{}", clip(o)));
        }
    }
    let exp_groups = by.keys().filter(|t| !quiet || is_failure(t)).count();
    if groups.len() != exp_groups {
        return Err(format!("unexpected groups {:?}\n{}", groups.keys().collect::<Vec<_>>(), clip(o)));
    }
    Ok(())
}

// ---------------------------------------------------------------- L02: test scripts

struct Cmd {
    /// shell text, possibly over several lines (continuations)
    parts: Vec<String>,
    out: String,
    ok: bool,
}

/// A command which appends a known text to the log and succeeds or fails
fn gen_cmd(src: &mut Src, k: usize, log: &str, ok: bool, pipefail: bool) -> Cmd {
    let m = format!("m{k}");
    let st = if ok { "true" } else { ["false", "(exit 3)", "test 1 = 2"][src.below(3)] };
    let one = |t: String, out: String| Cmd { parts: vec![t], out, ok };
    match src.weighted(&[6, 3, 2, 2, 2, 2, 2, 2, 4, 3, 2]) {
        // the status of the first command of a pipeline counts with `pipefail` only
        10 if ok != pipefail => one(format!("(echo {m} >> {log}; {}) | cat", ["false", "exit 3"][src.below(2)]), format!("{m}\n")),
        0 if ok => one(format!("echo {m} >> {log}"), format!("{m}\n")),
        0 | 1 => one(format!("echo {m} >> {log}; {st}"), format!("{m}\n")),
        2 => one(format!("false || echo {m} >> {log} && {st}"), format!("{m}\n")),
        3 => one(format!("echo {m} | cat >> {log}; {st}"), format!("{m}\n")),
        4 => one(format!("if true; then echo '{m}  #x' >> {log}; fi; {st} # comm{}ent", if src.chance(1, 8) { "\0" } else { "" }), format!("{m}  #x\n")),
        5 => one(format!("(echo {m}; echo \"b  c\") >> {log} && {st}"), format!("{m}\nb  c\n")),
        6 => one(format!("echo {m} >> {log} && {st};"), format!("{m}\n")),
        7 => one(format!("for i in 1 2; do echo {m}.$i >> {log}; done; {st}"), format!("{m}.1\n{m}.2\n")),
        8 => {
            let mut parts = vec![format!("echo {m} a ")];
            for j in 0..src.below(3) {
                parts.push(format!("{}p{j} ", ["", " ", "   "][src.below(3)]));
            }
            parts.push(format!("{}z >> {log}; {st}", ["", " ", "\t"][src.below(3)]));
            let words: Vec<String> = parts.iter().flat_map(|p| p.split_whitespace().map(|w| s(w))).collect();
            let e = words.iter().position(|w| w == ">>").unwrap();
            let out = words[1..e].join(" ") + "\n";
            Cmd { parts, out, ok }
        }
        10 => one(format!("echo {m} | tee -a {log} | {}", if ok { "cat" } else { "(cat; false)" }), format!("{m}\n")),
        _ => {
            // a line break inside of a word: the line is joined as is
            let sp = ["", " ", "  "][src.below(3)];
            Cmd { parts: vec![format!("echo '{m}'x"), format!("{sp}y >> {log}; {st}")], out: format!("{m}x{}y\n", if sp.is_empty() { "" } else { " " }), ok }
        }
    }
}

fn leader(src: &mut Src) -> &'static str {
    ["// ", "# ", "", ";", "  ", "\t", "/* ", "some text ", "éß ", "x"][src.weighted(&[6, 3, 2, 1, 1, 1, 1, 1, 1, 1])]
}
const NOISE: &[&str] = &["", "", "some text", "// run: echo bad >> LOG", "RUN echo bad >> LOG", "// RUN : echo bad >> LOG", "# RUN- echo bad", "// END", "END. of file", "CHECK: m0", "// RUN", "%(line) \\", "\\", "// DEFINE %{x}=1", "\u{0}RU N:", "é", "XFAI L: *", "  "];

/// where each command starts (line), the commands, and what %(line) pieces expand to
struct Script {
    text: String,
    cmds: Vec<(usize, Cmd)>,
    nontrivial: bool,
    bad: bool,
}

fn gen_script(src: &mut Src, id: usize, pipefail: bool) -> Script {
    let log = format!("log.{id}");
    let eol = if src.chance(1, 6) { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = vec![];
    let mut cmds: Vec<(usize, Cmd)> = vec![];
    let n = src.range(1, 6);
    let fail_at = if src.chance(2, 5) { src.below(n) } else { n };
    let mut nontrivial = n > 2;
    let noise = |src: &mut Src, lines: &mut Vec<String>| {
        while src.chance(1, 3) {
            let t = src.pick(NOISE).replace("LOG", &log);
            lines.push(t);
        }
    };
    let mut bad = false;
    for k in 0..n {
        noise(src, &mut lines);
        let start = lines.len() + 1;
        let mut c = gen_cmd(src, k, &log, k != fail_at, pipefail);
        // use the line number in some part
        if src.chance(1, 3) {
            src.label("line-number");
            nontrivial = true;
            let pi = src.below(c.parts.len());
            let line = start + pi;
            let (t, v) = match src.below(7) {
                0 => (s("%(line)"), line),
                1 => (s("%(line+1)"), line + 1),
                2 => (s("%(line + 10)"), line + 10),
                3 => (s("%(line-1)"), line - 1),
                4 => (s("%(line - 3)"), line.saturating_sub(3)),
                5 => (s("%(line+ 007)"), line + 7),
                _ => (s("%(line -200)"), 0),
            };
            // a separate command before the text of a part would change the meaning of a
            // continuation, so wrap: the number goes to the log on its own line before
            if pi == 0 {
                c.parts[0] = format!("echo L{t}L >> {log}; {}", c.parts[0]);
                c.out = format!("L{v}L\n{}", c.out);
            } else {
                let last = c.parts.len() - 1;
                if pi == last {
                    c.parts[last] = format!("{} && echo L{t}L >> {log}", c.parts[last]);
                    if c.ok {
                        c.out = format!("{}L{v}L\n", c.out);
                    }
                }
            }
        }
        if c.parts.len() > 1 {
            src.label("continuation");
            nontrivial = true;
        }
        let np = c.parts.len();
        let sp = ["", " ", "  ", "\t"][src.below(4)];
        for (i, p) in c.parts.iter().enumerate() {
            let mut l = format!("{}RUN:{}{}", leader(src), if i == 0 { sp } else { "" }, p);
            if i + 1 < np {
                l.push('\\');
                if src.chance(1, 8) {
                    src.label("blank-after-backslash");
                    l.push_str([" ", "  ", "\t"][src.below(3)]);
                }
            } else if src.chance(1, 5) {
                l.push_str([" ", "  ", "\t"][src.below(3)]);
            }
            lines.push(l);
            if i + 1 < np && src.chance(1, 60) {
                // break the continuation
                src.label("broken-continuation");
                bad = true;
                lines.push(s(["plain text", "", "// DEFINE: %{x}=1", "// XFAIL: *", "// END.", "// REQUIRES: true \\"][src.below(6)]));
            }
        }
        cmds.push((start, c));
    }
    noise(src, &mut lines);
    // an invalid script
    if src.chance(1, 12) {
        src.label("invalid");
        bad = true;
        let l = *src.pick(&["// ALLOWED_RETRIES: x", "// ALLOWED_RETRIES: -1", "// DEFINE: x=1", "// DEFINE: %{1x}=1", "// REQUIRES: a &&", "// XFAIL: (b", "// UNSUPPORTED: ||", "// DEFINE: %{x} 1", "// REDEFINE: %{ x}=1", "// RUN: echo %(line+99999999999999999999)", "// REQUIRES: a,,b", "// UNSUPPORTED: ,a", "// REQUIRES: true,", "// XFAIL:", "// REQUIRES: ,", "// ALLOWED_RETRIES: 1\n// ALLOWED_RETRIES: 2"]);
        // not inside of a continuation
        let mut at = src.below(lines.len() + 1);
        while at > 0 && lines[at - 1].trim_end().ends_with('\\') && lines[at - 1].contains("RUN:") {
            at -= 1;
        }
        lines.insert(at, s(l));
    }
    // the end marker
    if src.chance(1, 5) {
        src.label("end");
        nontrivial = true;
        lines.push(format!("{}END.{}", leader(src), ["", " ", "  "][src.below(3)]));
        for _ in 0..src.range(0, 3) {
            let t = src.pick(&["// RUN: echo after >> LOG", "// RUN: false", "// ALLOWED_RETRIES: x", "// XFAIL: *", "// END.", "text", "// RUN: false \\"]).replace("LOG", &log);
            lines.push(t);
        }
    } else if src.chance(1, 25) {
        // nothing to run at all
        src.label("no-run");
        bad = true;
        lines.insert(0, s("// END."));
    }
    let mut text = lines.join(eol);
    if src.chance(2, 3) {
        text.push_str(eol);
    } else {
        src.label("unterminated");
    }
    Script { text, cmds, nontrivial, bad }
}

fn l02(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    let (format, pipefail) = match src.weighted(&[5, 1, 1, 1]) {
        0 => ("", false),
        1 => ("format = { shtest = {} }\n", false),
        2 => ("format = { shtest = { shell = \"bash\" } }\n", false),
        _ => {
            src.label("pipefail");
            ("format = { shtest = { shell = \"bash\", pipefail = true } }\n", true)
        }
    };
    t.file("lit.suite.toml", &format!("name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \"exec\"\n{format}"));
    t.dir("exec");
    let n = src.range(1, 4);
    let mut scripts = vec![];
    for i in 0..n {
        let sc = gen_script(src, i, pipefail);
        t.file(&format!("t{i}.t"), &sc.text);
        scripts.push(sc);
    }
    let j = src.range(1, 4);
    let args = vec![s("run"), s("-v"), format!("-j{j}"), s(".")];
    let o = t.lit(ctx, &args);
    let repr = t.show(&args);
    let nontrivial = scripts.iter().any(|x| x.nontrivial);
    let r = (|| {
        let mut want = BTreeMap::new();
        for (i, sc) in scripts.iter().enumerate() {
            let fail = sc.cmds.iter().position(|(_, c)| !c.ok);
            let tag = if sc.bad { "UNRESOLVED" } else if fail.is_some() { "FAIL" } else { "PASS" };
            want.insert(format!("s::t{i}.t"), s(tag));
            let mut log = String::new();
            if !sc.bad {
                for (_, c) in &sc.cmds {
                    log.push_str(&c.out);
                    if !c.ok {
                        break;
                    }
                }
            }
            let got = t.read(&format!("exec/log.{i}"));
            if got != log {
                return Err(format!("commands of t{i}.t wrote {got:?}, expected {log:?}\n{}", clip(&o)));
            }
        }
        check_report(&o, &want, false)?;
        // -v shows the commands of failed tests with their lines
        let mut cur = None;
        let mut shown: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for l in o.stdout.lines() {
            if let Some((tg, nm)) = l.split_once(": ") {
                if TAGS.contains(&tg) && nm.contains("::") {
                    cur = Some(s(nm));
                }
            }
            if let Some(r) = l.strip_prefix("RUN at line ") {
                if let (Some(c), Some(n)) = (&cur, r.split(':').next().and_then(|x| x.parse().ok())) {
                    shown.entry(c.clone()).or_default().push(n);
                }
            }
        }
        for (i, sc) in scripts.iter().enumerate() {
            if let (false, Some(f)) = (sc.bad, sc.cmds.iter().position(|(_, c)| !c.ok)) {
                let exp: Vec<usize> = sc.cmds[..=f].iter().map(|c| c.0).collect();
                let got = shown.remove(&format!("s::t{i}.t")).unwrap_or_default();
                if got != exp {
                    return Err(format!("lines reported for the commands of t{i}.t are {got:?}, expected {exp:?}\n{}", clip(&o)));
                }
            }
        }
        Ok(())
    })();
    Case::check(repr, nontrivial, r)
}

// ---------------------------------------------------------------- L03: substitutions

/// (key as written in a script, key and value in the suite configuration, expansion)
const CFG: &[(&str, &str, &str, &str)] = &[
    ("%foo", "%foo", "bar", "bar"),
    ("%{cfg}", "%\\{cfg\\}", "c f g", "c f g"),
    ("%v12", "%v[0-9]+", "num", "num"),
    ("@ab@", "@(?<n>[a-z]+)@", "<${n}>", "<ab>"),
    ("%{d}", "%\\{d\\}", "$$x", "$x"),
    ("!!", "!!", "", ""),
    ("%{pc}", "%\\{pc\\}", "5%%s%%{a}", "5%s%{a}"),
];
const KEYS: &[&str] = &["%{a}", "%{B_1}", "%{x:y}", "%{n-m}", "%{cfg}", "%{_}", "%{aa}"];

enum T3 {
    Text(String),
    Temp,
}

fn l03(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    let bin = std::fs::canonicalize(&ctx.bin).unwrap().to_string_lossy().into_owned();
    let dir = *src.pick(&["d", "d e", "d $1 x", "d+[a]", "$0", "é (x)"]);
    let sub = *src.pick(&["", "sub", "$sub{1}"]);
    let p = |x: &str| if sub.is_empty() { s(x) } else { format!("{sub}/{x}") };
    let ncfg = src.below(CFG.len() + 1);
    let mut toml = s("name = \"s\"\npatterns = [\"*\"]\nexclude = [\"lit.*\"]\nworking_dir = \"../exec\"\n[substitutions]\n");
    for (_, k, v, _) in &CFG[..ncfg] {
        toml.push_str(&format!("'{k}' = '{v}'\n"));
    }
    t.dir("exec");
    t.file(&format!("{dir}/lit.suite.toml"), &toml);
    let w = t.w();
    let n = src.range(1, 4);
    let mut want = BTreeMap::new();
    let mut expect: Vec<(String, Vec<Vec<T3>>)> = vec![];
    let mut nontrivial = false;
    for i in 0..n {
        let name = ["t%.t", "t%", "t%.a.b", "$t%.t", ".t% x.t", "t%.$1"][src.weighted(&[5, 3, 2, 2, 1, 2])].replace('%', &i.to_string());
        let name = name.trim_start_matches('.').to_string();
        let abs = w.join(dir).join(p(&name)).to_string_lossy().into_owned();
        let par = Path::new(&abs).parent().unwrap().to_string_lossy().into_owned();
        let mut defs: BTreeMap<String, String> = CFG[..ncfg].iter().filter(|c| c.0.starts_with("%{")).map(|c| (s(c.0), s(c.3))).collect();
        let mut lines: Vec<String> = vec![];
        let mut exp: Vec<Vec<T3>> = vec![];
        let mut bad = false;
        let steps = src.range(1, 7);
        for k in 0..steps {
            if src.chance(1, 6) {
                lines.push(s(["", "text %s", "%{a}=1", "// define: %{a}=9"][src.below(4)]));
            }
            if src.chance(2, 5) {
                // DEFINE or REDEFINE
                let key = s(src.pick(KEYS));
                let exists = defs.contains_key(&key);
                let redefine = if src.chance(1, 25) { !exists } else { exists };
                if redefine != exists {
                    src.label("conflict");
                    bad = true;
                }
                if redefine {
                    src.label("redefine");
                }
                nontrivial = true;
                let line = lines.len() + 1;
                let m = src.below(4);
                let mut val = String::new();
                let mut shown: Vec<String> = vec![];
                for q in 0..m {
                    let (tx, vx) = match src.weighted(&[4, 3, 1, 1, 2]) {
                        4 => {
                            src.label("escape in value");
                            let (a, b) = *src.pick(&[("%%", "%"), ("a%%b", "a%b"), ("%%s", "%s"), ("%%{a}", "%{a}"), ("%%%%", "%%"), ("%%%%{aa}", "%%{aa}")]);
                            (s(a), s(b))
                        }
                        0 => {
                            let x = *src.pick(&["v", "w x", "k=v", "é", "(1)", "a+b", "[z]", "."]);
                            (s(x), s(x))
                        }
                        1 => {
                            let x = *src.pick(&["$1", "$$", "${a}", "$0", "$n", "a$b", "$"]);
                            src.label("dollar");
                            (s(x), s(x))
                        }
                        2 => (s("%(line)"), format!("{line}")),
                        _ => {
                            let x = *src.pick(&["=", "==", "a = b"]);
                            (s(x), s(x))
                        }
                    };
                    if q > 0 {
                        val.push('|');
                    }
                    val.push_str(&vx);
                    shown.push(tx);
                }
                let mut txt = shown.join("|");
                let eq = *src.pick(&["=", " = ", " =", "=  "]);
                if !val.is_empty() && !txt.contains("%(line)") && src.chance(1, 4) {
                    // continuation
                    src.label("define-continuation");
                    let a = *src.pick(&["", " ", "   "]);
                    let b = *src.pick(&["", " ", "  "]);
                    txt = format!("{txt}{a}\\\n// {}DEFINE:{b}tail", if redefine { "RE" } else { "" });
                    val.push_str(" tail");
                }
                let l = format!("{}{}DEFINE:{}{key}{eq}{txt}", *src.pick(&["// ", "# ", ""]), if redefine { "RE" } else { "" }, *src.pick(&["", " ", "  "]));
                for x in l.split('\n') {
                    lines.push(s(x));
                }
                defs.insert(key, s(val.trim()));
                continue;
            }
            // RUN
            let m = src.range(1, 6);
            let mut txt = vec![];
            let mut ex: Vec<T3> = vec![T3::Text(format!("k{k}|"))];
            for q in 0..m {
                let (tx, vx) = match src.weighted(&[3, 6, 3, 4, 3, 3, 2, 4, 3]) {
                    8 => {
                        // the names of the tools stand for the running executable, if they are words
                        src.label("tool");
                        nontrivial = true;
                        match src.below(3) {
                            0 => {
                                let x = *src.pick(&["not", "./not ", " nots ", " not.", "FileCheck", " filechecks ", " FILECHECK ", "-not ", " filecheck:", " filecheck-x "]);
                                (s(x), s(x))
                            }
                            1 => (s(" not "), format!(" {} not ", bin)),
                            _ => {
                                let n = *src.pick(&["filecheck", "FileCheck", "Filecheck", "fileCheck"]);
                                (format!(" {n} "), format!(" {} filecheck ", bin))
                            }
                        }
                    }
                    0 => {
                        let x = *src.pick(&["a", "b c", "$x", "$1", "${y}", "é", "(z)", "*", "%", "100%", "% ", "%-", "#", "@", "{a}"]);
                        (s(x), s(x))
                    }
                    1 => {
                        let x = s(src.pick(KEYS));
                        let v = defs.get(&x).cloned().unwrap_or(x.clone());
                        nontrivial = true;
                        (x, v)
                    }
                    2 => (s("%s"), abs.clone()),
                    3 => match src.below(2) {
                        0 => (s("%S"), par.clone()),
                        _ => (s("%basename_t"), name.clone()),
                    },
                    4 => {
                        src.label("temporary");
                        ex.push(T3::Temp);
                        (s("%t"), s(""))
                    }
                    5 => {
                        src.label("escape");
                        nontrivial = true;
                        let (a, b) = *src.pick(&[("%%", "%"), ("%%s", "%s"), ("%%{a}", "%{a}"), ("%%%%", "%%"), ("%%t%%", "%t%"), ("%%%%{cfg}", "%%{cfg}")]);
                        match src.below(6) {
                            0 => (s("%%%s"), format!("%{abs}")),
                            _ => (s(a), s(b)),
                        }
                    }
                    6 => {
                        let (a, b) = *src.pick(&[("%{pathsep}", ":"), ("%{fs-sep}", "/"), ("%{undefined}", "%{undefined}"), ("%{fs-src-root}", "/"), ("%{a", "%{a"), ("%{ a}", "%{ a}")]);
                        (s(a), s(b))
                    }
                    _ => {
                        if ncfg == 0 {
                            (s("q"), s("q"))
                        } else {
                            src.label("configured");
                            let c = &CFG[src.below(ncfg)];
                            let v = defs.get(c.0).cloned().unwrap_or(s(c.3));
                            let pre = if src.chance(1, 3) { "x" } else { "" };
                            (format!("{pre}{}", c.0), format!("{pre}{v}"))
                        }
                    }
                };
                if q > 0 {
                    txt.push(s("|"));
                    ex.insert(ex.len() - matches!(ex.last(), Some(T3::Temp)) as usize, T3::Text(s("|")));
                }
                txt.push(tx);
                ex.push(T3::Text(vx));
            }
            ex.push(T3::Text(s("|")));
            lines.push(format!("{}RUN: echo 'k{k}|{}|' >> log.{i}", *src.pick(&["// ", "# ", ""]), txt.concat()));
            exp.push(ex);
        }
        if exp.is_empty() {
            lines.push(format!("RUN: echo 'end' >> log.{i}"));
            exp.push(vec![T3::Text(s("end"))]);
        }
        if src.chance(1, 4) {
            // the temporary file is usable
            lines.push(format!("RUN: echo tmp > '%t' && cat '%t' >> log.{i}"));
            exp.push(vec![T3::Text(s("tmp"))]);
        }
        t.file(&format!("{dir}/{}", p(&name)), &(lines.join("\n") + "\n"));
        want.insert(format!("s::{}", p(&name)), s(if bad { "UNRESOLVED" } else { "PASS" }));
        expect.push((name, if bad { vec![] } else { exp }));
    }
    let args = vec![s("run"), s("-a"), s(dir)];
    let o = t.lit(ctx, &args);
    let repr = t.show(&args);
    let r = (|| {
        let exec = w.join("exec");
        let base = if sub.is_empty() { exec.clone() } else { exec.join(sub) };
        let base = format!("{}/", base.to_string_lossy());
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        for (i, (name, exp)) in expect.iter().enumerate() {
            let log = t.read(&format!("exec/log.{i}"));
            let got: Vec<&str> = log.lines().collect();
            let mut temp: Option<String> = None;
            let err = |l: usize, m: &str| Err(format!("test {i} ({name}), command {l}: {m}\nlog:\n{log}\n{}", clip(&o)));
            if got.len() != exp.len() {
                return err(0, &format!("{} lines were written, expected {}", got.len(), exp.len()));
            }
            for (l, (g, e)) in got.iter().zip(exp).enumerate() {
                let mut rest: &str = g;
                for (ei, x) in e.iter().enumerate() {
                    match x {
                        T3::Text(x) => match rest.strip_prefix(x.as_str()) {
                            Some(r) => rest = r,
                            None => return err(l, &format!("found {rest:?} where {x:?} is expected")),
                        },
                        T3::Temp => {
                            // <working dir>/<test dir>/<unique>/<name>.tmp
                            let tail = format!("/{name}.tmp");
                            let ok = rest.strip_prefix(base.as_str()).and_then(|r| r.find(&tail).map(|k| (k, r)));
                            let Some((k, r)) = ok else { return err(l, &format!("found {rest:?} where the name of the temporary file is expected (element {ei})")) };
                            let u = &r[..k];
                            if u.contains('/') || u.is_empty() {
                                return err(l, &format!("temporary file is not in a directory of its own: {u:?}"));
                            }
                            if temp.get_or_insert(s(u)) != u {
                                return err(l, "the temporary file is not the same in all commands of the test");
                            }
                            rest = &r[k + tail.len()..];
                        }
                    }
                }
                if !rest.is_empty() {
                    return err(l, &format!("unexpected {rest:?} at the end"));
                }
            }
            if let Some(x) = temp {
                if let Some(other) = seen.insert(x, i) {
                    return err(0, &format!("shares its temporary directory with test {other}"));
                }
            }
        }
        check_report(&o, &want, false)
    })();
    Case::check(repr, nontrivial, r)
}

fn l03_known(ctx: &mut Ctx) -> Vec<Known> {
    let mut t = Tree::new(ctx);
    t.file("lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\n");
    t.file("a.t", "// RUN: not not true\n");
    let o = t.lit(ctx, &strs(&["run", "."]));
    vec![Known { id: s("adjacent-tools"), what: s("`RUN: not not true`: of two names of tools which are separated by one blank only the first is replaced by the executable, so the second `not` cannot be run"), still_fails: !o.stdout.contains("PASS: s::a.t") }]
}

// ---------------------------------------------------------------- L04: outcomes and the report

fn l04(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    let feats: Vec<&str> = ["fa", "fb", "fc"].into_iter().filter(|_| src.chance(1, 2)).collect();
    let nsuites = src.range(1, 2);
    let no_execute = src.chance(1, 10);
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    let mut runs: Vec<(String, String, usize)> = vec![]; // test name, counter file, number of runs
    let filters = ["t1", "::", "s0", "s1::.*[02468]\\.", "a/", "^t", "\\.t$", "zzz", "t[3-5]|t9", "T1"];
    let pick = |src: &mut Src| if src.chance(1, 4) { Some(*src.pick(&filters)) } else { None };
    let (fin, fout) = (pick(src), pick(src));
    for si in 0..nsuites {
        let sn = format!("s{si}");
        t.dir(&format!("{sn}/exec"));
        t.file(&format!("{sn}/lit.suite.toml"), &format!("name = \"{sn}\"\npatterns = [\"*.t\"]\nworking_dir = \"exec\"\navailable_features = [{}]\n", feats.iter().map(|f| format!("\"{f}\"")).collect::<Vec<_>>().join(", ")));
        let n = if src.chance(1, 12) { src.range(0, 40) } else { src.range(0, 8) };
        for i in 0..n {
            let path = format!("{}t{i}.t", ["", "a/", "a/b/"][src.weighted(&[3, 1, 1])]);
            let mut lines: Vec<String> = vec![];
            let cond = |src: &mut Src| -> (String, bool) {
                let f = *src.pick(&["fa", "fb", "fc"]);
                let has = feats.contains(&f);
                match src.below(8) {
                    0..=2 => (s(f), has),
                    3 => (format!("!{f}"), !has),
                    4 => {
                        let g = *src.pick(&["fa", "fb", "fc"]);
                        (format!("{f} && {g}"), has && feats.contains(&g))
                    }
                    5 => {
                        let g = *src.pick(&["fa", "fb", "fc"]);
                        (format!("{f} || {g}"), has || feats.contains(&g))
                    }
                    6 => (s("f{{[ab]}}"), feats.contains(&"fa") || feats.contains(&"fb")),
                    _ => (s("true"), true),
                }
            };
            let (mut requires, mut unsupported, mut xfail) = (true, false, false);
            for _ in 0..src.weighted(&[5, 2, 1]) {
                let k = src.range(1, 2);
                let cs: Vec<(String, bool)> = (0..k).map(|_| cond(src)).collect();
                let txt = cs.iter().map(|c| c.0.as_str()).collect::<Vec<_>>().join(*src.pick(&[", ", ","]));
                match src.below(3) {
                    0 => {
                        requires &= cs.iter().all(|c| c.1);
                        lines.push(format!("// REQUIRES: {txt}"));
                    }
                    1 => {
                        unsupported |= cs.iter().any(|c| c.1);
                        lines.push(format!("# UNSUPPORTED: {txt}"));
                    }
                    _ if src.chance(1, 2) => {
                        xfail = true;
                        lines.push(s("XFAIL: *"));
                    }
                    _ => {
                        xfail |= cs.iter().any(|c| c.1);
                        lines.push(format!("// XFAIL: {txt}"));
                    }
                }
            }
            let retries = if src.chance(1, 3) {
                let r = src.below(4);
                lines.push(format!("// ALLOWED_RETRIES: {r}"));
                r
            } else {
                0
            };
            // the number of failing attempts, and how the last attempt ends
            let cnt = format!("cnt.{i}");
            let (cmd, base, n_runs) = match src.weighted(&[4, 3, 3, 1, 1, 1]) {
                0 => (s("true"), "PASS", 1),
                1 => (s(["false", "exit 7", "exit 255"][src.below(3)]), "FAIL", retries + 1),
                2 => {
                    let k = src.below(5);
                    src.label("flaky");
                    let b = if k == 0 { "PASS" } else if k <= retries { "FLAKYPASS" } else { "FAIL" };
                    (format!("test $(wc -l < {cnt}) -gt {k}"), b, k.min(retries) + 1)
                }
                3 => (s("kill -9 $$"), "UNRESOLVED", 1),
                4 => (s("kill -SEGV $$"), "UNRESOLVED", 1),
                _ => (s(""), "", 0),
            };
            let (tag, nr);
            if base.is_empty() {
                // no commands at all
                (tag, nr) = ("UNRESOLVED", 0);
            } else if src.chance(1, 15) {
                src.label("conflict");
                // only the first definition may be a DEFINE
                lines.push(s("// DEFINE: %{x}=1"));
                lines.push(s("// DEFINE: %{x}=2"));
                lines.push(format!("// RUN: echo x >> {cnt}"));
                (tag, nr) = if !requires || unsupported { ("UNSUPPORTED", 0) } else if no_execute { ("PASS", 0) } else { ("UNRESOLVED", 0) };
            } else {
                lines.push(format!("// RUN: echo x >> {cnt}"));
                lines.push(format!("// RUN: {cmd}"));
                (tag, nr) = if !requires || unsupported {
                    ("UNSUPPORTED", 0)
                } else if no_execute {
                    ("PASS", 0)
                } else {
                    let tag = match (xfail, base) {
                        (true, "PASS" | "FLAKYPASS") => "XPASS",
                        (true, "FAIL") => "XFAIL",
                        _ => base,
                    };
                    (tag, n_runs)
                };
            }
            let name = format!("{sn}::{path}");
            let mat = |f: &str| regex::Regex::new(f).unwrap().is_match(&name);
            let sel = fin.is_none_or(|f| mat(f)) && !fout.is_some_and(|f| mat(f));
            // directives may stand anywhere in the file
            if src.chance(1, 3) {
                let k = src.below(lines.len().max(1));
                if !lines.iter().any(|l| l.contains("DEFINE") || l.contains("RUN:")) || k == 0 {
                    // keep the order of commands
                } else {
                    let (r, mut d): (Vec<String>, Vec<String>) = lines.drain(..).partition(|l| l.contains("RUN:") || l.contains("DEFINE"));
                    lines = r;
                    lines.append(&mut d);
                }
            }
            t.file(&format!("{sn}/{path}"), &(lines.join("\n") + "\n"));
            want.insert(name.clone(), s(if sel { tag } else { "EXCLUDED" }));
            runs.push((name, format!("{sn}/exec/{cnt}"), if sel { nr } else { 0 }));
        }
    }
    let quiet = src.chance(1, 5);
    let mut args = vec![s("run")];
    match src.below(5) {
        0 => {}
        1 => args.push(s("-j1")),
        k => args.push(format!("-j{}", k * 2)),
    }
    if quiet {
        args.push(s("-q"));
    }
    if !quiet && src.chance(1, 6) {
        args.push(s(["-v", "-a"][src.below(2)]));
    }
    if no_execute {
        args.push(s("--no-execute"));
    }
    if let Some(f) = fin {
        args.push(format!("--filter={f}"));
    }
    if let Some(f) = fout {
        args.push(format!("--filter-out={f}"));
    }
    if src.chance(1, 2) {
        args.push(s("."));
        // the working directory itself is no suite: select its suites
        args.pop();
    }
    for si in 0..nsuites {
        args.push(format!("s{si}"));
    }
    let o = t.lit(ctx, &args);
    let repr = t.show(&args);
    let kinds: BTreeSet<&String> = want.values().collect();
    let nontrivial = kinds.len() >= 2;
    for k in kinds {
        src.label(TAGS.iter().find(|t| *t == k).unwrap());
    }
    let r = check_report(&o, &want, quiet).and_then(|_| {
        for (name, cnt, n) in &runs {
            let got = t.read(cnt).lines().count();
            if got != *n {
                return Err(format!("{name} was run {got} times, expected {n}\n{}", clip(&o)));
            }
        }
        Ok(())
    });
    Case::check(repr, nontrivial, r)
}

// ---------------------------------------------------------------- L05: discovery and selection

#[derive(Clone)]
struct SuiteM {
    dir: String,
    name: String,
    source: String,
    patterns: Vec<&'static str>,
    exclude: Vec<&'static str>,
}
/// Is `p` equal to or below `base`? ("" is the top)
fn under(p: &str, base: &str) -> bool {
    base.is_empty() || p == base || p.strip_prefix(base).is_some_and(|r| r.starts_with('/'))
}
fn parent(p: &str) -> &str {
    p.rsplit_once('/').map(|x| x.0).unwrap_or("")
}
fn join(a: &str, b: &str) -> String {
    if a.is_empty() { s(b) } else if b.is_empty() { s(a) } else { format!("{a}/{b}") }
}
fn rel<'a>(p: &'a str, base: &str) -> &'a str {
    if base.is_empty() { p } else { p[base.len()..].trim_start_matches('/') }
}
/// Glob where `*` and `?` match any characters, including separators
fn glob(p: &str, t: &str) -> bool {
    let mut r = s("^(?s:");
    let mut it = p.chars();
    while let Some(c) = it.next() {
        match c {
            '*' => r.push_str(".*"),
            '?' => r.push('.'),
            '[' => {
                r.push('[');
                for d in it.by_ref() {
                    if d == '!' {
                        r.push('^')
                    } else {
                        r.push(d)
                    }
                    if d == ']' {
                        break;
                    }
                }
            }
            c => r.push_str(&regex::escape(&c.to_string())),
        }
    }
    r.push_str(")$");
    regex::Regex::new(&r).unwrap().is_match(t)
}
const PATTERNS: &[&str] = &["*.t", "*", "a/*", "*.x", "t?.*", "*/b/*", "t1.t", "[tu]*.t", "*[!x]", "nothing"];

fn gen_tree(src: &mut Src, at: &str, depth: usize, dirs: &mut Vec<String>, files: &mut Vec<String>) {
    dirs.push(s(at));
    for f in ["t1.t", "t2.x", "u.t", ".h.t", "noext", "t1.t.x"] {
        if src.chance(1, 3) {
            files.push(join(at, f));
        }
    }
    if depth > 0 {
        for d in ["a", "b", "c d"] {
            if src.chance(2, 5) {
                gen_tree(src, &join(at, d), depth - 1, dirs, files);
            }
        }
    }
}

/// Which suite does the input belong to?
fn suite_of<'a>(suites: &'a [SuiteM], p: &str, is_dir: bool) -> Option<&'a SuiteM> {
    let dir = if is_dir { p } else { parent(p) };
    let mut a = dir;
    loop {
        if let Some(x) = suites.iter().find(|x| x.dir == a) {
            if (is_dir && a == dir) || under(dir, &x.source) {
                return Some(x);
            }
        }
        if a.is_empty() {
            return None;
        }
        a = parent(a);
    }
}
fn l05(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    let (mut dirs, mut files) = (vec![], vec![]);
    gen_tree(src, "", 3, &mut dirs, &mut files);
    dirs.remove(0);
    let top_suite = src.chance(2, 3);
    let mut suites: Vec<SuiteM> = vec![];
    let mut all = vec![s("")];
    all.extend(dirs.iter().cloned());
    for d in &all {
        let yes = if d.is_empty() { top_suite } else { src.chance(1, 4) };
        // the source directory of a suite is not a suite of its own
        if !yes || suites.iter().any(|x| x.source == *d && x.dir != *d) {
            continue;
        }
        let name = if src.chance(1, 8) { s("same") } else { format!("s{}", suites.len()) };
        let subs: Vec<&String> = dirs.iter().filter(|x| parent(x) == d && *x != d).collect();
        let source = if !subs.is_empty() && src.chance(1, 6) {
            src.label("source_dir");
            s(subs[src.below(subs.len())])
        } else {
            d.clone()
        };
        let patterns = (0..src.range(1, 2)).map(|_| PATTERNS[src.weighted(&[6, 4, 1, 1, 1, 1, 1, 1, 1, 1])]).collect();
        let exclude = (0..src.weighted(&[3, 1, 1])).map(|_| PATTERNS[src.weighted(&[1, 0, 2, 2, 1, 2, 2, 2, 1, 1])]).collect();
        suites.push(SuiteM { dir: d.clone(), name, source, patterns, exclude });
    }
    for d in &dirs {
        t.dir(d);
    }
    for f in &files {
        t.file(f, "// RUN: true\n");
    }
    let w = t.w();
    let mut real = files.clone();
    if src.chance(1, 3) {
        for _ in 0..src.range(1, 3) {
            let d = all[src.below(all.len())].clone();
            // (name, target, what is found by following the link)
            let (n, to, found) = match src.below(6) {
                0 => (["l1.t", ".#t1.t", "l2.x"][src.below(3)], s("nowhere/l.t"), vec![]),
                1 => ("self", s("."), vec![]),
                2 => ("loop.t", s("loop.t"), vec![]),
                3 => {
                    let e = t.root.join("ext/x");
                    std::fs::create_dir_all(&e).unwrap();
                    std::fs::write(e.join("e1.t"), "// RUN: true\n").unwrap();
                    std::fs::write(e.parent().unwrap().join("e2.x"), "// RUN: true\n").unwrap();
                    ("ext", t.root.join("ext").to_str().unwrap().to_string(), vec!["ext/x/e1.t", "ext/e2.x"])
                }
                _ if real.is_empty() => continue,
                k => {
                    let n = ["l1.t", "l2.x", ".l3.t"][src.below(3)];
                    let to = s(&real[src.below(real.len())]);
                    let up = "../".repeat(d.split('/').filter(|x| !x.is_empty()).count());
                    (n, if k == 4 { format!("{up}{to}") } else { w.join(&to).to_str().unwrap().to_string() }, vec![n])
                }
            };
            let at = join(&d, n);
            if std::os::unix::fs::symlink(&to, w.join(&at)).is_ok() {
                t.files.push((at, format!("(a symbolic link to {to})")));
                files.extend(found.iter().map(|f| join(&d, f)));
                src.label(if found.is_empty() { "broken-link" } else { "link" });
            }
        }
    }
    let exec = t.root.join("tmp");
    for x in &suites {
        let l = |v: &[&str]| v.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(", ");
        let wd = if src.chance(1, 3) {
            t.dir(&join(&x.dir, "w.d"));
            "w.d"
        } else {
            exec.to_str().unwrap()
        };
        let mut c = format!("name = {:?}\nworking_dir = {wd:?}\npatterns = [{}]\n", x.name, l(&x.patterns));
        if !x.exclude.is_empty() {
            c.push_str(&format!("exclude = [{}]\n", l(&x.exclude)));
        }
        if x.source != x.dir {
            let r = rel(&x.source, &x.dir);
            let d = match src.below(6) {
                0 | 1 => s(r),
                2 => format!("./{r}/"),
                3 => format!("{r}/../{}", r.rsplit('/').next().unwrap()),
                4 => {
                    // through a symbolic link from elsewhere
                    let l = t.root.join(format!("src-{}", x.dir.replace('/', "_")));
                    let _ = std::os::unix::fs::symlink(w.join(&x.source), &l);
                    src.label("linked-source_dir");
                    s(l.to_str().unwrap())
                }
                _ => s(w.join(&x.source).to_str().unwrap()),
            };
            c.push_str(&format!("source_dir = {d:?}\n"));
        }
        t.file(&join(&x.dir, "lit.suite.toml"), &c);
        files.push(join(&x.dir, "lit.suite.toml"));
        real.push(join(&x.dir, "lit.suite.toml"));
    }
    // configuration of single directories
    let mut locals: BTreeMap<String, (Vec<&str>, Vec<&str>)> = BTreeMap::new();
    if src.chance(1, 3) {
        for d in &all {
            if src.chance(1, 3) {
                src.label("local-configuration");
                let pick = |src: &mut Src, y: bool| if y { vec![PATTERNS[src.weighted(&[4, 2, 1, 1, 1, 1, 1, 1, 1, 1])]] } else { vec![] };
                let (yes, no) = (src.chance(1, 3), src.chance(1, 5));
                let (p, e) = (pick(src, yes), pick(src, no));
                let l = |v: &[&str]| v.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(", ");
                let mut c = String::new();
                if yes {
                    c.push_str(&format!("patterns = [{}]\n", l(&p)));
                }
                if no {
                    c.push_str(&format!("exclude = [{}]\n", l(&e)));
                }
                c.push_str("[env]\nLOCAL = \"1\"\n");
                t.file(&join(d, "lit.local.toml"), &c);
                files.push(join(d, "lit.local.toml"));
                real.push(join(d, "lit.local.toml"));
                locals.insert(d.clone(), (p, e));
            }
        }
    }
    // inputs
    let n = src.range(1, 4);
    let mut inputs: Vec<(String, String, bool)> = vec![];
    for _ in 0..n {
        let (p, is_dir) = match src.weighted(&[3, 4, 4]) {
            1 if !dirs.is_empty() => (s(&dirs[src.below(dirs.len())]), true),
            2 if !real.is_empty() => (s(&real[src.below(real.len())]), false),
            _ => (s(""), true),
        };
        let spelled = match src.below(6) {
            1 => format!("./{p}"),
            2 if is_dir && !p.is_empty() => format!("{p}/"),
            3 => w.join(&p).to_str().unwrap().to_string(),
            4 if !parent(&p).is_empty() => format!("{}/../{p}", p.split('/').next().unwrap()),
            _ if p.is_empty() => s("."),
            _ => p.clone(),
        };
        inputs.push((spelled, p, is_dir));
    }
    if inputs.len() > 1 {
        src.label("several-inputs");
    }
    let filters = ["t1", "::", "s[12]", "/", "a/.*\\.t$", "same", "^s0::[^/]*$", "x"];
    let pick = |src: &mut Src| if src.chance(1, 5) { Some(*src.pick(&filters)) } else { None };
    let (fin, fout) = (pick(src), pick(src));
    // model
    let mut sel: BTreeMap<String, BTreeSet<String>> = BTreeMap::new(); // suite dir -> selected paths (from the top)
    let mut todo: Vec<(String, bool)> = inputs.iter().map(|x| (x.1.clone(), x.2)).collect();
    let mut done = BTreeSet::new();
    let mut crossing = false;
    while let Some((p, is_dir)) = todo.pop() {
        if !done.insert(p.clone()) {
            continue;
        }
        let Some(x) = suite_of(&suites, &p, is_dir) else { continue };
        let start = if under(&p, &x.source) { p.clone() } else { x.source.clone() };
        sel.entry(x.dir.clone()).or_default().insert(start.clone());
        if is_dir {
            for y in &suites {
                if y.dir != start && y.dir != x.dir && under(&y.dir, &start) {
                    // reached unless another suite lies in between
                    let blocked = suites.iter().any(|z| z.dir != y.dir && z.dir != start && z.dir != x.dir && z.dir.len() > start.len() && under(&z.dir, &start) && under(&y.dir, &z.dir));
                    if !blocked {
                        crossing = true;
                        todo.push((y.dir.clone(), true));
                    }
                }
            }
        }
    }
    let mut want: Vec<String> = vec![];
    let mut per_suite: BTreeMap<String, usize> = BTreeMap::new();
    for (d, paths) in &sel {
        let x = suites.iter().find(|x| x.dir == *d).unwrap();
        for f in &files {
            let inside = paths.iter().any(|p| {
                under(f, p) && {
                    // no nested suite between the selected path and the file
                    f == p || !suites.iter().any(|z| z.dir != *p && z.dir != x.source && z.dir.len() > p.len() && under(&z.dir, p) && under(f, &z.dir))
                }
            });
            let base = f.rsplit('/').next().unwrap();
            if !inside {
                continue;
            }
            let r = rel(f, &x.source);
            // the patterns given for the directory nearest to the file
            let (mut patterns, mut exclude) = (&x.patterns, &x.exclude);
            for (d, (p, e)) in &locals {
                if under(d, &x.source) && under(parent(f), d) {
                    patterns = if p.is_empty() { patterns } else { p };
                    exclude = if e.is_empty() { exclude } else { e };
                }
            }
            if !base.starts_with('.') && patterns.iter().any(|p| glob(p, r)) && !exclude.iter().any(|p| glob(p, r)) {
                want.push(format!("{}::{r}", x.name));
                *per_suite.entry(d.clone()).or_default() += 1;
            }
        }
    }
    if crossing {
        src.label("nested-suites");
    }
    let ms = |f: &str, n: &str| regex::Regex::new(f).unwrap().is_match(n);
    let selected = |n: &String| fin.is_none_or(|f| ms(f, n)) && !fout.is_some_and(|f| ms(f, n));
    let mut shown: Vec<String> = want.iter().filter(|n| selected(n)).cloned().collect();
    shown.sort();
    let mut opts = vec![];
    if let Some(f) = fin {
        opts.push(format!("--filter={f}"));
    }
    if let Some(f) = fout {
        opts.push(format!("--filter-out={f}"));
    }
    let ins: Vec<String> = inputs.iter().map(|x| x.0.clone()).collect();
    let cmd = |c: &[&str]| {
        let mut v = strs(c);
        v.extend(opts.iter().cloned());
        v.extend(ins.iter().cloned());
        v
    };
    let args = cmd(&["show-tests"]);
    let repr = t.show(&args);
    let nontrivial = want.len() >= 2 && (inputs.len() > 1 || crossing || want.len() < files.len());
    let o = t.lit(ctx, &args);
    let r = (|| {
        if sel.is_empty() {
            return if o.code.is_none() || (o.code == Some(0) && o.stdout.contains("::")) { Err(format!("no suite was selected, but lit exited with {:?}\n{}", o.code, clip(&o))) } else { Ok(()) };
        }
        if o.code != Some(0) {
            return Err(format!("lit show-tests failed\n{}", clip(&o)));
        }
        let mut got: Vec<String> = o.stdout.lines().filter(|l| l.starts_with("  ") && l.contains("::")).map(|l| s(l.trim().rsplit_once(" (format=").map(|x| x.0).unwrap_or(l))).collect();
        got.sort();
        if got != shown {
            return Err(format!("lit show-tests lists {got:?}\nexpected {shown:?}\n{}", clip(&o)));
        }
        // the same tests are run
        let distinct: BTreeSet<&String> = want.iter().collect();
        if distinct.len() == want.len() {
            let mut v = cmd(&["run", "--no-execute"]);
            v.insert(2, format!("-j{}", 1 + want.len() % 4));
            // not every file selected by a generous pattern is a test script
            let tag = |n: &str| if n.ends_with(".toml") { "UNRESOLVED" } else { "PASS" };
            let o = t.lit(ctx, &v);
            let m = want.iter().map(|n| (n.clone(), s(if selected(n) { tag(n) } else { "EXCLUDED" }))).collect();
            check_report(&o, &m, false).map_err(|e| format!("lit run: {e}"))?;
        }
        // sizes of the suites
        let o = t.lit(ctx, &cmd(&["show-suites"]));
        let ls: Vec<&str> = o.stdout.lines().collect();
        for (d, n) in &per_suite {
            let x = suites.iter().find(|x| x.dir == *d).unwrap();
            let a = format!("  * {} - {n} tests", x.name);
            let b = w.join(&x.source);
            let b = b.to_str().unwrap().trim_end_matches('/');
            let found = ls.windows(2).filter(|v| v[0] == a && v[1].rsplit_once(": ").map(|y| y.1.trim_end_matches('/')) == Some(b)).count();
            if found != 1 {
                return Err(format!("lit show-suites does not show suite {d:?} as {a:?} with source {b:?} once\n{}", clip(&o)));
            }
        }
        Ok(())
    })();
    Case::check(repr, nontrivial, r)
}
fn l05_known(ctx: &mut Ctx) -> Vec<Known> {
    let mut t = Tree::new(ctx);
    t.file("lit.suite.toml", "name = \"s\"\n");
    t.file("a.t", "// RUN: true\n");
    let o = t.lit(ctx, &strs(&["show-tests", "."]));
    vec![Known { id: s("no-patterns"), what: s("a suite which does not configure `patterns` discovers no tests, although the documentation says that all files are tests by default"), still_fails: !o.stdout.contains("s::a.t") }]
}

// ---------------------------------------------------------------- L06: configuration of directories

#[derive(Clone, Default)]
struct Conf {
    env: BTreeMap<&'static str, String>,
    subs: BTreeMap<&'static str, String>,
    feats: BTreeSet<&'static str>,
    patterns: Vec<&'static str>,
    exclude: Vec<&'static str>,
    format: Option<Fmt>,
}
#[derive(Clone, PartialEq)]
enum Fmt {
    Sh { bash: bool, extra: Option<String> },
    Exe(Vec<&'static str>),
}
impl Conf {
    fn generate(src: &mut Src, tag: &str, root: bool) -> Self {
        let mut c = Conf::default();
        for k in ["VA", "VB", "VC", "INHERITED"] {
            if src.chance(1, 3) {
                c.env.insert(k, format!("{k}-{tag}{}", ["", " x", "$y"][src.below(3)]));
            }
        }
        for k in ["%p", "%q", "%r", "%\\{fs-sep\\}"] {
            if src.chance(1, if k.len() > 2 { 10 } else { 3 }) {
                c.subs.insert(k, format!("{}-{tag}", &k[1..2].trim_matches('\\')));
            }
        }
        for k in ["fa", "fb", "fc"] {
            if src.chance(1, 4) {
                c.feats.insert(k);
            }
        }
        if root || src.chance(1, 4) {
            c.patterns = vec![*src.pick(&["*.t", "*.t", "*", "*/*.t", "t1*"])];
        }
        if root || src.chance(1, 5) {
            c.exclude = vec![*src.pick(&["x", "*u.t", "a/*", "*/t?.t"]), "*.toml"];
        }
        c.format = match src.weighted(&[6, 1, 1, 1, 1]) {
            0 => None,
            1 => Some(Fmt::Exe(if src.chance(1, 2) { vec![] } else { (["fa", "fb || fc", "!fa", "fb && fc"]).into_iter().filter(|_| src.chance(1, 3)).collect() })),
            2 => Some(Fmt::Sh { bash: false, extra: None }),
            3 => Some(Fmt::Sh { bash: true, extra: None }),
            _ => Some(Fmt::Sh { bash: false, extra: Some(format!("ex-{tag}")) }),
        };
        c
    }
    fn toml(&self, head: &str) -> String {
        let l = |v: &[&str]| v.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(", ");
        let mut o = s(head);
        if !self.patterns.is_empty() {
            o.push_str(&format!("patterns = [{}]\n", l(&self.patterns)));
        }
        if !self.exclude.is_empty() {
            o.push_str(&format!("exclude = [{}]\n", l(&self.exclude)));
        }
        if !self.feats.is_empty() {
            o.push_str(&format!("available_features = [{}]\n", l(&self.feats.iter().copied().collect::<Vec<_>>())));
        }
        match &self.format {
            None => {}
            Some(Fmt::Exe(u)) if u.is_empty() => o.push_str("format = { executable = {} }\n"),
            Some(Fmt::Exe(u)) => o.push_str(&format!("format = {{ executable = {{ unsupported = [{}] }} }}\n", l(u))),
            Some(Fmt::Sh { bash, extra }) => {
                let mut p = vec![];
                if *bash {
                    p.push(s("shell = \"bash\", pipefail = true"));
                }
                if let Some(e) = extra {
                    p.push(format!("extra_substitutions = {{ '%q' = '{e}' }}"));
                }
                o.push_str(&format!("format = {{ shtest = {{ {} }} }}\n", p.join(", ")));
            }
        }
        if !self.env.is_empty() {
            o.push_str("[env]\n");
            for (k, v) in &self.env {
                o.push_str(&format!("{k} = '{v}'\n"));
            }
        }
        if !self.subs.is_empty() {
            o.push_str("[substitutions]\n");
            for (k, v) in &self.subs {
                o.push_str(&format!("'{k}' = '{v}'\n"));
            }
        }
        o
    }
    fn overlay(&mut self, c: &Conf) {
        self.env.extend(c.env.iter().map(|(k, v)| (*k, v.clone())));
        self.subs.extend(c.subs.iter().map(|(k, v)| (*k, v.clone())));
        self.feats.extend(c.feats.iter());
        if !c.patterns.is_empty() {
            self.patterns = c.patterns.clone();
        }
        if !c.exclude.is_empty() {
            self.exclude = c.exclude.clone();
        }
        if c.format.is_some() {
            self.format = c.format.clone();
        }
    }
}

fn l06(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    let w = t.w();
    // directories
    let mut dirs = vec![s("")];
    for a in ["a", "b"] {
        if src.chance(3, 5) {
            dirs.push(s(a));
            for b in ["a", "c"] {
                if src.chance(1, 2) {
                    dirs.push(join(a, b));
                    if src.chance(1, 4) {
                        dirs.push(join(&join(a, b), "d"));
                    }
                }
            }
        }
    }
    t.dir("exec");
    t.dir("bin1");
    t.dir("bin2");
    let mut paths = vec![];
    if src.chance(1, 2) {
        src.label("--path");
        let both = src.chance(1, 2);
        paths.push(s(if src.chance(1, 2) { "bin1" } else { "bin2" }));
        if both {
            let o = s(if paths[0] == "bin1" { "bin2" } else { "bin1" });
            paths.push(o);
        }
    }
    for b in ["bin1", "bin2"] {
        t.file(&format!("{b}/mytool"), &format!("#!/bin/sh\necho {b}\n"));
        set_exec(&w.join(b).join("mytool"));
    }
    let mut confs: BTreeMap<String, Conf> = BTreeMap::new();
    let base = Conf::generate(src, "suite", true);
    let conf_path = src.chance(1, 4);
    let mut head = format!("name = \"s\"\nworking_dir = {:?}\n", w.join("exec").to_str().unwrap());
    let mut toml = base.toml("");
    if conf_path {
        // PATH set by the configuration
        let p = format!("PATH = '{}:/usr/bin:/bin'\n", w.join("bin2").to_str().unwrap());
        toml = if base.env.is_empty() { format!("{toml}[env]\n{p}") } else { toml.replace("[env]\n", &format!("[env]\n{p}")) };
    }
    head.push_str(&toml);
    t.file("q/lit.suite.toml", &head);
    for d in &dirs {
        t.dir(&join("q", d));
        if src.chance(2, 5) {
            let c = Conf::generate(src, if d.is_empty() { "top" } else { d }, false);
            t.file(&join(&join("q", d), "lit.local.toml"), &c.toml(""));
            confs.insert(d.clone(), c);
        }
    }
    let eff = |d: &str| {
        let mut e = base.clone();
        let mut at = s("");
        if let Some(c) = confs.get("") {
            e.overlay(c);
        }
        for comp in d.split('/').filter(|x| !x.is_empty()) {
            at = join(&at, comp);
            if let Some(c) = confs.get(&at) {
                e.overlay(c);
            }
        }
        e
    };
    let tool = paths.first().cloned().or(if conf_path { Some(s("bin2")) } else { None }).unwrap_or_default();
    let mut files = vec![];
    for d in &dirs {
        for f in ["t1.t", "u.t"] {
            if src.chance(3, 5) {
                let r = join(d, f);
                let id = files.len();
                let req = *src.pick(&["", "", "fa", "fb || fc", "!fa"]);
                let xfail = if src.chance(1, 4) { *src.pick(&["fa", "fb || fc", "!fa", "fb && fc"]) } else { "" };
                // how it ends when it is run as a program
                let end = *src.pick(&["", "", "exit 5", "kill -9 $$"]);
                let log = w.join("exec").join(format!("log.{id}"));
                let log = log.to_str().unwrap();
                let mut x = s("#!/bin/sh\n");
                x.push_str(&format!("echo exe >> {log}\n"));
                for cmd in [format!("echo \"$VA|$VB|$VC|$INHERITED\" >> {log}"), format!("(mytool || echo none) 2>/dev/null >> {log}")] {
                    x.push_str(&format!("{cmd}\n# RUN: {cmd}\n"));
                }
                x.push_str(&format!("# RUN: echo '%p|%q|%r|%{{fs-sep}}' >> {log}\n# RUN: echo \"${{BASH_VERSION:+bash}}\" >> {log}\n# RUN: false | true\n"));
                if !req.is_empty() {
                    x.push_str(&format!("# REQUIRES: {req}\n"));
                }
                if !xfail.is_empty() {
                    x.push_str(&format!("# XFAIL: {xfail}\n"));
                }
                x.push_str(&format!("{end}\n"));
                t.file(&join("q", &r), &x);
                set_exec(&w.join("q").join(&r));
                files.push((r, req, xfail, end));
            }
        }
    }
    // selection: everything, some directories or some files
    let mut ins: Vec<String> = vec![];
    for _ in 0..src.range(1, 3) {
        match src.weighted(&[2, 3, 3]) {
            1 => ins.push(dirs[src.below(dirs.len())].clone()),
            2 if !files.is_empty() => ins.push(files[src.below(files.len())].0.clone()),
            _ => ins.push(s("")),
        }
    }
    let mut args = vec![s("run"), format!("-j{}", src.range(1, 4))];
    for p in &paths {
        args.push(format!("--path={p}"));
    }
    let no_execute = src.chance(1, 12);
    if no_execute {
        args.push(s("--no-execute"));
    }
    if src.chance(1, 6) {
        args.push(s(["-v", "-a"][src.below(2)]));
    }
    args.extend(ins.iter().map(|i| join("q", i)));
    let o = t.lit(ctx, &args);
    let repr = t.show(&args);
    let mut want = BTreeMap::new();
    let mut logs: Vec<(usize, String)> = vec![];
    let mut local = false;
    for (id, (f, req, xfail, end)) in files.iter().enumerate() {
        let e = eff(parent(f));
        let sel = ins.iter().any(|i| under(f, i)) && e.patterns.iter().any(|p| glob(p, f)) && !e.exclude.iter().any(|p| glob(p, f));
        let mut log = s("");
        if sel {
            local |= confs.iter().any(|(d, _)| under(f, d));
            let has = |x: &str| e.feats.contains(x);
            let v = |k: &str| e.env.get(k).cloned().unwrap_or_default();
            let env = format!("{}|{}|{}|{}\n", v("VA"), v("VB"), v("VC"), e.env.get("INHERITED").cloned().unwrap_or(s("outer")));
            let tl = if tool.is_empty() { s("none\n") } else { format!("{tool}\n") };
            let holds = |c: &str| match c {
                "" => true,
                "fa" => has("fa"),
                "!fa" => !has("fa"),
                "fb && fc" => has("fb") && has("fc"),
                _ => has("fb") || has("fc"),
            };
            let tag = match &e.format {
                Some(Fmt::Exe(u)) if u.iter().any(|c| holds(c)) => "UNSUPPORTED",
                Some(Fmt::Exe(_)) if no_execute => "PASS",
                Some(Fmt::Exe(_)) => {
                    log = format!("exe\n{env}{tl}");
                    match *end {
                        "" => "PASS",
                        "exit 5" => "FAIL",
                        _ => "UNRESOLVED",
                    }
                }
                _ if !holds(req) => "UNSUPPORTED",
                _ if no_execute => "PASS",
                x => {
                    let (bash, extra) = match x {
                        Some(Fmt::Sh { bash, extra }) => (*bash, extra.clone()),
                        _ => (false, None),
                    };
                    let sb = |k: &'static str| e.subs.get(k).cloned().unwrap_or(s(k));
                    log = format!("{env}{tl}{}|{}|{}|{}\n{}\n", sb("%p"), extra.unwrap_or(sb("%q")), sb("%r"), e.subs.get("%\\{fs-sep\\}").cloned().unwrap_or(s("/")), if bash { "bash" } else { "" });
                    match (!xfail.is_empty() && holds(xfail), bash) {
                        (true, true) => "XFAIL",
                        (true, false) => "XPASS",
                        (false, true) => "FAIL",
                        (false, false) => "PASS",
                    }
                }
            };
            want.insert(format!("s::{f}"), s(tag));
        }
        logs.push((id, log));
    }
    // value of substitution keys: '$' is special there, so the generator avoids it
    let r = (|| {
        check_report(&o, &want, false)?;
        for (id, exp) in &logs {
            let got = t.read(&format!("exec/log.{id}"));
            if got != *exp {
                return Err(format!("{} wrote {got:?}, expected {exp:?}\n{}", files[*id].0, clip(&o)));
            }
        }
        Ok(())
    })();
    Case::check(repr, local, r)
}
fn set_exec(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
}

// ---------------------------------------------------------------- L07: time limits and output

fn l07(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    t.file("lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \"exec\"\n");
    t.dir("exec");
    let timed = src.chance(4, 5);
    let n = src.range(1, 8);
    let mut want = BTreeMap::new();
    let mut logs = vec![];
    let mut slow = 0;
    let mut left = BTreeSet::new();
    for i in 0..n {
        let log = format!("log.{i}");
        let xfail = src.chance(1, 6);
        let mut x = s("");
        if xfail {
            x.push_str("# XFAIL: *\n");
        }
        if src.chance(1, 6) {
            x.push_str("# ALLOWED_RETRIES: 2\n");
        }
        x.push_str(&format!("# RUN: echo start >> {log}\n# RUN: echo out.{i}; echo err.{i} >&2\n"));
        let over = timed && src.chance(1, 2);
        let tag;
        if over {
            slow += 1;
            tag = "TIMEOUT";
            let c = match src.weighted(&[1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1]) {
                // just over the limit, in one command or in several
                9 => ["sleep 4.5", "sleep 4.7; true", "sleep 4.3 | cat"][src.below(3)],
                10 => "sleep 2.3\n# RUN: sleep 2.3",
                8 => {
                    // ends at once, but leaves a process behind which keeps its output open
                    src.label("left-behind");
                    left.insert(i);
                    ["sleep 40 &", "sleep 40 >/dev/null &", "(sleep 40; echo late) 2>/dev/null &"][src.below(3)]
                }
                0 => "sleep 40",
                1 => "exec sleep 40",
                2 => "sleep 40 & wait",
                3 => "(sleep 40; echo x)",
                4 => "echo out; sleep 40 | cat",
                5 => "while :; do sleep 0.05; done",
                6 => "yes | sleep 40",
                _ => "sleep 40 >/dev/null 2>&1",
            };
            x.push_str(&format!("# RUN: {c}\n"));
        } else {
            let (c, base) = match src.below(7) {
                0 => (s("true"), "PASS"),
                1 => (s("sleep 0.2"), "PASS"),
                2 => (s("false"), "FAIL"),
                3 => (format!("head -c {} /dev/zero | tr '\\0' x", src.range(1, 4) * 70000), "PASS"),
                4 => (format!("head -c {} /dev/zero | tr '\\0' y >&2; false", src.range(1, 4) * 70000), "FAIL"),
                5 => {
                    // a large script whose first commands already produce much output
                    src.label("large-script");
                    let mut c = s("head -c 200000 /dev/zero | tr '\\0' z\n");
                    for k in 0..src.range(1, 3) * 400 {
                        c.push_str(&format!("# RUN: : {k} {}\n", "w".repeat(100)));
                    }
                    (c, "PASS")
                }
                _ => (s("sleep 40 >/dev/null 2>&1 &"), "PASS"),
            };
            tag = match (xfail, base) {
                (true, "PASS") => "XPASS",
                (true, _) => "XFAIL",
                (_, b) => b,
            };
            x.push_str(&format!("# RUN: {c}\n"));
        }
        let attempts = if tag == "FAIL" || tag == "XFAIL" { if x.contains("RETRIES") { 3 } else { 1 } } else { 1 };
        x.push_str(&format!("# RUN: echo end >> {log}\n"));
        t.file(&format!("t{i}.t"), &x);
        want.insert(format!("s::t{i}.t"), s(tag));
        let once = if left.contains(&i) || ["PASS", "XPASS"].contains(&tag) { "start\nend\n" } else { "start\n" };
        logs.push(once.repeat(attempts));
    }
    let limit = 4;
    let mut args = vec![s("run"), s("-j8")];
    if timed {
        args.push(format!("--timeout={limit}"));
    } else if src.chance(1, 2) {
        args.push(s("--timeout=0"));
    }
    if src.chance(1, 2) {
        args.push(s(["-v", "-a"][src.below(2)]));
    }
    args.push(s("."));
    let o = t.lit_limit(ctx, &args, 30);
    let repr = t.show(&args);
    // such a test may as well count as finished when its script has
    for i in &left {
        let n = format!("s::t{i}.t");
        if let Some((g, _)) = tags(&o.stdout).into_iter().find(|x| x.1 == n && (x.0 == "PASS" || x.0 == "XPASS")) {
            want.insert(n, g);
        }
    }
    let r = (|| {
        check_report(&o, &want, false)?;
        // all tests run at the same time
        if o.elapsed > Duration::from_secs(25) {
            return Err(format!("took {:?} with a time limit of {limit} s\n{}", o.elapsed, clip(&o)));
        }
        for (i, l) in logs.iter().enumerate() {
            let got = t.read(&format!("exec/log.{i}"));
            if got != *l {
                return Err(format!("t{i}.t wrote {got:?}, expected {l:?}\n{}", clip(&o)));
            }
            // what a test wrote before it was stopped is shown like that of any other failed test
            let tag = want[&format!("s::t{i}.t")].as_str();
            let shown = args.iter().any(|a| a == "-a") || args.iter().any(|a| a == "-v") && tag == "TIMEOUT";
            if shown {
                for m in [format!("out.{i}"), format!("err.{i}")] {
                    let n = o.stdout.lines().filter(|x| *x == m).count();
                    if n != 1 {
                        return Err(format!("the output line {m:?} of t{i}.t ({tag}) is shown {n} times\n{}", clip(&o)));
                    }
                }
            }
        }
        Ok(())
    })();
    Case::check(repr, slow > 0 || n > 2, r)
}

// ---------------------------------------------------------------- L08: not

fn l08(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    let w = t.w();
    t.file("prog", "#!/bin/sh\nfor a in \"$@\"; do printf '<%s>' \"$a\"; done > args\ncat > stdin\necho \"$INHERITED\" > env\npwd > cwd\necho out\necho err >&2\n. ./how\n");
    set_exec(&w.join("prog"));
    t.file("plain", "not executable\n");
    #[derive(PartialEq)]
    enum End {
        Code(i32),
        Sig,
        NotFound,
        NotExec,
    }
    let (how, end) = match src.weighted(&[3, 4, 3, 1, 1]) {
        0 => (s("exit 0"), End::Code(0)),
        1 => {
            let c = *src.pick(&[1, 2, 3, 42, 126, 127, 128, 129, 134, 137, 139, 255]);
            (format!("exit {c}"), End::Code(c))
        }
        2 => (format!("kill -{} $$", *src.pick(&["SEGV", "ABRT", "KILL", "TERM", "BUS", "FPE", "ILL", "INT", "HUP", "USR1"])), End::Sig),
        3 => (s(""), End::NotFound),
        _ => (s(""), End::NotExec),
    };
    t.file("how", &format!("{how}\n"));
    let crash = src.chance(1, 2);
    let mut argv: Vec<String> = (0..src.below(5)).map(|_| s(src.pick(&["a", "", "b c", "--crash", "-x", "--", "--help", "-h", "not", "$x", "é", "*", "'", "-j4", "--version", "help"]))).collect();
    let prog = match end {
        End::NotFound => s(*src.pick(&["./missing", "no-such-program", "./prog/x"])),
        End::NotExec => s("./plain"),
        _ => s("./prog"),
    };
    let mut code = match (&end, crash) {
        (End::NotFound, _) if prog == "./prog/x" => 126,
        (End::NotFound, _) => 127,
        (End::NotExec, _) => 126,
        (End::Sig, true) => 0,
        (End::Code(0), false) => 1,
        (End::Code(_), false) => 0,
        _ => 1,
    };
    // chains of `not`
    let mut args: Vec<String> = vec![s("not")];
    if crash {
        args.push(s("--crash"));
    }
    args.push(prog.clone());
    args.append(&mut argv.clone());
    let chained = src.chance(1, 4);
    if chained {
        src.label("not not");
        let c2 = src.chance(1, 4);
        let mut v = vec![s("not")];
        if c2 {
            v.push(s("--crash"));
        }
        v.push(ctx.bin.to_str().unwrap().to_string());
        v.extend(args);
        args = v;
        code = if c2 { 1 } else if code == 0 { 1 } else { 0 };
    }
    let input = *src.pick(&["", "hello\n", "\u{1}x"]);
    // through a RUN line, or directly
    let direct = src.chance(2, 3);
    let ran = matches!(end, End::Code(_) | End::Sig);
    let o;
    if direct {
        o = run_bin(&ctx.bin, &args, &w, &t.root.join("tmp"), Some(input.as_bytes()), 30);
    } else {
        src.label("in a script");
        argv.retain(|a| !a.contains('\''));
        let q: Vec<String> = argv.iter().map(|a| format!("'{a}'")).collect();
        let word = *src.pick(&["not", "not "]);
        code = match (&end, crash) {
            (End::NotFound, _) | (End::NotExec, _) => 1,
            (End::Sig, true) => 0,
            (End::Code(0), false) => 1,
            (End::Code(_), false) => 0,
            _ => 1,
        };
        let lead = *src.pick(&["", "true && ", "true;  "]);
        t.file("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \"..\"\n");
        t.file("s/a.t", &format!("RUN: {lead}{word}{}{prog} {} < in\n", if crash { if word == "not" { " --crash " } else { "--crash " } } else if word == "not" { " " } else { "" }, q.join(" ")));
        t.file("in", input);
        args = strs(&["lit", "run", "-v", "s"]);
        o = run_bin(&ctx.bin, &args, &w, &t.root.join("tmp"), None, 30);
    }
    let repr = format!("litcheck {}\n(in {input:?})\n{}", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "), t.show(&[]));
    let r = (|| {
        if o.killed {
            return Err(format!("did not terminate\n{}", clip(&o)));
        }
        let got = o.code;
        if got != Some(code) {
            return Err(format!("exit status {got:?}, expected {code}\n{}", clip(&o)));
        }
        if ran {
            let a: String = argv.iter().map(|a| format!("<{a}>")).collect();
            // printf without arguments still prints nothing
            if t.read("args") != a {
                return Err(format!("the command got the arguments {:?}, expected {a:?}", t.read("args")));
            }
            if t.read("stdin") != input {
                return Err(format!("the command read {:?}, expected {input:?}", t.read("stdin")));
            }
            if t.read("env") != "outer\n" {
                return Err(format!("the command did not inherit the environment: {:?}", t.read("env")));
            }
            if t.read("cwd").trim_end() != w.to_str().unwrap() {
                return Err(format!("the command ran in {:?}", t.read("cwd")));
            }
            if direct && (o.stdout != "out\n" || o.stderr != "err\n") {
                return Err(format!("the output of the command is not passed on\n{}", clip(&o)));
            }
        } else if !t.read("args").is_empty() {
            return Err(s("the command was run"));
        }
        Ok(())
    })();
    Case::check(repr, ran && (crash || chained || argv.len() > 1), r)
}

pub const PROPS: &[Prop] = &[
    Prop { id: "L02", run: l02, quick: 4000, thorough: 100000, hang: 120, rule: "a script with continuations, line numbers, an end marker or more than two commands", oracle: "commands with known output and status, generated together with the script", known: no_known },
    Prop { id: "L03", run: l03, quick: 4000, thorough: 100000, hang: 120, rule: "a script which defines, uses or escapes substitutions", oracle: "expansion computed piece by piece", known: l03_known },
    Prop { id: "L04", run: l04, quick: 4000, thorough: 100000, hang: 120, rule: "tests with at least two different outcomes", oracle: "decision table for the outcome of each test; report recomputed from it", known: no_known },
    Prop { id: "L05", run: l05, quick: 4000, thorough: 100000, hang: 120, rule: "at least two tests, and several inputs, nested suites or files which are not tests", oracle: "direct enumeration of the generated tree", known: l05_known },
    Prop { id: "L06", run: l06, quick: 4000, thorough: 100000, hang: 120, rule: "a selected test to which a local configuration applies", oracle: "overlay of the generated configurations", known: no_known },
    Prop { id: "L07", run: l07, quick: 80, thorough: 1500, hang: 120, rule: "a test over the limit, or more than two tests", oracle: "outcome by construction and wall clock", known: no_known },
    Prop { id: "L08", run: l08, quick: 8000, thorough: 200000, hang: 120, rule: "the command is run, with --crash, a nested use or several arguments", oracle: "documented exit status table; the command records what it was given", known: no_known },
];
