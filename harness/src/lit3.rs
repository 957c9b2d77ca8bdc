//! More properties of lit: what is shown of a test, target features, and leftovers.
use crate::engine::*;
use crate::lit2::*;
use std::collections::BTreeMap;
use std::path::Path;

fn clip(o: &Out) -> String {
    format!("exit={:?} killed={}\nstdout:\n{}\nstderr:\n{}", o.code, o.killed, truncate(&o.stdout, 3500), truncate(&o.stderr, 1500))
}

// ---------------------------------------------------------------- L09: what is shown of a test

/// Text which commands write: lines with a unique marker
fn chunk(src: &mut Src, id: &str, lines_only: bool) -> Vec<u8> {
    let mut v = vec![];
    let n = src.weighted(&[2, 6, 3, 1]);
    for k in 0..n {
        v.extend(format!("<{id}.{k}>").bytes());
        match src.weighted(&[6, 2, 1, 1, 1, 1, 1]) {
            0 => {}
            1 => v.extend(" some  text\twith blanks ".bytes()),
            2 => v.extend("é → 😀".bytes()),
            3 => v.extend([0xff, b'x', 0xc3]),
            4 => v.extend("\n\n".bytes()),
            5 => v.extend(" -- Command (x) ----".bytes()),
            _ => v.extend("w".repeat(*src.pick(&[100, 5000, 9000, 70000])).bytes()),
        }
        v.push(b'\n');
    }
    if !lines_only && n > 0 && src.chance(1, 4) {
        v.pop();
    }
    v
}

struct Attempt {
    out: Vec<u8>,
    /// what is expected on standard error, without the trace of the shell
    err: Vec<u8>,
    code: i32,
}

fn l09(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    t.file("lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\n");
    let n = src.range(1, 6);
    struct T {
        tag: &'static str,
        last: Option<Attempt>,
        /// what is required of standard error when nothing is run
        mention: Option<String>,
    }
    let mut tests: BTreeMap<String, T> = BTreeMap::new();
    let mut nontrivial = n > 2;
    for i in 0..n {
        let name = format!("s::t{i}.t");
        let kind = src.weighted(&[8, 2, 2, 2]);
        if kind == 2 {
            src.label("unsupported");
            t.file(&format!("t{i}.t"), &format!("# REQUIRES: feature-{i}\n# RUN: printf 'A%s' A{i}\n"));
            tests.insert(name, T { tag: "UNSUPPORTED", last: None, mention: Some(format!("feature-{i}")) });
            continue;
        }
        if kind == 3 {
            src.label("unresolved");
            let (x, m) = match src.below(3) {
                0 => (s("nothing to run\n"), ""),
                1 => (format!("# RUN: true\n# XFAIL: a{i} &&\n"), "&&"),
                _ => (format!("# RUN: echo %{{x\n# DEFINE: nonsense{i}\n"), "nonsense"),
            };
            t.file(&format!("t{i}.t"), &x);
            tests.insert(name, T { tag: "UNRESOLVED", last: None, mention: Some(s(m)) });
            continue;
        }
        let retries = if kind == 1 { src.range(1, 2) } else { 0 };
        let xfail = src.chance(1, 5);
        let mut x = s("");
        if retries > 0 {
            x.push_str(&format!("# ALLOWED_RETRIES: {retries}\n"));
        }
        if xfail {
            x.push_str("# XFAIL: *\n");
        }
        let fail_last = src.chance(1, 2);
        let attempts = if retries == 0 {
            1
        } else if fail_last {
            retries + 1
        } else {
            src.range(1, retries + 1)
        };
        // the number of the attempt
        if retries > 0 {
            src.label("retries");
            x.push_str(&format!("# RUN: echo x >> n{i}; cp $(wc -l < n{i}).{i}.o o{i}; cp $(wc -l < n{i}).{i}.e e{i}; cp $(wc -l < n{i}).{i}.s s{i}\n"));
        }
        let m = src.range(1, 3);
        let line0 = x.lines().count();
        let mut runs: Vec<String> = x.lines().filter_map(|l| l.strip_prefix("# RUN: ").map(s)).collect();
        let first = line0 - runs.len();
        let mut last = None;
        // commands: each writes its own chunk; with retries there is a single one
        if retries > 0 {
            let c = format!("cat o{i}; cat e{i} >&2; . ./s{i}");
            runs.push(c.clone());
            x.push_str(&format!("# RUN: {c}\n"));
            for a in 1..=attempts {
                let code = if a < attempts || fail_last { src.range(1, 3) as i32 } else { 0 };
                let (o, e) = (chunk(src, &format!("o{i}.{a}"), false), chunk(src, &format!("e{i}.{a}"), false));
                std::fs::write(t.w().join(format!("{a}.{i}.o")), &o).unwrap();
                std::fs::write(t.w().join(format!("{a}.{i}.e")), &e).unwrap();
                t.file(&format!("{a}.{i}.s"), &format!("exit {code}\n"));
                let mut err = vec![];
                for (k, r) in runs.iter().enumerate() {
                    err.extend(format!("RUN at line {}: {r}\n", first + k + 1).bytes());
                }
                err.extend(&e);
                last = Some(Attempt { out: o, err, code });
            }
        } else {
            let fail_at = if fail_last { src.below(m) } else { m };
            let (mut out, mut err, mut code) = (vec![], vec![], 0);
            for k in 0..m {
                let end = k + 1 == m || k == fail_at;
                let (o, e) = (chunk(src, &format!("o{i}.{k}"), false), chunk(src, &format!("e{i}.{k}"), !end));
                std::fs::write(t.w().join(format!("o{i}.{k}")), &o).unwrap();
                std::fs::write(t.w().join(format!("e{i}.{k}")), &e).unwrap();
                let st = if k == fail_at { *src.pick(&["exit 3", "false", "kill -9 $$"]) } else { *src.pick(&["true", ": 'a\\nb\\c'", ": \"it's  $x\"", ": %%"]) };
                let c = match src.below(3) {
                    0 => format!("cat o{i}.{k}; cat e{i}.{k} >&2; {st}"),
                    1 => format!("cat e{i}.{k} >&2 && cat o{i}.{k} && {st}"),
                    _ => format!("cat < o{i}.{k}; (cat e{i}.{k} >&2) && {st}"),
                };
                x.push_str(&format!("# RUN: {c}\n"));
                if k <= fail_at {
                    out.extend(&o);
                    err.extend(format!("RUN at line {}: {}\n", line0 + k + 1, c.replace("%%", "%")).bytes());
                    err.extend(&e);
                    if k == fail_at {
                        code = match st {
                            "exit 3" => 3,
                            "false" => 1,
                            _ => -9,
                        };
                    }
                }
            }
            last = Some(Attempt { out, err, code });
        }
        let last = last.unwrap();
        if !last.out.is_empty() {
            nontrivial = true;
        }
        let tag = match (last.code != 0, attempts > 1, xfail) {
            _ if last.code < 0 => "UNRESOLVED",
            (false, _, true) => "XPASS",
            (true, _, true) => "XFAIL",
            (false, true, _) => "FLAKYPASS",
            (false, false, _) => "PASS",
            _ => "FAIL",
        };
        t.file(&format!("t{i}.t"), &x);
        tests.insert(name, T { tag, last: Some(last), mention: None });
    }
    let (q, v, a) = (src.chance(1, 3), src.chance(1, 2), src.chance(1, 2));
    let mut args = vec![s("run")];
    for (on, short, long) in [(q, "-q", "--quiet"), (v, "-v", "--verbose"), (a, "-a", "--show-all")] {
        if on {
            args.push(s(if src.chance(1, 2) { long } else { short }));
        }
    }
    if src.chance(1, 2) {
        args.push(format!("-j{}", src.range(1, 8)));
    }
    args.push(s("."));
    let o = t.lit(ctx, &args);
    let repr = t.show(&args);
    let r = (|| {
        if o.killed {
            return Err(format!("lit did not terminate\n{}", clip(&o)));
        }
        let fails = tests.values().any(|t| is_failure(t.tag));
        if o.code != Some(fails as i32) {
            return Err(format!("exit status {:?}\n{}", o.code, clip(&o)));
        }
        // the report of each test, up to the next one or the lists at the end
        let end = o.stdout.find("\n********************").unwrap_or(o.stdout.find("\nTotal Discovered").unwrap_or(o.stdout.len()));
        let mut shown: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
        let mut cur: Option<String> = None;
        for l in o.stdout[..end].split_inclusive('\n') {
            let bare = l.trim_end_matches('\n');
            match bare.split_once(": ") {
                Some((tag, n)) if TAGS.contains(&tag) && n.starts_with("s::") => {
                    shown.entry(s(n)).or_default().push((s(tag), s("")));
                    cur = Some(s(n));
                }
                _ => {
                    if let Some(c) = &cur {
                        shown.get_mut(c).unwrap().last_mut().unwrap().1.push_str(l);
                    } else if !bare.is_empty() {
                        return Err(format!("{bare:?} is not part of the report of a test\n{}", clip(&o)));
                    }
                }
            }
        }
        for (name, w) in &tests {
            let with_line = is_failure(w.tag) || !q || a;
            let with_output = if is_failure(w.tag) { v || a } else { a };
            let got = shown.remove(name).unwrap_or_default();
            if got.len() != with_line as usize {
                return Err(format!("{name} ({}) has {} lines, expected {}\n{}", w.tag, got.len(), with_line as usize, clip(&o)));
            }
            if !with_line {
                continue;
            }
            let (tag, body) = &got[0];
            if tag != w.tag {
                return Err(format!("{name} is {tag}, expected {}\n{}", w.tag, clip(&o)));
            }
            if !with_output {
                if !body.trim().is_empty() {
                    return Err(format!("the output of {name} ({tag}) was not asked for: {body:?}\n{}", clip(&o)));
                }
                continue;
            }
            let sec = |which: &str| -> Option<String> {
                let h = format!("Command Output ({which}) ----\n");
                let i = body.find(&h)? + h.len();
                let j = body[i..].find("\n----------------------------\n")?;
                Some(s(&body[i..i + j]))
            };
            let err = sec("stderr");
            match &w.last {
                None => {
                    let m = w.mention.as_ref().unwrap();
                    if !err.as_ref().is_some_and(|e| e.contains(m.as_str()) && !e.trim().is_empty()) {
                        return Err(format!("the report of {name} ({tag}) does not mention {m:?}: {body:?}\n{}", clip(&o)));
                    }
                    if sec("stdout").is_some() {
                        return Err(format!("the report of {name} ({tag}), which was not run, shows output: {body:?}\n{}", clip(&o)));
                    }
                }
                Some(l) => {
                    let want = if l.out.is_empty() { None } else { Some(String::from_utf8_lossy(&l.out).into_owned()) };
                    let got = sec("stdout");
                    if got != want {
                        return Err(format!("standard output of {name} is shown as {:?}, expected {:?}\n{}", got.map(|g| truncate(&g, 600)), want.map(|g| truncate(&g, 600)), clip(&o)));
                    }
                    let strip = |e: String| e.split_inclusive('\n').filter(|l| !l.starts_with("+ ")).collect::<String>();
                    let got = err.map(strip).unwrap_or_default();
                    let want = String::from_utf8_lossy(&l.err).into_owned();
                    // the trace of a command may directly follow text without a line break
                    if got.trim_end_matches('\n') != want.trim_end_matches('\n') {
                        let got = got.split_inclusive('\n').map(|l| l.find("+ ").map(|i| &l[..i]).unwrap_or(l)).collect::<String>();
                        if got.trim_end_matches('\n') != want.trim_end_matches('\n') {
                            return Err(format!("standard error of {name} is shown as {:?}, expected {:?}\n{}", truncate(&got, 800), truncate(&want, 800), clip(&o)));
                        }
                    }
                    let code = body.lines().find_map(|l| l.strip_prefix("Exit Code: "));
                    let want = match l.code {
                        0 => None,
                        c if c < 0 => Some(s("N/A")),
                        c => Some(c.to_string()),
                    };
                    if code.map(s) != want {
                        return Err(format!("the exit status of {name} is shown as {code:?}, expected {want:?}\n{}", clip(&o)));
                    }
                }
            }
        }
        if let Some((n, _)) = shown.iter().next() {
            return Err(format!("{n} is not a test\n{}", clip(&o)));
        }
        Ok(())
    })();
    Case::check(repr, nontrivial, r)
}

// ---------------------------------------------------------------- L10: features of host and target

/// (triple, features which depend on it)
const TRIPLES: &[(&str, &[&str])] = &[
    ("x86_64-unknown-linux-gnu", &["target-x86_64", "x86_64-linux", "native"]),
    ("x86_64-unknown-linux-musl", &["target-x86_64", "x86_64-linux"]),
    ("x86_64-apple-darwin", &["target-x86_64", "x86_64-apple", "system-linker-mach-o"]),
    ("aarch64-apple-darwin", &["target-aarch64", "system-linker-mach-o"]),
    ("aarch64-unknown-linux-gnu", &["target-aarch64"]),
    ("i686-unknown-linux-gnu", &["target-x86"]),
    ("i386-apple-ios", &["target-x86"]),
    ("armv7-unknown-linux-gnueabihf", &["target-arm"]),
    ("thumbv7m-none-eabi", &["target-arm"]),
    ("riscv64gc-unknown-linux-gnu", &["target-riscv64gc"]),
    ("wasm32-unknown-unknown", &["target-wasm32"]),
    ("wasm32-wasi", &["target-wasm32"]),
    ("x86_64-pc-windows-msvc", &["target-x86_64"]),
    ("s390x-unknown-linux-gnu", &["target-s390x"]),
    ("powerpc64le-unknown-linux-gnu", &["target-powerpc64le"]),
    ("x86_64-unknown-none", &["target-x86_64"]),
];
const HOST: &str = "x86_64-unknown-linux-gnu";
const ASKED: &[&str] = &[
    "system-linux", "system-windows", "system-darwin", "native", "target-x86_64", "target-x86", "target-aarch64", "target-arm", "target-wasm32", "target-s390x", "target-riscv64gc", "target-powerpc64le", "x86_64-linux", "x86_64-apple",
    "system-linker-mach-o", "host=x86_64-unknown-linux-gnu", "host=aarch64-apple-darwin", "target=x86_64-unknown-linux-gnu", "target=aarch64-apple-darwin", "target=wasm32-unknown-unknown", "extra", "more", "target-armv7", "linux", "x86_64",
];

fn l10(src: &mut Src, ctx: &mut Ctx) -> Case {
    if std::env::consts::ARCH != "x86_64" || std::env::consts::OS != "linux" {
        return Case::discard();
    }
    let mut t = Tree::new(ctx);
    let own: Vec<&str> = ["extra", "more", "native", "target-x86"].into_iter().filter(|_| src.chance(1, 6)).collect();
    t.file("lit.suite.toml", &format!("name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\navailable_features = {own:?}\n"));
    let given = src.chance(3, 4);
    let bad = src.chance(1, 25);
    let (triple, feats) = if given { *src.pick(TRIPLES) } else { TRIPLES[0] };
    let target = format!("target={triple}");
    let host = format!("host={HOST}");
    let mut have: Vec<&str> = vec!["system-linux", &host, &target];
    have.extend(feats);
    have.extend(&own);
    let n = src.range(1, 6);
    let mut want = BTreeMap::new();
    let mut nontrivial = given;
    for i in 0..n {
        let mut x = s("");
        let mut tag = "";
        let pick = |src: &mut Src| -> (String, bool) {
            let near: &[&str] = if src.chance(1, 2) { feats } else { ASKED };
            let f = if src.chance(1, 6) { target.as_str() } else { *src.pick(near) };
            (s(f), have.contains(&f))
        };
        for _ in 0..src.range(1, 3) {
            let (f, mut has) = pick(src);
            let mut e = f;
            match src.weighted(&[6, 2, 2, 1]) {
                0 => {}
                1 => {
                    let (g, h) = pick(src);
                    e = format!("{e} && {g}");
                    has = has && h;
                }
                2 => {
                    let (g, h) = pick(src);
                    e = format!("{e} || {g}");
                    has = has || h;
                }
                _ => {
                    e = format!("!{e}");
                    has = !has;
                }
            }
            match src.below(3) {
                0 => {
                    x.push_str(&format!("REQUIRES: {e}\n"));
                    if !has {
                        tag = "UNSUPPORTED";
                    }
                }
                1 => {
                    x.push_str(&format!("UNSUPPORTED: {e}\n"));
                    if has {
                        tag = "UNSUPPORTED";
                    }
                }
                _ => {
                    x.push_str(&format!("XFAIL: {e}\n"));
                    if has && tag.is_empty() {
                        tag = "x";
                    }
                }
            }
        }
        let ok = src.chance(1, 2);
        x.push_str(&format!("RUN: {ok}\n"));
        let tag = match (tag, ok) {
            ("UNSUPPORTED", _) => "UNSUPPORTED",
            ("x", true) => "XPASS",
            ("x", false) => "XFAIL",
            (_, true) => "PASS",
            _ => "FAIL",
        };
        nontrivial |= tag != "PASS";
        t.file(&format!("t{i}.t"), &x);
        want.insert(format!("s::t{i}.t"), s(tag));
    }
    let mut args = vec![s("run")];
    if bad {
        args.push(format!("--target={}", *src.pick(&["", "nonsense", "foo-bar", "x86_64-unknown-foo-bar-baz-qux", "x86_64 linux"])));
    } else if given {
        let v = [format!("--target={triple}")];
        args.extend(v);
    }
    // filters, from the command line or the environment
    let mut env: Vec<(&str, String)> = vec![];
    let mut rx = |src: &mut Src, name: &'static str, var: &'static str| -> Option<(String, Vec<usize>)> {
        if !src.chance(1, 4) {
            return None;
        }
        let mk = |src: &mut Src| -> (String, Vec<usize>) {
            let i = src.below(n);
            match src.below(4) {
                0 => (format!("t{i}"), vec![i]),
                1 => (format!("^s::t{i}\\.t$"), vec![i]),
                2 => (format!("[{i}-9]"), (i..n).collect()),
                _ => (s("s::"), (0..n).collect()),
            }
        };
        let (a, b) = (mk(src), mk(src));
        match src.below(3) {
            0 => {
                args.push(format!("{name}={}", a.0));
                Some(a)
            }
            1 => {
                env.push((var, a.0.clone()));
                Some(a)
            }
            _ => {
                src.label("both");
                env.push((var, b.0));
                args.push(format!("{name}={}", a.0));
                Some(a)
            }
        }
    };
    let f = rx(src, "--filter", "LIT_FILTER");
    let fo = rx(src, "--filter-out", "LIT_FILTER_OUT");
    for i in 0..n {
        let sel = f.as_ref().is_none_or(|f| f.1.contains(&i)) && !fo.as_ref().is_some_and(|f| f.1.contains(&i));
        if !sel {
            want.insert(format!("s::t{i}.t"), s("EXCLUDED"));
        }
    }
    args.push(s("."));
    let mut full = strs(&["lit"]);
    full.extend(args.iter().cloned());
    let envs: Vec<(&str, String)> = env.clone();
    let o = run_bin_env(&ctx.bin, &full, &t.w(), &t.root.join("tmp"), None, 60, &envs);
    let repr = format!("{envs:?}\n{}", t.show(&args));
    let r = (|| {
        if bad {
            if o.code == Some(0) || o.code.is_none() || !tags(&o.stdout).is_empty() {
                return Err(format!("a target which is not a triple is accepted\n{}", clip(&o)));
            }
            return Ok(());
        }
        check_report(&o, &want, false)?;
        // the listing agrees
        if !given && f.is_none() && fo.is_none() {
            let o = t.lit(ctx, &strs(&["show-suites", "."]));
            let mut got: Vec<String> = vec![];
            let mut on = false;
            for l in o.stdout.lines() {
                if l.trim() == "Available Features:" {
                    on = true;
                } else if let (true, Some(f)) = (on, l.trim().strip_prefix("- ")) {
                    got.push(s(f));
                } else {
                    on = false;
                }
            }
            let mut exp: Vec<String> = have.iter().map(|f| s(f)).collect();
            exp.sort();
            exp.dedup();
            got.sort();
            if got != exp {
                return Err(format!("the features are listed as {got:?}, expected {exp:?}\n{}", clip(&o)));
            }
            if !o.stdout.contains(&format!("* s - {n} tests")) {
                return Err(format!("the number of tests ({n}) is not listed\n{}", clip(&o)));
            }
        }
        Ok(())
    })();
    Case::check(repr, nontrivial, r)
}

// ---------------------------------------------------------------- L11: nothing is left behind

/// Everything below `at`, with the contents of files
fn snapshot(at: &Path) -> BTreeMap<String, String> {
    fn walk(at: &Path, base: &Path, m: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(at) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let n = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if e.file_type().is_ok_and(|t| t.is_dir()) {
                m.insert(format!("{n}/"), s(""));
                walk(&p, base, m);
            } else {
                m.insert(n, std::fs::read(&p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default());
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(at, at, &mut m);
    m
}

fn l11(src: &mut Src, ctx: &mut Ctx) -> Case {
    let mut t = Tree::new(ctx);
    // one or two suites; each with its own working directory, or without one
    let suites = src.range(1, 2);
    let mut dirs: Vec<String> = vec![];
    let mut want = BTreeMap::new();
    let mut nontrivial = false;
    let mut broken = false;
    let mut logs: Vec<(String, String)> = vec![];
    for k in 0..suites {
        let at = if suites == 1 && src.chance(1, 2) { s(".") } else { format!("s{k}") };
        let wd = src.weighted(&[3, 2, 1]);
        let mut unrunnable = false;
        let name = *src.pick(&["s", "ab", "a.b", "x-y"]);
        let mut c = format!("name = \"{name}{k}\"\npatterns = [\"*.t\"]\n");
        if wd == 1 {
            c.push_str("working_dir = \"exec\"\n");
            t.dir(&format!("{at}/exec"));
        } else if wd == 2 {
            t.dir(&format!("abs{k}"));
            c.push_str(&format!("working_dir = {:?}\n", t.w().join(format!("abs{k}"))));
        }
        if src.chance(1, 10) {
            // nothing can be run at all
            src.label("broken tests");
            unrunnable = true;
            c.push_str(*src.pick(&["[substitutions]\n'(' = 'x'\n", "[format.shtest]\nshell = \"/missing/sh\"\n"]));
        }
        if k == 1 && src.chance(1, 6) {
            src.label("broken suite");
            broken = true;
            c = s(*src.pick(&["name = 1\n", "name = \"\"\npatterns = [\"*.t\"]\n", "name = \"z\"\npatterns = [\"*.t\"]\nworking_dir = \"missing\"\n", "name = \"z\"\nsource_dir = \"missing\"\n"]));
        }
        t.file(&format!("{at}/lit.suite.toml"), &c);
        for i in 0..src.range(1, 4) {
            let sub = *src.pick(&["", "", "d/", "d/e/", "f/"]);
            let id = format!("{k}{i}");
            let log = t.w().join(format!("log.{id}"));
            let log = log.to_str().unwrap();
            let mut x = s("");
            let retries = if src.chance(1, 5) { 2 } else { 0 };
            if retries > 0 {
                x.push_str("# ALLOWED_RETRIES: 2\n");
            }
            let mut out = s("");
            let m = src.range(0, 4);
            for _ in 0..m {
                nontrivial = true;
                let (c, o) = match src.below(9) {
                    0 => (s("echo x > %t"), s("")),
                    1 => (format!("echo {id} > %t.out; cat %t.out >> {log}"), format!("{id}\n")),
                    2 => (format!("mkdir -p %t.d/sub && echo {id} > %t.d/sub/f && cat %t.d/sub/f >> {log}"), format!("{id}\n")),
                    3 => (s("ln -sf missing %t.link"), s("")),
                    4 => (format!("echo {id} > $(dirname %t)/f; cat $(dirname %t)/f >> {log}"), format!("{id}\n")),
                    5 => (s("mkdir -p %t.ro && echo > %t.ro/f && chmod 400 %t.ro/f"), s("")),
                    6 => (format!("test -e %t.none && echo bad >> {log} || true"), s("")),
                    7 => (s("head -c 100000 /dev/zero > %t.big"), s("")),
                    // a file from an earlier attempt or another test
                    _ => (format!("test -e %t.once && echo stale >> {log}; ls $(dirname %t) > %t.ls || true"), s("")),
                };
                x.push_str(&format!("# RUN: {c}\n"));
                out.push_str(&o);
            }
            let end = src.below(4);
            let tag = match end {
                0 | 1 => {
                    x.push_str("# RUN: true\n");
                    "PASS"
                }
                2 => {
                    x.push_str("# RUN: false\n");
                    out = out.repeat(1 + retries);
                    "FAIL"
                }
                _ => {
                    x.push_str("# RUN: kill -9 $$\n");
                    "UNRESOLVED"
                }
            };
            let mut tag = tag;
            if src.chance(1, 8) {
                x = s(*src.pick(&["nothing\n", "# RUN: true\n# XFAIL: (\n", "# RUN: true\n# REQUIRES: nope\n", "# REDEFINE: %{x} = 1\n# RUN: echo > %t\n", "# DEFINE: %{x} = 1\n# RUN: echo > %t\n# DEFINE: %{x} = %t\n"]));
                tag = if x.contains("nope") { "UNSUPPORTED" } else { "UNRESOLVED" };
                out = s("");
            }
            if unrunnable {
                if tag != "UNSUPPORTED" {
                    tag = "UNRESOLVED";
                }
                out = s("");
            }
            let f = format!("{sub}t{i}.t");
            t.file(&format!("{at}/{f}"), &x);
            want.insert(format!("{name}{k}::{f}"), s(tag));
            logs.push((format!("log.{id}"), out));
        }
        dirs.push(at);
    }
    let mode = src.weighted(&[6, 1, 1]);
    let mut args = vec![s(["run", "show-suites", "show-tests"][mode])];
    if mode == 0 && src.chance(1, 2) {
        args.push(s(*src.pick(&["-j1", "-v", "-q", "-a", "--timeout=20"])));
    }
    let mut noexec = false;
    if mode == 0 && src.chance(1, 8) {
        noexec = true;
        args.push(s("--no-execute"));
    }
    args.extend(dirs.iter().cloned());
    let before = snapshot(&t.w());
    let o = t.lit(ctx, &args);
    let repr = t.show(&args);
    let r = (|| {
        if o.killed || o.code.is_none() {
            return Err(format!("lit did not terminate\n{}", clip(&o)));
        }
        if mode == 0 && !broken && !noexec {
            check_report(&o, &want, args.contains(&s("-q")))?;
        } else if broken && o.code == Some(0) {
            return Err(format!("a broken suite was accepted\n{}", clip(&o)));
        }
        let left = snapshot(&t.root.join("tmp"));
        if !left.is_empty() {
            return Err(format!("left in the directory for temporary files: {:?}\n{}", left.keys().collect::<Vec<_>>(), clip(&o)));
        }
        let mut after = snapshot(&t.w());
        for (l, w) in &logs {
            let got = after.remove(l).unwrap_or_default();
            let w = if mode == 0 && !broken && !noexec { w.as_str() } else { "" };
            if got != w {
                return Err(format!("{l}: the test wrote {got:?}, expected {w:?}\n{}", clip(&o)));
            }
        }
        for (n, x) in &before {
            if after.remove(n).as_ref() != Some(x) {
                return Err(format!("{n} was changed or removed\n{}", clip(&o)));
            }
        }
        // directories which mirror those of the tests may be left in a working directory
        let extra: Vec<&String> = after.keys().filter(|n| !(n.ends_with('/') && (n.contains("exec/") || n.starts_with("abs")) && ["d/", "d/e/", "f/"].iter().any(|d| n.ends_with(d)))).collect();
        if !extra.is_empty() {
            return Err(format!("left behind: {extra:?}\n{}", clip(&o)));
        }
        Ok(())
    })();
    Case::check(repr, nontrivial, r)
}

pub const PROPS: &[Prop] = &[
    Prop { id: "L09", run: l09, quick: 2500, thorough: 100000, hang: 120, rule: "a test which writes to standard output, or more than two tests", oracle: "the text which the generated commands write, and a table of which output is shown", known: no_known },
    Prop { id: "L10", run: l10, quick: 4000, thorough: 100000, hang: 120, rule: "a target is given, or a test does not simply pass", oracle: "table of the features of each target; outcome by construction", known: no_known },
    Prop { id: "L11", run: l11, quick: 2200, thorough: 100000, hang: 120, rule: "a test which creates files", oracle: "snapshots of the directory tree before and after", known: no_known },
];
