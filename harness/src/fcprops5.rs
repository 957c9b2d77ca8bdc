//! The filecheck program: exit status, options, environment, where the files come from.
use crate::engine::*;
use crate::fc::*;
use crate::fcprops::*;
use crate::lit2::{run_bin_env, s as st};
use litcheck::diagnostics::{DefaultSourceManager, FileName, SourceLanguage, SourceManager};
use litcheck_core as litcheck;
use litcheck_filecheck::{Config, Test, TestFailed};
use std::sync::Arc;

// ---------------------------------------------------------------- F12

/// An argument group: the words it consists of.
type Group = Vec<String>;

/// `--name=value` or `--name value`
fn with_value(s: &mut Src, name: &str, value: &str) -> Group {
    // a separate value must not look like an option
    if value.starts_with('-') || value.is_empty() || s.chance(1, 2) { vec![format!("{name}={value}")] } else { vec![st(name), st(value)] }
}

fn prefix_groups(s: &mut Src, names: [&str; 2], list: &[String], v: &mut Vec<Group>) {
    // repeated options and comma-separated lists may be mixed
    let mut i = 0;
    while i < list.len() {
        let n = s.range(1, list.len() - i);
        let name = *s.pick(&names);
        v.push(with_value(s, name, &list[i..i + n].join(",")));
        i += n;
    }
}

fn quote(s: &mut Src, w: &str) -> String {
    let plain = !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || "-_=,./".contains(c));
    match s.below(3) {
        0 if plain => st(w),
        1 if !w.contains('\'') => format!("'{w}'"),
        _ => format!("\"{}\"", w.replace('\\', "\\\\").replace('"', "\\\"").replace('$', "\\$").replace('`', "\\`")),
    }
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - s.below(i + 1);
        v.swap(i, j);
    }
}

fn f12(s: &mut Src, ctx: &mut Ctx) -> Case {
    let mut o = Opts::default();
    let mut input = if s.chance(1, 10) { st(s.pick(&["", "", "\n", " \n"])) } else { gen_input(s, 5, WORDS) };
    let mut lax = Mix { plain: 5, next: 3, same: 2, empty: 1, count: 1, not: 2, dag: 1, label: 1 };
    if input.trim().is_empty() {
        lax = Mix { plain: 1, next: 1, same: 0, empty: 1, count: 0, not: 6, dag: 0, label: 0 };
    }
    let dirs = gen_dirs(s, &input, 3, &lax, &STD);
    o.prefixes = match s.below(6) {
        0 | 1 => vec![],
        2 => vec![st("FOO")],
        3 => vec![st("FOO"), st("BAR")],
        4 => vec![st("my-check"), st("CHECK"), st("A_1")],
        _ => vec![st("CHECK"), st("CHECK-B")],
    };
    o.comments = match s.below(5) {
        0 => vec![st("NOTE")],
        1 => vec![st("TODO"), st("X-Y")],
        2 => vec![st("COM"), st("RUN"), st("NOTE")],
        _ => vec![],
    };
    let active = if o.prefixes.is_empty() { vec![st("CHECK")] } else { o.prefixes.clone() };
    let coms = if o.comments.is_empty() { vec![st("COM"), st("RUN")] } else { o.comments.clone() };
    let mut check = String::new();
    let hidden = s.chance(1, 4);
    for (i, d) in dirs.iter().enumerate() {
        let p = s.pick(&active).clone();
        if hidden && i == 0 {
            check.push_str(&format!("{}: {p}: never\n", s.pick(&coms)));
        }
        check.push_str(&render_dir(d, &p));
        check.push('\n');
    }
    let mut vars: Vec<(String, String)> = vec![];
    for _ in 0..s.weighted(&[5, 3, 1]) {
        let k = s.pick(&["X", "Y", "my_Var2"]).to_string();
        vars.push((k.clone(), s.pick(&["a", "b", "foo", "zz", "a=b", "a b", "", "é", "$x", "\"", "'"]).to_string()));
        if s.chance(1, 2) {
            // a later definition of the same name replaces it
            vars.push((k.clone(), s.pick(&["a", "b", "zz"]).to_string()));
        }
        if s.chance(2, 3) {
            check.push_str(&format!("{}-NOT: [[{k}]]{{{{ ?}}}}\n", active[0]));
        }
        if s.chance(1, 2) {
            input.push_str(&format!("={}=\n", vars.last().unwrap().1));
            check.push_str(&format!("{}: =[[{k}]]=\n", active[0]));
        }
    }
    let mut nvars: Vec<(String, i64)> = vec![];
    if s.chance(1, 6) {
        let n = s.range(0, 30) as i64;
        nvars.push((st("N"), n));
        input.push_str(&format!("#{}\n", n + s.below(2) as i64));
        check.push_str(&format!("{}: #[[#N]]\n", active[0]));
    }
    // which options
    let mut groups: Vec<Group> = vec![];
    for (flag, name) in [(&mut o.icase, "--ignore-case"), (&mut o.strict, "--strict-whitespace"), (&mut o.scope, "--enable-var-scope"), (&mut o.unused_ok, "--allow-unused-prefixes"), (&mut o.allow_empty, "--allow-empty")] {
        *flag = s.chance(if name == "--allow-unused-prefixes" { 3 } else { 1 }, 4);
        if *flag {
            for _ in 0..s.weighted(&[0, 8, 1]) {
                groups.push(vec![st(name)]);
            }
        }
    }
    if o.icase && s.chance(1, 2) {
        input = input.to_uppercase();
    }
    let w: [&[usize]; 2] = [&[4, 1, 1], &[1]];
    for _ in 0..s.weighted(w[usize::from(input.trim().is_empty())]) {
        let p = s.pick(&["zz", "q", "foo b", "{{z+}}", "baz", "a,b", "-x", "$", "error: \"x\""]).to_string();
        o.implicit.push(p.clone());
        groups.push(with_value(s, "--implicit-check-not", &p));
    }
    prefix_groups(s, ["--check-prefix", "--check-prefixes"], &o.prefixes.clone(), &mut groups);
    prefix_groups(s, ["--comment-prefix", "--comment-prefixes"], &o.comments.clone(), &mut groups);
    match s.weighted(&[5, 1, 1, 1]) {
        0 => {}
        1 => groups.push(vec![st("-v")]),
        2 => groups.push(vec![st("-vv")]),
        _ => groups.push(vec![st("--verbose")]),
    }
    if s.chance(1, 4) {
        for _ in 0..s.range(1, 2) {
            let v = *s.pick(&["always", "fail", "never"]);
            groups.push(with_value(s, "--dump-input", v));
        }
    }
    if s.chance(1, 6) {
        let v = *s.pick(&["auto", "always", "never"]);
        groups.push(with_value(s, "--color", v));
    }
    if s.chance(1, 10) {
        let v = *s.pick(&["all", "error", "annotation", "annotation-full"]);
        groups.push(with_value(s, "--dump-input-filter", v));
    }
    shuffle(s, &mut groups);
    // what is wrong with the command line or the files, if anything
    let mut expect: Option<i32> = None;
    if s.chance(1, 6) {
        expect = Some(2);
        let v: &[&str] = &[
            "--bogus", "--check-prefix=", "--check-prefix=9A", "--check-prefix=A B", "--check-prefix=A:", "--check-prefix=é", "--check-prefix=A,,B", "--check-prefixes=_A", "--comment-prefix=", "--comment-prefix=-A", "--comment-prefixes=C.", "-DX", "-D=x",
            "-D9=x", "-D#X=1+", "-DX Y=1", "-DX-Y=1", "-D#X", "-D$=1", "-D@LINE=3", "--dump-input=x", "--dump-input-filter=x", "--color=x", "--ignore-case=true", "extra-file", "-q", "--define=X",
        ];
        let at = s.below(groups.len() + 1);
        groups.insert(at, vec![s.pick(v).to_string()]);
    } else if s.chance(1, 12) {
        expect = Some(1);
        // a prefix which is used for checks and for comments
        let (a, b) = match s.below(3) {
            0 if !o.prefixes.is_empty() && o.prefixes != [st("CHECK")] => ("--comment-prefix", s.pick(&active).clone()),
            1 if o.prefixes.is_empty() => ("--comment-prefix", st("CHECK")),
            _ => ("--check-prefix", s.pick(&coms).clone()),
        };
        let at = s.below(groups.len() + 1);
        groups.insert(at, with_value(s, a, &b));
    }
    // definitions keep their order
    let mut defs: Vec<Group> = vec![];
    for (k, v) in &vars {
        let d = format!("{k}={v}");
        defs.push(match s.below(3) {
            0 => vec![format!("-D{d}")],
            1 => vec![st("-D"), d],
            _ => vec![format!("--define={d}")],
        });
        o.defs.retain(|(n, _)| n != k);
        o.defs.push((k.clone(), v.clone()));
    }
    for (k, v) in &nvars {
        defs.push(vec![format!("-D#{k}={v}")]);
        o.ndefs.push((None, k.clone(), Ex::Lit(*v as i128, false)));
    }
    // interleave options and definitions
    let mut all: Vec<Group> = vec![];
    while !groups.is_empty() || !defs.is_empty() {
        if defs.is_empty() || (!groups.is_empty() && s.chance(1, 2)) {
            all.push(groups.remove(0));
        } else {
            all.push(defs.remove(0));
        }
    }
    // the first ones may come from the environment
    let from_env = if s.chance(1, 2) { s.below(all.len() + 1) } else { 0 };
    let mut env = vec![];
    if from_env > 0 || s.chance(1, 8) {
        let mut t = String::new();
        for w in all.drain(..from_env).flatten() {
            t.push_str(s.pick(&["", " "]));
            t.push_str(&quote(s, &w));
            t.push(' ');
        }
        env.push(("FILECHECK_OPTS", t));
    }
    // files
    let dir = ctx.fresh_dir("f12");
    let cwd = dir.join("w d");
    std::fs::create_dir_all(cwd.join("sub")).unwrap();
    std::fs::create_dir_all(dir.join("bin")).unwrap();
    std::fs::create_dir_all(dir.join("tmp")).unwrap();
    let mut check_bytes = check.clone().into_bytes();
    let mut input_bytes = input.clone().into_bytes();
    let mut missing = 0;
    if expect.is_none() && s.chance(1, 12) {
        expect = Some(1);
        match s.below(4) {
            0 => input_bytes.insert(s.below(input.len() + 1), 0xff),
            1 => check_bytes.insert(s.below(check.len() + 1), 0xfe),
            2 => missing = 1,
            _ => missing = 2,
        }
    }
    std::fs::write(cwd.join("sub/t.chk"), &check_bytes).unwrap();
    std::fs::write(cwd.join("sub/in put"), &input_bytes).unwrap();
    let spell = |s: &mut Src, p: &str| match s.below(3) {
        0 => st(p),
        1 => format!("./{p}"),
        _ => format!("{}/{p}", cwd.display()),
    };
    let mut stdin: Option<&[u8]> = None;
    let check_file = match s.below(6) {
        0 => {
            stdin = Some(&check_bytes);
            st("-")
        }
        _ => {
            let p = if missing == 1 { *s.pick(&["sub", "sub/none"]) } else { "sub/t.chk" };
            spell(s, p)
        }
    };
    if missing == 1 && check_file == "-" {
        expect = None;
    }
    match if stdin.is_some() { 0 } else { s.below(4) } {
        1 => stdin = Some(&input_bytes),
        2 => {
            stdin = Some(&input_bytes);
            all.insert(s.below(all.len() + 1), vec![st("--input-file=-")]);
        }
        _ => {
            let p = if missing == 2 { *s.pick(&["sub", "sub/none"]) } else { "sub/in put" };
            let p = spell(s, p);
            let g = with_value(s, "--input-file", &p);
            all.insert(s.below(all.len() + 1), g);
            missing = 0;
        }
    }
    if missing == 2 {
        expect = None;
    }
    let mut args: Vec<String> = vec![];
    let pos = s.below(all.len() + 1);
    if s.chance(1, 20) && expect != Some(2) {
        // after the end of options
        args = all.concat();
        args.push(st("--"));
        args.push(check_file.clone());
    } else {
        for (i, g) in all.iter().enumerate() {
            if i == pos {
                args.push(check_file.clone());
            }
            args.extend(g.iter().cloned());
        }
        if pos == all.len() {
            args.push(check_file.clone());
        }
    }
    // under which name
    let name = *s.pick(&["filecheck", "filecheck", "FileCheck", "check"]);
    let link = |n: &str| {
        let p = dir.join("bin").join(n);
        std::os::unix::fs::symlink(&ctx.bin, &p).unwrap();
        p
    };
    let negated = s.chance(1, 8);
    let standalone = s.chance(1, 2);
    let (prog, mut full) = match (negated, standalone) {
        (false, true) => (link(name), vec![]),
        (false, false) => (ctx.bin.clone(), vec![st(name)]),
        (true, true) => (ctx.bin.clone(), vec![st("not"), link(name).display().to_string()]),
        (true, false) => (link("not"), vec![ctx.bin.display().to_string(), st(name)]),
    };
    full.extend(args.iter().cloned());
    let shown: Vec<String> = full.iter().map(|a| if a == &ctx.bin.display().to_string() { st("litcheck") } else { format!("{a:?}").replace(&dir.display().to_string(), "DIR") }).collect();
    let repr = format!(
        "{}{} {}{}\n{}",
        env.iter().map(|(k, v)| format!("{k}={v:?} ")).collect::<String>(),
        prog.file_name().unwrap().to_string_lossy(),
        shown.join(" "),
        if stdin.is_some() { if check_file == "-" { " < check file" } else { " < input" } } else { "" },
        show(&String::from_utf8_lossy(&check_bytes), &String::from_utf8_lossy(&input_bytes), &Opts::default()),
    );
    announce(s, &repr);
    let mut r = Ok(());
    let want = match expect {
        Some(e) => e,
        None => {
            let v = guard(|| run_real(&check, &input, &o, false));
            match v {
                Err(e) => {
                    r = Err(format!("filecheck crashed: {e}"));
                    -1
                }
                Ok(Real::Pass(_)) if input.is_empty() && !o.allow_empty => {
                    r = Err(st("empty input was accepted"));
                    -1
                }
                Ok(Real::Pass(_)) => 0,
                Ok(_) => 1,
            }
        }
    };
    s.label(match want {
        0 => "exit status 0: checks pass",
        1 if expect.is_some() => "exit status 1: invalid files or prefixes",
        1 => "exit status 1: checks fail",
        _ => "exit status 2: usage",
    });
    if r.is_ok() {
        let out = run_bin_env(&prog, &full, &cwd, &dir.join("tmp"), stdin, 60, &env);
        let code = if negated { i32::from(want == 0) } else { want };
        r = if out.killed {
            Err(st("no end within 60 s"))
        } else if out.code != Some(code) {
            Err(format!("the exit status is {:?}, expected {code}\nstdout: {}\nstderr: {}", out.code, truncate(&out.stdout, 2000), truncate(&out.stderr, 2000)))
        } else if want != 0 && out.stderr.trim().is_empty() {
            Err(st("failed without a message"))
        } else {
            let changed = [("sub/t.chk", &check_bytes), ("sub/in put", &input_bytes)].iter().any(|(p, b)| std::fs::read(cwd.join(p)).ok().as_ref() != Some(*b));
            if changed { Err(st("the files were changed")) } else { Ok(()) }
        };
    }
    let _ = std::fs::remove_dir_all(&dir);
    Case::check(repr, args.len() > 2 || !env.is_empty(), r)
}

// ---------------------------------------------------------------- F13: malformed directives are rejected

/// A malformed pattern, and what is wrong with it.
fn malformed(s: &mut Src) -> (&'static str, String) {
    let w = s.pick(&["a", "b", "X", "foo", "ab"]).to_string();
    let n = s.below(300);
    match s.below(30) {
        // neither is a valid regex, though they are when put together
        28 => ("invalid regex", format!("{{{{({w}}}}}{}{{{{x)}}}}", s.pick(&["", " ", "b", "b "]))),
        29 => ("invalid regex", format!("{{{{{}}}}}{}{{{{{}}}}}", s.pick(&["x", "x)", "[a", "(?:x|", "(?<n>a"]), s.pick(&["", " ", "a", "-"]), s.pick(&["(y", "b)", "(b))", "y))", "(?x"]))),
        27 => ("invalid numeric block", format!("[[#{}{w}]]", s.pick(&["[", "[[", "[#", "[[#", "]", "{", "{{"]))),
        26 => ("block not closed", st(s.pick(&["[[", "{{", "[[#", "[[#%", "[[#%x,", "[[X:", "[[@"]))),
        0 => ("regex block not closed", format!("{{{{{w}")),
        1 => ("regex block not closed", format!("{w}{{{{{w}}}")),
        2 => ("variable block not closed", format!("[[{w}")),
        3 => ("variable block not closed", format!("[[{w}:{w}]")),
        4 => ("variable block not closed", format!("[[#{w}")),
        5 => ("invalid regex", format!("{{{{{w}(}}}}")),
        6 => ("invalid regex", format!("{{{{({w}|{w}}}}}")),
        7 => ("invalid regex", format!("{{{{{w})}}}}")),
        8 => ("invalid regex", format!("{{{{[{w}}}}}")),
        9 => ("invalid regex", st("{{[z-a]}}")),
        10 => ("invalid regex", st("{{*a}}")),
        11 => ("invalid regex", format!("[[{w}:(]]")),
        12 => ("invalid variable block", st("[[]]")),
        13 => ("invalid variable block", format!("[[{n}{w}]]")),
        14 => ("invalid variable block", format!("[[{w} Y]]")),
        15 => ("invalid variable block", format!("[[{w}-{n}]]")),
        16 => ("invalid numeric block", format!("[[#%{},{w}]]", s.pick(&["q", "s", "f", "xx", ".", ".x4", "#d", "#u"]))),
        17 => ("invalid numeric block", format!("[[#{w}{}]]", s.pick(&["+", "-", "+-", "==", "*2", "/2", "+)", "++1"]))),
        18 => ("invalid numeric block", format!("[[#({n}{}]]", s.pick(&["", "+1", "+(1)"]))),
        19 => ("invalid numeric block", format!("[[#{}({n})]]", s.pick(&["foo", "add", "sub", "mul", "div", "min", "max"]))),
        20 => ("invalid numeric block", format!("[[#{}({n},{n},{n})]]", s.pick(&["add", "sub", "mul", "div", "min", "max"]))),
        21 => ("invalid numeric block", format!("[[#{n} {n}]]")),
        22 => ("invalid line number block", format!("[[@LINE{}]]", s.pick(&["+", "-", "*2", "+1+", "+(1", "-)"]))),
        23 => ("invalid numeric block", format!("[[#{w}:{}]]", s.pick(&["=", "+", "==", ")"]))),
        24 => ("invalid numeric block", format!("[[#={n}]]")),
        _ => ("invalid numeric block", format!("[[#{w}!={n}]]")),
    }
}

fn f13(s: &mut Src, _: &mut Ctx) -> Case {
    let mut o = Opts::default();
    let input = if s.chance(1, 10) { String::new() } else { gen_input(s, 5, WORDS) };
    o.allow_empty = s.chance(3, 4);
    o.icase = s.chance(1, 8);
    o.strict = s.chance(1, 8);
    o.scope = s.chance(1, 8);
    let mix = Mix { plain: 4, next: 2, same: 2, empty: 1, count: 1, not: 4, dag: 2, label: 2 };
    let dirs = gen_dirs(s, &input, 4, &mix, &STD);
    let mut good: Vec<String> = dirs.iter().map(|d| render_dir(d, "CHECK")).collect();
    let words = |s: &mut Src| if s.chance(1, 2) { String::new() } else { s.pick(WORDS).to_string() };
    let kind = s.pick(&["", "-NEXT", "-SAME", "-NOT", "-DAG", "-LABEL", "-COUNT-2"]).to_string();
    let positive = s.pick(&["", "-NEXT", "-SAME", "-DAG", "-COUNT-2"]).to_string();
    let mut at = s.below(good.len() + 1);
    let (what, bad): (&'static str, String) = match s.weighted(&[12, 1, 1, 2, 1, 1, 1, 1, 1]) {
        0 => {
            let (what, p) = malformed(s);
            // text around it, which does not close it
            let (pre, post) = (words(s), words(s));
            let pre = if s.chance(1, 4) { format!("{pre}{{{{x*}}}}") } else { pre };
            (what, format!("CHECK{kind}: {pre}{p}{post}"))
        }
        1 => ("no pattern", format!("CHECK{kind}:{}", if o.strict { *s.pick(&["", " "]) } else { *s.pick(&["", " ", "  ", "\t"]) })),
        2 => ("no pattern", format!("CHECK{}{{LITERAL}}:{}", s.pick(&["", "-NEXT", "-SAME", "-NOT", "-DAG", "-LABEL"]), if o.strict { *s.pick(&["", " "]) } else { *s.pick(&["", " ", "  "]) })),
        3 => {
            // of whatever kind the pattern is
            let mut p = String::new();
            for i in 0..s.range(1, 3) {
                if i > 0 && s.chance(1, 2) {
                    p.push(' ');
                }
                p += *s.pick(&["a", "foo", "{{x}}", "{{.*}}", "{{^$}}", "[[X:a*]]", "[[#N:]]", "[[#%x,H:]]", "[[@LINE]]", "[[#@LINE+1]]", "[[#3]]", "]]", "}}", ":"]);
            }
            let (l, p) = if s.chance(1, 6) { ("{LITERAL}", p) } else { ("", p) };
            ("text after CHECK-EMPTY", format!("CHECK-EMPTY{l}: {p}"))
        }
        4 => ("invalid count", format!("CHECK-COUNT-{}{}: {}", s.pick(&["0", "00", "99999999999999999999999"]), s.pick(&["", "", "{LITERAL}"]), s.pick(WORDS))),
        5 => {
            // exclusions give no place to refer to
            at = 0;
            while at < 3 && s.chance(1, 3) {
                good.insert(at, s.pick(&["CHECK-NOT: zz", "CHECK-NOT: {{z+}}", "CHECK-NOT{LITERAL}: z"]).to_string());
                at += 1;
            }
            ("relative directive first", format!("CHECK{}", s.pick(&["-NEXT: a", "-SAME: a", "-EMPTY:", "-NEXT: {{.*}}", "-SAME: {{.*}}"])))
        }
        6 => ("variable in a label", format!("CHECK-LABEL: {}[[{}]]", words(s), s.pick(&["X", "X:a", "$G", "#N", "#N:", "X:.*"]))),
        7 => {
            // more than there can be, and more than some machines can count
            let n = *s.pick(&[256u64, 257, 258, 300, 512, 513, 65536, 65537, 65538, 1 << 32, (1 << 32) + 1]);
            ("large count", format!("CHECK-COUNT-{n}: {}", s.pick(WORDS)))
        }
        _ => ("invalid block in several directives", {
            let (_, p) = malformed(s);
            let (_, q) = malformed(s);
            format!("CHECK{positive}: {p}\nCHECK{kind}: {q}")
        }),
    };
    let mut lines = good.clone();
    lines.insert(at, bad.clone());
    let noise = s.chance(1, 3);
    if noise {
        let i = s.below(at + 1);
        lines.insert(i, s.pick(&["", "// text", "COM: CHECK: {{(", "# CHECK [[", "RUN: x {{"]).to_string());
        at += 1;
    }
    let mut check = lines.join("\n");
    if s.chance(4, 5) {
        check.push('\n');
    }
    let start: usize = lines[..at].iter().map(|l| l.len() + 1).sum();
    let end = start + bad.len() + 1;
    let repr = format!("{what}: {bad:?}\n{}", show(&check, &input, &o));
    announce(s, &repr);
    let run = || -> Result<(), String> {
        let cfg = Config { source_manager: Arc::from(DefaultSourceManager::default()), options: o.options() };
        let sm = cfg.source_manager.clone();
        let cf = sm.load(SourceLanguage::Unknown, FileName::from("check".to_string()), check.clone());
        let inp = sm.load(SourceLanguage::Unknown, FileName::from("input".to_string()), input.clone());
        match Test::new(cf, &cfg).verify(inp) {
            Ok(_) => Err(st("the malformed check file was accepted, and the input passed")),
            Err(e) if e.downcast_ref::<TestFailed>().is_some() => {
                if what == "large count" {
                    return Ok(());
                }
                if input.is_empty() && !o.allow_empty {
                    return Ok(());
                }
                Err(format!("the malformed check file was accepted, and the input failed: {}", truncate(&format!("{e:?}"), 1500)))
            }
            Err(e) => {
                if e.to_string().trim().is_empty() {
                    return Err(st("rejected without a message"));
                }
                if input.is_empty() && !o.allow_empty {
                    return Ok(());
                }
                for l in e.labels().into_iter().flatten() {
                    let (a, b) = (l.offset(), l.offset() + l.len());
                    if a < start || a > end || b > end {
                        return Err(format!("the message is about {a}..{b} of the check file, but the malformed directive is {start}..{end}: {e}"));
                    }
                }
                Ok(())
            }
        }
    };
    let r = guard(run).unwrap_or_else(|e| Err(format!("filecheck crashed: {e}")));
    s.label(what);
    Case::check(repr, lines.len() > 1, r)
}

pub static PROPS: &[Prop] = &[
    Prop { id: "F12", run: f12, quick: 7000, thorough: 300000, hang: 120, rule: "at least one option besides the files, or options in the environment", oracle: "exit status by construction for misuse and invalid files, otherwise from the verdict of the library on the same texts with the options set directly", known: no_known },
    Prop { id: "F13", run: f13, quick: 60000, thorough: 3000000, hang: 30, rule: "the malformed directive is not the only line", oracle: "a directive known to be malformed is inserted into a valid check file: it must be rejected, with a message which is about that directive", known: no_known },
];
