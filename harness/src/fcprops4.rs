//! FileCheck under arbitrary, mostly malformed, check files and inputs.
use crate::engine::*;
use crate::fc::*;
use crate::fcprops::*;
use crate::fcprops3::any_var_case;
use litcheck_core as litcheck;
use litcheck::diagnostics::{DefaultSourceManager, FileName, SourceLanguage, SourceManager};
use litcheck_filecheck::expr::CliVariable;
use litcheck_filecheck::{Config, Dump, Test, TestFailed};
use std::str::FromStr;
use std::sync::Arc;

// ---------------------------------------------------------------- F11: nothing crashes or hangs

const TOKENS: &[&str] = &[
    "CHECK", "CHECK:", "CHECK-NEXT:", "CHECK-SAME:", "CHECK-NOT:", "CHECK-DAG:", "CHECK-LABEL:", "CHECK-EMPTY:", "CHECK-COUNT-2:", "CHECK-COUNT-300:",
    "CHECK-COUNT-0:", "CHECK-COUNT-:", "CHECK{LITERAL}:", "CHECK{LITERAL,LITERAL}:", "CHECK-NEXT{LITERAL}:", "CHECK{", "CHECK{}:", "{LITERAL}", "CHECK-FOO:", "COM:", "RUN:",
    "{{", "}}", "[[", "]]", "[[#", "[[@LINE", "@LINE", "@", "#", "%", "%d", "%x", "%X", "%u", "%#x", "%.3", "%.99999999999", "%.8X", ",", "==", "<", "<=", ">",
    ":", "=", "+", "-", "*", "/", "min(", "max(", "add(", "sub(", "mul(", "div(", "foo(", ")", "(", "X", "$X", "$", "Y", "ABC", "1", "0", "99999999999999999999",
    "18446744073709551615", "9223372036854775807", "0x", "0xff", "0xFFFFFFFFFFFFFFFFFF", "00", "é", "日本", "\u{0}", "\r", "\r\n", "\n", "\n", "\n", "\t", " ", " ", "  ", "a", "b", "ab", "foo",
    "\\", "\\n", "\\w+", "\\d*", "\\b", "\\1", "\\x", "\\p{L}", "[a-z]", "[", "]", "[^", "[[:alpha:]]", "[:", ":]", "(?", "(?i)", "(?P<x>", "(?:", "{", "}", "{2}", "{2,", "{1,50}", "{9999}", "{0}", "{3,1}", ".", ".*", ".*?", "^", "$", "|", "?",
    "\u{feff}", "\u{85}", "\u{2028}", "\u{a0}", "\u{300}", "𝄞", "\"", "'", "//", ";", "&", "~", "`", "!", "\u{7f}", "\u{1b}[31m",
];

fn boundary(t: &str, mut i: usize) -> usize {
    i = i.min(t.len());
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Edit the text a few times.
pub fn mutate(s: &mut Src, mut t: String, toks: &[&str]) -> String {
    for _ in 0..s.weighted(&[1, 3, 3, 2, 1, 1]) {
        let i = boundary(&t, s.below(t.len() + 1));
        let n = s.weighted(&[0, 4, 3, 2, 2, 1, 1, 1]);
        let j = boundary(&t, i + n);
        let (pre, mid, post) = (t[..i].to_string(), t[i..j].to_string(), t[j..].to_string());
        t = match s.below(8) {
            0 => format!("{pre}{post}"),
            1 | 2 => format!("{pre}{}{mid}{post}", s.pick(toks)),
            3 => format!("{pre}{}{post}", s.pick(toks)),
            4 => format!("{pre}{mid}{mid}{post}"),
            5 => {
                let k = boundary(&t, s.below(t.len() + 1));
                format!("{}{mid}{}", &t[..k], &t[k..])
            }
            6 => pre,
            _ => {
                // a line again elsewhere
                let ls: Vec<&str> = t.split_inclusive('\n').collect();
                if ls.is_empty() {
                    t
                } else {
                    let a = s.below(ls.len());
                    let b = s.below(ls.len());
                    let mut v = ls.clone();
                    v.insert(b, ls[a]);
                    v.concat()
                }
            }
        };
    }
    t
}

fn soup(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.range(1, 4) {
        if s.chance(4, 5) {
            t.push_str(s.pick(&TOKENS[1..15]));
            t.push(' ');
        }
        for _ in 0..s.range(1, 7) {
            t.push_str(s.pick(TOKENS));
        }
        t.push('\n');
    }
    t
}

pub fn def_text(s: &mut Src) -> String {
    const T: &[&str] = &["X", "$X", "#", "=", "%", "%x", "%#x", "%.3u", ",", "1", "0", "-", "+", "(", ")", "min(", "add(", "Y", "a b", "é", "[[", "]]", "{{", ":", " ", "\t", "\n", "0x1f", "@LINE", "99999999999999999999", "", "*", "\\", "\u{0}"];
    if s.chance(1, 2) {
        let base = s.pick(&["X=a", "$X=a", "#X=1", "#%x,X=10", "#X=add(1,2)", "#X=1+2", "#%.3d,X=-1"]).to_string();
        return mutate(s, base, T);
    }
    (0..s.range(1, 6)).map(|_| *s.pick(T)).collect()
}

fn f11(s: &mut Src, _: &mut Ctx) -> Case {
    let mut o = Opts::default();
    let (check, mut input) = match s.weighted(&[3, 3, 2]) {
        0 => {
            let input = gen_input(s, 6, WORDS);
            let mix = Mix { plain: 4, next: 2, same: 2, empty: 1, count: 2, not: 2, dag: 3, label: 2 };
            (render_dirs(&gen_dirs(s, &input, 6, &mix, &STD)), input)
        }
        1 => any_var_case(s),
        _ => {
            let input = gen_input(s, 4, WORDS);
            (soup(s), input)
        }
    };
    let check = mutate(s, check, TOKENS);
    if s.chance(1, 2) {
        input = mutate(s, input, &["\n", "\r\n", "\r", "", "é", "\u{0}", "日本", "\t", "  ", "-1", "0xff", "ffffffffffffffffffffffff", "99999999999999999999", "{{", "[[", "CHECK: a", "𝄞", "\u{2028}", "\u{300}", "\u{feff}"]);
    }
    o.icase = s.chance(1, 8);
    o.strict = s.chance(1, 8);
    o.full = s.chance(1, 8);
    o.scope = s.chance(1, 8);
    o.allow_empty = s.chance(1, 4);
    o.unused_ok = s.chance(1, 4);
    o.verbose = s.weighted(&[6, 1, 1]) as u8;
    for _ in 0..s.weighted(&[8, 1]) {
        o.implicit.push(if s.chance(1, 2) { s.pick(WORDS).to_string() } else { (0..s.range(1, 4)).map(|_| *s.pick(TOKENS)).collect() });
    }
    let mut defs = vec![];
    for _ in 0..s.weighted(&[6, 2]) {
        defs.push(def_text(s));
    }
    let never = s.chance(1, 6);
    let repr = format!("{}\ndefinitions: {defs:?}{}", show(&check, &input, &o), if never { "\n--dump-input=never" } else { "" });
    announce(s, &repr);
    let run = || -> Result<(&'static str, String), String> {
        let mut opts = o.options();
        for d in &defs {
            // a rejected definition ends the program with a message; accepted ones take part
            match CliVariable::from_str(d) {
                Ok(v) => opts.variables.push(v),
                Err(e) if e.trim().is_empty() => return Err(format!("the definition {d:?} was rejected without a message")),
                Err(_) => {}
            }
        }
        if never {
            opts.dump_input = Dump::Never;
        }
        let cfg = Config { source_manager: Arc::from(DefaultSourceManager::default()), options: opts };
        let sm = cfg.source_manager.clone();
        let cf = sm.load(SourceLanguage::Unknown, FileName::from("check".to_string()), check.clone());
        let inp = sm.load(SourceLanguage::Unknown, FileName::from("input".to_string()), input.clone());
        let cid = cf.id();
        let r = Test::new(cf, &cfg).verify(inp);
        match r {
            Ok(ms) => {
                let mut t = String::new();
                for m in ms {
                    for sp in [m.span, m.pattern_span] {
                        let f = sm.get(sp.source_id()).map_err(|e| format!("a reported match is in no file: {e:?}"))?;
                        let (a, b) = (sp.start().to_usize(), sp.end().to_usize());
                        let text = f.as_str().get(a..b).ok_or_else(|| format!("a reported match covers {a}..{b}, which is no part of the text of {} bytes", f.as_str().len()))?;
                        t.push_str(&format!("{}@{a}..{b}={text:?} ", if sp.source_id() == cid { "check" } else { "input" }));
                    }
                }
                Ok(("pass", t))
            }
            Err(e) => {
                let mut kind = if e.downcast_ref::<TestFailed>().is_some() { "fail" } else { "invalid" };
                let text = litcheck::reporting::PrintDiagnostic::new(e).to_string();
                if text.trim().is_empty() {
                    return Err("failed without a message".into());
                }
                if kind == "fail" && text.contains("CHECK-DAG") {
                    kind = "fail";
                }
                Ok((kind, text))
            }
        }
    };
    let r = (|| {
        let a = guard(run).map_err(|e| format!("filecheck crashed: {e}"))??;
        let b = guard(run).map_err(|e| format!("filecheck crashed when run again: {e}"))??;
        if a != b {
            return Err(format!("two runs on the same files differ: {} {} / {} {}", a.0, truncate(&a.1, 2000), b.0, truncate(&b.1, 2000)));
        }
        Ok(a.0)
    })();
    match r {
        Ok(k) => {
            s.label(match k {
                "pass" => "outcome: pass",
                "fail" => "outcome: fail",
                _ => "outcome: check file rejected",
            });
            Case::ok(repr, k != "pass")
        }
        Err(e) => Case::fail(repr, e),
    }
}

pub static PROPS: &[Prop] = &[
    Prop { id: "F11", run: f11, quick: 40000, thorough: 4000000, hang: 30, rule: "the check file is rejected or does not match", oracle: "invariants of every run: no panic, abort or hang, same outcome and message when repeated, non-empty message, reported matches are parts of the files", known: no_known },
];
