//! More FileCheck properties: literal text, options, implicit exclusions, directive recognition.
use crate::engine::*;
use crate::fc::*;
use crate::fcprops::*;
use crate::fcprops3::{cls, gen_lines, gen_var_dirs, plus};
use crate::re::Re;

// ---------------------------------------------------------------- F05: literal text

/// Text full of characters which mean something in a regular expression.
const META: &[&str] = &[
    "a", "a.c", "[x]", "(b|c)", "$", "^a", "\\d", "{x}", "a*", "b+", "c?", "|", "\\", "a-z", "#", "&&", "~", "ab", "abc", "xb", "x", "é.", "1", "(?i)", "\\\\n", "aa",
];
const METAW: Words = Words { input: META, pat: META, re: &["a", "b", "ab", "a.c", "x", "1"], not: &["q.", "[a-z]+", ".", "(a|b)", "a.c", "\\w", "zz", "^", ".*"] };
/// Text which is only literal under the LITERAL modifier.
const BRACKETS: &[&str] = &["{{.*}}", "[[X]]", "[[", "]]", "{{", "}}", "[[#1]]", "{{a}}", "[[X:a]]"];

fn f05(s: &mut Src, _: &mut Ctx) -> Case {
    let literal_mode = s.chance(1, 3);
    let mut input = gen_input(s, 6, META);
    if literal_mode {
        // bracketed text occurs in the input
        let mut ls: Vec<String> = input.split('\n').map(|x| x.to_string()).collect();
        for l in ls.iter_mut() {
            if !l.is_empty() && s.chance(1, 2) {
                l.push_str(s.pick(&["", " "]));
                l.push_str(s.pick(BRACKETS));
            }
        }
        input = ls.join("\n");
    }
    let mix = Mix { plain: 4, next: 3, same: 2, empty: 0, count: 1, not: 3, dag: 2, label: 1 };
    let mut dirs = gen_dirs(s, &input, 5, &mix, &METAW);
    for d in dirs.iter_mut() {
        if d.kind == Kind::Empty {
            continue;
        }
        let lits_only = d.pat.iter().all(|p| matches!(p, Piece::Lit(_)));
        if literal_mode && s.chance(2, 3) {
            d.literal = true;
            // any text at all
            let t = match s.below(3) {
                0 if lits_only => render_pat(&d.pat),
                1 => s.pick(BRACKETS).to_string(),
                _ => {
                    let ls: Vec<&str> = input.split('\n').filter(|l| !l.trim().is_empty()).collect();
                    if ls.is_empty() { "{{".into() } else { s.pick(&ls).trim().to_string() }
                }
            };
            d.pat = vec![Piece::Lit(t)];
        } else if special(&d.pat) {
            d.pat = vec![Piece::Lit(s.pick(META).to_string())];
        }
    }
    let mut o = Opts::default();
    let rel = dirs.iter().any(|d| d.pat.iter().any(|p| matches!(p, Piece::Lit(l) if l.contains(|c: char| "\\.+*?()|[]{}^$#&-~".contains(c)))));
    if s.chance(1, 4) {
        // some letter is an unusual character, everywhere
        let from = *s.pick(&['a', 'b', 'x', '.']);
        let to = *s.pick(EXOTIC);
        o.strict = s.chance(1, 2);
        for d in dirs.iter_mut() {
            // blanks which are no ASCII characters are replaced by blanks in literal patterns, a finding
            let mixed = !d.literal && d.pat.iter().any(|p| matches!(p, Piece::Re(_))) && !matches!(d.kind, Kind::Dag | Kind::Not);
            if o.strict || mixed || !is_blank(to) {
                for p in d.pat.iter_mut() {
                    if let Piece::Lit(l) = p {
                        *l = l.replace(from, &to.to_string());
                    }
                }
            }
        }
        input = input.replace(from, &to.to_string());
        return decide(s, &dirs, &input, &o, true);
    }
    decide(s, &dirs, &input, &o, rel)
}
const EXOTIC: &[char] = &[
    '\u{a0}', '\u{1680}', '\u{2003}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{85}', '\u{b}', '\u{2028}', '\u{200b}', '\u{feff}', '\u{7f}', '\u{1}', '\u{301}', '\u{df}', '\u{130}', '\u{1f600}', '\u{fffd}',
];
fn is_blank(c: char) -> bool {
    matches!(c, '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}
fn f05_known(_: &mut Ctx) -> Vec<Known> {
    let o = Opts::default();
    vec![known("unicode-blank", "a literal pattern with a blank which is no ASCII character (such as U+00A0) does not match the same text (`CHECK: a<U+00A0>b` on `a<U+00A0>b`), but a blank in its place", "CHECK: a\u{a0}b\n", "a\u{a0}b\n", &o, true)]
}
/// Would the literal text of the pattern be read as a regex or substitution block?
fn special(p: &[Piece]) -> bool {
    p.iter().any(|x| matches!(x, Piece::Lit(l) if ["[[", "]]", "{{", "}}"].iter().any(|b| l.contains(b)) || l.starts_with(['[', ']', '{', '}']) || l.ends_with(['[', ']', '{', '}'])))
        && (p.len() > 1 || p.iter().any(|x| matches!(x, Piece::Lit(l) if ["[[", "]]", "{{", "}}"].iter().any(|b| l.contains(b)))))
}


// ---------------------------------------------------------------- F08: options which change matching

const CASEW: &[&str] = &["a", "A", "Ab", "aB", "foo", "FOO", "Foo", "x1", "X1", "k", "S", "z_Z"];
const CASE: Words = Words { input: CASEW, pat: CASEW, re: CASEW, not: &["QQ", "foo a", "BAR", "X1", "zz"] };

fn flip(s: &mut Src, t: &str) -> String {
    t.chars()
        .map(|c| {
            if c.is_ascii_alphabetic() && s.chance(1, 3) {
                if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
            } else {
                c
            }
        })
        .collect()
}
fn flip_re(s: &mut Src, r: &Re) -> Re {
    match r {
        Re::Str(t) => Re::Str(flip(s, t)),
        Re::Class(v, n) => {
            let up = s.chance(1, 3);
            Re::Class(v.iter().map(|c| if up && *c == ('a', 'z') { ('A', 'Z') } else { *c }).collect(), *n)
        }
        Re::Cat(v) => Re::Cat(v.iter().map(|r| flip_re(s, r)).collect()),
        Re::Alt(v) => Re::Alt(v.iter().map(|r| flip_re(s, r)).collect()),
        Re::Rep(r, a, b, g) => Re::Rep(Box::new(flip_re(s, r)), *a, *b, *g),
        r => r.clone(),
    }
}
fn blanks(s: &mut Src) -> &'static str {
    s.pick(&[" ", "  ", "\t", " \t", "   "])
}
/// Replace blanks by other horizontal whitespace.
fn reblank(s: &mut Src, t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        if c == ' ' && s.chance(1, 2) {
            o.push_str(blanks(s));
        } else {
            o.push(c);
        }
    }
    o
}

fn f08(s: &mut Src, _: &mut Ctx) -> Case {
    let mix = Mix { plain: 4, next: 3, same: 2, empty: 1, count: 1, not: 3, dag: 3, label: 2 };
    match s.weighted(&[4, 3, 3, 3]) {
        3 => {
            // --ignore-case applies to variables, too: to what they match when they are defined and
            // when they are used
            s.label("case with variables");
            let words: Vec<&str> = (0..s.range(2, 4)).map(|_| *s.pick(CASEW)).collect();
            let input = gen_lines(s, 7, &mut |s| s.pick(&words).to_string());
            let o = Opts { icase: s.chance(5, 6), ..Opts::default() };
            let mix = Mix { plain: 3, next: 2, same: 1, empty: 0, count: 1, not: 2, dag: 7, label: 1 };
            let mut dirs = gen_var_dirs(s, &input, 6, &o, false, &mix);
            for d in dirs.iter_mut() {
                for p in d.pat.iter_mut() {
                    match p {
                        Piece::Lit(l) => *l = flip(s, l),
                        Piece::Def(_, r) => {
                            if s.chance(1, 3) {
                                // more than one way to match the same text
                                let l = || cls(false, &[('a', 'z')]);
                                *r = if s.chance(1, 2) { Re::Cat(vec![Re::Rep(Box::new(l()), 0, None, false), plus(l())]) } else { plus(Re::Alt(vec![l(), plus(cls(false, &[('0', '9'), ('A', 'Z')]))])) };
                            } else {
                                *r = flip_re(s, r);
                            }
                        }
                        Piece::Re(r) => *r = flip_re(s, r),
                        _ => {}
                    }
                }
            }
            let rel = o.icase && dirs.iter().any(|d| d.pat.iter().any(|p| matches!(p, Piece::Def(..) | Piece::Use(_))));
            decide(s, &dirs, &input, &o, rel)
        }
        0 => {
            // --ignore-case (or not): letters of either case
            s.label("case");
            let input = gen_input(s, 6, CASEW);
            let mut dirs = gen_dirs(s, &input, 5, &mix, &CASE);
            for d in dirs.iter_mut() {
                for p in d.pat.iter_mut() {
                    if let Piece::Lit(l) = p {
                        *l = flip(s, l);
                    }
                }
                if !d.pat.is_empty() && s.chance(1, 8) && d.pat.iter().all(|p| matches!(p, Piece::Lit(_))) {
                    d.literal = true;
                }
            }
            let o = Opts { icase: s.chance(3, 4), ..Opts::default() };
            let rel = o.icase;
            decide(s, &dirs, &input, &o, rel)
        }
        1 => {
            // --strict-whitespace: blanks mean themselves, on both sides
            s.label("strict-whitespace");
            let i0 = gen_input(s, 6, WORDS);
            let input = reblank(s, &i0);
            let mut dirs = gen_dirs(s, &i0, 5, &mix, &STD);
            let ls: Vec<&str> = input.split('\n').collect();
            for d in dirs.iter_mut() {
                if d.kind == Kind::Empty {
                    continue;
                }
                for p in d.pat.iter_mut() {
                    if let Piece::Lit(l) = p {
                        *l = reblank(s, l);
                    }
                }
                if s.chance(1, 3) {
                    // a part of an actual line, blanks at the edges included
                    let l = s.pick(&ls);
                    let b: Vec<usize> = l.char_indices().map(|c| c.0).chain([l.len()]).collect();
                    let a = s.below(b.len());
                    let z = s.range(a, b.len() - 1);
                    let t = &l[b[a]..b[z]];
                    let t = t.trim_end();
                    if !t.is_empty() {
                        d.pat = vec![Piece::Lit(t.to_string())];
                    }
                }
                if s.chance(1, 6) && d.pat.iter().all(|p| matches!(p, Piece::Lit(_))) {
                    d.literal = true;
                }
            }
            let rel = dirs.iter().any(|d| d.pat.iter().any(|p| matches!(p, Piece::Lit(l) if l.contains(['\t', ' ']))));
            decide(s, &dirs, &input, &Opts { strict: true, ..Opts::default() }, rel)
        }
        _ => {
            // the line ending style of either file does not change the outcome
            s.label("line endings");
            let input = gen_input(s, 6, WORDS);
            let mut dirs = gen_dirs(s, &input, 5, &mix, &STD);
            for d in dirs.iter_mut() {
                if let Some(Piece::Lit(_)) = d.pat.last()
                    && s.chance(1, 4)
                {
                    d.pat.push(Piece::Re(Re::Eol));
                }
                if let Some(Piece::Lit(_)) = d.pat.first()
                    && s.chance(1, 8)
                {
                    d.pat.insert(0, Piece::Re(Re::Bol));
                }
            }
            let check = render_dirs(&dirs);
            let which = s.below(3);
            // all lines, or only some of them
            let mixed = s.chance(1, 4);
            let mut crlf = |t: &str| -> String {
                t.split_inclusive('\n').map(|l| if l.ends_with('\n') && !(mixed && s.chance(1, 2)) { format!("{}\r\n", &l[..l.len() - 1]) } else { l.to_string() }).collect()
            };
            let c2 = if which != 1 { crlf(&check) } else { check.clone() };
            let i2 = if which != 0 { crlf(&input) } else { input.clone() };
            let o = Opts::default();
            let repr = format!("{}\n(check file with CRLF: {}, input with CRLF: {}{})\n{c2:?}\n{i2:?}", show(&check, &input, &o), which != 1, which != 0, if mixed { ", on some lines" } else { "" });
            announce(s, &repr);
            let run = |c: &str, i: &str| guard(|| run_real(c, i, &o, false)).map_err(|e| format!("filecheck crashed: {e}"));
            let r = (|| {
                let a = run(&check, &input)?;
                let b = run(&c2, &i2)?;
                let map = |h: &[Hit]| -> Vec<(usize, usize, usize)> { h.iter().map(|h| (h.line, h.start, h.end)).collect() };
                match (&a, &b) {
                    (Real::Pass(x), Real::Pass(y)) => {
                        if map(x) != map(y) {
                            return Err(format!("matches with LF {:?}, with CRLF {:?}", map(x), map(y)));
                        }
                        Ok(())
                    }
                    (Real::Fail(_), Real::Fail(_)) => Ok(()),
                    (Real::Invalid(_), Real::Invalid(_)) => Ok(()),
                    _ => Err(format!("with LF: {a:?}\nwith CRLF: {b:?}")),
                }
            })();
            Case::check(repr, which != 3, r)
        }
    }
}

fn f08_known(_: &mut Ctx) -> Vec<Known> {
    let o = Opts::default();
    vec![
        known("blank-vs-tab", "a tab in the input is not matched by a blank or a tab of the pattern (`CHECK: a b` and `CHECK: a<TAB>b` on `a<TAB>b`), although blanks are canonicalized by default", "CHECK: a\tb\n", "a\tb\n", &o, true),
        known("tab-in-mixed-pattern", "a tab in a pattern with a regular expression or variable is not canonicalized (`CHECK: a<TAB>b{{x?}}` on `a b`)", "CHECK: a\tb{{x?}}\n", "a b\n", &o, true),
        known("match-full-lines", "--match-full-lines does not require matches to cover whole lines (`CHECK: a` on `a b`)", "CHECK: a\n", "a b\n", &Opts { full: true, ..Opts::default() }, false),
    ]
}

// ---------------------------------------------------------------- F09: implicit exclusions

fn f09(s: &mut Src, _: &mut Ctx) -> Case {
    let input = gen_input(s, 8, WORDS);
    let mix = Mix { plain: 4, next: 2, same: 1, empty: 1, count: 1, not: 2, dag: 3, label: 2 };
    let dirs = gen_dirs(s, &input, 6, &mix, &STD);
    let g = rg(WORDS);
    let n = s.weighted(&[0, 6, 5, 2, 1]);
    let mut imp: Vec<Re> = vec![];
    let mut rendered: Vec<String> = vec![];
    // patterns stand for themselves: parts of them do not combine with one another
    let bad = n >= 1 && s.chance(1, 15);
    for i in 0..n {
        if bad && (i + 1 == n || s.chance(1, 2)) {
            let a = *s.pick(WORDS);
            let b = *s.pick(&["q", "zz", "a", "1"]);
            rendered.push(match s.below(7) {
                0 => format!("{a})({b}"),
                1 => format!("{a})|({b}"),
                2 => format!("({a}"),
                3 => format!("{b})"),
                4 => format!("[{b}"),
                5 => format!("*{b}"),
                _ => format!("{b})|(?:"),
            });
            continue;
        }
        if s.chance(1, 12) {
            // flags and comments do not extend beyond their pattern
            let w = *s.pick(&["x", "ab", "1", "zz", "foo"]);
            rendered.push(match s.below(2) {
                0 => format!("(?x) {w} # bar"),
                _ => format!("(?-u:{w})"),
            });
            imp.push(Re::Str(w.to_string()));
            continue;
        }
        let re = match s.weighted(&[3, 2, 2]) {
            0 => Re::Str(s.pick(&["zz", "q", "baz", "x1", "é", "12"]).to_string()),
            1 => Re::Str(s.pick(WORDS).to_string()),
            _ => g.gen_re(s, 1),
        };
        rendered.push(re.render());
        imp.push(re);
    }
    if bad {
        let check = render_dirs(&dirs);
        let o = Opts { implicit: rendered, ..Opts::default() };
        let repr = show(&check, &input, &o);
        announce(s, &repr);
        return match guard(|| run_real(&check, &input, &o, true)) {
            Ok(Real::Invalid(_)) => {
                s.label("invalid implicit exclusion");
                Case::ok(repr, true)
            }
            Ok(_) => Case::fail(repr, "an exclusion which is not a valid pattern was accepted".to_string()),
            Err(e) => Case::fail(repr, format!("filecheck crashed: {e}")),
        };
    }
    let o = Opts { implicit: rendered, ..Opts::default() };
    let mut ex: Vec<Dir> = vec![];
    let mut lines: Vec<usize> = vec![];
    let not = Dir::new(Kind::Not, vec![Piece::Re(Re::Alt(imp.clone()))]);
    ex.push(not.clone());
    lines.push(usize::MAX - 1);
    for (i, d) in dirs.iter().enumerate() {
        ex.push(d.clone());
        lines.push(i);
        let positive = d.kind != Kind::Not;
        let split = d.kind == Kind::Dag && dirs.get(i + 1).is_some_and(|n| n.kind == Kind::Dag);
        if positive && !split {
            ex.push(not.clone());
            lines.push(usize::MAX - 1);
        }
    }
    let check = render_dirs(&dirs);
    let repr = show(&check, &input, &o);
    announce(s, &repr);
    match compare(&ex, &lines, &check, &input, &o) {
        Ok(None) => Case::discard(),
        Ok(Some(p)) => {
            s.label(if p { "verdict: pass" } else { "verdict: fail" });
            Case::ok(repr, dirs.len() >= 2)
        }
        Err(e) => Case::fail(repr, e),
    }
}

// ---------------------------------------------------------------- F10: which lines are directives

fn f10(s: &mut Src, _: &mut Ctx) -> Case {
    let prefixes: Vec<String> = match s.below(7) {
        0 => vec![],
        1 => vec!["FOO".into()],
        2 => vec!["FOO".into(), "BAR".into()],
        3 => vec!["CHECK".into(), "CHECK-A".into()],
        4 => vec!["A".into(), "AB".into()],
        5 => vec!["AB".into(), "A".into()],
        _ => vec!["my_pre-fix1".into(), "CHECK".into()],
    };
    let comments: Vec<String> = match s.below(4) {
        0 | 1 => vec![],
        2 => vec!["NOTE".into()],
        _ => vec!["COM".into(), "TODO".into()],
    };
    let o = Opts { unused_ok: s.chance(1, 3), prefixes, comments, ..Opts::default() };
    let active: Vec<String> = if o.prefixes.is_empty() { vec!["CHECK".into()] } else { o.prefixes.clone() };
    let coms: Vec<String> = if o.comments.is_empty() { vec!["COM".into(), "RUN".into()] } else { o.comments.clone() };
    let input = gen_input(s, 6, WORDS);
    let mix = Mix { plain: 5, next: 3, same: 1, empty: 1, count: 2, not: 2, dag: 1, label: 1 };
    let mut dirs = gen_dirs(s, &input, 5, &mix, &STD);
    let mut check = String::new();
    let mut lines = vec![];
    let mut ln = 0;
    let mut used = std::collections::BTreeSet::new();
    let mut noise_n = 0;
    let crlf = s.chance(1, 10);
    let nl = if crlf { "\r\n" } else { "\n" };
    // text which would change the verdict if it were taken for a directive
    let bait = |s: &mut Src| -> String {
        if s.chance(1, 2) { "zzz".to_string() } else { s.pick(WORDS).to_string() }
    };
    for i in 0..dirs.len() + 1 {
        for _ in 0..s.weighted(&[3, 2, 1]) {
            noise_n += 1;
            let p = s.pick(&active).clone();
            let b = bait(s);
            let suf = s.pick(&["", "-NEXT", "-NOT", "-SAME", "-DAG", "-LABEL", "-COUNT-2"]).to_string();
            let k = s.below(16);
            let l = match k {
                0 => String::new(),
                1 => format!("{b} {b}"),
                2 => format!("x{p}{suf}: {b}"),
                3 => format!("//{p}{suf}: {b}"),
                4 => format!("{p}{suf} {b}"),
                5 => format!("{p}{suf} : {b}"),
                6 => format!("{p}{suf}S: {b}"),
                7 => format!("{p}-FOO: {b}"),
                8 => {
                    // another case of letters
                    let q: String = p.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                    format!("{q}{suf}: {b}")
                }
                9 | 10 => format!("{}{}: {p}{suf}: {b}", s.pick(&["", "  ", "// ", "; "]), s.pick(&coms)),
                11 => format!("{p}-COUNT: {b}"),
                12 => format!("_{p}{suf}: {b}"),
                13 => format!("\0{p}{suf}: {b}"),
                14 => format!("\0{b}"),
                _ => format!("{}: {b}", s.pick(&["OTHER", "CHEC", "ECK", "Z-CHECK", "B"])),
            };
            // never generate by accident what must be taken for a directive
            let shadow = active.iter().any(|a| {
                ["", "-NEXT", "-NOT", "-SAME", "-DAG", "-LABEL", "-EMPTY"].iter().any(|x| {
                    let t = format!("{a}{x}:");
                    l.starts_with(&t) || l.contains(&format!(" {t}"))
                }) || l.starts_with(&format!("{a}-COUNT-"))
            });
            if k != 9 && k != 10 && shadow {
                continue;
            }
            check.push_str(&l);
            check.push_str(nl);
            ln += 1;
        }
        if i == dirs.len() {
            break;
        }
        let d = &mut dirs[i];
        let p = s.pick(&active).clone();
        used.insert(p.clone());
        let lead = s.pick(&["", "", "  ", "\t", "// ", "; ", "# text ", "/* x: ", "A: b ", "\0 "]).to_string();
        // the lead must not be a directive itself
        let lead = if active.iter().any(|a| lead.trim_start().starts_with(&format!("{a}:"))) { String::new() } else { lead };
        let all_lit = d.pat.iter().all(|p| matches!(p, Piece::Lit(_)));
        if all_lit && d.kind != Kind::Empty && s.chance(1, 8) {
            d.literal = true;
        }
        let body = render_dir(d, &p);
        let body = if d.kind == Kind::Empty {
            body
        } else {
            let (h, t) = body.split_once(": ").unwrap();
            format!("{h}:{}{t}", s.pick(&[" ", "", "  ", "\t", " \t "]))
        };
        check.push_str(&lead);
        check.push_str(&body);
        if i + 1 < dirs.len() || !s.chance(1, 6) {
            check.push_str(nl);
        } else {
            lines.push(ln);
            break;
        }
        lines.push(ln);
        ln += 1;
    }
    let repr = show(&check, &input, &o);
    announce(s, &repr);
    let unused = active.iter().any(|a| !used.contains(a));
    if unused && !o.unused_ok {
        let r = match guard(|| run_real(&check, &input, &o, false)) {
            Err(e) => Err(format!("filecheck crashed: {e}")),
            Ok(Real::Invalid(_)) => Ok(()),
            Ok(r) => Err(format!("a requested prefix does not occur, yet the check file was accepted: {r:?}")),
        };
        s.label("unused prefix");
        return Case::check(repr, noise_n > 0, r);
    }
    match compare(&dirs, &lines, &check, &input, &o) {
        Ok(None) => Case::discard(),
        Ok(Some(p)) => {
            s.label(if p { "verdict: pass" } else { "verdict: fail" });
            Case::ok(repr, noise_n > 0)
        }
        Err(e) => Case::fail(repr, e),
    }
}

pub static PROPS: &[Prop] = &[
    Prop { id: "F05", run: f05, quick: 50000, thorough: 3000000, hang: 30, rule: "some literal text contains a character that is special in regular expressions, or an unusual character", oracle: "reference interpreter, literal text compared character by character", known: f05_known },
    Prop { id: "F08", run: f08, quick: 50000, thorough: 3000000, hang: 30, rule: "--ignore-case is on, or a strict-whitespace pattern contains a blank, or a file uses CRLF", oracle: "reference interpreter with the option's documented meaning; metamorphic relation for line endings", known: f08_known },
    Prop { id: "F09", run: f09, quick: 30000, thorough: 3000000, hang: 30, rule: "at least two directives besides the implicit exclusion", oracle: "reference interpreter run on the check file with the exclusion written out between positive directives", known: no_known },
    Prop { id: "F10", run: f10, quick: 40000, thorough: 3000000, hang: 30, rule: "the check file contains lines which look like directives but are not, or comments hiding directives", oracle: "reference interpreter run on the intended directives only", known: no_known },
];
