//! Properties of FileCheck decided against the reference model in fc.rs.
use crate::engine::*;
use crate::fc::*;
use crate::re::{Re, ReGen};

pub const WORDS: &[&str] = &["a", "b", "ab", "c", "foo", "bar", "x1", "0", "12", "baz", "é"];
pub const LWORDS: &[&str] = &["a", "b", "ab", "c", "foo", "bar", "x1", "0", "12", "baz", "foo bar", "b a", "é", "a.c", "*", "(b)"];

pub fn gen_input(s: &mut Src, maxlines: usize, words: &[&str]) -> String {
    let n = s.range(1, maxlines);
    let mut o = String::new();
    for i in 0..n {
        let k = s.weighted(&[2, 3, 4, 3, 2, 1]);
        // an empty line now and then
        for j in 0..k {
            if j > 0 && !s.chance(1, 8) {
                o.push(' ');
            }
            o.push_str(s.pick(words));
        }
        if i + 1 < n || !s.chance(1, 10) {
            o.push('\n');
        }
    }
    o
}

/// A pattern: a substring of a line of the input (so that it is likely to match), or random words,
/// possibly with a part turned into a regex block.
pub fn gen_pat(s: &mut Src, line: Option<&str>, words: &[&str], g: &ReGen) -> Vec<Piece> {
    let mut parts: Vec<String> = vec![];
    match line {
        Some(l) if !l.trim().is_empty() && s.chance(4, 5) => {
            let toks: Vec<&str> = l.split(' ').filter(|t| !t.is_empty()).collect();
            let a = s.below(toks.len());
            let n = s.range(1, 3.min(toks.len() - a));
            let joined = toks[a..a + n].join(" ");
            if l.contains(&joined) {
                parts.push(joined);
            } else {
                parts.push(toks[a].into());
            }
        }
        _ => parts.push(s.pick(words).to_string()),
    }
    let lit = parts.concat();
    match s.weighted(&[5, 2, 2, 1]) {
        0 => vec![Piece::Lit(lit)],
        1 => vec![Piece::Re(wrap(g.gen_re(s, 2)))],
        2 => {
            let mut v = vec![];
            let cs: Vec<char> = lit.chars().collect();
            let a = s.below(cs.len());
            let pre: String = cs[..a].iter().collect();
            let post: String = cs[(a + 1).min(cs.len())..].iter().collect();
            let mid: String = cs[a..(a + 1).min(cs.len())].iter().collect();
            if !pre.is_empty() {
                v.push(Piece::Lit(pre));
            }
            let r = match s.below(5) {
                0 => Re::Any,
                1 => Re::Rep(Box::new(Re::Any), 0, None, false),
                2 => Re::Alt(vec![Re::Str(mid.clone()), Re::Str("zz".into())]),
                3 => Re::Rep(Box::new(Re::Any), 0, None, true),
                _ => Re::Rep(Box::new(Re::Str(mid.clone())), 1, None, true),
            };
            v.push(Piece::Re(wrap(r)));
            if !post.is_empty() {
                v.push(Piece::Lit(post));
            }
            fix_edges(v)
        }
        _ => {
            let r = g.gen_re(s, 1);
            fix_edges(vec![Piece::Re(wrap(r)), Piece::Lit(lit)])
        }
    }
}
fn wrap(r: Re) -> Re {
    r
}
/// Literal text at the edges of a pattern must not start or end with blanks (they are not part of the pattern).
pub fn fix_edges(mut v: Vec<Piece>) -> Vec<Piece> {
    if let Some(Piece::Lit(l)) = v.first_mut() {
        *l = l.trim_start().to_string();
    }
    if let Some(Piece::Lit(l)) = v.last_mut() {
        *l = l.trim_end().to_string();
    }
    v.retain(|p| !matches!(p, Piece::Lit(l) if l.is_empty()));
    if v.is_empty() {
        v.push(Piece::Lit("a".into()));
    }
    v
}
pub fn lines_of(ds: &[Dir]) -> Vec<usize> {
    (0..ds.len()).collect()
}
pub fn rg(words: &'static [&'static str]) -> ReGen<'static> {
    ReGen { words, anchors: true, lazy: true, newline_classes: false }
}

pub struct Mix {
    pub plain: usize,
    pub next: usize,
    pub same: usize,
    pub empty: usize,
    pub count: usize,
    pub not: usize,
    pub dag: usize,
    pub label: usize,
}
pub struct Words {
    /// words of the input
    pub input: &'static [&'static str],
    /// words of patterns
    pub pat: &'static [&'static str],
    /// words inside regex blocks
    pub re: &'static [&'static str],
    /// words of excluded patterns
    pub not: &'static [&'static str],
}
pub const STD: Words = Words { input: WORDS, pat: LWORDS, re: WORDS, not: &["zz", "q", "foo b", "baz", "x1"] };

/// Directives generated while walking over the input, so that most check files get far.
pub fn gen_dirs(s: &mut Src, input: &str, max: usize, mix: &Mix, w: &Words) -> Vec<Dir> {
    let g = rg(w.re);
    let lw = w.pat;
    let nw = w.not;
    let ls: Vec<&str> = input.split('\n').collect();
    let mut cur = 0usize;
    let n = s.range(1, max);
    let mut v: Vec<Dir> = vec![];
    let mut anchored = false;
    let mut after_label = false;
    for _ in 0..n {
        let ws = if anchored {
            [mix.plain, mix.next, if after_label { 0 } else { mix.same }, mix.empty, mix.count, mix.not, mix.dag, mix.label]
        } else {
            [mix.plain, 0, 0, 0, mix.count, mix.not, mix.dag, mix.label]
        };
        let k = s.weighted(&ws);
        if k != 5 {
            after_label = k == 7;
        }
        let line = |i: usize| ls.get(i).copied();
        let d = match k {
            0 => {
                cur += s.weighted(&[3, 3, 1]);
                Dir::new(Kind::Plain, gen_pat(s, line(cur), lw, &g))
            }
            1 => {
                cur += 1;
                Dir::new(Kind::Next, gen_pat(s, line(cur), lw, &g))
            }
            2 => Dir::new(Kind::Same, gen_pat(s, line(cur), lw, &g)),
            3 => {
                cur += 1;
                Dir::new(Kind::Empty, vec![])
            }
            4 => {
                let n = s.range(1, 3);
                Dir::new(Kind::Count(n), gen_pat(s, line(cur), lw, &g))
            }
            5 => {
                // excluded patterns are mostly absent from the input
                let p = if s.chance(2, 3) { None } else { line(cur + s.below(2)) };
                Dir::new(Kind::Not, gen_pat(s, p, nw, &g))
            }
            6 => {
                let off = s.below(3);
                Dir::new(Kind::Dag, gen_pat(s, line(cur + off), lw, &g))
            }
            _ => {
                cur += s.range(1, 2);
                let mut p = gen_pat(s, line(cur), lw, &g);
                if p.len() > 1 {
                    p = vec![Piece::Lit(s.pick(lw).to_string())];
                }
                Dir::new(Kind::Label, p)
            }
        };
        if matches!(d.kind, Kind::Plain | Kind::Count(_) | Kind::Dag | Kind::Label) {
            anchored = true;
        }
        v.push(d);
    }
    v
}

pub fn decide(src: &mut Src, dirs: &[Dir], input: &str, o: &Opts, relevant: bool) -> Case {
    let check = render_dirs(dirs);
    let repr = show(&check, input, o);
    announce(src, &repr);
    match compare(dirs, &lines_of(dirs), &check, input, o) {
        Ok(None) => Case::discard(),
        Ok(Some(passed)) => {
            src.label(if passed { "verdict: pass" } else { "verdict: fail" });
            Case::ok(repr, relevant)
        }
        Err(e) => Case::fail(repr, e),
    }
}

fn f01(s: &mut Src, _: &mut Ctx) -> Case {
    let big = s.chance(1, 6);
    let input = gen_input(s, if big { 14 } else { 6 }, WORDS);
    let mix = Mix { plain: 4, next: 4, same: 3, empty: 2, count: 2, not: 0, dag: 0, label: 0 };
    let dirs = gen_dirs(s, &input, if big { 10 } else { 5 }, &mix, &STD);
    let rel = dirs.len() >= 2;
    decide(s, &dirs, &input, &Opts::default(), rel)
}
fn f02(s: &mut Src, _: &mut Ctx) -> Case {
    let input = gen_input(s, 8, WORDS);
    let mix = Mix { plain: 4, next: 2, same: 1, empty: 1, count: 1, not: 6, dag: 1, label: 0 };
    let dirs = gen_dirs(s, &input, 7, &mix, &STD);
    let rel = dirs.iter().any(|d| d.kind == Kind::Not);
    decide(s, &dirs, &input, &Opts::default(), rel)
}
fn f03(s: &mut Src, _: &mut Ctx) -> Case {
    let input = gen_input(s, 8, WORDS);
    let mix = Mix { plain: 2, next: 1, same: 1, empty: 0, count: 1, not: 1, dag: 9, label: 0 };
    let dirs = gen_dirs(s, &input, 7, &mix, &STD);
    let rel = dirs.windows(2).any(|d| d[0].kind == Kind::Dag && d[1].kind == Kind::Dag);
    decide(s, &dirs, &input, &Opts::default(), rel)
}
fn f04(s: &mut Src, _: &mut Ctx) -> Case {
    let input = gen_input(s, 10, WORDS);
    let mix = Mix { plain: 5, next: 3, same: 1, empty: 1, count: 1, not: 2, dag: 1, label: 6 };
    let dirs = gen_dirs(s, &input, 8, &mix, &STD);
    let rel = dirs.iter().any(|d| d.kind == Kind::Label);
    decide(s, &dirs, &input, &Opts::default(), rel)
}

pub static PROPS: &[Prop] = &[
    Prop { id: "F01", run: f01, quick: 60000, thorough: 3000000, hang: 30, rule: "at least two directives", oracle: "reference interpreter of the directive semantics with an independent backtracking regex matcher; compares verdict and every reported match span", known: no_known },
    Prop { id: "F02", run: f02, quick: 40000, thorough: 3000000, hang: 30, rule: "at least one CHECK-NOT", oracle: "reference interpreter", known: no_known },
    Prop { id: "F03", run: f03, quick: 40000, thorough: 3000000, hang: 30, rule: "two adjacent CHECK-DAG", oracle: "reference interpreter (greedy assignment must be found; reported assignment is validated)", known: no_known },
    Prop { id: "F04", run: f04, quick: 60000, thorough: 3000000, hang: 30, rule: "at least one CHECK-LABEL", oracle: "reference interpreter", known: no_known },
];
