//! FileCheck: string variables (F06) and numeric variables and expressions (F07).
use crate::engine::*;
use crate::fc::*;
use crate::fcprops::*;
use crate::re::Re;

const NAMES: &[&str] = &["A", "B", "_x", "$G", "$H", "a1"];
const NNAMES: &[&str] = &["N", "M", "$K", "n_2"];

pub fn cls(neg: bool, v: &[(char, char)]) -> Re {
    Re::Class(v.to_vec(), neg)
}
pub fn plus(r: Re) -> Re {
    Re::Rep(Box::new(r), 1, None, true)
}

/// The state of the reference model after the directives so far: variables, and the current line.
fn state(input: &str, o: &Opts, dirs: &[Dir]) -> (Env, usize, bool) {
    let mut m = Model::new(input, o);
    m.lines = lines_of(dirs);
    let r = m.run(dirs);
    let cur = match &r {
        Outcome::Pass(v) => v.iter().map(|t| t.2).max().map(|p| line_of(input, p)),
        _ => None,
    };
    let ok = matches!(r, Outcome::Pass(_));
    (m.env, cur.unwrap_or(0), ok)
}

/// Tokens of a line and the separator in front of each
fn tokens(l: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut sep = String::new();
    let mut tok = String::new();
    for c in l.chars() {
        if " =,:".contains(c) {
            if !tok.is_empty() {
                v.push((std::mem::take(&mut sep), std::mem::take(&mut tok)));
            }
            sep.push(c);
        } else {
            tok.push(c);
        }
    }
    if !tok.is_empty() {
        v.push((sep, tok));
    }
    v
}

fn base(n: &str) -> &str {
    n.trim_start_matches('$')
}

fn text_of(v: &Val) -> Option<String> {
    match v {
        Val::S(t) => Some(t.clone()),
        Val::N(v, f) => f.unwrap_or(NF::U).text(*v),
    }
}

struct Gen<'a> {
    numeric: bool,
    allow_def: bool,
    allow_use: bool,
    env: &'a Env,
    /// 1-based line of the directive in the check file
    line: i128,
}

fn number(t: &str) -> Option<(i128, NF)> {
    let f = |c, prec, alt| NF { c, prec, alt };
    let (neg, d) = match t.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, t),
    };
    if d.is_empty() || d.len() > 39 {
        return None;
    }
    let f = if !neg && (d.starts_with("0x") || d.starts_with("0X")) {
        f(if d[1..].chars().skip(1).any(|c| c.is_ascii_uppercase()) { 'X' } else { 'x' }, 0, true)
    } else if d.chars().all(|c| c.is_ascii_digit()) {
        f(if neg { 'd' } else { 'u' }, if d.len() > 1 && d.starts_with('0') { d.len() } else { 0 }, false)
    } else if !neg && d.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c)) {
        f('x', 0, false)
    } else if !neg && d.chars().all(|c| c.is_ascii_digit() || ('A'..='F').contains(&c)) {
        f('X', 0, false)
    } else {
        return None;
    };
    f.parse(t).map(|v| (v, f))
}

/// An expression whose value is mostly `v`
fn gen_ex(s: &mut Src, g: &Gen, v: i128, avoid: &[String]) -> Ex {
    let vars: Vec<(String, i128)> = g
        .env
        .iter()
        .filter(|(k, _)| !avoid.contains(k))
        .filter_map(|(k, x)| match x {
            Val::N(n, _) => Some((k.clone(), *n)),
            _ => None,
        })
        .collect();
    fn off(e: Ex, d: i128, s: &mut Src) -> Ex {
        let hex = s.chance(1, 5);
        let l = |n: i128| Box::new(Ex::Lit(n, hex));
        if d == 0 && s.chance(4, 5) {
            e
        } else if s.chance(1, 4) {
            if d >= 0 { Ex::Bin("add", Box::new(e), l(d)) } else { Ex::Bin("sub", Box::new(e), l(d.wrapping_neg().max(0))) }
        } else if d >= 0 {
            Ex::Bin("+", Box::new(e), l(d))
        } else {
            Ex::Bin("-", Box::new(e), l(d.wrapping_neg().max(0)))
        }
    }
    let b = Box::new;
    let v = if s.chance(1, 12) { v.wrapping_add([1, -1, 16][s.below(3)]) } else { v };
    if s.chance(1, 25) {
        // undefined, or not a number
        let n = s.pick(&["Z", "A", "N", "$K"]).to_string();
        if !avoid.contains(&n) {
            return Ex::Var(n);
        }
    }
    if vars.is_empty() {
        return match s.below(3) {
            0 => off(Ex::Line, v.wrapping_sub(g.line), s),
            1 if v >= 0 => Ex::Lit(v, s.chance(1, 3)),
            _ => {
                let k = s.range(1, 9) as i128;
                off(Ex::Lit(k, false), v.wrapping_sub(k), s)
            }
        };
    }
    let (n, x) = s.pick(&vars).clone();
    let (m, y) = s.pick(&vars).clone();
    let var = Ex::Var(n);
    match s.weighted(&[6, 2, 1, 1, 1, 1, 1, 1, 1]) {
        0 => off(var, v.wrapping_sub(x), s),
        1 => off(Ex::Line, v.wrapping_sub(g.line), s),
        2 => {
            // left-associative
            let e = Ex::Bin("-", b(var), b(Ex::Var(m)));
            off(e, v.wrapping_sub(x.wrapping_sub(y)), s)
        }
        3 => {
            let e = Ex::Bin("+", b(Ex::Var(m)), b(var));
            off(e, v.wrapping_sub(x.wrapping_add(y)), s)
        }
        4 if v >= 0 => {
            let f = if x < v { "max" } else { "min" };
            Ex::Bin(f, b(var), b(Ex::Lit(v, false)))
        }
        5 => {
            let k = s.range(1, 4) as i128;
            let e = Ex::Bin("mul", b(var), b(Ex::Lit(k, false)));
            off(e, v.wrapping_sub(x.wrapping_mul(k)), s)
        }
        6 => {
            let k = s.below(5) as i128;
            let e = Ex::Bin("div", b(var), b(Ex::Lit(k, false)));
            let q = if k == 0 { 0 } else { x / k };
            off(e, v.wrapping_sub(q), s)
        }
        7 => {
            // parentheses
            let k = s.range(1, 9) as i128;
            let inner = Ex::Bin("-", b(Ex::Var(m)), b(Ex::Lit(k, false)));
            let e = Ex::Bin("-", b(var), b(inner));
            off(e, v.wrapping_sub(x.wrapping_sub(y.wrapping_sub(k))), s)
        }
        _ => {
            let e = Ex::Bin(s.pick(&["max", "min", "sub", "add", "mul"]), b(var), b(Ex::Var(m)));
            let w = match e {
                Ex::Bin("max", ..) => x.max(y),
                Ex::Bin("min", ..) => x.min(y),
                Ex::Bin("sub", ..) => x.wrapping_sub(y),
                Ex::Bin("add", ..) => x.wrapping_add(y),
                _ => x.saturating_mul(y),
            };
            off(e, v.wrapping_sub(w), s)
        }
    }
}

fn defined(used: &[(String, bool)]) -> Vec<String> {
    used.iter().filter(|u| u.1).map(|u| u.0.clone()).collect()
}

/// A numeric block for the token `t`
fn gen_num(s: &mut Src, g: &Gen, t: &str, used: &mut Vec<(String, bool)>) -> Option<Piece> {
    let (v, f) = number(t)?;
    let spaced = s.chance(1, 4);
    let any = |s: &mut Src| NF { c: *s.pick(&['u', 'd', 'x', 'X']), prec: if s.chance(1, 4) { s.range(1, 3) } else { 0 }, alt: false };
    let mut n = Num { fmt: None, def: None, eq: false, expr: None, old: false, spaced };
    let def = g.allow_def && (!g.allow_use || s.chance(2, 5));
    if def {
        let name = s.pick(NNAMES).to_string();
        if used.iter().any(|u| base(&u.0) == base(&name)) {
            return None;
        }
        n.fmt = match s.below(6) {
            0 if f.c == 'u' && f.prec == 0 => None,
            1 => Some(any(s)),
            2 if f.prec == 0 && !f.alt && f.text(v).is_some_and(|x| x == t) => Some(NF { prec: s.below(t.trim_start_matches('-').len() + 1), ..f }),
            _ => Some(f),
        };
        if n.fmt.is_none() && f.c != 'u' {
            n.fmt = Some(f);
        }
        if g.allow_use && s.chance(1, 4) {
            n.expr = Some(gen_ex(s, g, v, &defined(used)));
            n.eq = s.chance(1, 3);
        }
        n.def = Some(name.clone());
        if let Some(e) = n.expr.clone() {
            let mut vs = vec![];
            e.vars(&mut vs);
            if vs.contains(&name.as_str()) {
                n.expr = None;
                n.eq = false;
            }
            used.extend(vs.into_iter().filter(|x| *x != name).map(|x| (x.to_string(), false)));
        }
        used.push((name, true));
        return Some(Piece::Num(n));
    }
    if !g.allow_use || s.chance(1, 12) {
        // any number
        n.fmt = Some(if s.chance(1, 5) { any(s) } else { f });
        return Some(Piece::Num(n));
    }
    let e = gen_ex(s, g, v, &defined(used));
    if let Ex::Bin("+" | "-", a, b) = &e
        && **a == Ex::Line
        && matches!(**b, Ex::Lit(_, false))
        && s.chance(1, 2)
    {
        n.old = true;
        n.expr = Some(e);
        return Some(Piece::Num(n));
    }
    if e == Ex::Line && s.chance(1, 2) {
        n.old = true;
        n.expr = Some(e);
        return Some(Piece::Num(n));
    }
    let implied = eval(&e, None, g.env, g.line);
    let fits = matches!(&implied, Ok((v, i)) if i.unwrap_or(NF::U).text(*v).as_deref() == Some(t));
    n.fmt = if fits && s.chance(2, 3) {
        None
    } else if s.chance(1, 12) {
        Some(any(s))
    } else {
        Some(f)
    };
    n.eq = s.chance(1, 6);
    let mut vs = vec![];
    e.vars(&mut vs);
    used.extend(vs.into_iter().map(|x| (x.to_string(), false)));
    n.expr = Some(e);
    Some(Piece::Num(n))
}

fn pattern(s: &mut Src, line: Option<&str>, g: &Gen) -> Vec<Piece> {
    let toks = tokens(line.unwrap_or(""));
    let toks = if toks.is_empty() { vec![(String::new(), s.pick(WORDS).to_string())] } else { toks };
    let a = s.below(toks.len());
    let n = s.range(1, 4.min(toks.len() - a));
    let mut used: Vec<(String, bool)> = vec![];
    let mut here: Vec<(String, String)> = vec![];
    let mut v: Vec<Piece> = vec![];
    for (i, (sep, t)) in toks[a..a + n].iter().enumerate() {
        if i > 0 {
            v.push(Piece::Lit(sep.clone()));
        }
        if g.numeric && s.chance(3, 4) {
            // sometimes only a part of the token is a number
            let cuts: Vec<usize> = (1..t.len()).filter(|i| t.is_char_boundary(*i)).collect();
            if !cuts.is_empty() && s.chance(1, 6) {
                let (a, b) = t.split_at(*s.pick(&cuts));
                let first = s.weighted(&[3, 1, 1]);
                let l = if first != 0 { gen_num(s, g, a, &mut used) } else { None };
                let r = if first != 1 { gen_num(s, g, b, &mut used) } else { None };
                v.push(l.unwrap_or_else(|| Piece::Lit(a.into())));
                v.push(r.unwrap_or_else(|| Piece::Lit(b.into())));
                continue;
            }
            if let Some(p) = gen_num(s, g, t, &mut used) {
                v.push(p);
                continue;
            }
        }
        let k = s.weighted(&if g.numeric { [6, 1, 1, 1] } else { [4, 4, 4, 1] });
        match k {
            1 if g.allow_def => {
                let name = s.pick(NAMES).to_string();
                if used.iter().any(|u| base(&u.0) == base(&name)) {
                    v.push(Piece::Lit(t.clone()));
                    continue;
                }
                let tok = || Re::Str(t.clone());
                let re = match s.below(10) {
                    9 => {
                        // a part of it, or all of it
                        let cut = t.char_indices().map(|c| c.0).nth(1).unwrap_or(t.len());
                        let mut v = vec![tok(), Re::Str(t[..cut].into())];
                        if s.chance(1, 2) {
                            v.swap(0, 1);
                        }
                        Re::Alt(v)
                    }
                    8 if s.chance(1, 3) => if s.chance(1, 2) { cls(true, &[(']', ']'), ('a', 'a'), ('\n', '\n')]) } else { cls(false, &[(']', ']'), ('b', 'b'), ('[', '['), ('x', 'x')]) },
                    8 => {
                        let l = cls(false, &[(']', ']'), ('a', 'z'), ('[', '['), ('0', '9')]);
                        let m = cls(true, &[(']', ']'), (' ', ' '), ('\n', '\n')]);
                        plus(if s.chance(1, 2) { l } else { m })
                    }
                    0 => tok(),
                    1 => Re::Alt(vec![tok(), Re::Str("zz".into())]),
                    2 => plus(Re::Perl('w')),
                    3 => Re::Rep(Box::new(Re::Any), 1, None, false),
                    4 => plus(cls(false, &[('a', 'z'), ('0', '9')])),
                    5 if i + 1 == n => plus(Re::Any),
                    6 => Re::Rep(Box::new(Re::Alt(vec![tok(), Re::Str("a".into())])), 0, Some(2), true),
                    _ => plus(cls(true, &[(' ', ' '), ('\n', '\n'), ('=', '='), (',', ','), (':', ':')])),
                };
                used.push((name.clone(), true));
                here.push((name.clone(), t.clone()));
                v.push(Piece::Def(name, re));
            }
            2 if g.allow_use => {
                let mut c: Vec<String> = here.iter().filter(|x| x.1 == *t).map(|x| x.0.clone()).collect();
                c.extend(g.env.iter().filter(|(k, x)| !used.iter().any(|u| u.1 && u.0 == **k) && text_of(x).as_deref() == Some(t)).map(|x| x.0.clone()));
                let name = if !c.is_empty() {
                    s.pick(&c).clone()
                } else if s.chance(1, 6) {
                    s.pick(NAMES).to_string()
                } else {
                    v.push(Piece::Lit(t.clone()));
                    continue;
                };
                if used.iter().any(|u| base(&u.0) == base(&name) && u.0 != name) {
                    v.push(Piece::Lit(t.clone()));
                    continue;
                }
                if !here.iter().any(|x| x.0 == name) && used.iter().any(|u| u.1 && u.0 == name) {
                    v.push(Piece::Lit(t.clone()));
                    continue;
                }
                if !here.iter().any(|x| x.0 == name) {
                    used.push((name.clone(), false));
                }
                v.push(Piece::Use(name));
            }
            3 => v.push(Piece::Re(match s.below(3) {
                0 => plus(cls(true, &[(' ', ' '), ('\n', '\n')])),
                1 => plus(Re::Perl('w')),
                _ => Re::Rep(Box::new(Re::Any), 0, None, false),
            })),
            _ => v.push(Piece::Lit(t.clone())),
        }
    }
    // adjacent literals are one literal
    let mut m: Vec<Piece> = vec![];
    for p in v {
        match (m.last_mut(), p) {
            (Some(Piece::Lit(a)), Piece::Lit(b)) => a.push_str(&b),
            (_, p) => m.push(p),
        }
    }
    // the text of literals must not be read as something else
    for p in m.iter_mut() {
        if let Piece::Lit(l) = p
            && ["[[", "]]", "{{", "}}"].iter().any(|b| l.contains(b))
        {
            *l = "zz".into();
        }
    }
    fix_edges(m)
}

/// A pattern without variables
fn plain_pattern(s: &mut Src, line: Option<&str>) -> Vec<Piece> {
    let toks = tokens(line.unwrap_or(""));
    let t = if toks.is_empty() { "zz".to_string() } else { s.pick(&toks).1.clone() };
    vec![Piece::Lit(t)]
}

pub fn gen_var_dirs(s: &mut Src, input: &str, max: usize, o: &Opts, numeric: bool, mix: &Mix) -> Vec<Dir> {
    let ls: Vec<&str> = input.split('\n').collect();
    let mut dirs: Vec<Dir> = vec![];
    let n = s.range(2, max);
    let mut after_label = false;
    for i in 0..n {
        let (env, cur, ok) = state(input, o, &dirs);
        if !ok && s.chance(2, 3) {
            break;
        }
        let anchored = dirs.iter().any(|d| d.kind != Kind::Not);
        let ws = if anchored {
            [mix.plain, mix.next, if after_label { 0 } else { mix.same }, 0, mix.count, mix.not, mix.dag, mix.label]
        } else {
            [mix.plain, 0, 0, 0, mix.count, mix.not, mix.dag, mix.label]
        };
        let k = s.weighted(&ws);
        if k != 5 {
            after_label = k == 7;
        }
        let line = |i: usize| ls.get(i).copied();
        let mut g = Gen { numeric, allow_def: true, allow_use: true, env: &env, line: i as i128 + 1 };
        let at = if anchored { cur } else { 0 };
        dirs.push(match k {
            0 => {
                let l = at + s.weighted(&[2, 4, 2]);
                Dir::new(Kind::Plain, pattern(s, line(l), &g))
            }
            1 => Dir::new(Kind::Next, pattern(s, line(at + 1), &g)),
            2 => Dir::new(Kind::Same, pattern(s, line(at), &g)),
            4 => {
                let n = s.range(1, 2);
                let l = at + 1;
                Dir::new(Kind::Count(n), pattern(s, line(l), &g))
            }
            5 => {
                g.allow_def = false;
                let l = at + s.below(4);
                Dir::new(Kind::Not, pattern(s, line(l), &g))
            }
            6 => {
                let l = at + s.below(4);
                Dir::new(Kind::Dag, pattern(s, line(l), &g))
            }
            _ => {
                let l = at + s.range(1, 2);
                Dir::new(Kind::Label, plain_pattern(s, line(l)))
            }
        });
    }
    dirs
}

fn has_use(d: &Dir) -> bool {
    uses(d).next().is_some()
}

const VWORDS: &[&str] = &["a", "b", "ab", "foo", "bar", "x1", "a.c", "(b", "x*", "$1", "\\d", "é", "12", "abc", "[a", "aa", "a]", "[b]"];

pub fn gen_lines(s: &mut Src, maxlines: usize, word: &mut dyn FnMut(&mut Src) -> String) -> String {
    let n = s.range(2, maxlines);
    let mut o = String::new();
    for i in 0..n {
        for j in 0..s.weighted(&[1, 3, 4, 4, 2]) {
            if j > 0 {
                o.push_str(s.pick(&[" ", " ", " ", "=", ", ", ": "]));
            }
            o.push_str(&word(s));
        }
        if i + 1 < n || !s.chance(1, 10) {
            o.push('\n');
        }
    }
    o
}

/// Few lines which define or use few values of few variables, again and again
fn f06_values(s: &mut Src) -> Case {
    let vals = ["a", "b", "c"];
    let names: &[&str] = if s.chance(1, 2) { &["X"] } else if s.chance(1, 2) { &["X", "Y"] } else { &["X", "$X"] };
    let k = s.range(2, 3);
    let lines: Vec<(&str, &str)> = (0..s.range(3, 9)).map(|_| (*s.pick(&["def", "def", "use", "end"]), vals[s.below(k)])).collect();
    let input: String = lines.iter().map(|l| format!("{} {}\n", l.0, l.1)).collect();
    let mut o = Opts::default();
    o.scope = s.chance(1, 4);
    let piece = |s: &mut Src, w: &str, v: &str, env: &Env| -> Vec<Piece> {
        let head = Piece::Lit(format!("{w} "));
        let known: Vec<&&str> = names.iter().filter(|n| env.contains_key(**n)).collect();
        let fit: Vec<&&&str> = known.iter().filter(|n| matches!(&env[**n as &str], Val::S(x) if x == v)).collect();
        if w == "def" && s.chance(5, 6) {
            let re = if s.chance(3, 4) { Re::Rep(Box::new(Re::Perl('w')), 1, None, true) } else { Re::Alt(vec![Re::Str(v.into()), Re::Str("zz".into())]) };
            vec![head, Piece::Def(s.pick(names).to_string(), re)]
        } else if !known.is_empty() && s.chance(4, 5) {
            let n = if !fit.is_empty() && s.chance(3, 4) { **s.pick(&fit) } else { *s.pick(&known) };
            vec![head, Piece::Use(n.to_string())]
        } else {
            vec![Piece::Lit(if s.chance(1, 2) { w.to_string() } else { format!("{w} {v}") })]
        }
    };
    let mut env = Env::new();
    let mut dirs: Vec<Dir> = vec![];
    let mut last: Option<usize> = None;
    for (i, l) in lines.iter().enumerate() {
        if s.chance(1, 3) {
            let (w, v) = (["use", "def", "end"][s.below(3)], vals[s.below(k)]);
            let pat = piece(s, w, v, &env);
            if !pat.iter().any(|p| matches!(p, Piece::Def(..))) {
                dirs.push(Dir::new(Kind::Not, pat));
            }
        }
        if s.chance(1, 4) {
            continue;
        }
        let next = last.is_some_and(|x| x + 1 == i);
        let kind = match s.below(12) {
            0 | 1 => Kind::Dag,
            2 => Kind::Count(1),
            3 if !dirs.is_empty() => Kind::Label,
            4..=6 if next => Kind::Next,
            _ => Kind::Plain,
        };
        let pat = if kind == Kind::Label { vec![Piece::Lit(format!("{} {}", l.0, l.1))] } else { piece(s, l.0, l.1, &env) };
        if kind == Kind::Label && o.scope {
            env.retain(|k, _| k.starts_with('$'));
        }
        for p in &pat {
            if let Piece::Def(n, _) = p {
                env.insert(n.clone(), Val::S(l.1.into()));
            }
        }
        dirs.push(Dir::new(kind, pat));
        last = Some(i);
    }
    if dirs.iter().all(|d| d.kind == Kind::Not) {
        dirs.push(Dir::new(Kind::Plain, vec![Piece::Lit("e".into())]));
    }
    let rel = dirs.iter().any(has_use);
    decide(s, &dirs, &input, &o, rel)
}

/// Records in any order: keys defined in front, groups of CHECK-DAG which share their beginnings
/// and use keys, and define further variables, which are used after the group.
fn f06_records(s: &mut Src) -> Case {
    let vals = ["a", "aa", "b", "ab", "12"];
    let mut o = Opts::default();
    o.scope = s.chance(1, 2);
    let keys: Vec<&str> = vec![*s.pick(&["12", "k", "a"]), *s.pick(&["7", "kk", "12"])];
    let g = s.chance(1, 4);
    let names: [&str; 2] = if g { ["$K", "J"] } else { ["K", "J"] };
    let nk = s.range(1, 2);
    let mut input = String::new();
    let mut dirs: Vec<Dir> = vec![];
    for i in 0..nk {
        input.push_str(&format!("{}={}\n", ["k", "j"][i], keys[i]));
        dirs.push(Dir::new(Kind::Plain, vec![Piece::Lit(format!("{}=", ["k", "j"][i])), Piece::Def(names[i].into(), plus(Re::Perl('w')))]));
    }
    let head = *s.pick(&["foo ", "b=", "[", "a "]);
    let n = s.range(2, 4);
    let recs: Vec<(usize, &str)> = (0..n).map(|_| (s.below(nk), *s.pick(&vals))).collect();
    for (k, v) in &recs {
        input.push_str(&format!("{head}{} {v}\n", keys[*k]));
        if s.chance(1, 6) {
            input.push_str("zz\n");
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, s.below(i + 1));
    }
    let mut made: Vec<(String, String)> = vec![];
    for (x, i) in order.iter().enumerate() {
        if s.chance(1, 8) {
            continue;
        }
        let (k, v) = recs[*i];
        let mut p = vec![Piece::Lit(head.into())];
        if s.chance(5, 6) {
            p.push(Piece::Use(names[k].into()));
            p.push(Piece::Lit(" ".into()));
        } else {
            p[0] = Piece::Lit(format!("{head}{} ", keys[k]));
        }
        match s.below(5) {
            0 | 1 => {
                let name = ["V", "W", "X", "Y"][if s.chance(1, 8) { 0 } else { x }].to_string();
                let class = match v {
                    "12" => cls(false, &[('0', '9')]),
                    "b" => cls(false, &[('b', 'b')]),
                    "a" | "aa" => cls(false, &[('a', 'a')]),
                    _ => cls(false, &[('a', 'b')]),
                };
                p.push(Piece::Def(name.clone(), plus(class)));
                made.push((name, v.into()));
            }
            2 => p.push(Piece::Re(plus(cls(false, &[('a', 'b')])))),
            _ => p.push(Piece::Lit(v.into())),
        }
        dirs.push(Dir::new(Kind::Dag, p));
    }
    if s.chance(1, 8) {
        // of a variable nothing defines
        dirs.push(Dir::new(if s.chance(1, 4) { Kind::Dag } else { Kind::Plain }, vec![Piece::Lit("en".into()), Piece::Use("U".into())]));
    }
    for (name, v) in &made {
        if s.chance(1, 2) {
            input.push_str(&format!("end {v}\n"));
            dirs.push(Dir::new(if s.chance(1, 3) { Kind::Dag } else { Kind::Plain }, vec![Piece::Lit("end ".into()), Piece::Use(name.clone())]));
        }
    }
    let rel = dirs.iter().any(has_use);
    decide(s, &dirs, &input, &o, rel)
}

fn f06(s: &mut Src, _: &mut Ctx) -> Case {
    if s.chance(1, 6) {
        return f06_records(s);
    }
    if s.chance(1, 4) {
        return f06_values(s);
    }
    let words: Vec<&str> = (0..s.range(2, 5)).map(|_| *s.pick(VWORDS)).collect();
    let input = gen_lines(s, 8, &mut |s| s.pick(&words).to_string());
    let mut o = Opts::default();
    let labels = s.chance(1, 3);
    if s.chance(1, 3) {
        let n = s.range(1, 2);
        for k in 0..n {
            o.defs.push((["DA", "DB"][k].to_string(), s.pick(&words).to_string()));
        }
    } else if labels {
        o.scope = s.chance(2, 3);
    }
    let mix = Mix { plain: 4, next: 3, same: 2, empty: 0, count: 1, not: 2, dag: if s.chance(1, 3) { 10 } else { 2 }, label: if labels { 2 } else { 0 } };
    let dirs = gen_var_dirs(s, &input, 8, &o, false, &mix);
    let rel = dirs.iter().any(has_use);
    decide(s, &dirs, &input, &o, rel)
}

/// The command line has no hexadecimal literals.
fn decimal(e: Ex) -> Ex {
    match e {
        Ex::Lit(n, _) => Ex::Lit(n, false),
        Ex::Bin(f, a, b) => Ex::Bin(f, Box::new(decimal(*a)), Box::new(decimal(*b))),
        e => e,
    }
}

/// Numbers in some formats, and one computed from them in the format they imply, or one close to it
fn f07_formats(s: &mut Src) -> Case {
    let fam = s.below(3);
    let fmt = |s: &mut Src| {
        let c = match if s.chance(1, 8) { s.below(3) } else { fam } {
            0 => 'u',
            1 => *s.pick(&['x', 'x', 'X']),
            _ => 'd',
        };
        NF { c, prec: if s.chance(1, 2) { 0 } else { s.range(1, 5) }, alt: (c == 'x' || c == 'X') && s.chance(1, 8) }
    };
    let o = Opts { icase: s.chance(1, 8), ..Opts::default() };
    let n = s.range(2, 3);
    let mut env = Env::new();
    let (mut pat, mut text): (Vec<Piece>, String) = (vec![], String::new());
    let mut e: Option<Ex> = None;
    for k in 0..n {
        let f = fmt(s);
        let v = *s.pick(&[0i128, 1, 2, 5, 9, 10, 11, 14, 30, 90, 171, 255, 999, 4095]) * if f.c == 'd' && s.chance(1, 3) { -1 } else { 1 };
        let name = ["A", "B", "C"][k].to_string();
        let sep = ["a ", " b ", " e "][k];
        text.push_str(sep);
        text.push_str(&f.text(v).unwrap());
        pat.push(Piece::Lit(sep.into()));
        pat.push(Piece::Num(Num { fmt: if f == NF::U && s.chance(1, 2) { None } else { Some(f) }, def: Some(name.clone()), eq: false, expr: None, old: false, spaced: false }));
        env.insert(name.clone(), Val::N(v, Some(f)));
        let var = Ex::Var(name);
        let var = if s.chance(1, 3) { Ex::Bin("+", Box::new(var), Box::new(Ex::Lit(s.range(0, 3) as i128, false))) } else { var };
        e = Some(match e {
            None => var,
            Some(e) => {
                let op = *s.pick(&["+", "+", "-", "add", "sub", "max", "min", "mul", "div"]);
                let (a, b) = if s.chance(1, 4) { (var, e) } else { (e, var) };
                Ex::Bin(op, Box::new(a), Box::new(b))
            }
        });
    }
    let e = e.unwrap();
    let explicit = if s.chance(1, 4) { Some(fmt(s)) } else { None };
    let (v, f) = match eval(&e, explicit, &env, 2) {
        Ok((v, f)) => (v, explicit.or(f).unwrap_or(NF::U)),
        Err(_) => (s.below(20) as i128, fmt(s)),
    };
    let mut g = f;
    let mut w = v;
    match s.below(6) {
        0 => g.prec = s.below(6),
        1 => g = fmt(s),
        2 => w += s.pick(&[1, -1, 10]),
        _ => {}
    }
    let t = g.text(w).unwrap_or_else(|| w.to_string());
    let same = s.chance(1, 3);
    let input = if same { format!("{text}\nzz c {t} end\n") } else { format!("{text}\nc {t}\n") };
    let mut dirs = vec![Dir::new(Kind::Plain, pat)];
    let mut tail = vec![Piece::Lit("c ".into()), Piece::Num(Num { fmt: explicit, def: None, eq: s.chance(1, 6), expr: Some(e), old: false, spaced: s.chance(1, 4) })];
    if same && s.chance(1, 2) {
        tail.push(Piece::Lit(" end".into()));
    }
    dirs.push(Dir::new(if s.chance(1, 3) { Kind::Next } else { Kind::Plain }, tail));
    decide(s, &dirs, &input, &o, true)
}

fn f07(s: &mut Src, _: &mut Ctx) -> Case {
    if s.chance(1, 5) {
        return f07_formats(s);
    }
    let mut pool: Vec<i128> = (0..s.range(1, 4)).map(|_| [0, 1, 2, 3, 7, 9, 10, 12, 15, 16, 31, 99, 100, 255, 4096][s.below(15)]).collect();
    if s.chance(1, 8) {
        pool.push(*s.pick(&[u32::MAX as i128, i32::MAX as i128 + 1, i64::MAX as i128 / 16, 1 << 40]));
    }
    if s.chance(1, 10) {
        // beyond 64 bits, and up to the bounds of what can be represented
        let v = *s.pick(&[u64::MAX as i128, i64::MAX as i128, i64::MIN as i128, 1 << 64, 10i128.pow(20), -(10i128.pow(30)), i128::MAX / 3, i128::MAX, i128::MAX - 2, -i128::MAX]);
        pool.push(v);
        if s.chance(1, 2) {
            pool.push(v);
        }
    }
    if s.chance(1, 3) {
        pool.push(-(s.range(1, 20) as i128));
    }
    let icase = s.chance(1, 7);
    let input = gen_lines(s, 8, &mut |s| {
        if s.chance(1, 4) {
            return s.pick(&["a", "foo", "n", "x1", "-"]).to_string();
        }
        let (rc, rp) = (['u', 'd', 'x', 'X'][s.below(4)], s.range(1, 4));
        let v = (*s.pick(&pool)).saturating_add(if s.chance(1, 3) { s.below(4) as i128 } else { 0 });
        let f = *s.pick(&[
            NF::U,
            NF::U,
            NF::U,
            NF { c: 'x', prec: 0, alt: false },
            NF { c: 'X', prec: 0, alt: false },
            NF { c: 'x', prec: 0, alt: true },
            NF { c: 'u', prec: 3, alt: false },
            NF { c: rc, prec: rp, alt: false },
            NF { c: 'd', prec: 0, alt: false },
        ]);
        let t = f.text(v).unwrap_or_else(|| v.to_string());
        if icase && s.chance(1, 3) {
            // the same number, its letters of the other case
            return t.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        }
        t
    });
    let mut o = Opts { icase, ..Opts::default() };
    let labels = s.chance(1, 5);
    if s.chance(1, 3) {
        for k in 0..s.range(1, 3) {
            let f = if s.chance(1, 2) { Some(*s.pick(&[NF::U, NF { c: 'x', prec: 0, alt: false }, NF { c: 'd', prec: 0, alt: false }, NF { c: 'u', prec: 3, alt: false }])) } else { None };
            let v = *s.pick(&pool);
            let env = Model::new(&input, &o).env;
            let g = Gen { numeric: true, allow_def: false, allow_use: true, env: &env, line: 0 };
            let e = gen_ex(s, &g, v, &[]);
            fn bad(e: &Ex, env: &Env) -> bool {
                match e {
                    Ex::Line => true,
                    Ex::Var(n) => !env.contains_key(n),
                    Ex::Bin(_, a, b) => bad(a, env) || bad(b, env),
                    _ => false,
                }
            }
            let e = decimal(e);
            let e = if bad(&e, &env) || eval(&e, f, &env, 0).is_err() { Ex::Lit(v.abs(), false) } else { e };
            o.ndefs.push((f, ["D1", "D2", "D3"][k].to_string(), e));
        }
    } else if labels {
        o.scope = s.chance(2, 3);
    }
    let mix = Mix { plain: 4, next: 3, same: 2, empty: 0, count: 1, not: 2, dag: if s.chance(1, 4) { 8 } else { 1 }, label: if labels { 2 } else { 0 } };
    let dirs = gen_var_dirs(s, &input, 7, &o, true, &mix);
    let rel = dirs.iter().any(|d| d.pat.iter().any(|p| matches!(p, Piece::Num(n) if n.expr.is_some())));
    decide(s, &dirs, &input, &o, rel)
}

fn f06_known(_: &mut Ctx) -> Vec<Known> {
    let o = Opts::default();
    vec![
        known("no-backtracking", "the parts of a pattern with variables are matched one after the other without backtracking (`CHECK: a [[X:b]]`, `CHECK: a [[Y:b*]][[X]]` on `a b`, `a bb`)", "CHECK: a [[X:b]]\nCHECK: a [[Y:b*]][[X]]\n", "a b\na bb\n", &o, true),
        known("dag-use-first", "a CHECK-DAG directive using a variable of its group is not matched by text in front of the text matched by the directive defining it (`CHECK-DAG: def [[X:[a-z]+]]`, `CHECK-DAG: use [[X]]` on `use foo`, `def foo`)", "CHECK-DAG: def [[X:[a-z]+]]\nCHECK-DAG: use [[X]]\n", "use foo\ndef foo\n", &o, true),
        known("dag-use-prefix", "a CHECK-DAG directive which starts with the value of a variable defined in its group is rejected (`CHECK-DAG: b [[A:a]]=b`, `CHECK-DAG: [[A]] b` on `b a=b`, `a b`)", "CHECK-DAG: b [[A:a]]=b\nCHECK-DAG: [[A]] b\n", "b a=b\na b\n", &o, true),
        known("local-and-global", "a pattern which defines a local and a global variable of the same name is rejected (`CHECK: [[X:a]] [[$X:b]]`)", "CHECK: [[X:a]] [[$X:b]]\n", "a b\n", &o, true),
    ]
}

pub static PROPS: &[Prop] = &[
    Prop { id: "F06", run: f06, quick: 36000, thorough: 3000000, hang: 30, rule: "a directive uses a variable", oracle: "reference interpreter with an environment of variables", known: f06_known },
    Prop { id: "F07", run: f07, quick: 60000, thorough: 3000000, hang: 30, rule: "a numeric block with an expression", oracle: "reference interpreter with exact integer arithmetic and formats", known: no_known },
];

/// The text of some check file with variables or numbers, and an input it is about.
pub fn any_var_case(s: &mut Src) -> (String, String) {
    let numeric = s.chance(1, 2);
    let words = ["a", "b", "foo", "12", "7", "0x1f", "ab", "007", "-3"];
    let input = gen_lines(s, 6, &mut |s| s.pick(&words).to_string());
    let mix = Mix { plain: 4, next: 3, same: 2, empty: 0, count: 1, not: 2, dag: 3, label: 2 };
    let dirs = gen_var_dirs(s, &input, 6, &Opts::default(), numeric, &mix);
    (render_dirs(&dirs), input)
}
