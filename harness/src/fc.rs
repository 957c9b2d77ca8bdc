//! FileCheck: structured check files, a reference model, and a driver for the real matcher.
use crate::engine::*;
use crate::re::{self, Re};
use litcheck_core as litcheck;
use litcheck_filecheck::{Config, Options, Test, TestFailed};
use litcheck::diagnostics::{DefaultSourceManager, FileName, SourceLanguage, SourceManager};
use std::collections::BTreeMap;
use std::sync::Arc;

// ------------------------------------------------------------------ structured check files

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Plain,
    Next,
    Same,
    Empty,
    Count(usize),
    Not,
    Dag,
    Label,
}
impl Kind {
    pub fn suffix(&self) -> String {
        match self {
            Kind::Plain => "".into(),
            Kind::Next => "-NEXT".into(),
            Kind::Same => "-SAME".into(),
            Kind::Empty => "-EMPTY".into(),
            Kind::Count(n) => format!("-COUNT-{n}"),
            Kind::Not => "-NOT".into(),
            Kind::Dag => "-DAG".into(),
            Kind::Label => "-LABEL".into(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Lit(String),
    Re(Re),
    /// `[[NAME:re]]`
    Def(String, Re),
    /// `[[NAME]]`
    Use(String),
    Num(Num),
}

/// `[[#%fmt,NAME: expr]]`, `[[#%fmt,expr]]`, `[[@LINE+n]]`
#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub fmt: Option<NF>,
    pub def: Option<String>,
    /// write `==` in front of the expression
    pub eq: bool,
    pub expr: Option<Ex>,
    /// `[[@LINE+n]]` rather than `[[#@LINE+n]]`
    pub old: bool,
    pub spaced: bool,
}

/// How a number is written
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct NF {
    /// u d x X
    pub c: char,
    pub prec: usize,
    /// with a 0x prefix
    pub alt: bool,
}
impl NF {
    pub const U: NF = NF { c: 'u', prec: 0, alt: false };
    pub fn render(&self) -> String {
        format!("%{}{}{}", if self.alt { "#" } else { "" }, if self.prec > 0 { format!(".{}", self.prec) } else { "".into() }, self.c)
    }
    /// The text of a number in this format; None if it has none.
    pub fn text(&self, v: i128) -> Option<String> {
        if v < 0 && self.c != 'd' {
            return None;
        }
        let mut digits = vec![];
        let base = if self.c == 'x' || self.c == 'X' { 16 } else { 10 };
        let mut m = v.unsigned_abs();
        while m > 0 || digits.is_empty() {
            digits.push(match (self.c, (m % base) as u8) {
                (_, d @ 0..=9) => b'0' + d,
                ('X', d) => b'A' + d - 10,
                (_, d) => b'a' + d - 10,
            });
            m /= base;
        }
        while digits.len() < self.prec {
            digits.push(b'0');
        }
        digits.reverse();
        let t = String::from_utf8(digits).unwrap();
        Some(format!("{}{}{t}", if v < 0 { "-" } else { "" }, if self.alt { "0x" } else { "" }))
    }
    /// What a number in this format looks like
    pub fn re(&self) -> Re {
        let most = if self.c == 'x' || self.c == 'X' { 32 } else { 39 };
        let d = |v: Vec<(char, char)>| Re::Rep(Box::new(Re::Class(v, false)), self.prec.max(1), Some(most), true);
        let num = match self.c {
            'x' => d(vec![('0', '9'), ('a', 'f'), ('A', 'F')]),
            'X' => d(vec![('0', '9'), ('A', 'F')]),
            _ => d(vec![('0', '9')]),
        };
        if self.c == 'd' {
            Re::Cat(vec![Re::Rep(Box::new(Re::Class(vec![('-', '-'), ('+', '+')], false)), 0, Some(1), true), num])
        } else if self.alt {
            Re::Cat(vec![Re::Str("0x".into()), num])
        } else {
            num
        }
    }
    pub fn parse(&self, t: &str) -> Option<i128> {
        let (neg, t) = match t.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, t.strip_prefix('+').unwrap_or(t)),
        };
        let t = if self.alt { t.strip_prefix("0x").or(t.strip_prefix("0X"))? } else { t };
        let base = if self.c == 'x' || self.c == 'X' { 16i128 } else { 10 };
        let mut v: i128 = 0;
        for c in t.chars() {
            let d = c.to_digit(base as u32)? as i128;
            v = v.checked_mul(base)?;
            v = if neg { v.checked_sub(d)? } else { v.checked_add(d)? };
        }
        Some(v)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Lit(i128, bool),
    Var(String),
    Line,
    /// + - or a function name
    Bin(&'static str, Box<Ex>, Box<Ex>),
}
impl Ex {
    pub fn render(&self, sp: bool) -> String {
        self.rend(sp, true)
    }
    fn rend(&self, sp: bool, top: bool) -> String {
        match self {
            Ex::Lit(n, true) if *n >= 0 => format!("0x{n:x}"),
            Ex::Lit(n, _) => format!("{n}"),
            Ex::Var(n) => n.clone(),
            Ex::Line => "@LINE".into(),
            Ex::Bin(op @ ("+" | "-"), a, b) => {
                let b = b.rend(sp, false);
                let a = a.rend(sp, true);
                let t = if sp { format!("{a} {op} {b}") } else { format!("{a}{op}{b}") };
                if top { t } else { format!("({t})") }
            }
            Ex::Bin(f, a, b) => format!("{f}({},{}{})", a.rend(sp, true), if sp { " " } else { "" }, b.rend(sp, true)),
        }
    }
    pub fn vars<'x>(&'x self, v: &mut Vec<&'x str>) {
        match self {
            Ex::Var(n) => v.push(n),
            Ex::Bin(_, a, b) => {
                a.vars(v);
                b.vars(v);
            }
            _ => (),
        }
    }
}

/// The value of a variable
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    S(String),
    N(i128, Option<NF>),
}

/// Why an expression has no value
pub enum Bad {
    Error,
    /// not specified
    Unknown,
}

pub fn eval(e: &Ex, explicit: Option<NF>, env: &Env, line: i128) -> Result<(i128, Option<NF>), Bad> {
    Ok(match e {
        Ex::Lit(n, _) => (*n, None),
        Ex::Line => (line, None),
        Ex::Var(n) => match env.get(n) {
            Some(Val::N(v, f)) => (*v, *f),
            Some(Val::S(_)) => return Err(Bad::Unknown),
            None => return Err(Bad::Error),
        },
        Ex::Bin(op, a, b) => {
            let (x, fx) = eval(a, explicit, env, line)?;
            let (y, fy) = eval(b, explicit, env, line)?;
            let f = match (fx, fy) {
                (None, None) => explicit,
                (Some(f), None) | (None, Some(f)) => Some(f),
                (Some(f), Some(g)) if f == g => Some(f),
                // the most precise of two formats which agree where both say something
                (Some(f), Some(g)) if f.c.to_ascii_lowercase() == g.c.to_ascii_lowercase() && f.alt == g.alt && (f.prec == g.prec || f.prec == 0 || g.prec == 0) => {
                    Some(NF { c: if f.c == 'X' || g.c == 'X' { 'X' } else { f.c }, prec: f.prec.max(g.prec), alt: f.alt })
                }
                _ => Some(explicit.ok_or(Bad::Error)?),
            };
            let v = match *op {
                "+" | "add" => x.checked_add(y),
                "-" | "sub" => x.checked_sub(y),
                "mul" => x.checked_mul(y),
                "div" => {
                    // towards zero
                    if y == 0 {
                        None
                    } else {
                        let q = x.unsigned_abs() / y.unsigned_abs();
                        Some(if (x < 0) != (y < 0) { -(q as i128) } else { q as i128 })
                    }
                }
                "min" => Some(if x < y { x } else { y }),
                "max" => Some(if x < y { y } else { x }),
                _ => unreachable!(),
            };
            (v.ok_or(Bad::Error)?, f)
        }
    })
}

#[derive(Clone, Debug)]
pub struct Dir {
    pub kind: Kind,
    pub pat: Vec<Piece>,
    pub literal: bool,
}
impl Dir {
    pub fn new(kind: Kind, pat: Vec<Piece>) -> Self {
        Dir { kind, pat, literal: false }
    }
}

pub fn render_re_block(r: &Re) -> String {
    let s = r.render();
    if s.ends_with('}') || s.ends_with("\\}") { format!("(?:{s})") } else { s }
}
pub fn render_pat(p: &[Piece]) -> String {
    let mut o = String::new();
    for x in p {
        match x {
            Piece::Lit(s) => o.push_str(s),
            Piece::Re(r) => {
                o.push_str("{{");
                o.push_str(&render_re_block(r));
                o.push_str("}}");
            }
            Piece::Def(n, r) => {
                let s = r.render();
                o.push_str(&format!("[[{n}:{s}]]"));
            }
            Piece::Use(n) => o.push_str(&format!("[[{n}]]")),
            Piece::Num(n) => {
                let sp = if n.spaced { " " } else { "" };
                if n.old {
                    o.push_str(&format!("[[{}]]", n.expr.as_ref().unwrap().render(false)));
                    continue;
                }
                o.push_str("[[#");
                if let Some(f) = &n.fmt {
                    o.push_str(&f.render());
                    o.push_str(&format!(",{sp}"));
                }
                if let Some(d) = &n.def {
                    o.push_str(&format!("{d}{sp}:{sp}"));
                }
                if n.eq {
                    o.push_str(&format!("=={sp}"));
                }
                if let Some(e) = &n.expr {
                    o.push_str(&e.render(n.spaced));
                }
                o.push_str("]]");
            }
        }
    }
    o
}
pub fn render_dir(d: &Dir, prefix: &str) -> String {
    let lit = if d.literal { "{LITERAL}" } else { "" };
    if d.kind == Kind::Empty {
        return format!("{prefix}-EMPTY:");
    }
    format!("{prefix}{}{lit}: {}", d.kind.suffix(), render_pat(&d.pat))
}
pub fn render_dirs(ds: &[Dir]) -> String {
    let mut o = String::new();
    for d in ds {
        o.push_str(&render_dir(d, "CHECK"));
        o.push('\n');
    }
    o
}

// ------------------------------------------------------------------ the real thing

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub icase: bool,
    pub strict: bool,
    pub full: bool,
    pub scope: bool,
    pub allow_empty: bool,
    pub implicit: Vec<String>,
    pub prefixes: Vec<String>,
    pub comments: Vec<String>,
    pub defs: Vec<(String, String)>,
    pub ndefs: Vec<(Option<NF>, String, Ex)>,
    pub unused_ok: bool,
    pub verbose: u8,
}
impl Opts {
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if self.icase {
            v.push("--ignore-case".into());
        }
        if self.strict {
            v.push("--strict-whitespace".into());
        }
        if self.full {
            v.push("--match-full-lines".into());
        }
        if self.scope {
            v.push("--enable-var-scope".into());
        }
        if self.allow_empty {
            v.push("--allow-empty".into());
        }
        if self.unused_ok {
            v.push("--allow-unused-prefixes".into());
        }
        for p in &self.implicit {
            v.push(format!("--implicit-check-not={p}"));
        }
        if !self.prefixes.is_empty() {
            v.push(format!("--check-prefixes={}", self.prefixes.join(",")));
        }
        if !self.comments.is_empty() {
            v.push(format!("--comment-prefixes={}", self.comments.join(",")));
        }
        for (k, x) in &self.defs {
            v.push(format!("-D{k}={x}"));
        }
        for (f, k, x) in &self.ndefs {
            v.push(format!("-D{}", ndef(f, k, x)));
        }
        for _ in 0..self.verbose {
            v.push("-v".into());
        }
        v
    }
    pub fn options(&self) -> Options {
        use std::str::FromStr;
        let mut o = Options::default();
        o.ignore_case = self.icase;
        o.strict_whitespace = self.strict;
        o.match_full_lines = self.full;
        o.enable_var_scope = self.scope;
        o.allow_empty = self.allow_empty;
        o.allow_unused_prefixes = self.unused_ok;
        o.verbose = self.verbose;
        o.implicit_check_not = self.implicit.iter().map(|s| litcheck::Symbol::intern(s)).collect();
        if !self.prefixes.is_empty() {
            o.check_prefixes = self.prefixes.iter().map(|s| litcheck::Symbol::intern(s)).collect();
        }
        if !self.comments.is_empty() {
            o.comment_prefixes = self.comments.iter().map(|s| litcheck::Symbol::intern(s)).collect();
        }
        o.variables = self
            .defs
            .iter()
            .map(|(k, v)| format!("{k}={v}"))
            .chain(self.ndefs.iter().map(|(f, k, x)| ndef(f, k, x)))
            .map(|d| FromStr::from_str(&d).unwrap_or_else(|e| panic!("the definition {d} was rejected: {e}")))
            .collect();
        o
    }
}

fn ndef(f: &Option<NF>, k: &str, x: &Ex) -> String {
    format!("#{}{k}={}", f.map(|f| format!("{},", f.render())).unwrap_or_default(), x.render(false))
}

#[derive(Debug, Clone, PartialEq)]
pub struct Hit {
    /// line (0-based) of the check file the pattern is on
    pub line: usize,
    pub start: usize,
    pub end: usize,
    pub caps: Vec<(String, String)>,
}

#[derive(Debug, Clone)]
pub enum Real {
    Pass(Vec<Hit>),
    /// matching failed
    Fail(String),
    /// the check file was rejected
    Invalid(String),
}

pub fn line_of(text: &str, off: usize) -> usize {
    text.as_bytes()[..off.min(text.len())].iter().filter(|b| **b == b'\n').count()
}

/// Does filecheck reject what it should accept (or accept what it should reject)?
pub fn known(id: &str, what: &str, check: &str, input: &str, o: &Opts, should_pass: bool) -> Known {
    let r = guard(|| run_real(check, input, o, false));
    Known { id: id.into(), what: what.into(), still_fails: matches!(r, Ok(Real::Pass(_))) != should_pass }
}

pub fn run_real(check: &str, input: &str, o: &Opts, render: bool) -> Real {
    let cfg = Config { source_manager: Arc::from(DefaultSourceManager::default()), options: o.options() };
    let sm = cfg.source_manager.clone();
    let cf = sm.load(SourceLanguage::Unknown, FileName::from("check".to_string()), check.to_string());
    let inp = sm.load(SourceLanguage::Unknown, FileName::from("input".to_string()), input.to_string());
    let cid = cf.id();
    let mut t = Test::new(cf, &cfg);
    match t.verify(inp) {
        Ok(ms) => Real::Pass(
            ms.iter()
                .map(|m| {
                    // offsets as if all line endings of the input were LF
                    let text = sm.get(m.span.source_id()).map(|f| f.as_str().to_string()).unwrap_or_default();
                    let lf = |p: usize| p - text.as_bytes()[..p.min(text.len())].windows(2).filter(|w| *w == b"\r\n").count();
                    Hit {
                    line: if m.pattern_span.source_id() == cid {
                        line_of(check, m.pattern_span.end().to_usize())
                    } else {
                        usize::MAX
                    },
                    start: lf(m.span.start().to_usize()),
                    end: lf(m.span.end().to_usize()),
                    caps: vec![],
                }})
                .collect(),
        ),
        Err(r) => {
            let text = if render { format!("{r:?}") } else { format!("{r}") };
            if r.downcast_ref::<TestFailed>().is_some() { Real::Fail(text) } else { Real::Invalid(text) }
        }
    }
}

// ------------------------------------------------------------------ the reference model

pub type Env = BTreeMap<String, Val>;

#[derive(Debug, Clone)]
pub enum Outcome {
    /// spans of every positive match: (directive index, start, end), in directive order
    Pass(Vec<(usize, usize, usize)>),
    /// index of the directive that fails
    Fail(usize),
    /// the model has no opinion
    Unknown,
}

pub struct Model<'a> {
    pub input: &'a str,
    pub o: &'a Opts,
    /// matches reported by the implementation for CHECK-DAG directives (validated, not recomputed)
    pub follow: Option<BTreeMap<usize, (usize, usize)>>,
    pub env: Env,
    /// the verdict depends on choices which the model does not predict
    pub ambiguous: bool,
    /// the line of the check file of each directive
    pub lines: Vec<usize>,
    /// matches made, whatever the outcome
    pub made: Vec<(usize, usize, usize)>,
    /// the part of the input in which the directive which failed was looked for
    pub window: Option<(usize, usize)>,
}

pub enum Stop {
    Fail(usize),
    Unknown,
}

/// Variables bound by a match
pub type Binds = Vec<(String, Val)>;

impl<'a> Model<'a> {
    pub fn new(input: &'a str, o: &'a Opts) -> Self {
        let mut env: Env = o.defs.iter().map(|(k, v)| (k.clone(), Val::S(v.clone()))).collect();
        for (f, k, x) in &o.ndefs {
            env.remove(k);
            if let Ok((v, g)) = eval(x, *f, &env, 0) {
                env.insert(k.clone(), Val::N(v, f.or(g)));
            }
        }
        Model { input, o, follow: None, ambiguous: false, env, lines: vec![], made: vec![], window: None }
    }
    fn line(&self, i: usize) -> i128 {
        self.lines.get(i).copied().unwrap_or(i) as i128 + 1
    }
    /// The format of a number to be matched by a `[[#...]]` block without a fixed value
    fn numfmt(&self, n: &Num, i: usize) -> Result<NF, Stop> {
        if let Some(f) = n.fmt {
            return Ok(f);
        }
        match &n.expr {
            None => Ok(NF::U),
            Some(e) => match eval(e, None, &self.env, self.line(i)) {
                Ok((_, f)) => Ok(f.unwrap_or(NF::U)),
                Err(Bad::Unknown) => Err(Stop::Unknown),
                Err(Bad::Error) => Err(Stop::Fail(i)),
            },
        }
    }
    /// Err(Fail) if the pattern cannot match anything
    pub fn to_re(&self, p: &[Piece], i: usize) -> Result<Vec<Re>, Stop> {
        let mut v = vec![];
        let mut defined: Vec<&str> = vec![];
        for (k, x) in p.iter().enumerate() {
            v.push(match x {
                Piece::Lit(s) => Re::Str(s.clone()),
                Piece::Re(r) => r.clone(),
                Piece::Def(n, r) => {
                    defined.push(n);
                    Re::Cap(n.clone(), Box::new(r.clone()))
                }
                Piece::Use(n) if defined.contains(&n.as_str()) => Re::Back(n.clone()),
                Piece::Use(n) => Re::Str(match self.env.get(n) {
                    Some(Val::S(s)) => s.clone(),
                    Some(Val::N(v, f)) => f.unwrap_or(NF::U).text(*v).ok_or(Stop::Fail(i))?,
                    None => return Err(Stop::Fail(i)),
                }),
                Piece::Num(n) => match (&n.def, &n.expr) {
                    (None, Some(e)) => match eval(e, n.fmt, &self.env, self.line(i)) {
                        Ok((v, f)) => Re::Str(n.fmt.or(f).unwrap_or(NF::U).text(v).ok_or(Stop::Fail(i))?),
                        Err(Bad::Unknown) => return Err(Stop::Unknown),
                        Err(Bad::Error) => return Err(Stop::Fail(i)),
                    },
                    _ => Re::Cap(format!("#{k}"), Box::new(self.numfmt(n, i)?.re())),
                },
            });
        }
        Ok(v)
    }
    /// What the match binds; None if a constraint is not satisfied
    fn binds(&self, d: &Dir, i: usize, caps: &re::Caps) -> Result<Option<Binds>, Stop> {
        let mut v = vec![];
        for (n, s, e) in caps {
            let t = &self.input[*s..*e];
            let Some(k) = n.strip_prefix('#') else {
                v.push((n.clone(), Val::S(t.to_string())));
                continue;
            };
            let Piece::Num(num) = &d.pat[k.parse::<usize>().unwrap()] else { unreachable!() };
            let f = self.numfmt(num, i)?;
            let x = f.parse(t).ok_or(Stop::Unknown)?;
            if let Some(e) = &num.expr {
                match eval(e, None, &self.env, self.line(i)) {
                    Ok((y, _)) if x == y => (),
                    Ok(_) => return Ok(None),
                    Err(Bad::Unknown) => return Err(Stop::Unknown),
                    Err(Bad::Error) => return Err(Stop::Fail(i)),
                }
            }
            if let Some(n) = &num.def {
                v.push((n.clone(), Val::N(x, Some(f))));
            }
        }
        Ok(Some(v))
    }
    /// Does the pattern use the value of a variable?
    fn dynamic(d: &Dir) -> bool {
        d.pat.iter().any(|p| matches!(p, Piece::Use(_)) || matches!(p, Piece::Num(n) if n.expr.is_some()))
    }
    /// The match of the pattern which starts at `s`
    fn at(&self, d: &Dir, i: usize, s: usize, b: usize) -> Result<Option<(usize, Binds)>, Stop> {
        let rs = self.to_re(&d.pat, i)?;
        self.at_re(d, i, &rs, &Re::Cat(rs.clone()), s, b)
    }
    fn at_re(&self, d: &Dir, i: usize, rs: &[Re], whole: &Re, s: usize, b: usize) -> Result<Option<(usize, Binds)>, Stop> {
        let Some((e, caps)) = re::anchored(whole, self.input, s, b, self.o.icase).map_err(|_| Stop::Unknown)? else { return Ok(None) };
        if Self::dynamic(d) {
            // The parts of a pattern which uses variables are matched one by one, without going back to
            // an earlier part (a recorded finding); only predict what does not depend on that.
            let mut p = s;
            let mut got: re::Caps = vec![];
            for r in rs {
                let r = match r {
                    Re::Back(n) => {
                        let (_, x, y) = got.iter().find(|c| c.0 == *n).unwrap();
                        Re::Str(self.input[*x..*y].to_string())
                    }
                    r => r.clone(),
                };
                let Some((e, c)) = re::anchored(&r, self.input, p, b, self.o.icase).map_err(|_| Stop::Unknown)? else {
                    return Err(Stop::Unknown);
                };
                got.extend(c);
                p = e;
            }
            if p != e {
                return Err(Stop::Unknown);
            }
        }
        Ok(self.binds(d, i, &caps)?.map(|v| (e, v)))
    }
    fn find(&self, d: &Dir, i: usize, a: usize, b: usize) -> Result<Option<(usize, usize, Binds)>, Stop> {
        let rs = self.to_re(&d.pat, i)?;
        let whole = Re::Cat(rs.clone());
        for s in a..=b {
            if !self.input.is_char_boundary(s) {
                continue;
            }
            if let Some((e, v)) = self.at_re(d, i, &rs, &whole, s, b)? {
                return Ok(Some((s, e, v)));
            }
        }
        Ok(None)
    }
    fn bind(&mut self, caps: Binds) {
        self.env.extend(caps);
    }
    /// Excluded patterns in front of a directive which changes their variables: which value they see
    /// is not specified.
    fn stale(&self, dirs: &[Dir], nots: &[usize], d: &Dir) -> Result<(), Stop> {
        for n in nots {
            if uses(&dirs[*n]).any(|u| names(d).any(|x| x == u)) {
                return Err(Stop::Unknown);
            }
        }
        Ok(())
    }
    pub fn eol(&self, p: usize) -> usize {
        self.input[p..].find('\n').map(|x| p + x).unwrap_or(self.input.len())
    }
    pub fn next_line(&self, p: usize) -> usize {
        self.input[p..].find('\n').map(|x| p + x + 1).unwrap_or(self.input.len())
    }

    pub fn run(&mut self, dirs: &[Dir]) -> Outcome {
        let mut made = vec![];
        let r = self.run_inner(dirs, &mut made);
        made.sort();
        self.made = made;
        match r {
            Ok(v) => Outcome::Pass(v),
            Err(Stop::Fail(i)) => Outcome::Fail(i),
            Err(Stop::Unknown) => Outcome::Unknown,
        }
    }

    fn run_inner(&mut self, dirs: &[Dir], out: &mut Vec<(usize, usize, usize)>) -> Result<Vec<(usize, usize, usize)>, Stop> {
        let eof = self.input.len();
        if self.input.is_empty() && !self.o.allow_empty {
            return Err(Stop::Fail(usize::MAX));
        }
        // regions delimited by CHECK-LABEL
        let mut blocks: Vec<(usize, usize, usize, usize)> = vec![]; // (first dir, last dir, start, end)
        let mut label_hits = vec![];
        let mut first = 0;
        let mut start = 0;
        let mut pos = 0;
        for (i, d) in dirs.iter().enumerate() {
            if d.kind == Kind::Label {
                match self.find(d, i, pos, eof)? {
                    None => {
                        self.window = Some((pos, eof));
                        return Err(Stop::Fail(i));
                    }
                    Some((s, e, _)) => {
                        label_hits.push((i, s, e));
                        let line_start = self.input[..s].rfind('\n').map(|x| x + 1).unwrap_or(0);
                        let prev_end = line_start.saturating_sub(1);
                        blocks.push((first, i, start, prev_end.max(start)));
                        pos = self.eol(s);
                        first = i + 1;
                        start = pos;
                    }
                }
            }
        }
        blocks.push((first, dirs.len(), start, eof));
        out.extend(label_hits);
        for (bi, (a, z, s, e)) in blocks.into_iter().enumerate() {
            if bi > 0 && self.o.scope {
                self.env.retain(|k, _| k.starts_with('$'));
            }
            self.run_block(dirs, a, z, s, e, out)?;
        }
        out.sort();
        Ok(out.clone())
    }

    fn run_block(
        &mut self,
        dirs: &[Dir],
        a: usize,
        z: usize,
        start: usize,
        end: usize,
        out: &mut Vec<(usize, usize, usize)>,
    ) -> Result<(), Stop> {
        let mut pos = start; // end of the last positive match
        let mut nots: Vec<usize> = vec![];
        let mut i = a;
        while i < z {
            let d = &dirs[i];
            if d.kind != Kind::Not {
                self.stale(dirs, &nots, d)?;
            }
            match d.kind {
                Kind::Not => {
                    nots.push(i);
                    i += 1;
                    continue;
                }
                Kind::Dag => {
                    let mut j = i;
                    while j < z && dirs[j].kind == Kind::Dag {
                        j += 1;
                    }
                    for k in i..j {
                        self.stale(dirs, &nots, &dirs[k])?;
                    }
                    let taken = self.dag(dirs, i, j, pos, end)?;
                    let lo = taken.iter().map(|t| t.1).min().unwrap();
                    let hi = taken.iter().map(|t| t.2).max().unwrap();
                    self.nots(dirs, &mut nots, pos, lo)?;
                    out.extend(taken);
                    pos = hi;
                    i = j;
                    continue;
                }
                Kind::Count(n) => {
                    let from = pos;
                    for k in 0..n {
                        match self.find(d, i, pos, end)? {
                            None => {
                                self.window = Some((pos, end));
                                return Err(Stop::Fail(i));
                            }
                            Some((s, e, caps)) => {
                                self.bind(caps);
                                if k == 0 {
                                    self.nots(dirs, &mut nots, from, s)?;
                                }
                                out.push((i, s, e));
                                pos = e;
                            }
                        }
                    }
                }
                Kind::Empty => {
                    if pos < self.input.len() && self.input.as_bytes()[pos] != b'\n' {
                        return Err(Stop::Fail(i));
                    }
                    let n = self.next_line(pos);
                    if n == pos {
                        return Err(Stop::Fail(i));
                    }
                    if self.eol(n) != n || n > end {
                        return Err(Stop::Fail(i));
                    }
                    self.nots(dirs, &mut nots, pos, n)?;
                    out.push((i, n, n));
                    pos = n;
                }
                Kind::Plain | Kind::Next | Kind::Same => {
                    let (wa, wb) = match d.kind {
                        Kind::Plain => (pos, end),
                        Kind::Same => (pos, self.eol(pos).min(end)),
                        _ => {
                            let n = self.next_line(pos);
                            if n >= end {
                                return Err(Stop::Fail(i));
                            }
                            (n, self.eol(n))
                        }
                    };
                    match self.find(d, i, wa, wb)? {
                        None => {
                            self.window = Some((wa, wb));
                            return Err(Stop::Fail(i));
                        }
                        Some((s, e, caps)) => {
                            self.bind(caps);
                            self.nots(dirs, &mut nots, pos, s)?;
                            out.push((i, s, e));
                            pos = e;
                        }
                    }
                }
                Kind::Label => unreachable!(),
            }
            i += 1;
        }
        self.nots(dirs, &mut nots, pos, end)
    }

    fn nots(&mut self, dirs: &[Dir], nots: &mut Vec<usize>, a: usize, b: usize) -> Result<(), Stop> {
        for n in std::mem::take(nots) {
            // the patterns of NOTs are not required to have a meaning
            match self.to_re(&dirs[n].pat, n) {
                Err(_) => return Err(Stop::Unknown),
                Ok(_) => (),
            }
            if a <= b && self.find(&dirs[n], n, a, b)?.is_some() {
                self.window = Some((a, b));
                return Err(Stop::Fail(n));
            }
        }
        // implicit patterns are handled by the caller that inserts them as CHECK-NOTs
        Ok(())
    }

    fn dag(&mut self, dirs: &[Dir], i: usize, j: usize, a: usize, b: usize) -> Result<Vec<(usize, usize, usize)>, Stop> {
        // A pattern which starts with the value of a variable the same group defines: a recorded finding
        for k in i..j {
            if matches!(dirs[k].pat.first(), Some(Piece::Use(_) | Piece::Num(_)))
                && uses(&dirs[k]).any(|u| dirs[i..j].iter().any(|d| names(d).any(|n| n == u)))
            {
                return Err(Stop::Unknown);
            }
        }
        // A group which (re)defines a variable that another directive of it uses in front of the definition,
        // which it defines twice, or which has an earlier value: which value is the latest depends on the order in the input
        for k in i..j {
            for l in k + 1..j {
                if names(&dirs[l]).any(|n| uses(&dirs[k]).any(|u| u == n) || names(&dirs[k]).any(|u| u == n)) || uses(&dirs[l]).any(|u| self.env.contains_key(u) && names(&dirs[k]).any(|n| n == u)) {
                    return Err(Stop::Unknown);
                }
            }
        }
        if let Some(f) = self.follow.clone() {
            let mut v: Vec<(usize, usize, usize)> = vec![];
            for k in i..j {
                let Some((s, e)) = f.get(&k).copied() else { return Err(Stop::Fail(k)) };
                if s < a || e > b {
                    return Err(Stop::Fail(k));
                }
                let r = Re::Cat(self.to_re(&dirs[k].pat, k)?);
                let binding = dirs[k].pat.iter().any(|p| matches!(p, Piece::Def(..)) || matches!(p, Piece::Num(n) if n.def.is_some()));
                if binding {
                    match self.at(&dirs[k], k, s, b)? {
                        Some((x, v)) if x == e => self.bind(v),
                        _ if re::matches_exactly(&r, self.input, s, e, b, self.o.icase) => return Err(Stop::Unknown),
                        _ => return Err(Stop::Fail(k)),
                    }
                } else if !re::matches_exactly(&r, self.input, s, e, b, self.o.icase) {
                    return Err(Stop::Fail(k));
                }
                if v.iter().any(|t| s < t.2 && t.1 < e) {
                    return Err(Stop::Fail(k));
                }
                v.push((k, s, e));
            }
            return Ok(v);
        }
        // Variables: the NOTs in front of the group see what the group binds, so the caller checks them later.
        // Which part of the input goes to which directive is only predicted when the directives do not
        // compete for it, and no pattern can match more than one length from the same position.
        let mut all: Vec<Vec<(usize, usize)>> = vec![];
        let mut v: Vec<(usize, usize, usize)> = vec![];
        let mut defs: Vec<(String, usize, bool)> = vec![];
        let mut failed = None;
        for k in i..j {
            let d = &dirs[k];
            if failed.is_some() && (uses(d).next().is_some() || names(d).next().is_some()) {
                break;
            }
            let r = Re::Cat(self.to_re(&d.pat, k)?);
            let mut ms: Vec<(usize, usize)> = vec![];
            let mut chosen = None;
            let mut p = a;
            while let Some((s, e, caps)) = self.find(d, k, p, b)? {
                if re::longest_end(&r, self.input, s, b, self.o.icase).map_err(|_| Stop::Unknown)? != Some(e) || s == e {
                    self.ambiguous = true;
                }
                if chosen.is_none() && !v.iter().any(|t| (s < t.2 && t.1 < e) || (t.1, t.2) == (s, e)) {
                    chosen = Some((s, e, caps));
                }
                ms.push((s, e));
                p = s + 1;
                while p < b && !self.input.is_char_boundary(p) {
                    p += 1;
                }
                if p > b {
                    break;
                }
            }
            let unique = ms.len() == 1;
            all.push(ms);
            // variables defined and used within the group
            for n in uses(d) {
                if let Some((_, at, unique)) = defs.iter().find(|x| x.0 == n) {
                    if !unique {
                        self.ambiguous = true;
                    }
                    // a use before the definition in the input: a recorded finding
                    if chosen.as_ref().is_some_and(|c| c.0 < *at) {
                        return Err(Stop::Unknown);
                    }
                }
            }
            match chosen {
                Some((s, e, caps)) => {
                    v.push((k, s, e));
                    for n in names(d) {
                        if defs.iter().any(|x| x.0 == n) {
                            return Err(Stop::Unknown);
                        }
                        defs.push((n.to_string(), s, unique));
                    }
                    self.bind(caps);
                }
                None => failed = failed.or(Some(k)),
            }
        }
        for x in 0..all.len() {
            for y in 0..x {
                if dirs[i + x].pat != dirs[i + y].pat
                    && all[x].iter().any(|m| all[y].iter().any(|n| (m.0 < n.1 && n.0 < m.1) || m == n))
                {
                    self.ambiguous = true;
                }
            }
        }
        match failed {
            Some(k) => Err(Stop::Fail(k)),
            None => Ok(v),
        }
    }
}

/// Names of the variables a directive defines
pub fn names(d: &Dir) -> impl Iterator<Item = &str> {
    d.pat.iter().filter_map(|p| match p {
        Piece::Def(n, _) => Some(n.as_str()),
        Piece::Num(n) => n.def.as_deref(),
        _ => None,
    })
}
/// Names of the variables a directive uses
pub fn uses(d: &Dir) -> impl Iterator<Item = &str> {
    d.pat.iter().flat_map(|p| match p {
        Piece::Use(n) => vec![n.as_str()],
        Piece::Num(Num { expr: Some(e), .. }) => {
            let mut v = vec![];
            e.vars(&mut v);
            v
        }
        _ => vec![],
    })
}

// ------------------------------------------------------------------ comparing

pub fn show(check: &str, input: &str, o: &Opts) -> String {
    format!("options: {:?}\n--- check file\n{check}--- input\n{input}{}", o.args(), if input.ends_with('\n') { "" } else { "<no newline at end>" })
}

/// Run both and compare verdict and (on success) every reported match. `lines[i]` = check file line of dirs[i].
pub fn compare(dirs: &[Dir], lines: &[usize], check: &str, input: &str, o: &Opts) -> Result<Option<bool>, String> {
    let mut m = Model::new(input, o);
    m.lines = lines.to_vec();
    let expect = m.run(dirs);
    if matches!(expect, Outcome::Unknown) {
        return Ok(None);
    }
    let real = guard(|| run_real(check, input, o, false)).map_err(|e| format!("filecheck crashed: {e}"))?;
    let has_dag = dirs.iter().any(|d| d.kind == Kind::Dag);
    match (expect, real) {
        (_, Real::Invalid(e)) => Err(format!("a valid check file was rejected: {e}")),
        (_, Real::Fail(_)) if m.ambiguous => Ok(None),
        (Outcome::Fail(_), Real::Fail(_)) => Ok(Some(false)),
        (Outcome::Pass(v), Real::Fail(e)) => Err(format!("every directive can be satisfied (matches {}), but filecheck reported failure: {e}", fmt(&v, input))),
        (Outcome::Fail(i), Real::Pass(h)) if !has_dag => Err(format!(
            "{} cannot be satisfied, but filecheck reported success with matches {:?}",
            dirs.get(i).map(|d| render_dir(d, "CHECK")).unwrap_or("the input".into()),
            h.iter().map(|h| (h.line + 1, h.start, h.end)).collect::<Vec<_>>()
        )),
        (_, Real::Pass(h)) => {
            // validate the reported matches
            let mut got: Vec<(usize, usize, usize)> = vec![];
            for x in &h {
                let Some(i) = lines.iter().position(|l| *l == x.line) else {
                    return Err(format!("reported a match for check file line {} which is not a directive", x.line + 1));
                };
                got.push((i, x.start, x.end));
            }
            got.sort();
            let mut m = Model::new(input, o);
            m.lines = lines.to_vec();
            let follow: BTreeMap<usize, (usize, usize)> =
                got.iter().filter(|t| dirs[t.0].kind == Kind::Dag).map(|t| (t.0, (t.1, t.2))).collect();
            m.follow = Some(follow);
            match m.run(dirs) {
                Outcome::Unknown => Ok(None),
                Outcome::Fail(i) => Err(format!(
                    "filecheck reported success, but with the reported matches {} the directive `{}` is not satisfied",
                    fmt(&got, input),
                    dirs.get(i).map(|d| render_dir(d, "CHECK")).unwrap_or_default()
                )),
                Outcome::Pass(v) if v != got => Err(format!(
                    "reported matches (directive index, start, end) {} differ from the expected {}",
                    fmt(&got, input),
                    fmt(&v, input)
                )),
                Outcome::Pass(_) => Ok(Some(true)),
            }
        }
        (Outcome::Unknown, _) => unreachable!(),
    }
}
fn fmt(v: &[(usize, usize, usize)], input: &str) -> String {
    let parts: Vec<String> = v
        .iter()
        .map(|(i, s, e)| format!("#{i}@{s}..{e}={:?}", input.get(*s..*e).unwrap_or("<bad span>")))
        .collect();
    format!("[{}]", parts.join(", "))
}
