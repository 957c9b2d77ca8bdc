//! A small regular expression dialect with its own backtracking (leftmost-first) matcher.
//! It is the reference for `{{...}}` blocks and for capture patterns.
use crate::engine::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    /// literal text (escaped when rendered)
    Str(String),
    Any,
    /// character class: ranges, negated
    Class(Vec<(char, char)>, bool),
    /// \d \w \s and their negations
    Perl(char),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>, bool),
    Bol,
    Eol,
    WordB,
    /// named capture, not rendered as such: used to model variables
    Cap(String, Box<Re>),
    /// the text captured under this name earlier in the same match
    Back(String),
}

pub fn esc_into(out: &mut String, s: &str) {
    for c in s.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            out.push('\\');
        }
        out.push(c);
    }
}

impl Re {
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.r(&mut s, 0);
        s
    }
    // prec: 0 = alternation allowed, 1 = concatenation, 2 = atom
    fn r(&self, o: &mut String, prec: u8) {
        match self {
            Re::Str(s) => {
                let n = s.chars().count();
                if prec >= 2 && n != 1 {
                    o.push_str("(?:");
                    esc_into(o, s);
                    o.push(')');
                } else {
                    esc_into(o, s)
                }
            }
            Re::Any => o.push('.'),
            Re::Class(rs, neg) => {
                o.push('[');
                if *neg {
                    o.push('^');
                }
                let put = |o: &mut String, c: char| {
                    if c == '\n' {
                        o.push_str("\\n");
                    } else {
                        esc_into(o, &c.to_string());
                    }
                };
                for (i, (a, b)) in rs.iter().enumerate() {
                    if i == 0 && (*a, *b) == (']', ']') {
                        // literal where it stands first
                        o.push(']');
                        continue;
                    }
                    put(o, *a);
                    if a != b {
                        o.push('-');
                        put(o, *b);
                    }
                }
                o.push(']');
            }
            Re::Perl(c) => {
                o.push('\\');
                o.push(*c);
            }
            Re::Cat(v) => {
                if prec >= 2 {
                    o.push_str("(?:");
                }
                for x in v {
                    x.r(o, 1);
                }
                if prec >= 2 {
                    o.push(')');
                }
            }
            Re::Alt(v) => {
                if prec >= 1 {
                    o.push('(');
                }
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    x.r(o, 1);
                }
                if prec >= 1 {
                    o.push(')');
                }
            }
            Re::Rep(x, lo, hi, greedy) => {
                x.r(o, 2);
                match (lo, hi) {
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (0, Some(1)) => o.push('?'),
                    (a, None) => o.push_str(&format!("{{{a},}}")),
                    (a, Some(b)) if a == b => o.push_str(&format!("{{{a}}}")),
                    (a, Some(b)) => o.push_str(&format!("{{{a},{b}}}")),
                }
                if !greedy {
                    o.push('?');
                }
            }
            Re::Bol => o.push('^'),
            Re::Eol => o.push('$'),
            Re::WordB => o.push_str("\\b"),
            Re::Cap(_, x) => x.r(o, 2),
            Re::Back(_) => unreachable!(),
        }
    }
    pub fn has_alt_at_top(&self) -> bool {
        matches!(self, Re::Alt(v) if v.len() > 1)
    }
    pub fn nullable(&self) -> bool {
        match self {
            Re::Str(s) => s.is_empty(),
            Re::Any | Re::Class(..) | Re::Perl(_) => false,
            Re::Cat(v) => v.iter().all(|x| x.nullable()),
            Re::Alt(v) => v.iter().any(|x| x.nullable()),
            Re::Rep(x, lo, ..) => *lo == 0 || x.nullable(),
            Re::Bol | Re::Eol | Re::WordB => true,
            Re::Cap(_, x) => x.nullable(),
            Re::Back(_) => true,
        }
    }
}

pub type Caps = Vec<(String, usize, usize)>;

pub struct M<'a> {
    pub text: &'a str,
    pub lim: usize,
    pub icase: bool,
    pub steps: usize,
    pub overflow: bool,
}

pub const MAX_STEPS: usize = 2_000_000;

impl<'a> M<'a> {
    fn ch(&self, i: usize) -> Option<char> {
        if i >= self.lim { None } else { self.text[i..].chars().next() }
    }
    fn eqc(&self, a: char, b: char) -> bool {
        a == b || (self.icase && a.to_ascii_lowercase() == b.to_ascii_lowercase())
    }
    fn word(c: Option<char>) -> bool {
        c.is_some_and(|c| c.is_alphanumeric() || c == '_')
    }
    fn perl(c: char, x: char) -> bool {
        match c {
            'd' => x.is_ascii_digit(),
            'D' => !x.is_ascii_digit(),
            'w' => x.is_alphanumeric() || x == '_',
            'W' => !(x.is_alphanumeric() || x == '_'),
            's' => x.is_whitespace(),
            'S' => !x.is_whitespace(),
            _ => unreachable!(),
        }
    }
    fn class(&self, rs: &[(char, char)], neg: bool, x: char) -> bool {
        let inn = |x: char| rs.iter().any(|(a, b)| *a <= x && x <= *b);
        let mut hit = inn(x);
        if self.icase && x.is_ascii_alphabetic() {
            hit |= inn(x.to_ascii_lowercase()) || inn(x.to_ascii_uppercase());
        }
        hit != neg
    }
    fn str_at(&self, s: &str, mut i: usize) -> Option<usize> {
        for c in s.chars() {
            let d = self.ch(i)?;
            if !self.eqc(c, d) {
                return None;
            }
            i += d.len_utf8();
        }
        Some(i)
    }
    pub fn m(&mut self, re: &Re, i: usize, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool) -> bool {
        self.steps += 1;
        if self.steps > MAX_STEPS {
            self.overflow = true;
            return false;
        }
        match re {
            Re::Str(s) => match self.str_at(s, i) {
                Some(j) => k(self, j, caps),
                None => false,
            },
            Re::Any => match self.ch(i) {
                Some(c) if c != '\n' => k(self, i + c.len_utf8(), caps),
                _ => false,
            },
            Re::Class(rs, neg) => match self.ch(i) {
                Some(c) if self.class(rs, *neg, c) => k(self, i + c.len_utf8(), caps),
                _ => false,
            },
            Re::Perl(p) => match self.ch(i) {
                Some(c) if Self::perl(*p, c) => k(self, i + c.len_utf8(), caps),
                _ => false,
            },
            Re::Cat(v) => self.cat(v, i, caps, k),
            Re::Alt(v) => {
                for x in v {
                    if self.m(x, i, caps, k) {
                        return true;
                    }
                }
                false
            }
            Re::Rep(x, lo, hi, greedy) => self.rep(x, *lo, *hi, *greedy, i, caps, k),
            Re::Bol => (i == 0 || self.text.as_bytes()[i - 1] == b'\n') && k(self, i, caps),
            Re::Eol => (i == self.text.len() || self.text.as_bytes()[i] == b'\n') && k(self, i, caps),
            Re::WordB => {
                let a = self.text[..i].chars().next_back();
                let b = self.text[i..].chars().next();
                (Self::word(a) != Self::word(b)) && k(self, i, caps)
            }
            Re::Cap(n, x) => {
                let n = n.clone();
                self.m(x, i, caps, &mut |s, j, caps| {
                    caps.push((n.clone(), i, j));
                    if k(s, j, caps) {
                        return true;
                    }
                    caps.pop();
                    false
                })
            }
            Re::Back(n) => {
                let Some((_, a, b)) = caps.iter().rev().find(|c| c.0 == *n) else { return false };
                let t = self.text[*a..*b].to_string();
                match self.str_at(&t, i) {
                    Some(j) => k(self, j, caps),
                    None => false,
                }
            }
        }
    }
    fn cat(&mut self, v: &[Re], i: usize, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool) -> bool {
        match v.split_first() {
            None => k(self, i, caps),
            Some((x, rest)) => self.m(x, i, caps, &mut |s, j, caps| s.cat(rest, j, caps, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(
        &mut self,
        x: &Re,
        lo: usize,
        hi: Option<usize>,
        greedy: bool,
        i: usize,
        caps: &mut Caps,
        k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool,
    ) -> bool {
        if self.overflow {
            return false;
        }
        let can_more = hi != Some(0);
        if lo > 0 {
            return self.m(x, i, caps, &mut |s, j, caps| {
                s.rep(x, lo - 1, hi.map(|h| h - 1), greedy, j, caps, k)
            });
        }
        if greedy {
            if can_more
                && self.m(x, i, caps, &mut |s, j, caps| {
                    // an iteration which consumes nothing ends the repetition
                    j != i && s.rep(x, 0, hi.map(|h| h - 1), greedy, j, caps, k)
                })
            {
                return true;
            }
            k(self, i, caps)
        } else {
            if k(self, i, caps) {
                return true;
            }
            can_more
                && self.m(x, i, caps, &mut |s, j, caps| {
                    j != i && s.rep(x, 0, hi.map(|h| h - 1), greedy, j, caps, k)
                })
        }
    }
}

/// Leftmost-first search in text[a..b] (look-around sees the whole text).
/// Err(()) when the step budget is exhausted.
pub fn search(re: &Re, text: &str, a: usize, b: usize, icase: bool) -> Result<Option<(usize, usize, Caps)>, ()> {
    let mut m = M { text, lim: b, icase, steps: 0, overflow: false };
    let mut i = a;
    while i <= b {
        if text.is_char_boundary(i) {
            let mut res = None;
            let mut caps = vec![];
            if m.m(re, i, &mut caps, &mut |_, j, c| {
                res = Some((j, c.clone()));
                true
            }) {
                let (j, c) = res.unwrap();
                return Ok(Some((i, j, c)));
            }
            if m.overflow {
                return Err(());
            }
        }
        i += 1;
    }
    Ok(None)
}

/// The preferred match starting at `s`.
pub fn anchored(re: &Re, text: &str, s: usize, b: usize, icase: bool) -> Result<Option<(usize, Caps)>, ()> {
    let mut m = M { text, lim: b, icase, steps: 0, overflow: false };
    let mut caps = vec![];
    let mut res = None;
    m.m(re, s, &mut caps, &mut |_, j, c| {
        res = Some((j, c.clone()));
        true
    });
    if m.overflow { Err(()) } else { Ok(res) }
}

/// Can `re` match exactly text[s..e]? (any alternative, not only the preferred one)
pub fn matches_exactly(re: &Re, text: &str, s: usize, e: usize, b: usize, icase: bool) -> bool {
    let mut m = M { text, lim: b, icase, steps: 0, overflow: false };
    let mut caps = vec![];
    m.m(re, s, &mut caps, &mut |_, j, _| j == e)
}

/// The furthest end of a match of `re` starting at `s`.
pub fn longest_end(re: &Re, text: &str, s: usize, b: usize, icase: bool) -> Result<Option<usize>, ()> {
    let mut m = M { text, lim: b, icase, steps: 0, overflow: false };
    let mut caps = vec![];
    let mut best = None;
    m.m(re, s, &mut caps, &mut |_, j, _| {
        best = best.max(Some(j));
        false
    });
    if m.overflow { Err(()) } else { Ok(best) }
}

// ------------------------------------------------------------------ generators

pub struct ReGen<'a> {
    pub words: &'a [&'a str],
    pub anchors: bool,
    pub lazy: bool,
    pub newline_classes: bool,
}

impl ReGen<'_> {
    pub fn gen_re(&self, s: &mut Src, depth: usize) -> Re {
        let k = if depth == 0 {
            s.weighted(&[4, 1, 2, 2])
        } else {
            s.weighted(&[4, 1, 2, 2, 4, 3, 3, 1])
        };
        match k {
            0 => Re::Str(s.pick(self.words).to_string()),
            1 => Re::Any,
            2 => self.class(s),
            3 => Re::Perl(*s.pick(if self.newline_classes { &['d', 'w', 's', 'S', 'D', 'W'][..] } else { &['d', 'w', 'd', 'S'][..] })),
            4 => {
                let n = s.range(1, 3);
                let r = self.gen_re(s, depth - 1);
                let lazy = self.lazy && s.chance(1, 4);
                let (lo, hi) = match s.below(5) {
                    0 => (0, None),
                    1 => (1, None),
                    2 => (0, Some(1)),
                    3 => (n, Some(n)),
                    _ => (n - 1, Some(n)),
                };
                if matches!(r, Re::Rep(..) | Re::Bol | Re::Eol | Re::WordB) || r.nullable() {
                    return r;
                }
                Re::Rep(Box::new(r), lo, hi, !lazy)
            }
            5 => {
                let n = s.range(2, 3);
                Re::Cat((0..n).map(|_| self.gen_re(s, depth - 1)).collect())
            }
            6 => {
                let n = s.range(2, 3);
                Re::Alt((0..n).map(|_| self.gen_re(s, depth - 1)).collect())
            }
            _ => {
                if self.anchors {
                    s.pick(&[Re::WordB, Re::Bol, Re::Eol]).clone()
                } else {
                    Re::Str(s.pick(self.words).to_string())
                }
            }
        }
    }
    pub fn class(&self, s: &mut Src) -> Re {
        s.pick(&[
            Re::Class(vec![('a', 'z')], false),
            Re::Class(vec![('0', '9')], false),
            Re::Class(vec![('a', 'c')], false),
            Re::Class(vec![('a', 'a'), ('x', 'z')], false),
            Re::Class(vec![('a', 'z'), ('0', '9'), ('_', '_')], false),
            Re::Class(vec![(' ', ' '), ('\n', '\n')], true),
            Re::Class(vec![('a', 'b'), ('\n', '\n')], true),
            Re::Class(vec![('A', 'Z')], false),
        ])
        .clone()
    }
}
