//! Properties of the in-process parts of lit: feature expressions, test lists.
use crate::engine::*;
use litcheck_lit::config::{BooleanExpr, FeatureSet};
use std::collections::BTreeSet;

// ---------------------------------------------------------------- L01: feature expressions

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    And,
    Or,
    Not,
    L,
    R,
    Id(String),
    Pat(String),
}

#[derive(Clone, Debug)]
enum E {
    Lit(bool),
    Var(String),
    /// (text, is pattern) pieces
    Match(Vec<(String, bool)>),
    Not(Box<E>),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
}

const IDS: &[&str] = &["a", "b", "ab", "x-1", "a.b", "linux", "+x", "_=y", "aa", "tru", "falsey"];
const PATS: &[&str] = &["a", "a|b", "[ab]+", ".*", "x-.", "^a", "b$", "linu.", "(a)(b)?", "a.", "\\w+", "y|=", "a b"];

fn gen_match(s: &mut Src, out: &mut Vec<Tok>) {
    match s.weighted(&[6, 1, 4]) {
        0 => out.push(Tok::Id(s.pick(IDS).to_string())),
        1 => out.push(Tok::Id(s.pick(&["true", "false"]).to_string())),
        _ => {
            // pieces, with at least one pattern and no two adjacent identifiers
            let n = s.range(1, 3);
            let first_id = s.chance(1, 2);
            let mut any = false;
            for i in 0..n {
                if (i % 2 == 0) == first_id && !(i + 1 == n && !any) {
                    out.push(Tok::Id(s.pick(IDS).to_string()));
                } else {
                    any = true;
                    out.push(Tok::Pat(s.pick(PATS).to_string()));
                }
            }
        }
    }
}
fn gen_toks(s: &mut Src, depth: usize, out: &mut Vec<Tok>) {
    if depth == 0 {
        return gen_match(s, out);
    }
    match s.weighted(&[3, 3, 3, 3, 2]) {
        0 => gen_match(s, out),
        1 => {
            out.push(Tok::Not);
            gen_toks_atom(s, depth - 1, out);
        }
        k @ (2 | 3) => {
            // no parentheses: precedence decides
            let n = s.range(2, 3);
            for i in 0..n {
                if i > 0 {
                    out.push(if k == 2 || s.chance(1, 3) { Tok::And } else { Tok::Or });
                }
                if s.chance(1, 2) {
                    gen_toks(s, depth - 1, out)
                } else {
                    gen_toks_atom(s, depth - 1, out)
                }
            }
        }
        _ => gen_toks_atom(s, depth - 1, out),
    }
}
fn gen_toks_atom(s: &mut Src, depth: usize, out: &mut Vec<Tok>) {
    if s.chance(1, 2) {
        out.push(Tok::L);
        gen_toks(s, depth, out);
        out.push(Tok::R);
    } else {
        if s.chance(1, 5) {
            out.push(Tok::Not);
        }
        gen_match(s, out)
    }
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
}
impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn or(&mut self) -> Option<E> {
        let mut l = self.and()?;
        while self.peek() == Some(&Tok::Or) {
            self.i += 1;
            l = E::Or(Box::new(l), Box::new(self.and()?));
        }
        Some(l)
    }
    fn and(&mut self) -> Option<E> {
        let mut l = self.not()?;
        while self.peek() == Some(&Tok::And) {
            self.i += 1;
            l = E::And(Box::new(l), Box::new(self.not()?));
        }
        Some(l)
    }
    fn not(&mut self) -> Option<E> {
        match self.peek()? {
            Tok::Not => {
                self.i += 1;
                Some(E::Not(Box::new(self.not()?)))
            }
            Tok::L => {
                self.i += 1;
                let e = self.or()?;
                if self.peek()? != &Tok::R {
                    return None;
                }
                self.i += 1;
                Some(e)
            }
            Tok::Id(_) | Tok::Pat(_) => {
                let mut ps = vec![];
                while let Some(t) = self.peek() {
                    match t {
                        Tok::Id(x) => ps.push((x.clone(), false)),
                        Tok::Pat(x) => ps.push((x.clone(), true)),
                        _ => break,
                    }
                    self.i += 1;
                }
                if ps.len() == 1 && !ps[0].1 {
                    return Some(match ps[0].0.as_str() {
                        "true" => E::Lit(true),
                        "false" => E::Lit(false),
                        x => E::Var(x.into()),
                    });
                }
                if ps.iter().all(|p| !p.1) {
                    return None;
                }
                Some(E::Match(ps))
            }
            _ => None,
        }
    }
}

/// Some(value), or None when the documentation leaves it open whether a pattern has to match
/// the whole name
fn eval(e: &E, env: &BTreeSet<String>) -> Option<bool> {
    match e {
        E::Lit(b) => Some(*b),
        E::Var(x) => Some(env.contains(x)),
        E::Match(ps) => {
            let re: String = ps.iter().map(|(t, p)| if *p { format!("(?:{t})") } else { regex::escape(t) }).collect();
            let full = regex::Regex::new(&format!("^(?:{re})$")).unwrap();
            let part = regex::Regex::new(&re).unwrap();
            if env.iter().any(|v| full.is_match(v)) {
                Some(true)
            } else if !env.iter().any(|v| part.is_match(v)) {
                Some(false)
            } else {
                None
            }
        }
        E::Not(a) => eval(a, env).map(|v| !v),
        E::And(a, b) => match (eval(a, env), eval(b, env)) {
            (Some(false), _) | (_, Some(false)) => Some(false),
            (Some(true), Some(true)) => Some(true),
            _ => None,
        },
        E::Or(a, b) => match (eval(a, env), eval(b, env)) {
            (Some(true), _) | (_, Some(true)) => Some(true),
            (Some(false), Some(false)) => Some(false),
            _ => None,
        },
    }
}

fn render(s: &mut Src, t: &[Tok]) -> String {
    let mut o = String::new();
    let ws = |s: &mut Src| s.pick(&["", "", " ", "  ", "\t"]).to_string();
    for (i, k) in t.iter().enumerate() {
        let piece = |k: &Tok| matches!(k, Tok::Id(_) | Tok::Pat(_));
        if i > 0 {
            match (&t[i - 1], k) {
                (Tok::Id(_), Tok::Id(_)) => o.push(' '),
                (a, b) if piece(a) && piece(b) => {}
                _ => o.push_str(&ws(s)),
            }
        } else {
            o.push_str(&ws(s));
        }
        match k {
            Tok::And => o.push_str("&&"),
            Tok::Or => o.push_str("||"),
            Tok::Not => o.push('!'),
            Tok::L => o.push('('),
            Tok::R => o.push(')'),
            Tok::Id(x) => o.push_str(x),
            Tok::Pat(x) => {
                o.push_str("{{");
                o.push_str(x);
                o.push_str("}}");
            }
        }
    }
    o.push_str(&ws(s));
    o
}

fn l01(s: &mut Src, _: &mut Ctx) -> Case {
    let mut t = vec![];
    let d = s.range(0, 4);
    gen_toks(s, d, &mut t);
    let mut bad_char = None;
    if s.chance(1, 5) {
        for _ in 0..s.range(1, 2) {
            let i = s.below(t.len() + 1);
            match s.below(3) {
                0 if i < t.len() => {
                    t.remove(i);
                }
                1 => {
                    let k = match s.below(6) {
                        0 => Tok::And,
                        1 => Tok::Or,
                        2 => Tok::Not,
                        3 => Tok::L,
                        4 => Tok::R,
                        _ => Tok::Id("a".into()),
                    };
                    t.insert(i, k)
                }
                _ if t.len() >= 2 => {
                    let j = s.below(t.len());
                    let i = i.min(t.len() - 1);
                    t.swap(i, j);
                }
                _ => {}
            }
        }
        if s.chance(1, 4) {
            bad_char = Some(*s.pick(&["&", "|", "&|", "^", ",", "$", "é", "\"", "/", "{{a", "{{a}", "{{}}"]));
        }
    }
    // an identifier directly followed by another one within a pattern: not covered by the documentation
    let run_mixed = t.windows(2).enumerate().any(|(i, w)| {
        matches!(w, [Tok::Id(_), Tok::Id(_)]) && {
            let piece = |k: &Tok| matches!(k, Tok::Id(_) | Tok::Pat(_));
            let a = (0..=i).rev().take_while(|j| piece(&t[*j])).last().unwrap();
            let b = (i..t.len()).take_while(|j| piece(&t[*j])).last().unwrap();
            t[a..=b].iter().any(|k| matches!(k, Tok::Pat(_)))
        }
    });
    if run_mixed {
        return Case::discard();
    }
    let mut p = P { t: &t, i: 0 };
    let mut exp = p.or().filter(|_| p.i == t.len());
    let mut text = render(s, &t);
    if let Some(b) = bad_char {
        // at the end of the expression, separated: never part of a valid expression
        text = if s.chance(1, 2) { format!("{text} {b}") } else { format!("{b} {text}") };
        exp = None;
    }
    let env: BTreeSet<String> = {
        let n = s.range(0, 4);
        (0..n).map(|_| s.pick(IDS).to_string()).collect()
    };
    let repr = format!("`{text}` with {env:?}");
    let got = text.parse::<BooleanExpr>();
    let (e, got) = match (exp, got) {
        (None, Err(_)) => return Case::ok(repr, t.len() >= 2),
        (None, Ok(e)) => return Case::fail(repr, format!("malformed expression accepted as `{e}`")),
        (Some(_), Err(e)) => return Case::fail(repr, format!("valid expression rejected: {e}")),
        (Some(e), Ok(g)) => (e, g),
    };
    let v = eval(&e, &env);
    let names: Vec<String> = env.iter().cloned().collect();
    let features = FeatureSet::new(names.iter().cloned());
    let values = [got.evaluate(&env), got.evaluate(&names), got.evaluate(&names.as_slice()), got.evaluate(&features)];
    if values.iter().any(|x| *x != values[0]) {
        return Case::fail(repr, format!("evaluates differently on different containers of the same names: {values:?}"));
    }
    if let Some(v) = v {
        if values[0] != v {
            return Case::fail(repr, format!("evaluates to {}, expected {v}", values[0]));
        }
        if features.missing_features(&[got.clone()]).is_none() != v {
            return Case::fail(repr, format!("missing_features: {:?}", features.missing_features(&[got])));
        }
        if features.unsupported_features(&[got.clone()]).is_none() == v {
            return Case::fail(repr, format!("unsupported_features: {:?}", features.unsupported_features(&[got])));
        }
        let t = BooleanExpr::Lit(true);
        let f = BooleanExpr::Lit(false);
        if features.missing_features(&[t.clone(), got.clone(), t]).is_none() != v || features.unsupported_features(&[f.clone(), got.clone(), f]).is_none() == v {
            return Case::fail(repr, "wrong result when listed among other conditions");
        }
    }
    // printing and reading back
    let shown = got.to_string();
    match shown.parse::<BooleanExpr>() {
        Err(e) => return Case::fail(repr, format!("printed as `{shown}`, which is rejected: {e}")),
        Ok(again) => {
            if again.evaluate(&env) != values[0] {
                return Case::fail(repr, format!("printed as `{shown}`, which evaluates differently"));
            }
        }
    }
    let ops = t.iter().filter(|k| matches!(k, Tok::And | Tok::Or | Tok::Not)).count();
    Case::ok(repr, v.is_some() && ops >= 1)
}

// ---------------------------------------------------------------- K06: test lists
//
// The histories leave out what is recorded as a finding (see known_findings.txt, and the witnesses
// in k06_known): moving or splitting at a cursor from back_mut, moving on after splicing a list
// whose length is not one, iterating backwards by reference, and splitting for parallel iteration.

fn k06(s: &mut Src, ctx: &mut Ctx) -> Case {
    use litcheck_lit::test::{Test, TestConfig, TestList};
    use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
    use std::sync::{Arc, OnceLock};
    static SUITE: OnceLock<(Arc<litcheck_lit::TestSuite>, Arc<TestConfig>)> = OnceLock::new();
    let (suite, config) = SUITE.get_or_init(|| {
        let d = ctx.fresh_dir("suite");
        std::fs::write(d.join("lit.suite.toml"), "name = \"s\"\n").unwrap();
        let suite = litcheck_lit::TestSuite::parse(d.join("lit.suite.toml"), &litcheck_lit::Config::default()).unwrap_or_else(|e| panic!("{e}"));
        let c = suite.config.clone();
        (suite, c)
    });
    let mut next = 0;
    let mut fresh = |n: usize| -> (Vec<Arc<Test>>, Vec<String>) {
        let v: Vec<Arc<Test>> = (0..n)
            .map(|_| {
                next += 1;
                Arc::new(Test::new(format!("t{next}").into(), suite.clone(), config.clone()))
            })
            .collect();
        let names = v.iter().map(|t| t.name().to_string()).collect();
        (v, names)
    };
    let mut list = TestList::default();
    let mut model: Vec<String> = vec![];
    let mut log = vec![];
    let mut splits = 0;
    macro_rules! fail {
        ($($x:tt)*) => { return Case::fail(log.join("; "), format!($($x)*)) };
    }
    for _ in 0..s.range(1, 10) {
        match s.weighted(&[3, 1, 1, 2, 4, 1]) {
            0 => {
                let k = s.range(1, 4);
                log.push(format!("push_back x{k}"));
                let (v, n) = fresh(k);
                for t in v {
                    list.push_back(t);
                }
                model.extend(n);
            }
            1 => {
                log.push("pop_front".into());
                let got = list.pop_front().map(|t| t.name().to_string());
                let exp = if model.is_empty() { None } else { Some(model.remove(0)) };
                if got != exp {
                    fail!("pop_front = {got:?}, expected {exp:?}");
                }
            }
            2 => {
                log.push("pop_back".into());
                let (got, exp) = (list.pop_back().map(|t| t.name().to_string()), model.pop());
                if got != exp {
                    fail!("pop_back = {got:?}, expected {exp:?}");
                }
            }
            3 => {
                let k = s.below(4);
                log.push(format!("append x{k}"));
                let (v, n) = fresh(k);
                let mut l = TestList::default();
                for t in v {
                    l.push_back(t);
                }
                list.append(l);
                model.extend(n);
            }
            4 => {
                // a cursor: position in 0..=len, len being the null element
                let back = s.chance(1, 3);
                let mut pos = if model.is_empty() { 0 } else if back { model.len() - 1 } else { 0 };
                let mut c = if back { list.back_mut() } else { list.front_mut() };
                log.push(if back { "back_mut".into() } else { "front_mut".into() });
                let mut other: Option<(TestList, Vec<String>)> = None;
                // the position is no longer tracked correctly: end the history of this cursor
                let mut lost = back && model.len() > 1;
                for i in 0..s.range(1, 6) {
                    if lost && i > 0 {
                        break;
                    }
                    if c.is_null() != (pos == model.len()) || c.get().map(|t| t.name().to_string()) != model.get(pos).cloned() {
                        fail!("the cursor is at {:?}, expected {:?}", c.get().map(|t| t.name().to_string()), model.get(pos));
                    }
                    let op = s.weighted(&[4, 2, 1, 1, 1, 2, 1, 1]);
                    match if lost && op == 5 { 1 } else { op } {
                        0 => {
                            log.push("move_next".into());
                            c.move_next();
                            pos = if pos == model.len() { 0 } else { pos + 1 };
                        }
                        1 => {
                            log.push("move_prev".into());
                            c.move_prev();
                            pos = if pos == 0 { model.len() } else { pos - 1 };
                        }
                        2 => {
                            log.push("remove".into());
                            let got = c.remove().map(|t| t.name().to_string());
                            let exp = if pos < model.len() { Some(model.remove(pos)) } else { None };
                            if got != exp {
                                fail!("remove = {got:?}, expected {exp:?}");
                            }
                        }
                        3 => {
                            log.push("insert_after".into());
                            let (mut v, mut n) = fresh(1);
                            c.insert_after(v.pop().unwrap());
                            if pos == model.len() {
                                model.insert(0, n.pop().unwrap());
                                pos += 1;
                            } else {
                                model.insert(pos + 1, n.pop().unwrap());
                            }
                        }
                        4 => {
                            log.push("insert_before".into());
                            let (mut v, mut n) = fresh(1);
                            c.insert_before(v.pop().unwrap());
                            model.insert(pos, n.pop().unwrap());
                            pos += 1;
                        }
                        5 => {
                            log.push("split_after".into());
                            splits += 1;
                            let l = c.split_after();
                            let m = if pos == model.len() {
                                pos = 0;
                                std::mem::take(&mut model)
                            } else {
                                model.split_off(pos + 1)
                            };
                            let names: Vec<String> = l.iter().map(|t| t.name().to_string()).collect();
                            if names != m || l.len() != m.len() {
                                fail!("split_after returned {names:?} (len {}), expected {m:?}", l.len());
                            }
                            other = Some((l, m));
                        }
                        k => {
                            let (l, m) = match other.take() {
                                Some(x) => x,
                                None => {
                                    let n = s.below(3);
                                    let (v, n) = fresh(n);
                                    let mut l = TestList::default();
                                    v.into_iter().for_each(|t| l.push_back(t));
                                    (l, n)
                                }
                            };
                            let n = m.len();
                            lost |= n != 1;
                            if k == 6 {
                                log.push(format!("splice_after x{n}"));
                                c.splice_after(l);
                                if pos == model.len() {
                                    model.splice(0..0, m);
                                    pos += n;
                                } else {
                                    model.splice(pos + 1..pos + 1, m);
                                }
                            } else {
                                log.push(format!("splice_before x{n}"));
                                c.splice_before(l);
                                model.splice(pos..pos, m);
                                pos += n;
                            }
                        }
                    }
                }
            }
            _ => {
                log.push("clear".into());
                list.clear();
                model.clear();
            }
        }
        let names: Vec<String> = list.iter().map(|t| t.name().to_string()).collect();
        if names != model || list.len() != model.len() || list.is_empty() != model.is_empty() || list.iter().len() != model.len() {
            fail!("the list is {names:?} (len {}), expected {model:?}", list.len());
        }
        let rev: Vec<String> = list.iter().rev().map(|t| t.name().to_string()).collect();
        if model.len() < 2 && rev != model {
            fail!("reverse iteration is {rev:?}, expected the reverse of {model:?}");
        }
        let f = list.front().get().map(|t| t.name().to_string());
        let b = list.back().get().map(|t| t.name().to_string());
        if f.as_ref() != model.first() || b.as_ref() != model.last() {
            fail!("front {f:?} back {b:?}, expected those of {model:?}");
        }
    }
    let how = if list.len() < 3 { s.below(4) } else { s.below(2) };
    log.push(format!("consume {how}"));
    let got: Vec<String> = match how {
        0 => Iterator::map(list.into_iter(), |t| t.name().to_string()).collect(),
        1 => {
            let mut v: Vec<String> = Iterator::rev(list.into_iter()).map(|t| t.name().to_string()).collect();
            v.reverse();
            v
        }
        2 => ParallelIterator::map(list.into_par_iter(), |t| t.name().to_string()).filter(|_| true).collect(),
        _ => {
            let k = s.range(1, 3);
            list.into_par_iter().with_max_len(k).map(|t| t.name().to_string()).filter(|_| true).collect()
        }
    };
    if got != model {
        fail!("consuming the list gives {got:?}, expected {model:?}");
    }
    Case::ok(log.join("; "), model.len() >= 2 && (splits > 0 || how >= 2))
}

fn k06_known(ctx: &mut Ctx) -> Vec<Known> {
    use litcheck_lit::test::{Test, TestList};
    use rayon::iter::{IntoParallelIterator, ParallelIterator};
    use std::sync::Arc;
    let d = ctx.fresh_dir("suite");
    std::fs::write(d.join("lit.suite.toml"), "name = \"s\"\n").unwrap();
    let suite = litcheck_lit::TestSuite::parse(d.join("lit.suite.toml"), &litcheck_lit::Config::default()).unwrap_or_else(|e| panic!("{e}"));
    let make = |names: &[&str]| {
        let mut l = TestList::default();
        for n in names {
            l.push_back(Arc::new(Test::new(n.into(), suite.clone(), suite.config.clone())));
        }
        l
    };
    let names = |l: &TestList| -> Vec<String> { l.iter().map(|t| t.path.display().to_string()).collect() };
    let ok = |f: &mut dyn FnMut() -> bool| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false);
    let reverse = ok(&mut || make(&["a", "b"]).iter().rev().map(|t| t.path.display().to_string()).collect::<Vec<_>>() == ["b", "a"]);
    let back = ok(&mut || {
        let mut l = make(&["a", "b", "c"]);
        let rest = l.back_mut().split_after();
        rest.len() == 0 && l.len() == 3
    });
    let splice = ok(&mut || {
        let mut l = make(&["a", "b"]);
        let mut c = l.front_mut();
        c.splice_before(make(&["x", "y"]));
        let rest = c.split_after();
        names(&rest) == ["b"] && rest.len() == 1
    });
    let parallel = ok(&mut || {
        let l = make(&["a", "b", "c", "d"]);
        let v: Vec<String> = ParallelIterator::map(l.into_par_iter(), |t| t.path.display().to_string()).collect();
        v == ["a", "b", "c", "d"]
    });
    let k = |id: &str, what: &str, ok: bool| Known { id: id.to_string(), what: what.to_string(), still_fails: !ok };
    vec![
        k("reverse-iteration", "iterating a test list backwards by reference yields the first test only", reverse),
        k("back-cursor", "splitting a test list of several tests at its last test, with a cursor from the back, leaves wrong lengths", back),
        k("splice-position", "splitting at a cursor after splicing several tests before it leaves wrong lengths", splice),
        k("parallel-split", "parallel iteration over a test list splits off one test too many, and panics", parallel),
    ]
}

pub const PROPS: &[Prop] = &[
    Prop { id: "L01", run: l01, quick: 250000, thorough: 10000000, hang: 30, rule: "an expression with at least one operator whose value is determined", oracle: "independent recursive-descent parser and evaluator", known: no_known },
    Prop { id: "K06", run: k06, quick: 4000000, thorough: 60000000, hang: 30, rule: "at least two tests at the end and a split or parallel iteration", oracle: "plain vector", known: k06_known },
];
