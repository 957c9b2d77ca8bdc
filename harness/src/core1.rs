//! Properties of the shared core library: path index, source text, symbols, ranges.
use crate::engine::*;
use litcheck_core::fs::PathPrefixTree;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- K01: path index

const DIRS: &[&str] = &["a", "b", "ab", "a.b", "b c", "aa"];
const FILES: &[&str] = &["t.txt", "a", "u", "t.txt.x"];

/// A directory tree shared by all cases of a worker: every directory name at each of three
/// levels, and some files in each directory (names which are also directory names end in ".f").
fn real_tree(ctx: &mut Ctx) -> PathBuf {
    let root = ctx.scratch.join("tree");
    if !root.exists() {
        fn mk(d: &Path, depth: usize) {
            std::fs::create_dir_all(d).unwrap();
            for f in FILES {
                std::fs::write(d.join(format!("{f}.f")), "").unwrap();
            }
            if depth > 0 {
                for n in &DIRS[..4] {
                    mk(&d.join(n), depth - 1);
                }
            }
        }
        mk(&root, 3);
    }
    root.canonicalize().unwrap()
}

fn spell(s: &mut Src, p: &Path, root: &Path) -> PathBuf {
    // the same path, written differently
    match s.weighted(&[8, 1, 1, 1]) {
        0 => p.to_path_buf(),
        1 => PathBuf::from(format!("{}/", p.display())),
        2 => {
            let rest = p.strip_prefix(root).unwrap();
            let mut q = root.to_path_buf();
            for c in rest.components() {
                q.push(".");
                q.push(c);
            }
            q
        }
        _ => {
            let rest = p.strip_prefix(root).unwrap();
            let mut q = root.to_path_buf();
            for c in rest.components() {
                q.push("a");
                q.push("..");
                q.push(c);
            }
            q
        }
    }
}

fn k01(s: &mut Src, ctx: &mut Ctx) -> Case {
    let real = !s.chance(1, 3);
    let root = if real { real_tree(ctx) } else { PathBuf::from("/vh-no-such-dir") };
    let gen_path = |s: &mut Src| -> (PathBuf, bool) {
        let depth = s.weighted(&[1, 4, 4, 4]);
        let mut p = root.clone();
        for _ in 0..depth {
            p.push(s.pick(&DIRS[..4]));
        }
        if s.chance(1, 3) {
            p.push(format!("{}.f", s.pick(FILES)));
            (p, true)
        } else {
            (p, false)
        }
    };
    let n = s.range(1, 14);
    let mut tree: PathPrefixTree<u32> = PathPrefixTree::new();
    let mut model: BTreeMap<PathBuf, u32> = BTreeMap::new();
    let mut log = vec![];
    let mut shared = false;
    let mut inserted = 0;
    for i in 0..n {
        let (p, is_file) = gen_path(s);
        // nearly always build first, then query
        match s.weighted(&[8, 1, 1, 1]) {
            0 | 1 => {
                // a directory which is not known to exist is only usable once it has descendants
                let q = spell(s, &p, &root);
                let _ = is_file;
                log.push(format!("insert {} {i}", q.display()));
                if model.keys().any(|k| k != &p && (k.starts_with(&p) || p.starts_with(k))) {
                    shared = true;
                }
                if let Err(e) = tree.try_insert(&q, i as u32) {
                    return Case::fail(log.join("\n"), format!("insert failed: {e}"));
                }
                model.insert(p, i as u32);
                inserted += 1;
            }
            2 => {
                log.push(format!("get_mut {}", p.display()));
                let q = spell(s, &p, &root);
                match (tree.get_mut(&q), model.get_mut(&p)) {
                    (Some(a), Some(b)) => {
                        *a += 100;
                        *b += 100;
                    }
                    (None, None) => {}
                    (a, b) => return Case::fail(log.join("\n"), format!("get_mut({}) = {a:?}, expected {b:?}", p.display())),
                }
            }
            _ => {
                if s.chance(1, 6) {
                    log.push("clear".into());
                    tree.clear();
                    model.clear();
                } else {
                    log.push("clone".into());
                    tree = tree.clone();
                }
            }
        }
        // after each step: full comparison on a few queries
        let check = |s: &mut Src, q: &PathBuf| -> Result<(), String> {
            let sp = spell(s, q, &root);
            if tree.contains(&sp) != model.contains_key(q) {
                return Err(format!("contains({}) = {}", sp.display(), tree.contains(&sp)));
            }
            if tree.get(&sp) != model.get(q) {
                return Err(format!("get({}) = {:?}, expected {:?}", sp.display(), tree.get(&sp), model.get(q)));
            }
            let exp = q.ancestors().skip(1).find_map(|a| model.get(a).map(|v| (a.to_path_buf(), *v)));
            let got = tree.nearest_ancestor(&sp).map(|e| (e.path.clone(), *e.data));
            if exp != got {
                return Err(format!("nearest_ancestor({}) = {got:?}, expected {exp:?}", sp.display()));
            }
            Ok(())
        };
        let mut qs: Vec<PathBuf> = (0..3).map(|_| gen_path(s).0).collect();
        if i + 1 == n {
            qs.extend(model.keys().cloned());
        }
        for q in qs {
            if let Err(e) = check(s, &q) {
                return Case::fail(log.join("\n"), e);
            }
        }
    }
    let all: Vec<(PathBuf, u32)> = tree.iter().map(|e| (e.path.clone(), *e.data)).collect();
    let exp: Vec<(PathBuf, u32)> = model.iter().map(|(a, b)| (a.clone(), *b)).collect();
    let mut sorted = all.clone();
    sorted.sort();
    if sorted != exp {
        return Case::fail(log.join("\n"), format!("iter() = {all:?}, expected {exp:?}"));
    }
    if all != exp {
        return Case::fail(log.join("\n"), format!("iter() is not in lexicographic order: {all:?}"));
    }
    for _ in 0..3 {
        let (q, _) = gen_path(s);
        let mut got: Vec<(PathBuf, u32)> = tree.children(&q, None).map(|e| (e.path.clone(), *e.data)).collect();
        let exp: Vec<(PathBuf, u32)> = model.iter().filter(|(k, _)| k.starts_with(&q)).map(|(a, b)| (a.clone(), *b)).collect();
        got.sort();
        if got != exp {
            return Case::fail(log.join("\n"), format!("children({}) = {got:?}, expected {exp:?}", q.display()));
        }
        if let Some(e) = tree.children(&q, None).find(|e| e.path.to_str().unwrap().ends_with('/')) {
            return Case::fail(log.join("\n"), format!("children({}) contains {:?}", q.display(), e.path));
        }
        let d = s.below(4);
        let mut got: Vec<(PathBuf, u32)> = tree.children(&q, Some(d)).map(|e| (e.path.clone(), *e.data)).collect();
        let base = q.components().count();
        let exp: Vec<(PathBuf, u32)> = exp.into_iter().filter(|(k, _)| k.components().count() <= base + d).collect();
        got.sort();
        if got != exp {
            return Case::fail(log.join("\n"), format!("children({}, at most {d} levels below) = {got:?}, expected {exp:?}", q.display()));
        }
    }
    if real {
        let mut got: Vec<(PathBuf, u32)> = tree.files().map(|e| (e.path.clone(), *e.data)).collect();
        let exp: Vec<(PathBuf, u32)> = model.iter().filter(|(k, _)| k.is_file()).map(|(a, b)| (a.clone(), *b)).collect();
        got.sort();
        if got != exp {
            return Case::fail(log.join("\n"), format!("files() = {got:?}, expected {exp:?}"));
        }
    }
    Case::ok(log.join("\n"), shared && inserted >= 2)
}


// ---------------------------------------------------------------- texts

fn gen_text(s: &mut Src, max: usize) -> String {
    const ATOMS: &[&str] = &["a", "b", "xy", "é", "漢", "😀", "\n", "\n", "\r\n", "\t", " ", "\u{301}", "\r", "\u{2028}", "\u{85}"];
    let n = s.range(0, max);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(s.pick(ATOMS));
    }
    t
}

/// (line, column in characters) of a byte position, counting `\n` only
fn model_loc(t: &str, i: usize) -> Option<(usize, usize)> {
    let pre = t.get(..i)?;
    let line = pre.bytes().filter(|b| *b == b'\n').count();
    let start = pre.rfind('\n').map_or(0, |p| p + 1);
    Some((line, t[start..i].chars().count()))
}
fn model_lines(t: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut a = 0;
    for (i, _) in t.match_indices('\n') {
        v.push((a, i + 1));
        a = i + 1;
    }
    v.push((a, t.len()));
    v
}
fn model_offset(t: &str, line: usize, col: usize) -> Option<usize> {
    let (a, b) = *model_lines(t).get(line)?;
    let src = &t[a..b];
    src.char_indices().map(|(i, _)| i).chain(std::iter::once(src.len())).nth(col).map(|o| a + o)
}

use litcheck_core::diagnostics::{
    ByteIndex, ColumnIndex, DefaultSourceManager, FileName, LineIndex, Location, Position, Selection, SourceContent, SourceId, SourceLanguage,
    SourceManager, SourceSpan,
};
use litcheck_core::range::Range;

fn li(n: usize) -> LineIndex {
    LineIndex::from(n as u32)
}
fn ci(n: usize) -> ColumnIndex {
    ColumnIndex::from(n as u32)
}

/// Every index-based query of `c` against the model of `t`
fn check_content(c: &SourceContent, t: &str) -> Result<(), String> {
    if c.as_str() != t {
        return Err(format!("content is {:?}, expected {t:?}", c.as_str()));
    }
    if c.len() != t.len() || c.is_empty() != t.is_empty() || c.as_bytes() != t.as_bytes() {
        return Err(format!("len {} is_empty {} for {t:?}", c.len(), c.is_empty()));
    }
    let lines = model_lines(t);
    if c.line_count() != lines.len() {
        return Err(format!("line_count = {}, expected {} for {t:?}", c.line_count(), lines.len()));
    }
    if c.last_line_index().to_usize() != lines.len() - 1 {
        return Err(format!("last_line_index = {} for {t:?}", c.last_line_index().to_usize()));
    }
    for l in 0..lines.len() + 2 {
        let exp = lines.get(l).copied();
        let got = c.line_range(li(l)).map(|r| (r.start.to_usize(), r.end.to_usize()));
        if got != exp {
            return Err(format!("line_range({l}) = {got:?}, expected {exp:?} for {t:?}"));
        }
        let got = c.line_start(li(l)).map(|r| r.to_usize());
        if got != exp.map(|e| e.0) {
            return Err(format!("line_start({l}) = {got:?} for {t:?}"));
        }
        let width = exp.map_or(0, |(a, b)| t[a..b].chars().count());
        for col in 0..width + 3 {
            let got = c.line_column_to_offset(li(l), ci(col)).map(|b| b.to_usize());
            let exp = model_offset(t, l, col);
            if got != exp {
                return Err(format!("line_column_to_offset({l}, {col}) = {got:?}, expected {exp:?} for {t:?}"));
            }
        }
    }
    for i in 0..=t.len() {
        let exp = model_loc(t, i);
        let got = c.location(ByteIndex::from(i as u32)).map(|l| (l.line.to_index().to_usize(), l.column.to_index().to_usize()));
        if got != exp {
            return Err(format!("location({i}) = {got:?} (zero-based), expected {exp:?} for {t:?}"));
        }
        let exp = t.as_bytes()[..i].iter().filter(|b| **b == b'\n').count();
        let got = c.line_index(ByteIndex::from(i as u32)).to_usize();
        if got != exp {
            return Err(format!("line_index({i}) = {got}, expected {exp} for {t:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- K02: source locations

fn k02(s: &mut Src, _: &mut Ctx) -> Case {
    let n_files = s.range(1, 3);
    let sm = DefaultSourceManager::default();
    let texts: Vec<String> = (0..n_files).map(|_| gen_text(s, 14)).collect();
    let repr = format!("{texts:?}");
    let files: Vec<_> = texts
        .iter()
        .enumerate()
        .map(|(i, t)| sm.load(SourceLanguage::Unknown, FileName::from(format!("f{i}")), t.clone()))
        .collect();
    let nontrivial = texts.iter().any(|t| t.contains('\n') && !t.is_ascii());
    for (k, (f, t)) in files.iter().zip(&texts).enumerate() {
        if let Err(e) = check_content(f.content(), t) {
            return Case::fail(repr, e);
        }
        let uri = FileName::from(format!("f{k}"));
        if sm.find(&uri) != Some(f.id()) || sm.get(f.id()).map(|g| g.as_str() == t).ok() != Some(true) {
            return Case::fail(repr, format!("f{k} is not found by its name or identifier"));
        }
        // loading the same content again is the same file
        let again = sm.load(SourceLanguage::Unknown, uri.clone(), t.clone());
        if again.id() != f.id() {
            return Case::fail(repr, "loading the same content twice gives two files");
        }
        for _ in 0..6 {
            let bounds: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
            let (mut a, mut b) = (*s.pick(&bounds), *s.pick(&bounds));
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            let span = SourceSpan::new(f.id(), Range::new(a as u32, b as u32));
            let loc = match sm.file_line_col(span) {
                Ok(l) => l,
                Err(e) => return Case::fail(repr, format!("file_line_col({a}..{b}): {e}")),
            };
            match sm.file_line_col_to_span(loc.clone()) {
                Some(sp) if sp.source_id() == f.id() && sp.into_range().start as usize == a => {}
                o => return Case::fail(repr, format!("{a} -> {loc} -> {o:?}")),
            }
            let l = sm.location(span).unwrap();
            if l.uri != uri || l.start.to_usize() != a || l.end.to_usize() != b {
                return Case::fail(repr, format!("location({a}..{b}) = {l:?}"));
            }
            if a < t.len() {
                match sm.location_to_span(Location::new(uri.clone(), l.start, l.end)) {
                    Some(sp) if sp == span => {}
                    o => return Case::fail(repr, format!("location_to_span({a}..{b}) = {o:?}")),
                }
            }
            if sm.location_to_span(Location::new(uri.clone(), l.start, ByteIndex::from(t.len() as u32 + 1))).is_some() {
                return Case::fail(repr, "location_to_span accepts an end out of bounds");
            }
            if f.source_slice(a..b) != Some(&t[a..b]) || sm.source_slice(span).map(|r| r.as_str().to_string()).ok().as_deref() != Some(&t[a..b]) {
                return Case::fail(repr, format!("source_slice({a}..{b})"));
            }
            // selections
            let (la, ca) = model_loc(t, a).unwrap();
            let (lb, cb) = model_loc(t, b).unwrap();
            let (p, q) = (Position::new(la as u32, ca as u32), Position::new(lb as u32, cb as u32));
            let sel = if s.chance(1, 2) { Selection { start: p, end: q } } else { Selection { start: q, end: p } };
            for made in [Selection::new(p, q), Selection::new(q, p), Selection::from(q..p)] {
                if (made.start, made.end) != (p, q) {
                    return Case::fail(repr, format!("the selection between {p:?} and {q:?} is {made:?}"));
                }
            }
            if f.content().select(sel) != Some(&t[a..b]) {
                return Case::fail(repr, format!("select({sel:?}) = {:?}, expected {:?}", f.content().select(sel), &t[a..b]));
            }
            // context of a diagnostic
            use litcheck_core::diagnostics::miette::SourceCode;
            let (before, after) = (s.below(3), s.below(3));
            let lines = model_lines(t);
            let ea = if before > 0 { lines[la.saturating_sub(before)].0 } else { a };
            let eb = if after > 0 { lines[(lb + after).min(lines.len() - 1)].1 } else { b };
            match f.read_span(&(a, b - a).into(), before, after) {
                Ok(c) => {
                    let (el, ec) = model_loc(t, ea).unwrap();
                    if c.data() != t[ea..eb].as_bytes() || c.line() != el || c.column() != ec {
                        return Case::fail(
                            repr,
                            format!(
                                "context of {a}..{b} (-{before} +{after}) = {:?} at line {} column {}, expected {:?} at line {el} column {ec}",
                                String::from_utf8_lossy(c.data()),
                                c.line(),
                                c.column(),
                                &t[ea..eb]
                            ),
                        );
                    }
                }
                Err(e) => return Case::fail(repr, format!("read_span({a}..{b}): {e}")),
            }
        }
    }
    if sm.get(SourceId::file(n_files as u32 + 5)).is_ok() {
        return Case::fail(repr, "an unknown identifier is resolved");
    }
    Case::ok(repr, nontrivial)
}

// ---------------------------------------------------------------- K03: interned names

fn k03(s: &mut Src, ctx: &mut Ctx) -> Case {
    use litcheck_core::Symbol;
    ctx.n += 1;
    let tag = ctx.n;
    let n = s.range(1, 24);
    let predefined: Vec<(Symbol, &'static str)> = (0..10).map(|i| (Symbol::new(i), Symbol::new(i).as_str())).collect();
    let names: Vec<String> = (0..n)
        .map(|_| match s.weighted(&[5, 2, 1, 1]) {
            0 => format!("w{}.{tag}.{}", std::process::id(), s.below(40)),
            1 => format!("{}{}", s.pick(&["a", "B", "_", "é", "CHECK", ""]), s.below(30)),
            2 => s.pick(&predefined).1.to_string(),
            _ => gen_text(s, 3),
        })
        .collect();
    let threads = s.range(1, 8);
    let orders: Vec<Vec<(usize, usize)>> = (0..threads).map(|_| (0..n).map(|_| (s.below(n), s.below(7))).collect()).collect();
    let fresh_first = s.chance(1, 2);
    let repr = format!("{threads} threads, {names:?}");
    let barrier = std::sync::Barrier::new(threads);
    let results: Vec<Vec<(usize, Symbol, &'static str)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (names, barrier) = (&names, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    let mut out = vec![];
                    if fresh_first {
                        for (i, n) in names.iter().enumerate() {
                            let sy = Symbol::intern(n);
                            out.push((i, sy, sy.as_str()));
                        }
                    }
                    for &(i, how) in o {
                        let n = &names[i];
                        let sy: Symbol = match how {
                            0 => Symbol::intern(n),
                            1 => Symbol::from(n.clone()),
                            2 => Symbol::from(n.clone().into_boxed_str()),
                            3 => Symbol::from(std::borrow::Cow::<'static, str>::Owned(n.clone())),
                            4 => serde_json::from_str(&serde_json::to_string(n).unwrap()).unwrap(),
                            5 => Symbol::from(&*Box::leak(n.clone().into_boxed_str())),
                            _ => Symbol::from(std::borrow::Cow::Borrowed(&*Box::leak(n.clone().into_boxed_str()))),
                        };
                        out.push((i, sy, sy.as_str()));
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let all: Vec<&(usize, Symbol, &str)> = results.iter().flatten().collect();
    for &&(i, sy, st) in &all {
        if st != names[i] || sy.as_str() != names[i] || sy.to_string() != names[i] {
            return Case::fail(repr, format!("{:?} interned is {:?}/{:?}", names[i], st, sy.as_str()));
        }
        if serde_json::to_string(&sy).unwrap() != serde_json::to_string(&names[i]).unwrap() {
            return Case::fail(repr, "serialization of an interned name");
        }
    }
    for &&(i, a, _) in &all {
        for &&(j, b, _) in all.iter().take(64) {
            if (a == b) != (names[i] == names[j]) || (a.as_u32() == b.as_u32()) != (names[i] == names[j]) {
                return Case::fail(repr, format!("{:?} == {:?} is {}", names[i], names[j], a == b));
            }
            if a.cmp(&b) != names[i].cmp(&names[j]) || a.partial_cmp(&b) != Some(names[i].cmp(&names[j])) {
                return Case::fail(repr, format!("{:?} cmp {:?} is {:?}", names[i], names[j], a.cmp(&b)));
            }
        }
    }
    if s.chance(1, 10) {
        for (sy, st) in &predefined {
            if sy.as_str() != *st || Symbol::intern(st) != *sy {
                return Case::fail(repr, format!("predefined {st:?} is {:?}", sy.as_str()));
            }
        }
    }
    let mut u: Vec<&String> = names.iter().collect();
    u.sort();
    u.dedup();
    Case::ok(repr, threads >= 2 && u.len() >= 2)
}

// ---------------------------------------------------------------- K04: edits

fn k04(s: &mut Src, _: &mut Ctx) -> Case {
    let sm = DefaultSourceManager::default();
    let mut text = gen_text(s, 12);
    let argument = s.chance(1, 4);
    let file = if argument {
        sm.load_argument("arg", text.clone())
    } else {
        sm.load(SourceLanguage::Unknown, FileName::from("f".to_string()), text.clone())
    };
    let other_text = gen_text(s, 6);
    let other = sm.load(SourceLanguage::Unknown, FileName::from("g".to_string()), other_text.clone());
    let id = file.id();
    let mut held = vec![(sm.source(id).unwrap(), text.clone())];
    drop(file);
    let mut version = 0;
    let mut log = vec![format!("load {text:?}")];
    let mut edits = 0;
    for step in 0..s.range(1, 8) {
        let ins = gen_text(s, 5);
        let range = if s.chance(1, 8) {
            None
        } else {
            let lines = model_lines(&text);
            let pos = |s: &mut Src| {
                let far = if s.chance(1, 12) { 2 } else { 0 };
                let l = s.below(lines.len() + far);
                let w = lines.get(l).map_or(0, |(a, b)| text[*a..*b].chars().count());
                let far = if s.chance(1, 12) { 2 } else { 0 };
                (l, s.below(w + 1 + far))
            };
            let (mut p, mut q) = (pos(s), pos(s));
            if p > q {
                std::mem::swap(&mut p, &mut q);
            }
            Some((p, q))
        };
        let sel = range.map(|(p, q)| Selection::new(Position::new(p.0 as u32, p.1 as u32), Position::new(q.0 as u32, q.1 as u32)));
        let new_version = if s.chance(1, 6) { s.below(5) as i32 - 2 } else { version + 1 + s.below(3) as i32 };
        log.push(format!("update {range:?} {ins:?} version {new_version}"));
        let exp: Option<String> = match range {
            None => Some(ins.clone()),
            Some((p, q)) => match (model_offset(&text, p.0, p.1), model_offset(&text, q.0, q.1)) {
                (Some(a), Some(b)) if a <= b => Some(format!("{}{ins}{}", &text[..a], &text[b..])),
                (Some(_), Some(_)) => return Case::discard(), // positions past a line end which do not name the same order
                _ => None,
            },
        };
        let r = sm.update(id, ins.clone(), sel, new_version);
        match (&exp, &r) {
            (Some(_), Err(e)) => return Case::fail(log.join("\n"), format!("valid update rejected: {e}")),
            (None, Ok(())) => return Case::fail(log.join("\n"), "update with a position out of bounds accepted"),
            _ => {}
        }
        if let Some(t) = exp {
            text = t;
            version = new_version;
            edits += range.is_some() as usize;
        }
        let now = sm.get(id).unwrap();
        if let Err(e) = check_content(now.content(), &text) {
            return Case::fail(log.join("\n"), e);
        }
        if now.content().version() != version {
            return Case::fail(log.join("\n"), format!("version {} after step {step}, expected {version}", now.content().version()));
        }
        for (h, t) in &held {
            if h.as_str() != t {
                return Case::fail(log.join("\n"), format!("a reference obtained before an update changed from {t:?} to {:?}", h.as_str()));
            }
        }
        if s.chance(1, 2) {
            held.push((sm.source(id).unwrap(), text.clone()));
        }
        if sm.get(other.id()).unwrap().as_str() != other_text {
            return Case::fail(log.join("\n"), "another file changed");
        }
    }
    Case::ok(log.join("\n"), edits >= 1 && text.contains('\n'))
}

// ---------------------------------------------------------------- K05: line endings and ranges

fn k05(s: &mut Src, _: &mut Ctx) -> Case {
    use litcheck_core::range::{range_from_bounds, range_from_bounds_with_defaults};
    use litcheck_core::text::*;
    let t = gen_text(s, 12);
    let b = t.as_bytes();
    let (mut x, mut y) = (s.below(b.len() + 1), s.below(b.len() + 1));
    if x > y {
        std::mem::swap(&mut x, &mut y);
    }
    let repr = format!("{t:?} {x}..{y}");
    let nontrivial = t.contains('\n') && x < y;
    macro_rules! eq {
        ($a:expr, $b:expr, $what:expr) => {{
            let (a, b) = ($a, $b);
            if a != b {
                return Case::fail(repr, format!("{} = {a:?}, expected {b:?}", $what));
            }
        }};
    }
    let lfs: Vec<usize> = (x..y).filter(|i| b[*i] == b'\n').collect();
    let ending = |i: usize, lo: usize| if i > lo && b[i - 1] == b'\r' { i - 1 } else { i };
    let r = Range::new(x, y);
    eq!(find_next_lf_or_eof(b, r), lfs.first().copied(), "find_next_lf_or_eof");
    eq!(find_prev_lf_or_eof(b, r), lfs.last().copied(), "find_prev_lf_or_eof");
    eq!(find_next_crlf_or_eof(b, r), lfs.first().map(|i| ending(*i, x)), "find_next_crlf_or_eof");
    eq!(find_prev_crlf_or_eof(b, r), lfs.last().map(|i| ending(*i, x)), "find_prev_crlf_or_eof");
    let desc = |n: Newline| (n.offset(), n.next_line_start(), n.is_crlf());
    // an offset inside a CRLF pair is not a position at which lines are searched
    if !(x > 0 && x < b.len() && b[x] == b'\n' && b[x - 1] == b'\r') {
        let e = match (x..b.len()).find(|i| b[*i] == b'\n') {
            Some(i) => (ending(i, 0), i + 1, i > 0 && b[i - 1] == b'\r'),
            None => (b.len(), b.len(), false),
        };
        eq!(desc(Newline::next_from(b, x)), e, "Newline::next_from");
        let e = match (0..x).rev().find(|i| b[*i] == b'\n') {
            Some(i) => (ending(i, 0), i + 1, i > 0 && b[i - 1] == b'\r'),
            None => (0, 0, false),
        };
        eq!(desc(Newline::prev_from(b, x)), e, "Newline::prev_from");
    }
    eq!(desc(Newline::next(b)), desc(Newline::next_from(b, 0)), "Newline::next");
    eq!(desc(Newline::prev(b)), desc(Newline::prev_from(b, b.len())), "Newline::prev");
    for i in 0..=b.len() + 1 {
        eq!(is_char_boundary(b, i), t.is_char_boundary(i), format!("is_char_boundary({i})"));
    }
    eq!(canonicalize_horizontal_whitespace((&t).into(), true).into_owned(), t.clone(), "canonicalize (strict)");
    let sp = format!("{t}{}x", s.pick(&["\u{a0}", "\u{3000}", "\u{2003}", "\t", " ", "\u{200b}", "\u{202f}"]));
    let canon: String = sp.chars().map(|c| if c == '\t' || (c != ' ' && c.is_whitespace() && !"\n\r\u{b}\u{c}\u{85}\u{2028}\u{2029}".contains(c)) { ' ' } else { c }).collect();
    eq!(canonicalize_horizontal_whitespace((&sp).into(), false).into_owned(), canon, "canonicalize");
    // ranges as lists of numbers
    let mut list: std::collections::VecDeque<usize> = (x..y).collect();
    let mut r = Range::new(x, y);
    for _ in 0..6 {
        eq!(r.len(), list.len(), "len");
        eq!(r.is_empty(), list.is_empty(), "is_empty");
        eq!((0..b.len() + 2).filter(|i| r.contains(i)).collect::<Vec<_>>(), list.iter().copied().collect::<Vec<_>>(), "contents");
        eq!(r.into_range().collect::<Vec<_>>(), list.iter().copied().collect::<Vec<_>>(), "into_range");
        match s.below(4) {
            0 => eq!(r.pop_front(), list.pop_front(), "pop_front"),
            1 => eq!(r.pop_back(), list.pop_back(), "pop_back"),
            2 => {
                let n = s.below(4);
                r.shrink_front(n);
                for _ in 0..n {
                    list.pop_front();
                }
            }
            _ => {
                let n = s.below(list.len() + 2);
                if n > list.len() {
                    eq!(crate::engine::guard(|| r.clone().truncate(n)).is_err(), true, format!("truncating {r} to {n} is refused"));
                } else {
                    r.truncate(n);
                    list.truncate(n);
                }
            }
        }
    }
    eq!((0..b.len() + 2).filter(|i| r.contains(i)).collect::<Vec<_>>(), list.iter().copied().collect::<Vec<_>>(), "contents");
    // ranges compare like pairs, and select like the ranges of the language
    {
        let mut rg = || { let (a, b) = (s.below(b.len() + 1), s.below(b.len() + 1)); (a.min(b), a.max(b)) };
        let (p, q) = (rg(), rg());
        let (rp, rq) = (Range::new(p.0, p.1), Range::new(q.0, q.1));
        eq!(rp == rq, p == q, format!("{rp} == {rq}"));
        eq!(rp.cmp(&rq), p.cmp(&q), format!("order of {rp} and {rq}"));
        eq!(rp.partial_cmp(&rq), Some(p.cmp(&q)), format!("order of {rp} and {rq}"));
        eq!(rp.to_string(), format!("{}..{}", p.0, p.1), "range displayed");
        eq!(&b[rp], &b[p.0..p.1], format!("bytes of {rp}"));
        eq!(Range::from(p.0..p.1), rp, "range converted");
        eq!(std::ops::Range::from(rp), p.0..p.1, "range converted");
        let mut copy = b.to_vec();
        copy.as_mut_slice()[rp].fill(0);
        let mut exp = b.to_vec();
        exp[p.0..p.1].fill(0);
        eq!(copy, exp, format!("bytes of {rp} overwritten"));
        use std::ops::RangeBounds;
        let std = p.0..p.1;
        eq!((rp.start_bound(), rp.end_bound()), (std.start_bound(), std.end_bound()), "bounds");
    }
    let (p, q) = (s.below(8), s.below(8));
    let (lo, hi) = { let (a, b) = (s.below(5), s.below(8)); (a.min(b), a.max(b)) };
    let allowed = Range::new(lo, hi);
    let exp = |a: usize, e: usize| if a <= e && a >= lo && e <= hi { Ok(Range::new(a, e)) } else { Err(a..e) };
    eq!(range_from_bounds(p..q, allowed), exp(p, q), format!("range_from_bounds({p}..{q}, {lo}..{hi})"));
    eq!(range_from_bounds(p..=q, allowed), exp(p, q + 1), format!("range_from_bounds({p}..={q}, {lo}..{hi})"));
    eq!(range_from_bounds(p.., allowed), exp(p, hi), format!("range_from_bounds({p}.., {lo}..{hi})"));
    eq!(range_from_bounds(..q, allowed), exp(lo, q), format!("range_from_bounds(..{q}, {lo}..{hi})"));
    eq!(range_from_bounds(.., allowed), exp(lo, hi), "range_from_bounds(..)");
    if p <= q {
        eq!(range_from_bounds_with_defaults(p..q, lo, hi), Range::new(p, q), "range_from_bounds_with_defaults");
    }
    if p <= hi {
        eq!(range_from_bounds_with_defaults(p.., lo, hi), Range::new(p, hi), "range_from_bounds_with_defaults");
    }
    Case::ok(repr, nontrivial)
}

pub const PROPS: &[Prop] = &[
    Prop { id: "K01", run: k01, quick: 60000, thorough: 3000000, hang: 30, rule: "at least two insertions, one path being an ancestor of another", oracle: "ordered map from path to value", known: no_known },
    Prop { id: "K02", run: k02, quick: 800000, thorough: 5000000, hang: 30, rule: "a text with several lines and a character of more than one byte", oracle: "positions recomputed by scanning the text", known: no_known },
    Prop { id: "K03", run: k03, quick: 20000, thorough: 400000, hang: 60, rule: "at least two threads and two distinct names", oracle: "equality and order of the strings", known: no_known },
    Prop { id: "K04", run: k04, quick: 800000, thorough: 5000000, hang: 30, rule: "at least one partial edit of a text with several lines", oracle: "string editing model", known: no_known },
    Prop { id: "K05", run: k05, quick: 1500000, thorough: 10000000, hang: 30, rule: "a non-empty range of a text with line endings", oracle: "byte-by-byte scan; list of numbers", known: no_known },
];
