//! F14: what the report of a failure says is true.
use crate::engine::*;
use crate::fc::*;
use crate::fcprops::*;
use crate::re;
use litcheck_core as litcheck;
use litcheck::diagnostics::{DefaultSourceManager, Diagnostic, FileName, SourceLanguage, SourceManager};
use litcheck_filecheck::{Config, Dump, Test, TestFailed};
use std::sync::Arc;

/// A marked place of one of the files in a report
#[derive(Clone, Debug)]
struct Mark {
    /// heading of the (sub)report
    head: String,
    check_file: bool,
    start: usize,
    end: usize,
    text: String,
    /// number of the top level error; usize::MAX for the dump of the input
    err: usize,
    /// number of the (sub)report
    node: usize,
}

fn walk(d: &dyn Diagnostic, src: Option<bool>, err: usize, check: &str, input: &str, node: &mut usize, out: &mut Vec<Mark>) -> Result<(), String> {
    *node += 1;
    let me = *node;
    let head = d.to_string();
    let mut src = src;
    if let Some(code) = d.source_code() {
        // which file is it?
        let name = [(check, true), (input, false)].into_iter().find_map(|(text, is_check)| {
            let span = litcheck::diagnostics::LabeledSpan::new(None, 0, 0);
            let c = code.read_span(span.inner(), 0, 0).ok()?;
            let n = c.name()?.to_string();
            let _ = text;
            if n == "check" && is_check {
                Some(true)
            } else if n == "input" && !is_check {
                Some(false)
            } else {
                None
            }
        });
        src = name.or(src);
    }
    if let Some(labels) = d.labels() {
        for l in labels {
            let Some(is_check) = src else { return Err(format!("the report {head:?} marks a place of no file")) };
            let text = if is_check { check } else { input };
            let (a, b) = (l.offset(), l.offset() + l.len());
            if text.get(a..b).is_none() {
                return Err(format!("the report {head:?} marks {a}..{b} of a file of {} bytes", text.len()));
            }
            out.push(Mark { head: head.clone(), check_file: is_check, start: a, end: b, text: l.label().unwrap_or("").to_string(), err, node: me });
        }
    }
    if let Some(rel) = d.related() {
        for r in rel {
            walk(r, src, err, check, input, node, out)?;
        }
    }
    Ok(())
}

fn dir_at(m: &Mark, check: &str) -> usize {
    line_of(check, m.start)
}

fn judge(s: &mut Src, dirs: &[Dir], input: &str, check: &str, o: &Opts, dump: Dump) -> Result<Option<&'static str>, String> {
    let mut m = Model::new(input, o);
    m.lines = lines_of(dirs);
    let out = m.run(dirs);
    let Outcome::Fail(bad) = out else { return Ok(None) };
    if m.ambiguous {
        return Ok(None);
    }
    let never = matches!(dump, Dump::Never);
    let mut opts = o.options();
    opts.dump_input = dump;
    let cfg = Config { source_manager: Arc::from(DefaultSourceManager::default()), options: opts };
    let sm = cfg.source_manager.clone();
    let cf = sm.load(SourceLanguage::Unknown, FileName::from("check".to_string()), check.to_string());
    let inp = sm.load(SourceLanguage::Unknown, FileName::from("input".to_string()), input.to_string());
    let r = Test::new(cf, &cfg).verify(inp);
    let Err(report) = r else { return Ok(None) }; // F01-F04
    let Some(failed) = report.downcast_ref::<TestFailed>() else { return Ok(None) };
    let mut marks = vec![];
    let mut node = 0;
    for (k, e) in failed.errors().iter().enumerate() {
        walk(e, None, k, check, input, &mut node, &mut marks)?;
    }
    let n_err = failed.errors().len();
    if n_err == 0 {
        return Err("failed, but the report has no errors".into());
    }
    let mut dumped = vec![];
    // the report as a whole has everything, and the dump
    {
        let rel: Vec<&dyn Diagnostic> = failed.related().map(|r| r.collect()).unwrap_or_default();
        if rel.len() < n_err {
            return Err(format!("the report shows {} of {n_err} errors", rel.len()));
        }
        for d in &rel[n_err..] {
            walk(*d, None, usize::MAX, check, input, &mut node, &mut dumped)?;
        }
    }
    let marked = |i: usize| marks.iter().any(|k| k.check_file && dir_at(k, check) == i);
    let shown = || marks.iter().map(|m| format!("{}: {} {}..{} {:?}", m.head, if m.check_file { "check file" } else { "input" }, m.start, m.end, m.text)).collect::<Vec<_>>().join("\n");
    // the failing directive is in the report
    // One of the exclusions between two positive directives is reported; and the positive directives
    // around an exclusion are matched first.
    let fails_with = |keep: Vec<usize>, k: usize| {
        let ds: Vec<Dir> = keep.iter().map(|i| dirs[*i].clone()).collect();
        let mut m = Model::new(input, o);
        m.lines = keep.clone();
        matches!(m.run(&ds), Outcome::Fail(x) if keep.get(x) == Some(&k))
    };
    let is_not = |i: usize| dirs[i].kind == Kind::Not;
    let n = dirs.len();
    let mut culprits: Vec<usize> = vec![bad];
    if bad < n && is_not(bad) {
        for k in 0..n {
            let same_gap = is_not(k) && (k.min(bad)..=k.max(bad)).all(is_not);
            let keep: Vec<usize> = (0..n).filter(|i| !is_not(*i) || (same_gap && *i == k)).collect();
            if (same_gap || !is_not(k)) && fails_with(keep, k) {
                culprits.push(k);
            }
        }
    }
    if bad < n && !culprits.iter().any(|c| marked(*c)) {
        return Err(format!("`{}` (line {}) is not satisfied, but the report does not mention it:\n{}", render_dir(&dirs[bad], "CHECK"), bad + 1, shown()));
    }
    // the first error is about it, unless the order of evaluation is not the order of the directives
    let has_label = dirs.iter().any(|d| d.kind == Kind::Label);
    let first_check: Vec<usize> = marks.iter().filter(|k| k.err == 0 && k.check_file).map(|k| dir_at(k, check)).collect();
    let _ = (has_label, first_check);
    let mut node_marks: std::collections::BTreeMap<usize, Vec<&Mark>> = Default::default();
    for k in &marks {
        node_marks.entry(k.node).or_default().push(k);
    }
    for k in &marks {
        let at = dir_at(k, check);
        if k.check_file && at >= dirs.len() {
            return Err(format!("the report marks line {} of the check file, which is no directive:\n{}", at + 1, shown()));
        }
        if never && !k.check_file && k.head.contains("searched") {
            return Err(format!("--dump-input=never, but the report shows the searched input:\n{}", shown()));
        }
        if !k.check_file && k.text == "no match anywhere in this region" {
            // the pattern of the error in front of it
            let Some(p) = marks.iter().filter(|x| x.check_file && x.err == k.err && x.node < k.node && x.head.contains("no matches were found for expected pattern")).next_back() else {
                return Err(format!("searched input without a pattern:\n{}", shown()));
            };
            let i = dir_at(p, check);
            let d = &dirs[i];
            if d.kind != Kind::Empty {
                let rs = m.to_re(&d.pat, i).map_err(|_| "internal: pattern")?;
                let r = re::Re::Cat(rs);
                let mut p = k.start;
                while let Ok(Some(x)) = re::search(&r, input, p, k.end, o.icase) {
                    // a part of the input which another directive of the group has got already
                    if d.kind == Kind::Dag && (never || dumped.iter().chain(&marks).any(|t| !t.check_file && (t.text.starts_with("matched by") || t.head.contains("discarded")) && t.start < x.1.max(x.0 + 1) && x.0 < t.end)) {
                        p = x.0 + 1;
                        while p < k.end && !input.is_char_boundary(p) {
                            p += 1;
                        }
                        if p > k.end {
                            break;
                        }
                        continue;
                    }
                    return Err(format!("`{}` is reported to have no match in {}..{} = {:?} of the input, but matches at {}..{}", render_dir(d, "CHECK"), k.start, k.end, &input[k.start..k.end], x.0, x.1));
                }
                if i == bad && !dirs[..bad].iter().any(|d| d.kind == Kind::Dag) && matches!(d.kind, Kind::Plain | Kind::Next | Kind::Label) {
                    if let Some(w) = m.window {
                        s.label("searched region compared");
                        if w != (k.start, k.end) {
                            return Err(format!("`{}` has to be looked for in {}..{} of the input, but the report says that {}..{} was searched", render_dir(d, "CHECK"), w.0, w.1, k.start, k.end));
                        }
                    }
                }
            }
        }
        if k.head.contains("but was excluded") && !k.check_file {
            let Some(p) = marks.iter().find(|x| x.check_file && x.err == k.err && x.node > k.node && x.text.contains("by this pattern")) else {
                return Err(format!("an excluded match without its pattern:\n{}", shown()));
            };
            let i = dir_at(p, check);
            let d = &dirs[i];
            if d.kind != Kind::Not {
                return Err(format!("reported as excluded by `{}`, which excludes nothing", render_dir(d, "CHECK")));
            }
            let rs = m.to_re(&d.pat, i).map_err(|_| "internal: pattern")?;
            if !re::matches_exactly(&re::Re::Cat(rs), input, k.start, k.end, input.len(), o.icase) && !re::matches_exactly(&re::Re::Cat(m.to_re(&d.pat, i).map_err(|_| "internal: pattern")?), input, k.start, k.end, k.end, o.icase) {
                return Err(format!("{}..{} = {:?} of the input is reported as matched by `{}`, which does not match there", k.start, k.end, &input[k.start..k.end], render_dir(d, "CHECK")));
            }
            // ... in the gap which the exclusion guards
            if culprits[0] == i && !dirs[..i].iter().any(|d| d.kind == Kind::Dag) {
                if let Some(w) = m.window {
                    if k.start < w.0 || k.end > w.1 {
                        return Err(format!("`{}` must not match in {}..{} of the input, but the report is about {}..{}", render_dir(d, "CHECK"), w.0, w.1, k.start, k.end));
                    }
                }
            }
            s.label("excluded match compared");
        }
        // the directives blamed, and those not tried because of them
        let in_order = !has_label && !dirs.iter().any(|d| d.kind == Kind::Dag);
        let blamed = k.text == "this check failed" || k.text == "pattern at this location was not matched" || k.text.starts_with("when matching this pattern");
        if k.check_file && blamed && k.err == 0 && in_order && bad < n {
            s.label("blamed directive compared");
            if !culprits.contains(&at) {
                return Err(format!("`{}` (line {}) is blamed, but `{}` (line {}) is not satisfied:\n{}", render_dir(&dirs[at], "CHECK"), at + 1, render_dir(&dirs[bad], "CHECK"), bad + 1, shown()));
            }
        }
        if k.check_file && k.text.contains("were skipped because") {
            let Some(f) = marks.iter().find(|x| x.node == k.node && x.text == "this check failed") else {
                return Err(format!("skipped checks without a reason:\n{}", shown()));
            };
            s.label("skipped directives compared");
            let last = line_of(check, k.end.max(k.start + 1) - 1);
            if at <= dir_at(f, check) || last >= n || (at..=last).any(|i| i != at && dirs[i].kind == Kind::Label) {
                return Err(format!("lines {} to {} are reported as skipped because of line {}:\n{}", at + 1, last + 1, dir_at(f, check) + 1, shown()));
            }
        }
        if k.check_file && k.head.starts_with("unable to match all instances") {
            let made = m.made.iter().filter(|t| t.0 == at).count();
            let Kind::Count(c) = dirs[at].kind else {
                return Err(format!("`{}` is no counted directive:\n{}", render_dir(&dirs[at], "CHECK"), shown()));
            };
            if in_order && at == bad && !k.head.contains(&format!("(matched {made} of {c} times)")) {
                return Err(format!("`{}` matches {made} of {c} times, but the report says: {}", render_dir(&dirs[at], "CHECK"), k.head));
            }
            s.label("repetitions compared");
        }
        if k.head.contains("wrong line") && !k.check_file {
            let Some(p) = marks.iter().find(|x| x.check_file && x.err == k.err && x.node > k.node) else {
                return Err(format!("a match on the wrong line without its pattern:\n{}", shown()));
            };
            let i = dir_at(p, check);
            let d = &dirs[i];
            let r = re::Re::Cat(m.to_re(&d.pat, i).map_err(|_| "internal: pattern")?);
            if !re::matches_exactly(&r, input, k.start, k.end, input.len(), o.icase) && !re::matches_exactly(&r, input, k.start, k.end, k.end, o.icase) {
                return Err(format!("{}..{} = {:?} of the input is reported as matched by `{}`, which does not match there", k.start, k.end, &input[k.start..k.end], render_dir(d, "CHECK")));
            }
            // ... and it lies behind what was matched before, on another line
            let pos = m.made.iter().map(|t| t.2).max().unwrap_or(0);
            if in_order && i == bad && k.err == 0 && (k.start < pos || !input[pos..k.end].contains('\n')) {
                return Err(format!("{}..{} = {:?} of the input is reported to be on the wrong line, but the line begins at {pos}", k.start, k.end, &input[k.start..k.end]));
            }
            s.label("wrong line compared");
        }
    }
    // the annotated input
    if input.is_empty() {
        return Ok(Some("empty input"));
    }
    if never != dumped.is_empty() {
        return Err(format!("--dump-input={}, but the report has {}", if never { "never" } else { "fail" }, if never { "the input" } else { "no input" }));
    }
    if !never {
        if !dumped.iter().any(|k| !k.check_file && (k.start, k.end) == (0, input.len())) {
            return Err("the dump does not show the whole input".into());
        }
        let mut got = vec![];
        for k in &dumped {
            if let Some(l) = k.text.strip_prefix("matched by the check on line ") {
                let i = l.trim().parse::<usize>().map_err(|_| format!("dump: {}", k.text))? - 1;
                let Some(d) = dirs.get(i) else { return Err(format!("the dump says {:?}, where no directive is", k.text)) };
                let r = re::Re::Cat(m.to_re(&d.pat, i).map_err(|_| "internal: pattern")?);
                if d.kind == Kind::Not || (!re::matches_exactly(&r, input, k.start, k.end, input.len(), o.icase) && !re::matches_exactly(&r, input, k.start, k.end, k.end, o.icase)) {
                    return Err(format!("the dump says that {}..{} = {:?} was {}, which is `{}`", k.start, k.end, &input[k.start..k.end], k.text, render_dir(d, "CHECK")));
                }
                got.push((i, k.start, k.end));
            }
        }
        // whatever was matched in front of the failure is annotated
        // (a group of unordered directives may be reported as the culprit instead of its follower)
        let first_dag = dirs.iter().position(|d| d.kind == Kind::Dag).unwrap_or(usize::MAX);
        for t in m.made.iter().filter(|t| t.1 < t.2 && t.0 < first_dag) {
            if !got.contains(t) {
                return Err(format!("`{}` matches {}..{}, which the dump does not show: {got:?}", render_dir(&dirs[t.0], "CHECK"), t.1, t.2));
            }
        }
        // the number of failed checks
        let want = format!("{n_err} failed check(s)");
        if !dumped.iter().any(|k| k.head.contains(&want)) {
            return Err(format!("{n_err} errors are reported, but the dump says: {}", dumped[0].head));
        }
    }
    Ok(Some(if bad >= dirs.len() { "empty input" } else { match dirs[bad].kind {
        Kind::Plain => "failed: CHECK",
        Kind::Next => "failed: CHECK-NEXT",
        Kind::Same => "failed: CHECK-SAME",
        Kind::Empty => "failed: CHECK-EMPTY",
        Kind::Count(_) => "failed: CHECK-COUNT",
        Kind::Not => "failed: CHECK-NOT",
        Kind::Dag => "failed: CHECK-DAG",
        Kind::Label => "failed: CHECK-LABEL",
    } }))
}

fn f14(s: &mut Src, _: &mut Ctx) -> Case {
    let big = s.chance(1, 6);
    let input = if s.chance(1, 60) { String::new() } else { gen_input(s, if big { 16 } else { 7 }, WORDS) };
    let mix = match s.below(4) {
        0 => Mix { plain: 4, next: 3, same: 2, empty: 1, count: 2, not: 0, dag: 0, label: 0 },
        1 => Mix { plain: 4, next: 2, same: 1, empty: 1, count: 1, not: 5, dag: 0, label: 0 },
        2 => Mix { plain: 3, next: 1, same: 1, empty: 1, count: 1, not: 1, dag: 5, label: 0 },
        _ => Mix { plain: 4, next: 2, same: 1, empty: 1, count: 1, not: 2, dag: 1, label: 4 },
    };
    let dirs = gen_dirs(s, &input, if big { 9 } else { 6 }, &mix, &STD);
    let mut o = Opts::default();
    o.icase = s.chance(1, 10);
    o.verbose = s.weighted(&[12, 1, 1]) as u8;
    let never = s.chance(1, 8);
    let check = render_dirs(&dirs);
    let repr = format!("{}{}", show(&check, &input, &o), if never { "\n--dump-input=never" } else { "" });
    announce(s, &repr);
    let r = guard(|| judge(s, &dirs, &input, &check, &o, if never { Dump::Never } else { Dump::Fail }));
    match r {
        Err(e) => Case::fail(repr, format!("filecheck crashed: {e}")),
        Ok(Ok(None)) => Case::discard(),
        Ok(Ok(Some(l))) => {
            s.label(l);
            Case::ok(repr, true)
        }
        Ok(Err(e)) => Case::fail(repr, e),
    }
}

pub static PROPS: &[Prop] = &[
    Prop { id: "F14", run: f14, quick: 40000, thorough: 3000000, hang: 30, rule: "the checks fail", oracle: "reference interpreter; every statement of the report about a place of a file is checked against the files", known: no_known },
];
