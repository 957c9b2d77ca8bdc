//! Properties of the shared core library: source registry, positions and spans, file search.
use crate::engine::*;
use litcheck_core::diagnostics::*;
use litcheck_core::range::Range;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::Arc;

fn text(s: &mut Src, max: usize) -> String {
    const ATOMS: &[&str] = &["a", "b", "xy", "é", "漢", "\n", "\n", "\r\n", " ", "\u{301}"];
    let n = s.range(0, max);
    (0..n).map(|_| *s.pick(ATOMS)).collect()
}

// ---------------------------------------------------------------- K07: source registry

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Name {
    Stdin,
    Path(Vec<u8>),
    Virt(String),
}
impl Name {
    fn real(&self) -> FileName {
        match self {
            Name::Stdin => FileName::from("-"),
            Name::Path(p) => FileName::from(Path::new(std::ffi::OsStr::from_bytes(p))),
            Name::Virt(v) => FileName::from(v.as_str()),
        }
    }
}

#[derive(Clone, Default)]
struct Reg {
    texts: [Vec<(String, Name, i32)>; 2], // files, arguments
    names: BTreeMap<Name, (usize, usize)>,
    ids: [Vec<SourceId>; 2],
}
impl Reg {
    /// the entry which a load under this name refers to, and whether it is a new one
    fn load(&mut self, g: usize, n: &Name, t: &str) -> ((usize, usize), bool) {
        self.load_version(g, n, t, 0)
    }
    fn load_version(&mut self, g: usize, n: &Name, t: &str, v: i32) -> ((usize, usize), bool) {
        if let Some(&(g0, i)) = self.names.get(n) {
            if self.texts[g0][i].0 == t {
                return ((g0, i), false);
            }
        }
        self.texts[g].push((t.to_string(), n.clone(), v));
        let e = (g, self.texts[g].len() - 1);
        self.names.insert(n.clone(), e);
        (e, true)
    }
}

/// Files which exist on disk: name and content
fn disk(ctx: &mut Ctx) -> PathBuf {
    let d = ctx.scratch.join("disk");
    if !d.exists() {
        std::fs::create_dir_all(&d).unwrap();
        for (n, c) in DISK {
            std::fs::write(d.join(std::ffi::OsStr::from_bytes(n)), c).unwrap();
        }
    }
    d
}
const DISK: &[(&[u8], &[u8])] = &[
    (b"a.rs", b"fn a() {}\n"),
    (b"b", "é\r\nx".as_bytes()),
    (b"empty", b""),
    (b"\xff1", b"one\n"),
    (b"\xff2", b"two\n"),
    (b"bad", b"x\xff\xfe\n"),
];

fn k07(s: &mut Src, ctx: &mut Ctx) -> Case {
    let d = disk(ctx);
    let virt_disk = d.join("a.rs").display().to_string();
    let mut sms = vec![DefaultSourceManager::default()];
    let mut regs = vec![Reg::default()];
    let mut log: Vec<String> = vec![];
    let mut held: Vec<(SourceFileRef, String)> = vec![];
    let (mut reloads, mut updates) = (0, 0);
    macro_rules! bad {
        ($($a:tt)*) => { return Case::fail(log.join("\n"), format!($($a)*)) };
    }
    for _ in 0..s.range(2, 12) {
        let k = s.below(sms.len());
        let name = |s: &mut Src| match s.below(9) {
            0 => Name::Stdin,
            1 => Name::Virt("a".into()),
            2 => Name::Virt("b".into()),
            3 => Name::Path(b"a".to_vec()),
            4 => Name::Path(b"b".to_vec()),
            5 => Name::Virt("stdin".into()),
            6 => Name::Path(d.join("a.rs").as_os_str().as_bytes().to_vec()),
            7 => Name::Virt(virt_disk.clone()),
            _ => Name::Path(d.join(std::ffi::OsStr::from_bytes(b"\xff1")).as_os_str().as_bytes().to_vec()),
        };
        let content = |s: &mut Src| match s.below(4) {
            0 => "same\n".to_string(),
            1 => "fn a() {}\n".to_string(),
            _ => text(s, 5),
        };
        // what the model says, and what was returned
        let mut got: Option<(Arc<SourceFile>, (usize, usize), bool)> = None;
        match s.weighted(&[6, 2, 4, 4, 1, 2, 1]) {
            0 => {
                let (n, t) = (name(s), content(s));
                log.push(format!("{k}: load {n:?} {t:?}"));
                let f = sms[k].load(SourceLanguage::Unknown, n.real(), t.clone());
                let (e, new) = regs[k].load(0, &n, &t);
                got = Some((f, e, new));
            }
            1 => {
                let (n, t) = (*s.pick(&["a", "b", "D"]), content(s));
                log.push(format!("{k}: load_argument {n:?} {t:?}"));
                let f = sms[k].load_argument(n, t.clone());
                let (e, new) = regs[k].load(1, &Name::Virt(n.into()), &t);
                got = Some((f, e, new));
            }
            2 => {
                let i = s.below(DISK.len() + 1);
                let p = match DISK.get(i) {
                    Some((n, _)) => d.join(std::ffi::OsStr::from_bytes(n)),
                    None => d.join("missing"),
                };
                log.push(format!("{k}: load_file {p:?}"));
                let n = Name::Path(p.as_os_str().as_bytes().to_vec());
                let r = sms[k].load_file(&p);
                let known = regs[k].names.get(&n).copied();
                let on_disk = DISK.get(i).and_then(|(_, c)| std::str::from_utf8(c).ok());
                match (known, on_disk, r) {
                    (Some(e), _, Ok(f)) => got = Some((f, e, false)),
                    (None, Some(c), Ok(f)) => {
                        let (e, new) = regs[k].load(0, &n, c);
                        got = Some((f, e, new));
                    }
                    (None, None, Err(_)) => {}
                    (_, _, Ok(f)) => bad!("loaded a file which cannot be read: {:?}", f.as_str()),
                    (_, _, Err(e)) => bad!("load_file failed: {e}"),
                }
            }
            3 => {
                let g = s.below(2);
                if regs[k].texts[g].is_empty() {
                    continue;
                }
                let i = s.below(regs[k].texts[g].len());
                let t = content(s);
                let (old, _, v) = regs[k].texts[g][i].clone();
                let bad_pos = s.chance(1, 5);
                log.push(format!("{k}: update {g}/{i} {t:?} (invalid place: {bad_pos})"));
                let sel = bad_pos.then(|| Selection::from(LineIndex(old.matches('\n').count() as u32 + 1)..LineIndex(old.matches('\n').count() as u32 + 2)));
                let r = sms[k].update(regs[k].ids[g][i], t.clone(), sel, v + 1);
                match (r, bad_pos) {
                    (Ok(()), false) => {
                        regs[k].texts[g][i].0 = t;
                        regs[k].texts[g][i].2 = v + 1;
                        updates += 1;
                    }
                    (Err(_), true) => {}
                    (r, _) => bad!("update: {r:?}"),
                }
            }
            4 => {
                if sms.len() < 3 {
                    log.push(format!("{k}: clone as {}", sms.len()));
                    sms.push(sms[k].clone());
                    regs.push(regs[k].clone());
                }
            }
            5 => {
                // copy a file of one registry into another
                let k2 = s.below(sms.len());
                let g = s.below(2);
                if regs[k2].texts[g].is_empty() {
                    continue;
                }
                let i = s.below(regs[k2].texts[g].len());
                let f = sms[k2].get(regs[k2].ids[g][i]).unwrap();
                let (t, n, v) = regs[k2].texts[g][i].clone();
                log.push(format!("{k}: copy {g}/{i} of {k2}"));
                let managed = sms[k].is_manager_of(&f);
                let c = sms[k].copy_into(&f);
                if managed {
                    if !Arc::ptr_eq(&c, &f) || c.id() != f.id() {
                        bad!("a file which is managed already was copied");
                    }
                } else {
                    if k == k2 {
                        bad!("the registry does not manage its own file");
                    }
                    let (e, new) = regs[k].load_version(g, &n, &t, v);
                    got = Some((c.clone(), e, new));
                }
                if !sms[k].is_manager_of(&c) {
                    bad!("the copy is not managed by the registry it was copied into");
                }
            }
            _ => {
                // concurrent loads of different and equal names
                let n = s.range(2, 4);
                let same = s.chance(1, 3);
                let jobs: Vec<(Name, String)> = (0..n)
                    .map(|i| if same { (Name::Virt("t".into()), "shared\n".to_string()) } else { (Name::Virt(format!("t{i}")), content(s)) })
                    .collect();
                log.push(format!("{k}: concurrently {jobs:?}"));
                let files: Vec<Arc<SourceFile>> = std::thread::scope(|sc| {
                    let sm = &sms[k];
                    let hs: Vec<_> = jobs.iter().map(|(n, t)| sc.spawn(move || sm.load(SourceLanguage::Unknown, n.real(), t.clone()))).collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                // enter them into the model in the order of their identifiers
                let mut order: Vec<usize> = (0..n).collect();
                order.sort_by_key(|i| files[*i].id());
                for i in order {
                    let (e, new) = regs[k].load(0, &jobs[i].0, &jobs[i].1);
                    if new {
                        if regs[k].ids[0].contains(&files[i].id()) {
                            bad!("{:?} got an identifier which is in use", jobs[i]);
                        }
                        regs[k].ids[0].push(files[i].id());
                    }
                    if regs[k].ids[e.0][e.1] != files[i].id() || files[i].as_str() != jobs[i].1 {
                        bad!("{:?}: got {:?} of {:?}", jobs[i], files[i].as_str(), files[i].uri());
                    }
                }
            }
        }
        if let Some((f, (g, i), new)) = got {
            reloads += !new as usize;
            if new {
                if regs[k].ids[g].contains(&f.id()) {
                    bad!("a new text got the identifier of another one");
                }
                regs[k].ids[g].push(f.id());
            } else if regs[k].ids[g][i] != f.id() {
                bad!("the same text under the same name got a new identifier");
            }
            if f.as_str() != regs[k].texts[g][i].0 {
                bad!("loaded {:?}, expected {:?}", f.as_str(), regs[k].texts[g][i].0);
            }
            if s.chance(1, 2) {
                let r = sms[k].source(f.id()).unwrap();
                held.push((r, f.as_str().to_string()));
            }
        }
        // the whole state
        for (k, (sm, m)) in sms.iter().zip(&regs).enumerate() {
            let mut seen = BTreeSet::new();
            for g in 0..2 {
                for (i, (t, n, v)) in m.texts[g].iter().enumerate() {
                    let id = m.ids[g][i];
                    if !seen.insert(id) {
                        bad!("{k}: two texts have the identifier {id:?}");
                    }
                    if id.is_cli_argument() != (g == 1) || id.is_unknown() {
                        bad!("{k}: {id:?} is not of the group {g}");
                    }
                    let f = match sm.get(id) {
                        Ok(f) => f,
                        Err(e) => bad!("{k}: {id:?} lost: {e}"),
                    };
                    if f.as_str() != t || f.id() != id || *f.uri() != n.real() || f.content().version() != *v {
                        bad!("{k}: {id:?} is {:?} {:?} v{}, expected {t:?} {n:?} v{v}", f.as_str(), f.uri(), f.content().version());
                    }
                    if sm.source(id).unwrap().as_str() != t {
                        bad!("{k}: source of {id:?} differs");
                    }
                }
                let u = m.texts[g].len() as u32;
                for id in [if g == 0 { SourceId::file(u) } else { SourceId::argument(u) }, SourceId::UNKNOWN] {
                    if sm.get(id).is_ok() || sm.source(id).is_ok() || sm.source_slice(SourceSpan::at(id, 0)).is_ok() {
                        bad!("{k}: unknown identifier {id:?} refers to a file");
                    }
                }
            }
            for n in [Name::Stdin, Name::Virt("a".into()), Name::Virt("b".into()), Name::Path(b"a".to_vec()), Name::Virt("stdin".into()), Name::Virt("nobody".into())].iter().chain(m.names.keys()) {
                let exp = m.names.get(n).map(|(g, i)| m.ids[*g][*i]);
                if sm.find(&n.real()) != exp {
                    bad!("{k}: the name {n:?} refers to {:?}, expected {exp:?}", sm.find(&n.real()));
                }
                if sm.get_by_uri(&n.real()).map(|f| f.id()) != exp {
                    bad!("{k}: file named {n:?}: {:?}, expected {exp:?}", sm.get_by_uri(&n.real()).map(|f| f.id()));
                }
                let l = Location::new(n.real(), ByteIndex(0), ByteIndex(0));
                if exp.is_none() && (sm.location_to_span(l).is_some() || sm.file_line_col_to_span(FileLineCol::new(n.real(), LineIndex(0), ColumnIndex(0))).is_some()) {
                    bad!("{k}: a place in a file which was never loaded");
                }
            }
        }
        for (h, t) in &held {
            if h.as_str() != t {
                bad!("a reference changed from {t:?} to {:?}", h.as_str());
            }
        }
    }
    Case::ok(log.join("\n"), reloads + updates >= 1 && regs.iter().map(|r| r.names.len()).max() >= Some(2))
}

// ---------------------------------------------------------------- K08: positions and spans

fn num(s: &mut Src) -> u32 {
    match s.below(6) {
        0 => 0,
        1 => 1,
        2 => u32::MAX - s.below(3) as u32,
        3 => 1 << s.below(32),
        4 => (s.u64() % (1 << 33)).min(u32::MAX as u64) as u32,
        _ => s.below(40) as u32,
    }
}
fn off(s: &mut Src) -> i32 {
    match s.below(5) {
        0 => i32::MIN + s.below(2) as i32,
        1 => i32::MAX - s.below(2) as i32,
        2 => -(s.below(40) as i32),
        3 => s.u64() as i32,
        _ => s.below(40) as i32,
    }
}
fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn k08(s: &mut Src, _: &mut Ctx) -> Case {
    let (a, b, o) = (num(s), num(s), off(s));
    let (x, y, z) = (a as i128, b as i128, o as i128);
    let kind = s.below(7);
    let repr = format!("kind {kind}: {a} {b} {o}");
    macro_rules! eq {
        ($a:expr, $b:expr, $($what:tt)*) => {{
            let (g, w) = ($a, $b);
            if g != w {
                return Case::fail(repr, format!("{} = {g:?}, expected {w:?}", format!($($what)*)));
            }
        }};
    }
    // a number type with the least value $min; None where the exact result is not a number of it
    macro_rules! arith {
        ($t:ident, $min:expr, $mk:expr) => {{
            let mk: fn(u32) -> $t = $mk;
            if x < $min {
                return Case::discard();
            }
            let v = mk(a);
            let fit = |r: i128| (r >= $min && r <= u32::MAX as i128).then_some(r as u32);
            let sat = |r: i128| r.clamp($min, u32::MAX as i128) as u32;
            let n = stringify!($t);
            eq!(v.to_u32(), a, "{n}({a})");
            eq!(v.to_usize(), a as usize, "{n}({a}) as usize");
            eq!(v.to_string(), a.to_string(), "{n}({a}) displayed");
            eq!(v.checked_add(b).map(|r| r.to_u32()), fit(x + y), "{n}({a}).checked_add({b})");
            eq!(v.checked_sub(b).map(|r| r.to_u32()), fit(x - y), "{n}({a}).checked_sub({b})");
            eq!(v.checked_add_signed(o).map(|r| r.to_u32()), fit(x + z), "{n}({a}).checked_add_signed({o})");
            eq!(v.saturating_add(b).to_u32(), sat(x + y), "{n}({a}).saturating_add({b})");
            eq!(v.saturating_sub(b).to_u32(), sat(x - y), "{n}({a}).saturating_sub({b})");
            eq!(v.saturating_add_signed(o).to_u32(), sat(x + z), "{n}({a}).saturating_add_signed({o})");
            if let Some(r) = fit(x + y) {
                eq!((v + b).to_u32(), r, "{n}({a}) + {b}");
                let mut w = v;
                w += b;
                eq!(w.to_u32(), r, "{n}({a}) += {b}");
            }
            if let Some(r) = fit(x - y) {
                eq!((v - b).to_u32(), r, "{n}({a}) - {b}");
                let mut w = v;
                w -= b;
                eq!(w.to_u32(), r, "{n}({a}) -= {b}");
            }
            if let Some(r) = fit(x + z) {
                eq!((v + o).to_u32(), r, "{n}({a}) + {o}");
                let mut w = v;
                w += o;
                eq!(w.to_u32(), r, "{n}({a}) += {o}");
            } else {
                // documented to be refused
                eq!(guard(|| (v + o).to_u32()).is_err(), true, "{n}({a}) + {o} is refused");
            }
            if y >= $min {
                let w = mk(b);
                eq!(v.cmp(&w), a.cmp(&b), "{n}: order of {a} and {b}");
                eq!(v == w, a == b, "{n}: equality of {a} and {b}");
            }
            eq!(serde_json::to_string(&v).unwrap(), a.to_string(), "{n}({a}) serialized");
            eq!(serde_json::from_str::<$t>(&a.to_string()).ok(), Some(v), "{n}({a}) read back");
        }};
    }
    macro_rules! pair {
        ($i:ident, $n:ident) => {{
            if a < u32::MAX {
                eq!($i(a).number().to_u32(), a + 1, "number of the index {a}");
                eq!($n::from($i(a)).to_u32(), a + 1, "number of the index {a}");
                eq!($i::from($n::new(a + 1).unwrap()).to_u32(), a, "index of the number {}", a + 1);
                eq!($n::new(a + 1).unwrap().to_index().to_u32(), a, "index of the number {}", a + 1);
            }
            eq!($n::new(0).is_none(), true, "number 0");
            eq!($n::default().to_u32(), 1, "first number");
            eq!($i::default().to_u32(), 0, "first index");
            eq!(serde_json::from_str::<$n>("0").is_err(), true, "number 0 read");
        }};
    }
    let mut nontrivial = a != 0 && b != 0 && o != 0;
    match kind {
        0 => {
            arith!(LineIndex, 0, LineIndex::from);
            pair!(LineIndex, LineNumber);
        }
        1 => {
            arith!(ColumnIndex, 0, ColumnIndex::from);
            pair!(ColumnIndex, ColumnNumber);
        }
        2 => arith!(LineNumber, 1, |n| LineNumber::new(n).unwrap()),
        3 => arith!(ColumnNumber, 1, |n| ColumnNumber::new(n).unwrap()),
        4 => {
            let v = ByteIndex::from(a);
            let d: String = "é漢a\n".chars().cycle().take(s.below(9)).collect();
            let l = d.len() as i128;
            let bo = ByteOffset::from_str_len(&d);
            let zero = ByteOffset::default();
            eq!(bo.to_string(), l.to_string(), "length of {d:?}");
            let mut sum = zero;
            for c in d.chars() {
                sum += ByteOffset::from_char_len(c);
            }
            eq!(sum, bo, "sum of the lengths of the characters of {d:?}");
            eq!(bo - bo, zero, "offset minus itself");
            eq!((bo + bo).to_string(), (2 * l).to_string(), "twice the offset");
            let mut w = bo;
            w -= bo + bo;
            eq!(w, zero - bo, "negated offset");
            eq!((v.to_u32(), v.to_usize(), u32::from(v), v.to_string()), (a, a as usize, a, a.to_string()), "byte index {a}");
            for (r, got) in [(x + l, guard(|| v + bo)), (x - l, guard(|| v - bo)), (x - l, guard(|| v + (zero - bo))), (x + l, guard(|| v - (zero - bo)))] {
                if (0..=u32::MAX as i128).contains(&r) {
                    eq!(got.map(|g| g.to_u32() as i128), Ok(r), "byte index {a} moved by the length of {d:?}");
                }
            }
            if l <= x && x + l <= u32::MAX as i128 {
                let (mut up, mut down, mut back) = (v, v, v);
                up += bo;
                down -= bo;
                back -= zero - bo;
                eq!((up, down, back), (v + bo, v - bo, v + bo), "byte index {a} moved in place");
            }
            if x + y <= u32::MAX as i128 {
                let mut w = v;
                w += b;
                eq!((v + b, w), (ByteIndex(a + b), ByteIndex(a + b)), "byte index {a} + {b}");
            }
            if y <= x {
                let mut w = v;
                w -= b;
                eq!((v - b, w), (ByteIndex(a - b), ByteIndex(a - b)), "byte index {a} - {b}");
            }
            eq!(v.cmp(&ByteIndex(b)), a.cmp(&b), "order of {a} and {b}");
            let mut c = FileLineCol::new(FileName::from("f"), LineIndex(3), ColumnIndex(a.min(u32::MAX - 1)));
            let col = a.min(u32::MAX - 1) as i128 + 1;
            eq!(c.to_string(), format!("[f@4:{col}]"), "place");
            if (1..=u32::MAX as i128).contains(&(col + z)) {
                c.move_column(o);
                eq!(c.to_string(), format!("[f@4:{}]", col + z), "place moved by {o}");
            }
            nontrivial = l > 0;
        }
        5 => {
            // spans
            let (lo, hi) = (a.min(b), a.max(b));
            let id = match s.below(3) {
                0 => SourceId::file(s.below(3) as u32),
                1 => SourceId::argument(s.below(3) as u32),
                _ => SourceId::UNKNOWN,
            };
            let sp = SourceSpan::new(id, Range::new(lo, hi));
            eq!((sp.start().to_u32(), sp.end().to_u32(), sp.source_id()), (lo, hi, id), "parts of the span");
            eq!((sp.len(), sp.is_empty(), sp.is_unknown()), ((hi - lo) as usize, lo == hi, id == SourceId::UNKNOWN), "len, is_empty, is_unknown");
            eq!(sp.into_range(), Range::new(lo, hi), "into_range");
            eq!(sp.into_slice_index(), Range::new(lo as usize, hi as usize), "into_slice_index");
            eq!(std::ops::Range::<u32>::from(sp), lo..hi, "as a range of u32");
            eq!(std::ops::Range::<usize>::from(sp), lo as usize..hi as usize, "as a range of usize");
            let m = miette::SourceSpan::from(sp);
            eq!((m.offset(), m.len()), (lo as usize, (hi - lo) as usize), "as a span of a report");
            for p in [lo.saturating_sub(1), lo, lo.saturating_add(1), hi.saturating_sub(1), hi, hi.saturating_add(1)] {
                use std::ops::RangeBounds;
                eq!(sp.contains(&ByteIndex(p)), lo <= p && p < hi, "{lo}..{hi} contains {p}");
            }
            for (e, ok) in [(hi as usize, true), (u32::MAX as usize, true), (u32::MAX as usize + 1, false), (usize::MAX, false)] {
                let r = SourceSpan::try_from_range(id, lo as usize..e);
                eq!(r.map(|r| (r.start().to_usize(), r.end().to_usize(), r.source_id())).ok(), ok.then_some((lo as usize, e, id)), "try_from_range({lo}..{e})");
            }
            eq!(SourceSpan::try_from_range(id, u32::MAX as usize + 1..u32::MAX as usize + 2).is_err(), true, "try_from_range beyond 2^32");
            eq!(SourceSpan::at(id, lo), SourceSpan::new(id, Range::new(lo, lo)), "at");
            let js = serde_json::to_string(&sp).unwrap();
            eq!(serde_json::from_str::<SourceSpan>(&js).ok(), Some(sp), "read back from {js}");
            let other = SourceId::file(7);
            let mut t = sp;
            t.set_source_id(other);
            eq!((t.source_id(), t.into_range()), (other, sp.into_range()), "set_source_id");
            eq!(sp == t, id == other, "spans of different files");
            let v = s.below(6) as i32;
            let w = s.below(6) as i32;
            let (p, q) = (Span::new(sp, v), Span::new(t, w));
            eq!(p == q, v == w, "equality of spanned values");
            eq!(p.cmp(&q), v.cmp(&w), "order of spanned values");
            eq!(p.partial_cmp(&q), v.partial_cmp(&w), "order of spanned values");
            eq!(p == v, true, "a spanned value and the value");
            eq!((hash(&p), p.to_string(), format!("{p:?}"), *p, *p.inner(), p.span(), p.into_parts()), (hash(&v), v.to_string(), v.to_string(), v, v, sp, (sp, v)), "spanned value");
            eq!(p.map(|n| n + 1).into_parts(), (sp, v + 1), "map");
            let st = Span::new(sp, v.to_string());
            let vs = v.to_string();
            eq!(st.as_deref().into_parts(), (sp, vs.as_str()), "as_deref");
            eq!(Span::as_ref(&st).into_parts(), (sp, &v.to_string()), "as_ref");
            eq!(st.clone().with_span(t).into_parts(), (t, v.to_string()), "with_span");
            eq!(Span::unknown(v).span(), SourceSpan::UNKNOWN, "unknown");
            eq!(Span::at(id, lo as usize, v).span(), SourceSpan::at(id, lo), "at");
            let len = s.below(9);
            let d = ByteOffset::from_str_len(&"-".repeat(len));
            if hi as u64 + len as u64 <= u32::MAX as u64 {
                let mut e = p;
                e.extend(d);
                eq!(e.into_parts(), (SourceSpan::new(id, Range::new(lo, hi + len as u32)), v), "extend by {len}");
                let mut e = p;
                e.shift(d);
                eq!(e.into_parts(), (SourceSpan::new(id, Range::new(lo + len as u32, hi + len as u32)), v), "shift by {len}");
            }
            let mut e = p;
            e.set_source_id(other);
            eq!(e.into_parts(), (t, v), "set_source_id");
            nontrivial = lo != hi;
        }
        _ => {
            // places within a text
            let t = text(s, 8);
            let sm = DefaultSourceManager::default();
            sm.load(SourceLanguage::Unknown, FileName::from("other"), "x".into());
            let f = sm.load(SourceLanguage::Unknown, FileName::from("f"), t.clone());
            let repr = format!("{t:?}");
            macro_rules! eq {
                ($a:expr, $b:expr, $($what:tt)*) => {{
                    let (g, w) = ($a, $b);
                    if g != w {
                        return Case::fail(repr, format!("{} = {g:?}, expected {w:?}", format!($($what)*)));
                    }
                }};
            }
            let whole = f.source_span();
            eq!((whole.into_slice_index(), whole.source_id()), (Range::new(0, t.len()), f.id()), "span of the file");
            eq!((f.len(), f.is_empty(), f.as_bytes(), f.line_count()), (t.len(), t.is_empty(), t.as_bytes(), t.matches('\n').count() + 1), "file");
            let mut refs = vec![];
            for i in 0..=t.len() {
                for j in i..=t.len() + 2 {
                    let sp = SourceSpan::new(f.id(), Range::new(i as u32, j as u32));
                    let exp = t.get(i..j);
                    eq!(f.source_slice(sp), exp, "text of {i}..{j}");
                    eq!(sm.source_slice(sp).ok().map(|r| r.as_str().to_string()), exp.map(|e| e.to_string()), "text of {i}..{j} by span");
                    if let Some(e) = t.get(i..j.min(t.len())) {
                        let r = f.slice(sp);
                        eq!((r.as_str(), r.as_bytes(), r.len(), r.is_empty()), (e, e.as_bytes(), e.len(), e.is_empty()), "reference to {i}..{j}");
                        eq!((r.span().into_slice_index(), r.span().source_id(), r.uri().as_str()), (Range::new(i, j.min(t.len())), f.id(), "f"), "span of the reference to {i}..{j}");
                        eq!(Arc::ptr_eq(&r.source_file(), &f), true, "file of the reference");
                        if s.chance(1, 4) && refs.len() < 6 {
                            refs.push((r, e.to_string()));
                        }
                    }
                    // a place which does not depend on the registry, and back
                    if i < t.len() && j <= t.len() {
                        let l = sm.location(sp).unwrap();
                        eq!((l.uri().as_str(), l.start.to_usize(), l.end.to_usize(), l.range()), ("f", i, j, ByteIndex(i as u32)..ByteIndex(j as u32)), "place of {i}..{j}");
                        eq!(sm.location_to_span(l), Some(sp), "span of the place of {i}..{j}");
                    }
                }
                if t.is_char_boundary(i) {
                    let c = sm.file_line_col(SourceSpan::at(f.id(), i as u32)).unwrap();
                    eq!(sm.file_line_col_to_span(c.clone()), Some(SourceSpan::at(f.id(), i as u32)), "span of line and column {c} of {i}");
                    let pre = &t[..i];
                    let line = pre.matches('\n').count() + 1;
                    let col = pre.rsplit('\n').next().unwrap().chars().count() + 1;
                    eq!(c.to_string(), format!("[f@{line}:{col}]"), "line and column of {i}");
                }
            }
            for (r, e) in &refs {
                for (r2, e2) in &refs {
                    eq!((r == r2, r.cmp(r2)), (e == e2, e.cmp(e2)), "comparison of references to {e:?} and {e2:?}");
                }
                eq!(hash(r), hash(e), "hash of a reference");
                eq!(AsRef::<str>::as_ref(r), e.as_str(), "reference as text");
            }
            return Case::ok(repr, t.contains('\n') && refs.len() >= 2);
        }
    }
    Case::ok(repr, nontrivial)
}

// ---------------------------------------------------------------- K09: finding and reading files

/// An absolute path, written relative to the working directory
fn from_here(p: &Path) -> PathBuf {
    let up = std::env::current_dir().unwrap().components().count() - 1;
    let mut r: PathBuf = std::iter::repeat_n("..", up).collect();
    r.extend(p.components().skip(1));
    r
}
fn k09(s: &mut Src, ctx: &mut Ctx) -> Case {
    use litcheck_core::Input;
    let root = ctx.fresh_dir("fs").canonicalize().unwrap();
    let mut files: Vec<PathBuf> = vec![]; // relative to root
    let mut dirs: Vec<PathBuf> = vec![PathBuf::new()];
    let mut log = vec![];
    const NAMES: &[&str] = &["a", "b.txt", "c.rs", "[x]", "d e", ".hid", "x.txt.rs", "é.txt", "*"];
    for _ in 0..s.range(1, 8) {
        let p = s.pick(&dirs).join(s.pick(NAMES));
        let rp = root.join(&p);
        if rp.symlink_metadata().is_ok() {
            continue;
        }
        if s.chance(1, 3) && p.components().count() < 4 {
            std::fs::create_dir(&rp).unwrap();
            dirs.push(p.clone());
            log.push(format!("mkdir {}", p.display()));
        } else {
            std::fs::write(&rp, "").unwrap();
            files.push(p.clone());
            log.push(format!("file {}", p.display()));
        }
    }
    let start = s.pick(&dirs).clone();
    let real = if start.as_os_str().is_empty() { root.clone() } else { root.join(&start) };
    // the directory is given by its own name, by a link, or by a name relative to the working directory
    let base = match s.weighted(&[6, 1, 1]) {
        0 => real,
        1 => {
            let l = ctx.fresh_dir("fs-lnk").join(*s.pick(&["l", "l.txt", "l*"]));
            std::os::unix::fs::symlink(&real, &l).unwrap();
            l
        }
        _ => from_here(&real),
    };
    let below: Vec<&PathBuf> = files.iter().filter(|f| f.starts_with(&start)).collect();
    let rel = |f: &Path| f.strip_prefix(&start).unwrap().to_path_buf();
    let ext = |f: &Path, e: &str| f.extension().is_some_and(|x| x == e);
    let nontrivial = below.len() >= 2 && below.iter().any(|f| rel(f).components().count() >= 2);
    let cmp = |what: &str, log: &[String], got: Vec<PathBuf>, exp: Vec<PathBuf>| -> Option<Case> {
        let (mut g, mut e) = (got, exp);
        g.sort();
        e.sort();
        (g != e).then(|| Case::fail(log.join("\n"), format!("{what}: found {g:?}, expected {e:?}")))
    };
    let abs = |v: Vec<&PathBuf>| v.into_iter().map(|f| base.join(rel(f))).collect::<Vec<_>>();
    log.push(format!("search {:?} as {:?}", start.display(), base.display()));
    // search_directory
    let want = *s.pick(&["txt", "rs", ""]);
    let pred = |p: &Path| want.is_empty() || p.extension().is_some_and(|x| x == want);
    for recursive in [true, false] {
        let got: Result<Vec<PathBuf>, _> = litcheck_core::fs::search_directory(&base, recursive, |e| pred(e.path())).map(|r| r.map(|e| e.path().to_path_buf())).collect();
        let exp = abs(below.iter().copied().filter(|f| pred(f) && (recursive || rel(f).components().count() == 1)).collect());
        match got {
            Err(e) => return Case::fail(log.join("\n"), format!("search_directory: {e}")),
            Ok(g) => {
                if let Some(c) = cmp(&format!("search_directory (recursive: {recursive}, {want:?})"), &log, g, exp) {
                    return c;
                }
            }
        }
    }
    let input = Input::from(base.clone());
    let types: Vec<String> = s.pick(&[vec!["txt"], vec!["rs", "txt"], vec!["none"]]).iter().map(|t| t.to_string()).collect();
    log.push(format!("types {types:?}"));
    match input.get_file_types(&types) {
        Err(e) => return Case::fail(log.join("\n"), format!("get_file_types: {e}")),
        Ok(v) => {
            let exp = abs(below.iter().copied().filter(|f| types.iter().any(|t| ext(f, t))).collect());
            if let Some(c) = cmp("get_file_types", &log, v.iter().map(|i| i.path().to_path_buf()).collect(), exp) {
                return c;
            }
        }
    }
    // patterns are relative to the directory, whose own name is taken literally
    let (pat, f): (&str, fn(&Path) -> bool) = *s.pick::<(&str, fn(&Path) -> bool)>(&[
        ("*.txt", |p| p.to_str().unwrap().ends_with(".txt")),
        ("**/*.rs", |p| p.to_str().unwrap().ends_with(".rs")),
        ("**/a", |p| p.file_name().unwrap() == "a"),
        ("a", |p| p == Path::new("a")),
        ("[[]x[]]", |p| p == Path::new("[x]")),
        ("**/*", |_| true),
    ]);
    log.push(format!("glob {pat}"));
    match input.glob(pat) {
        Err(e) => return Case::fail(log.join("\n"), format!("glob: {e}")),
        Ok(v) => {
            let exp = abs(below.iter().copied().filter(|p| f(&rel(p))).collect());
            if let Some(c) = cmp("glob", &log, v.iter().map(|i| i.path().to_path_buf()).collect(), exp) {
                return c;
            }
        }
    }
    // symbolic links are followed, unless they lead nowhere or back
    if s.chance(1, 3) {
        let ext = ctx.fresh_dir("fs-ext").canonicalize().unwrap();
        std::fs::create_dir(ext.join("sub")).unwrap();
        std::fs::write(ext.join("e.txt"), "").unwrap();
        std::fs::write(ext.join("sub/e.rs"), "").unwrap();
        let mut found: Vec<(PathBuf, usize)> = below.iter().map(|f| (base.join(rel(f)), rel(f).components().count())).collect();
        for _ in 0..s.range(1, 3) {
            let d = s.pick(&dirs).clone();
            let depth = |k: usize| d.strip_prefix(&start).ok().map(|x| x.components().count() + k);
            let (name, to, more): (&str, PathBuf, Vec<(&str, usize)>) = match s.below(5) {
                0 => (".#b.txt", PathBuf::from("user@host:1"), vec![]),
                1 => ("self", PathBuf::from("."), vec![]),
                2 => ("loop.rs", PathBuf::from("loop.rs"), vec![]),
                3 => ("ext.txt", ext.join("e.txt"), vec![("", 1)]),
                _ => ("extdir", ext.clone(), vec![("e.txt", 2), ("sub/e.rs", 3)]),
            };
            let at = root.join(&d).join(name);
            if std::os::unix::fs::symlink(&to, &at).is_err() {
                continue;
            }
            log.push(format!("link {} -> {}", at.strip_prefix(&root).unwrap().display(), to.display()));
            for (m, k) in more {
                if let Some(k) = depth(k) {
                    let at = base.join(d.strip_prefix(&start).unwrap()).join(name);
                    found.push((if m.is_empty() { at } else { at.join(m) }, k));
                }
            }
        }
        for recursive in [true, false] {
            let got: Result<Vec<PathBuf>, _> = litcheck_core::fs::search_directory(&base, recursive, |e| pred(e.path())).map(|r| r.map(|e| e.path().to_path_buf())).collect();
            let exp = found.iter().filter(|(p, k)| pred(p) && (recursive || *k == 1)).map(|x| x.0.clone()).collect();
            match got {
                Err(e) => return Case::fail(log.join("\n"), format!("search_directory: {e}")),
                Ok(g) => {
                    if let Some(c) = cmp(&format!("search_directory with links (recursive: {recursive}, {want:?})"), &log, g, exp) {
                        return c;
                    }
                }
            }
        }
    }
    // reading
    let t = if s.chance(1, 6) { b"x\xffy\n".to_vec() } else { text(s, 9).into_bytes() };
    let p = root.join(std::ffi::OsString::from_vec(s.pick(&[b"file.rs".to_vec(), b"fi\xffle".to_vec()]).clone()));
    std::fs::write(&p, &t).unwrap();
    let p = if s.chance(1, 3) { from_here(&p) } else { p };
    log.push(format!("read {p:?} {:?}", String::from_utf8_lossy(&t)));
    let strict = std::str::from_utf8(&t).ok().map(|t| t.to_string());
    // line endings are normalised; one at the very end of the file may be kept or not
    let lax = strict.as_ref().map(|t| t.replace("\r\n", "\n"));
    let sm = DefaultSourceManager::default();
    let i = Input::from(p.clone());
    for st in [true, false] {
        let r = i.read_to_string(st).ok();
        let src = i.into_source(st, &sm).ok();
        let ok = match (&r, if st { &strict } else { &lax }) {
            (Some(r), Some(e)) => r == e || (!st && e.strip_suffix('\n') == Some(r)),
            (r, e) => r.is_none() && e.is_none(),
        };
        if !ok {
            return Case::fail(log.join("\n"), format!("read (strict: {st}): {r:?}"));
        }
        match (src, r) {
            (Some(f), Some(r)) if f.as_str() == r && *f.uri() == FileName::from(p.as_path()) => {}
            (None, None) => {}
            (f, r) => return Case::fail(log.join("\n"), format!("source: {:?}, text: {r:?}", f.map(|f| (f.as_str().to_string(), f.uri().clone())))),
        }
    }
    if Input::from(root.join("missing!")).read_to_string(true).is_ok() {
        return Case::fail(log.join("\n"), "read a file which does not exist");
    }
    Case::ok(log.join("\n"), nontrivial)
}

pub const PROPS: &[Prop] = &[
    Prop { id: "K07", run: k07, quick: 300000, thorough: 4000000, hang: 30, rule: "at least two names, and a text which is replaced or loaded again", oracle: "tables from identifier to text and from name to identifier", known: no_known },
    Prop { id: "K08", run: k08, quick: 6000000, thorough: 60000000, hang: 30, rule: "operands other than 0, spans and texts which are not empty", oracle: "arithmetic on 128-bit integers; slices of the text", known: no_known },
    Prop { id: "K09", run: k09, quick: 150000, thorough: 2500000, hang: 30, rule: "at least two files, one of them in a directory below", oracle: "list of the files created", known: no_known },
];
