//! D01..D03: repodata documents.
//!
//! The reference is an abstract document (`Doc`), a serialiser for it, and `verdict`, which reads any byte
//! string with this crate's own JSON reader and says what loading it must give.
use crate::engine::{guard, h, scratch, Ctx, Space, Tier, R};
use crate::gen;
use crate::json::{self, esc, J};
use crate::model;
use crate::{expect, fail};
use ronda::{read_repodata, Record, Repodata};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Rec {
    /// build md5 name sha256 version
    pub s: [String; 5],
    pub depends: Vec<String>,
    pub build_number: u64,
    pub size: u64,
    pub timestamp: u64,
}
const STR: [&str; 5] = ["build", "md5", "name", "sha256", "version"];
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Doc {
    pub subdir: String,
    /// packages, packages.conda
    pub sec: [Vec<(String, Rec)>; 2],
    pub format: u64,
    pub removed: Vec<String>,
}

pub fn rec(k: usize) -> Rec {
    Rec {
        s: [format!("py{}_{}", k, k % 3), format!("{:032x}", k * 7919), format!("pkg{}", k), format!("{:064x}", k * 104729 + 1), format!("1.{}.{}", k / 10, k % 10)],
        depends: (0..k % 4).map(|i| format!("dep{} >=1.{},<2.0a0", i, k)).collect(),
        build_number: (k % 7) as u64,
        size: 1000 + k as u64,
        timestamp: 1568316198231 + k as u64,
    }
}
pub fn fname(k: usize, conda: bool) -> String {
    format!("pkg{}-1.{}.{}-py{}_{}.{}", k, k / 10, k % 10, k, k % 3, if conda { "conda" } else { "tar.bz2" })
}
pub fn doc(np: usize, nc: usize) -> Doc {
    Doc {
        subdir: "linux-64".into(),
        sec: [(0..np).map(|k| (fname(k, false), rec(k))).collect(), (0..nc).map(|k| (fname(k + 1, true), rec(k + 1))).collect()],
        format: 1,
        removed: vec!["old-1.0-0.tar.bz2".into()],
    }
}

// ---- JSON trees and their serialisations --------------------------------------------------------
pub fn js(s: &str) -> J {
    J::Str(s.to_string())
}
pub fn jn(n: u64) -> J {
    J::Num(n.to_string())
}
pub fn rec_json(r: &Rec) -> J {
    let mut o: Vec<(String, J)> = STR.iter().zip(&r.s).map(|(k, v)| (k.to_string(), js(v))).collect();
    o.insert(1, ("build_number".into(), jn(r.build_number)));
    o.insert(2, ("depends".into(), J::Arr(r.depends.iter().map(|d| js(d)).collect())));
    o.push(("size".into(), jn(r.size)));
    o.push(("timestamp".into(), jn(r.timestamp)));
    o.sort_by(|a, b| a.0.cmp(&b.0));
    J::Obj(o)
}
pub fn doc_json(d: &Doc) -> J {
    let sec = |i: usize| J::Obj(d.sec[i].iter().map(|(n, r)| (n.clone(), rec_json(r))).collect());
    J::Obj(vec![
        ("info".into(), J::Obj(vec![("subdir".into(), js(&d.subdir))])),
        ("packages".into(), sec(0)),
        ("packages.conda".into(), sec(1)),
        ("removed".into(), J::Arr(d.removed.iter().map(|d| js(d)).collect())),
        ("repodata_version".into(), jn(d.format)),
    ])
}
/// a token list of the compact serialisation, so that whitespace can be put at every boundary
pub fn tokens(j: &J, out: &mut Vec<String>) {
    match j {
        J::Null => out.push("null".into()),
        J::Bool(b) => out.push(b.to_string()),
        J::Num(n) => out.push(n.clone()),
        J::Str(s) => out.push(esc(s)),
        J::BadStr => out.push("\"\\ud800\"".into()),
        J::Arr(v) => {
            out.push("[".into());
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(",".into())
                }
                tokens(x, out)
            }
            out.push("]".into())
        }
        J::Obj(v) => {
            out.push("{".into());
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(",".into())
                }
                out.push(esc(k));
                out.push(":".into());
                tokens(x, out)
            }
            out.push("}".into())
        }
    }
}
pub fn compact(j: &J) -> String {
    let mut t = vec![];
    tokens(j, &mut t);
    t.concat()
}
pub fn pretty(j: &J) -> String {
    fn go(j: &J, ind: usize, o: &mut String) {
        let nl = |o: &mut String, n: usize| {
            o.push('\n');
            o.push_str(&"  ".repeat(n))
        };
        match j {
            J::Arr(v) if !v.is_empty() => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    nl(o, ind + 1);
                    go(x, ind + 1, o)
                }
                nl(o, ind);
                o.push(']')
            }
            J::Obj(v) if !v.is_empty() => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    nl(o, ind + 1);
                    o.push_str(&esc(k));
                    o.push_str(": ");
                    go(x, ind + 1, o)
                }
                nl(o, ind);
                o.push('}')
            }
            _ => o.push_str(&compact(j)),
        }
    }
    let mut o = String::new();
    go(j, 0, &mut o);
    o.push('\n');
    o
}

// ---- what loading must give ---------------------------------------------------------------------
#[derive(Debug, Clone)]
pub enum Verdict {
    Doc(Box<Doc>),
    /// must be an error
    Bad(String),
    /// not settled by the statements
    Open,
}
enum No {
    Bad(String),
    Open,
}
type V<T> = Result<T, No>;
fn bad<T>(s: impl Into<String>) -> V<T> {
    Err(No::Bad(s.into()))
}
fn has_bad_str(j: &J) -> bool {
    match j {
        J::BadStr => true,
        J::Arr(v) => v.iter().any(has_bad_str),
        J::Obj(v) => v.iter().any(|x| has_bad_str(&x.1)),
        _ => false,
    }
}
/// the known fields of an object, each exactly once
fn fields<'a>(j: &'a J, names: &[&str], what: &str) -> V<Vec<&'a J>> {
    let o = match j {
        J::Obj(o) => o,
        J::Arr(_) => return Err(No::Open), // listing the fields in order: left open
        _ => return bad(format!("{} is not an object", what)),
    };
    let mut open = false;
    for (k, v) in o {
        if !names.contains(&k.as_str()) && has_bad_str(v) {
            open = true
        }
    }
    let mut out = vec![];
    for n in names {
        let f: Vec<&J> = o.iter().filter(|x| x.0 == *n).map(|x| &x.1).collect();
        match f.len() {
            0 => return bad(format!("{} lacks {}", what, n)),
            1 => out.push(f[0]),
            _ => return bad(format!("{} repeats {}", what, n)),
        }
    }
    if open {
        return Err(No::Open);
    }
    Ok(out)
}
/// collect the worst of several independent checks: a definite fault wins over an open question
fn all<T>(v: Vec<V<T>>) -> V<Vec<T>> {
    let mut open = false;
    let mut out = vec![];
    for x in v {
        match x {
            Ok(x) => out.push(x),
            Err(No::Open) => open = true,
            Err(b) => return Err(b),
        }
    }
    if open {
        Err(No::Open)
    } else {
        Ok(out)
    }
}
fn text(j: &J, what: &str) -> V<String> {
    match j {
        J::Str(s) => Ok(s.clone()),
        J::BadStr => Err(No::Open),
        _ => bad(format!("{} is not a text", what)),
    }
}
fn texts(j: &J, what: &str) -> V<Vec<String>> {
    match j {
        J::Arr(v) => all(v.iter().map(|x| text(x, what)).collect()),
        _ => bad(format!("{} is not a list", what)),
    }
}
fn int(j: &J, max: u64, what: &str) -> V<u64> {
    match j {
        J::Num(n) if n == "-0" => Err(No::Open),
        J::Num(n) if n.contains(|c| ".eE".contains(c)) => match n.parse::<f64>() {
            Ok(f) if f.is_finite() && f >= 0.0 && f <= max as f64 && f.fract() == 0.0 => Err(No::Open), // 1.0 for 1
            _ => bad(format!("{} is not a whole number in range", what)),
        },
        J::Num(n) => match n.parse::<u64>() {
            Ok(v) if v <= max => Ok(v),
            _ => bad(format!("{} is out of range", what)),
        },
        _ => bad(format!("{} is not a number", what)),
    }
}
fn record(j: &J) -> V<Rec> {
    let f = fields(j, &["build", "md5", "name", "sha256", "version", "depends", "build_number", "size", "timestamp"], "a record")?;
    let v = match text(f[4], "version") {
        Ok(v) if !model::defined(&v) => Err(No::Open),
        Ok(v) if model::parse(&v).is_none() => bad(format!("{:?} is not a version", v)),
        x => x,
    };
    let mut s = all(vec![text(f[0], "build"), text(f[1], "md5"), text(f[2], "name"), text(f[3], "sha256"), v]);
    let d = texts(f[5], "depends");
    let n = all(vec![int(f[6], 0xffff, "build_number"), int(f[7], u64::MAX, "size"), int(f[8], u64::MAX, "timestamp")]);
    // a definite fault anywhere beats an open question
    if let (Err(No::Open), Err(No::Bad(b))) = (&s, d.as_ref().map(|_| ())) {
        s = bad(b.clone());
    }
    if let (Err(No::Open), Err(No::Bad(b))) = (&s, n.as_ref().map(|_| ())) {
        s = bad(b.clone());
    }
    if let (Ok(_), Err(No::Open), Err(No::Bad(b))) = (&s, &d, &n) {
        s = bad(b.clone());
    }
    let (s, d, n) = (s?, d?, n?);
    let s: Vec<String> = s;
    Ok(Rec { s: [s[0].clone(), s[1].clone(), s[2].clone(), s[3].clone(), s[4].clone()], depends: d, build_number: n[0], size: n[1], timestamp: n[2] })
}
fn section(j: &J) -> V<Vec<(String, Rec)>> {
    let o = match j {
        J::Obj(o) => o,
        _ => return bad("a section is not an object"),
    };
    let recs = all(o.iter().map(|(_, r)| record(r)).collect())?;
    let mut names: Vec<&String> = o.iter().map(|x| &x.0).collect();
    names.sort();
    if names.windows(2).any(|w| w[0] == w[1]) {
        return Err(No::Open);
    }
    Ok(o.iter().map(|x| x.0.clone()).zip(recs).collect())
}
pub fn verdict(b: &[u8]) -> Verdict {
    let j = match json::parse(b) {
        Ok(j) => j,
        Err(true) => return Verdict::Bad("not JSON".into()),
        Err(false) => return Verdict::Open,
    };
    let f = match fields(&j, &["info", "packages", "packages.conda", "removed", "repodata_version"], "the document") {
        Ok(f) => f,
        Err(No::Bad(s)) => return Verdict::Bad(s),
        Err(No::Open) => return Verdict::Open,
    };
    let info = fields(f[0], &["subdir"], "info").and_then(|x| text(x[0], "subdir"));
    let (p, c, r, v) = (section(f[1]), section(f[2]), texts(f[3], "removed"), int(f[4], 255, "repodata_version"));
    let mut open = false;
    for e in [info.as_ref().err(), p.as_ref().err(), c.as_ref().err(), r.as_ref().err(), v.as_ref().err()].into_iter().flatten() {
        match e {
            No::Bad(s) => return Verdict::Bad(s.clone()),
            No::Open => open = true,
        }
    }
    if open {
        return Verdict::Open;
    }
    Verdict::Doc(Box::new(Doc {
        subdir: info.ok().unwrap(),
        sec: [p.ok().unwrap(), c.ok().unwrap()],
        format: v.ok().unwrap(),
        removed: r.ok().unwrap(),
    }))
}

// ---- running the real loader --------------------------------------------------------------------
/// differences between what was loaded and the document
pub fn diff(r: &Repodata, d: &Doc) -> Option<String> {
    if r.info.subdir != d.subdir {
        return Some(format!("subdir is {:?}, the file says {:?}", r.info.subdir, d.subdir));
    }
    if r.repodata_version as u64 != d.format {
        return Some(format!("format version is {}, the file says {}", r.repodata_version, d.format));
    }
    if r.removed != d.removed {
        return Some(format!("removed is {:?}, the file says {:?}", r.removed, d.removed));
    }
    let one = |m: &HashMap<String, Record>, want: &[(String, Rec)], sec: &str| {
        if m.len() != want.len() {
            return Some(format!("{} holds {} records, the file lists {}", sec, m.len(), want.len()));
        }
        for (n, w) in want {
            let Some(g) = m.get(n) else { return Some(format!("{} has lost {:?}", sec, n)) };
            let gs = [&g.build, &g.md5, &g.name, &g.sha256];
            for i in 0..4 {
                if *gs[i] != w.s[i] {
                    return Some(format!("{} {:?}: {} is {:?}, the file says {:?}", sec, n, STR[i], gs[i], w.s[i]));
                }
            }
            if g.version.as_str() != w.s[4] {
                return Some(format!("{} {:?}: version is {:?}, the file says {:?}", sec, n, g.version.as_str(), w.s[4]));
            }
            if !gen::over_limit(&w.s[4]) && model::parse(&w.s[4]).as_ref() != Some(&gen::parts(&g.version)) && !gen::foreign_digit(&w.s[4]) {
                return Some(format!("{} {:?}: the version's parts are {:?}, its text is {:?}", sec, n, g.version.parts(), w.s[4]));
            }
            if g.depends != w.depends {
                return Some(format!("{} {:?}: depends is {:?}, the file says {:?}", sec, n, g.depends, w.depends));
            }
            let (gn, wn) = ([g.build_number as u64, g.size, g.timestamp], [w.build_number, w.size, w.timestamp]);
            if gn != wn {
                return Some(format!("{} {:?}: build number, size, timestamp are {:?}, the file says {:?}", sec, n, gn, wn));
            }
        }
        None
    };
    one(&r.packages, &d.sec[0], "packages").or_else(|| one(&r.packages_conda, &d.sec[1], "packages.conda"))
}
fn file() -> String {
    thread_local! { static F: String = {
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static N: AtomicUsize = AtomicUsize::new(0);
        format!("{}/doc{}.json", scratch(), N.fetch_add(1, SeqCst))
    } }
    F.with(|f| f.clone())
}
pub fn load(b: &[u8]) -> Result<Result<Repodata, String>, String> {
    let f = file();
    std::fs::write(&f, b).unwrap();
    guard(|| read_repodata(&f).map_err(|e| format!("{} {:?}", e, e)))
}
pub fn shorten(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 700 {
        format!("{}...", s.chars().take(700).collect::<String>())
    } else {
        s.into_owned()
    }
}
/// the bytes must load to this document
pub fn loads(b: &[u8], d: &Doc, what: &str, c: &mut Ctx) -> R {
    c.called(1);
    c.state(h(&(d, b.len())));
    match load(b) {
        Err(p) => fail!(what; "loading panics: {}", p),
        Ok(Err(e)) => fail!(what; "a well-formed file is refused: {}", e),
        Ok(Ok(r)) => match diff(&r, d) {
            None => Ok(()),
            Some(m) => fail!(what; "{}", m),
        },
    }
}
/// the bytes must give whatever `verdict` says
pub fn judged(b: &[u8], what: &str, c: &mut Ctx) -> R {
    c.called(1);
    let v = verdict(b);
    c.state(h(&(b, matches!(v, Verdict::Bad(_)))));
    match (load(b), v) {
        (Err(p), _) => fail!(what; "loading panics: {}", p),
        (Ok(Ok(_)), Verdict::Bad(m)) => fail!(what; "the file is accepted although it is damaged: {}", m),
        (Ok(Err(e)), Verdict::Doc(_)) => fail!(what; "a well-formed file is refused: {}", e),
        (Ok(Ok(r)), Verdict::Doc(d)) => match diff(&r, &d) {
            None => Ok(()),
            Some(m) => fail!(what; "{}", m),
        },
        (_, Verdict::Open) => {
            c.skipped += 1;
            Ok(())
        }
        (Ok(Err(_)), Verdict::Bad(_)) => Ok(()),
    }
}

type Gen<T> = Arc<dyn Fn(u64) -> T + Send + Sync>;
/// a space of documents that must load as they are
fn docs(name: &str, bound: &str, n: u64, f: impl Fn(u64) -> Doc + Send + Sync + 'static) -> Space {
    let g: Gen<Doc> = Arc::new(f);
    let g2 = g.clone();
    let nm = name.to_string();
    Space::new(
        name,
        bound,
        n,
        move |i| shorten(compact(&doc_json(&g2(i))).as_bytes()),
        move |i, c| {
            let d = g(i);
            let j = doc_json(&d);
            let t = if i % 2 == 0 { compact(&j) } else { pretty(&j) };
            loads(t.as_bytes(), &d, &format!("{}[{}]", nm, i), c)
        },
    )
}
fn bytes(name: &str, bound: &str, n: u64, f: impl Fn(u64) -> Vec<u8> + Send + Sync + 'static) -> Space {
    let g: Gen<Vec<u8>> = Arc::new(f);
    let g2 = g.clone();
    let nm = name.to_string();
    Space::new(name, bound, n, move |i| shorten(&g2(i)), move |i, c| judged(&g(i), &format!("{}[{}]", nm, i), c))
}

fn string_values() -> Vec<String> {
    let mut v = gen::s(&[
        "", " ", "a", "A", "0", "null", "true", "1.0", "-", ".", "/", "\\", "\"", "\"\"", "\\\"", "\\u0041", "\n", "\t", "\r\n", "\u{0}", "\u{1}", "\u{1f}", "\u{7f}", "é", "É", "日本語", "😀",
        "\u{feff}x", "\u{2028}", "a b", " a", "a ", "{}", "[]", "{\"a\":1}", "packages", "name", "win-64", "noarch", "x:y", "x,y", "numpy >=1.11,<2.0a0", "é́", "ﬀ", "İ", "None", "NaN", "1e5", "0x1F", "C:\\dir", "%s", "a\u{0}b", "unknown", "undefined",
    ]);
    v.extend(crate::dict::words());
    for n in [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537].into_iter().chain(crate::dict::nums(200_000).into_iter().map(|n| n as usize).filter(|n| *n > 4)) {
        v.push("abcdefghij".chars().cycle().take(n).collect());
    }
    v
}
fn version_values() -> Vec<String> {
    let mut v = gen::s(&["", "1", "1.0", "0", "1.0.post1", "2!1.0", "1.0+local.1", "1_2-3", "2020.1.1", "1.0rc1", "0.0.0.0.1", "dev", "post", "1..2", "é", "1.é", "a b", "\"", "\\", "1\n2", "1.0+", "32767!1", "001.010"]);
    v.push(vec!["1"; 100].join("."));
    v.push("1234567890".repeat(20));
    v.push("a".repeat(300));
    v
}
fn list_values() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![vec![], vec!["".into()], vec!["".into(), "".into()], gen::s(&["a", "a"]), gen::s(&["b", "a"]), gen::s(&["a", "A"]), gen::s(&["c", "b", "a", "b", "c"]), gen::s(&[" a ", "a"])];
    v.push(string_values().into_iter().take(40).collect());
    v.push(gen::s(&["python >=3.6", "numpy", "python <4", "numpy >=1.11,<2.0a0", "numpy"]));
    v.push((0..300).map(|i| format!("d{}", i % 17)).collect());
    v.push(crate::dict::words());
    v
}
fn int_values(max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=20).collect();
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
    }
    let mut p = 1u64;
    for _ in 0..19 {
        p *= 10;
        v.extend([p - 1, p, p + 1])
    }
    v.extend(crate::dict::nums(i64::MAX - 1).into_iter().map(|n| n as u64));
    v.extend([u64::MAX, u64::MAX - 1, 1568316198231, 1568316198, 0x7fff_ffff_ffff_fffe, max, max - 1]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
pub type Edit = Arc<dyn Fn(&mut Doc, usize, usize) + Send + Sync>;
/// every (field, value) edit of one record
pub fn record_edits() -> Vec<(String, Edit)> {
    let mut o: Vec<(String, Edit)> = vec![];
    for f in 0..5 {
        let vals = if f == 4 { version_values() } else { string_values() };
        for v in vals {
            o.push((format!("{}={:?}", STR[f], v), Arc::new(move |d, s, k| d.sec[s][k].1.s[f] = v.clone())));
        }
    }
    for v in list_values() {
        o.push((format!("depends={:?}", v), Arc::new(move |d, s, k| d.sec[s][k].1.depends = v.clone())));
    }
    for v in int_values(0xffff) {
        o.push((format!("build_number={}", v), Arc::new(move |d, s, k| d.sec[s][k].1.build_number = v)));
    }
    for v in int_values(u64::MAX) {
        o.push((format!("size={}", v), Arc::new(move |d, s, k| d.sec[s][k].1.size = v)));
        o.push((format!("timestamp={}", v), Arc::new(move |d, s, k| d.sec[s][k].1.timestamp = v)));
    }
    for v in string_values() {
        o.push((format!("file name={:?}", v), Arc::new(move |d, s, k| d.sec[s][k].0 = v.clone())));
    }
    o
}
pub fn root_edits() -> Vec<(String, Edit)> {
    let mut o: Vec<(String, Edit)> = vec![];
    for v in string_values() {
        o.push((format!("subdir={:?}", v), Arc::new(move |d, _, _| d.subdir = v.clone())));
    }
    for v in list_values() {
        o.push((format!("removed={:?}", v), Arc::new(move |d, _, _| d.removed = v.clone())));
    }
    for v in 0..=255 {
        o.push((format!("repodata_version={}", v), Arc::new(move |d, _, _| d.format = v)));
    }
    o
}
pub fn real_file() -> Option<(Vec<u8>, Doc)> {
    let b = std::fs::read("/repo/core/tests/data/current_repodata.json").ok()?;
    match verdict(&b) {
        Verdict::Doc(d) => Some((b, *d)),
        _ => None,
    }
}

pub fn d01(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let re = Arc::new(record_edits());
    let (r1, n) = (re.clone(), re.len() as u64);
    v.push(docs("one-field", "every boundary value of every field, in each of 5 records of a document", n * 5, move |i| {
        let mut d = doc(3, 2);
        let (s, k) = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1)][(i / n) as usize];
        r1[(i % n) as usize].1(&mut d, s, k);
        d
    }));
    let ro = Arc::new(root_edits());
    let r1 = ro.clone();
    v.push(docs("root-fields", "every boundary value of subdir and removed, every format version", ro.len() as u64, move |i| {
        let mut d = doc(1, 1);
        r1[i as usize].1(&mut d, 0, 0);
        d
    }));
    // one text in every place of a document that holds text, and beside itself
    let ps: Arc<Vec<String>> = Arc::new(gen::pool(tier).into_iter().filter(|t| model::parse(t).is_some()).collect());
    v.push(docs("text-everywhere", "each of a long list of texts (words, numbers, names, every length to 300, thorough 1100, many characters) as subdir, removed, file name, and every text, version and dependency of a record, and within other text in the next record", ps.len() as u64 * 2, move |i| {
        let t = &ps[(i / 2) as usize];
        let s = (i % 2) as usize;
        let mut d = doc(1 + (1 - s), 1 + s);
        d.subdir = t.clone();
        d.removed = vec![t.clone(), format!("{}.conda", t), t.clone()];
        for f in 0..5 {
            d.sec[s][0].1.s[f] = t.clone();
        }
        d.sec[s][0].1.depends = vec![format!("{} >={}", t, t), t.clone(), "b".into(), format!("b {}", t)];
        d.sec[s][0].0 = t.clone();
        for f in 0..4 {
            d.sec[s][1].1.s[f] = format!("{}{}{}", ["", "x", "lib-", "py_"][f], t, ["x", "_0", "", "-1"][f]);
        }
        d.sec[s][1].0 = format!("p-{}-0.tar.bz2", t);
        d
    }));
    // two fields of one record at once
    let small: Vec<(String, Edit)> = {
        let mut o: Vec<(String, Edit)> = vec![];
        for f in 0..5usize {
            let vals = if f == 4 { gen::s(&["", "0", "1.0", "2!1.0+a"]) } else { gen::s(&["", "0", "x", "é\"\\", "1.0"]) };
            for v in vals {
                o.push((String::new(), Arc::new(move |d, s, k| d.sec[s][k].1.s[f] = v.clone())));
            }
        }
        for v in [vec![], gen::s(&["a"]), gen::s(&["b", "a", "b"])] {
            o.push((String::new(), Arc::new(move |d, s, k| d.sec[s][k].1.depends = v.clone())));
        }
        for v in [0, 1, 255, 256, 65535] {
            o.push((String::new(), Arc::new(move |d, s, k| d.sec[s][k].1.build_number = v)));
        }
        for v in [0, 1, u32::MAX as u64, u32::MAX as u64 + 1, (1 << 53) + 1, 1 << 63, u64::MAX] {
            o.push((String::new(), Arc::new(move |d, s, k| d.sec[s][k].1.size = v)));
            o.push((String::new(), Arc::new(move |d, s, k| d.sec[s][k].1.timestamp = v)));
        }
        o
    };
    let small = Arc::new(small);
    let m = small.len() as u64;
    let s1 = small.clone();
    v.push(docs("two-fields", "every pair of field values (boundary list) of one record in either section", m * m * 2, move |i| {
        let mut d = doc(1, 1);
        let s = (i / (m * m)) as usize;
        s1[(i % m) as usize].1(&mut d, s, 0);
        s1[(i / m % m) as usize].1(&mut d, s, 0);
        d
    }));
    if tier == Tier::Thorough {
        let s1 = small.clone();
        v.push(docs("three-fields", "every triple of field values (boundary list) of one record", m * m * m, move |i| {
            let mut d = doc(2, 1);
            s1[(i % m) as usize].1(&mut d, 0, 1);
            s1[(i / m % m) as usize].1(&mut d, 0, 1);
            s1[(i / m / m) as usize].1(&mut d, 0, 1);
            d
        }));
        v.push(docs("build-numbers", "every build number", 65536, |i| {
            let mut d = doc(1, 1);
            d.sec[(i % 2) as usize][0].1.build_number = i;
            d
        }));
    }
    // which records where: every subset of three file names in each section, in every order
    let names = ["a.tar.bz2", "a.conda", "b"];
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for l in 1..=3usize {
        for x in gen::seqs(&["0", "1", "2"], l as u32, "").into_iter().filter(|w| w.len() == l) {
            let w: Vec<usize> = x.bytes().map(|b| (b - b'0') as usize).collect();
            let mut u = w.clone();
            u.sort();
            u.dedup();
            if u.len() == l {
                orders.push(w)
            }
        }
    }
    let k = orders.len() as u64;
    v.push(docs("placement", "every choice and order of three file names in each section, records all alike / same package / all different", k * k * 3, move |i| {
        let mut d = doc(0, 0);
        let mode = i / (k * k);
        for s in 0..2 {
            for x in &orders[(if s == 0 { i % k } else { i / k % k }) as usize] {
                let mut r = rec(match mode {
                    0 => 1,
                    1 => 2,
                    _ => 10 * s + x,
                });
                if mode == 1 {
                    r.build_number = (10 * s + x) as u64; // same name, version and build text
                }
                d.sec[s].push((names[*x].to_string(), r));
            }
        }
        d
    }));
    // records that agree in everything but one field, and file names that nearly collide
    let near = [
        ("p-1.0-0.tar.bz2", "p-1.0-0.conda"), ("p-1.0-0.tar.bz2", "P-1.0-0.tar.bz2"), ("p-1.0-0.tar.bz2", "p-1.0-0.tar.bz2 "), ("p-1.0-0", "p-1.0-00"), ("p-1.0-0", "p-1_0-0"), ("p-1.0-0", "p-1.00-0"),
        ("", " "), ("é", "e\u{301}"), ("a/b", "b"), ("a", "a\u{0}"), ("p-1.0-0.tar.bz2", "p-1.0-1.tar.bz2"), ("x", "packages"), ("packages.conda", "packages"),
    ];
    v.push(docs("near-duplicates", "two records differing in one field (or none) under nearly equal file names, same or different section, both orders", 13 * 10 * 3 * 2, move |i| {
        let (nm, f, place, ord) = (near[(i % 13) as usize], i / 13 % 10, i / 130 % 3, i / 390);
        let mut d = doc(0, 0);
        let a = rec(5);
        let mut b = a.clone();
        match f {
            0..=4 => b.s[f as usize] = if f == 4 { "9.9".into() } else { "other".into() },
            5 => b.depends = vec!["other".into()],
            6 => b.build_number = 99,
            7 => b.size = 99,
            8 => b.timestamp = 99,
            _ => {}
        }
        let mut two = vec![(nm.0.to_string(), a, if place == 1 { 1 } else { 0 }), (nm.1.to_string(), b, if place == 0 { 0 } else { 1 })];
        if ord == 1 {
            two.reverse()
        }
        for (n, r, s) in two {
            d.sec[s].push((n, r))
        }
        d
    }));
    v.push(docs("shared-fields", "two records that agree in every subset of the nine fields, under file names that are alike in 5 ways, same or different section, both orders", 512 * 5 * 3 * 2, |i| {
        let (mask, nm, place, ord) = (i % 512, i / 512 % 5, i / 2560 % 3, i / 7680);
        let (a, o) = (rec(5), rec(6));
        let mut b = o.clone();
        for f in 0..5 {
            if mask >> f & 1 == 1 {
                b.s[f] = a.s[f].clone()
            }
        }
        if mask >> 5 & 1 == 1 {
            b.depends = a.depends.clone()
        }
        if mask >> 6 & 1 == 1 {
            b.build_number = a.build_number
        }
        if mask >> 7 & 1 == 1 {
            b.size = a.size
        }
        if mask >> 8 & 1 == 1 {
            b.timestamp = a.timestamp
        }
        let stem = |r: &Rec| format!("{}-{}-{}", r.s[2], r.s[4], r.s[0]);
        let (na, nb) = match nm {
            0 => (format!("{}.tar.bz2", stem(&a)), format!("{}.conda", stem(&a))),
            1 => (format!("{}.tar.bz2", stem(&a)), format!("{}.tar.bz2", stem(&b) + if mask & 0b10101 == 0b10101 { "x" } else { "" })),
            2 => (stem(&a), stem(&a).to_uppercase()),
            3 => (stem(&a), format!("{} ", stem(&a))),
            _ => ("a".into(), "b".into()),
        };
        let mut d = doc(0, 0);
        let mut two = vec![(na, a, if place == 1 { 1 } else { 0 }), (nb, b, if place == 0 { 0 } else { 1 })];
        if ord == 1 {
            two.reverse()
        }
        for (n, r, s) in two {
            d.sec[s].push((n, r))
        }
        d
    }));
    let cv = Arc::new(channel_versions(tier));
    let n = cv.len() as u64;
    v.push(docs("channel", "documents as a channel has them: each of a list of versions as 70 packages' version, in their file names, digests, builds, 24 forms of dependency and in the removed list, under 22 subdirs", n, move |i| channel(&cv, i as usize)));
    // one field of many records holding texts one edit apart
    const NEAR_LEN: [usize; 12] = [2, 3, 4, 8, 12, 16, 17, 20, 32, 40, 64, 200];
    v.push(docs("near-texts", "records whose one text field (or dependencies, file names, removed entries) holds every text one edit from a base text (changed, swapped, dropped, re-cased characters, turned round) of 12 lengths in 4 styles, in one section or both", 12 * 4 * 8 * 2, |i| {
        let (len, style, f, both) = (NEAR_LEN[(i % 12) as usize], i / 12 % 4, (i / 48 % 8) as usize, i / 384 == 1);
        let ts = near_texts(len, style as usize, f == 4);
        let mut d = doc(0, 0);
        if f == 7 {
            d.removed = ts.iter().chain(ts.iter().rev()).cloned().collect();
            return d;
        }
        for (k, t) in ts.iter().enumerate() {
            let mut r = rec(5);
            let mut name = format!("p-{}", k);
            match f {
                0..=4 => r.s[f] = t.clone(),
                5 => r.depends = vec![t.clone(), "q".into(), ts[0].clone()],
                _ => name = t.clone(),
            }
            d.sec[if both { k % 2 } else { 0 }].push((name, r));
        }
        d
    }));
    v.push(docs("fields-related", "within a record, one text field equal to another, or to a text made of the others, or the file name made of them", 5 * 9 * 2, |i| {
        let (f, how, s) = ((i % 5) as usize, i / 5 % 9, (i / 45) as usize);
        let mut d = doc(1, 1);
        let r = d.sec[s][0].1.clone();
        let (v, stem) = (r.s[4].clone(), format!("{}-{}-{}", r.s[2], r.s[4], r.s[0]));
        let x = match how {
            0..=4 => r.s[how as usize].clone(),
            5 => stem.clone(),
            6 => d.sec[s][0].0.clone(),
            7 => format!("{} {}", r.s[2], v),
            _ => d.subdir.clone(),
        };
        if f != 4 || (model::defined(&x) && model::parse(&x).is_some()) {
            d.sec[s][0].1.s[f] = x.clone();
        }
        if how == 8 {
            d.sec[s][0].0 = format!("{}.conda", stem)
        }
        d.sec[s][0].1.depends = vec![x.clone(), r.s[2].clone(), format!("{} {}", r.s[2], v)];
        d.removed = vec![d.sec[s][0].0.clone(), x];
        d
    }));
    v.push(docs("same-name-both-sections", "the same file name in both sections, records differing in one field", 9, |i| {
        let mut d = doc(1, 0);
        let mut r = d.sec[0][0].1.clone();
        match i {
            0..=4 => r.s[i as usize] = "7".into(),
            5 => r.depends = vec!["q".into()],
            6 => r.build_number = 77,
            7 => r.size = 77,
            _ => r.timestamp = 77,
        }
        let n = d.sec[0][0].0.clone();
        d.sec[1].push((n, r));
        d
    }));
    // how many records
    let mut counts: Vec<(usize, usize)> = (0..=70).flat_map(|a| [(a, 0), (0, a), (a, a)]).collect();
    for n in [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097] {
        counts.extend([(n, 3), (2, n), (n, n)]);
    }
    if tier == Tier::Thorough {
        counts.extend((71..700).map(|a| (a, 700 - a)));
        counts.extend([(65535, 1), (1, 65536), (65537, 0), (100_000, 50_000)]);
    }
    counts.extend(crate::dict::nums(tier.pick(5000, 100_000)).into_iter().flat_map(|n| [(n as usize, 2), (1, n as usize)]));
    counts.sort();
    counts.dedup();
    v.push(docs("record-counts", "numbers the source names, 0..70 and sizes around powers of two up to 4097 (thorough 100000) records per section", counts.len() as u64, move |i| {
        let (a, b) = counts[i as usize];
        doc(a, b)
    }));
    let mut ls: Vec<u64> = (0..=300).chain(crate::dict::nums(20_000).into_iter().map(|n| n as u64)).collect();
    ls.sort();
    ls.dedup();
    v.push(docs("list-lengths", "dependency and removed lists of 0..300 entries and of numbers the source names", ls.len() as u64 * 2, move |i| {
        let mut d = doc(1, 1);
        let l: Vec<String> = (0..ls[(i / 2) as usize]).map(|k| format!("e{}", (k * 7) % 23)).collect();
        if i % 2 == 0 {
            d.sec[0][0].1.depends = l
        } else {
            d.removed = l
        }
        d
    }));
    let tw = Arc::new(text_words(tier));
    let nt = tw.len() as u64;
    v.push(docs("text-words", &format!("every text of <= 3 (thorough 4) of 20 symbols with a meaning in JSON or in escapes, and the words the source names within other text ({}), in every text field, key and list at once", nt), nt, move |i| all_texts(&tw[i as usize])));
    // every character in every kind of text
    let nc = tier.pick(0x3100, gen::CHARS);
    v.push(docs("every-char", "every character (quick: the first 0x3100) inside every text field, key and list of a document", nc, |i| {
        let ch = gen::nth_char(i);
        let t = format!("a{}b", ch);
        let mut d = doc(1, 1);
        d.subdir = t.clone();
        d.removed = vec![t.clone(), ch.to_string()];
        for s in 0..2 {
            let x = &mut d.sec[s][0];
            x.0 = format!("{}{}", ch, s);
            x.1.depends = vec![t.clone(), t.clone()];
            for f in 0..4 {
                x.1.s[f] = t.clone()
            }
            if ch != '!' && ch != '+' {
                x.1.s[4] = format!("1.{}", ch)
            }
        }
        d
    }));
    let vs: Arc<Vec<String>> = Arc::new(
        gen::dedup(gen::words(&crate::ver::ALPHA, 3).into_iter().chain(gen::mixed(tier.pick(2, 3), false)).collect())
            .into_iter()
            .filter(|t| model::defined(t) && model::parse(t).is_some())
            .collect(),
    );
    let nv = vs.len() as u64;
    v.push(docs("versions", "every well-formed version of the version alphabet (<= 3 symbols) and the mixed set, as a record's version", nv, move |i| {
        let mut d = doc(1, 1);
        d.sec[0][0].1.s[4] = vs[i as usize].clone();
        d.sec[1][0].1.s[4] = vs[(nv - 1 - i) as usize].clone();
        d
    }));
    v.push(dense(tier));
    v.push(lengths_space(tier, "file-lengths"));
    // the file changes under the same path
    let re2 = re.clone();
    v.push(Space::new(
        "reload",
        "every document, then every one of 12 others at the same path, then the first again",
        12 * 12,
        |i| format!("documents {} and {}", i / 12, i % 12),
        move |i, c| {
            let mk = |k: u64| {
                let mut d = doc(1 + (k % 3) as usize, (k / 3 % 2) as usize);
                re2[(k * 37) as usize % re2.len()].1(&mut d, 0, 0);
                d
            };
            let (a, b) = (mk(i / 12), mk(i % 12));
            for d in [&a, &b, &a] {
                loads(compact(&doc_json(d)).as_bytes(), d, &format!("reload[{}]", i), c)?
            }
            // and what was loaded first is still what it was
            let first = load(compact(&doc_json(&a)).as_bytes());
            let _ = load(compact(&doc_json(&b)).as_bytes());
            match first {
                Ok(Ok(r)) => expect!(diff(&r, &a).is_none(), i; "a loaded document changed when another file was loaded"),
                _ => fail!(i; "a well-formed file is refused"),
            }
            Ok(())
        },
    ));
    if let Some((b, d)) = real_file() {
        v.push(Space::new(
            "real-file",
            "the repository's own 2 MB repodata file, every record",
            1,
            |_| "core/tests/data/current_repodata.json".into(),
            move |_, c| {
                c.called(d.sec[0].len() as u64 + d.sec[1].len() as u64);
                loads(&b, &d, "real-file", c)
            },
        ));
    }
    v
}

const CHANNEL_NAMES: [&str; 70] = [
    "python", "numpy", "numpy-base", "_libgcc_mutex", "__glibc", "__cuda", "__osx", "r-base", "r-mass", "7za", "zlib", "openssl", "ca-certificates", "certifi", "pip", "setuptools", "wheel", "xz", "tk", "sqlite", "readline", "ncurses", "libffi", "libstdcxx-ng", "libcxx", "gcc_linux-64", "vs2015_runtime", "vc", "vs2015_win-64",
    "mkl", "mkl-service", "mkl_fft", "blas", "libblas", "nomkl", "conda", "conda-build", "conda-forge-pinning", "constructor", "anaconda", "_anaconda_depends", "_ipyw_jlab_nb_ext_conf", "msys2-conda-epoch", "m2w64-gcc-libs", "ruamel.yaml", "zope.interface", "backports.functools_lru_cache", "backports_abc", "jpeg", "libpng", "lua-luarocks",
    "perl-test-more", "h5py", "py-xgboost", "pytorch-mutex", "cudatoolkit", "tensorflow-gpu", "x264", "bzip2", "c-ares", "icu", "llvmlite", "a", "r", "font-ttf-ubuntu", "typing_extensions", "importlib_metadata", "pywin32", "console_shortcut", "defaults",
];
const CHANNEL_BUILDS: [&str; 26] = [
    "0", "1", "2", "py27_0", "py36_1000", "py37h1234567_0", "py310h06a4308_1", "h7b6447c_0", "ha925a31_3", "h0a44026_1003", "np116py37h7e9f1db_0", "py_0", "pyhd3eb1b0_0", "noarch_0", "r36h6115d3f_0", "mro350h6115d3f_4", "blas_openblas", "openblas", "mkl", "cuda10.1py37_0", "vc14_0", "vc9hd3b0a8f_2", "cpython", "1_cp37m", "main", "custom_7",
];
const SUBDIRS: [&str; 22] = [
    "noarch", "linux-64", "linux-32", "linux-aarch64", "linux-armv6l", "linux-armv7l", "linux-ppc64le", "linux-ppc64", "linux-s390x", "linux-riscv64", "osx-64", "osx-arm64", "win-64", "win-32", "win-arm64", "zos-z", "emscripten-wasm32", "wasi-wasm32", "freebsd-64", "unknown", "Linux-64", "win64",
];
/// Versions as channels have them
fn channel_versions(tier: Tier) -> Vec<String> {
    let mut v = vec![];
    let n: &[usize] = tier.pick(&[0, 1, 2, 3, 9, 10, 11], &[0, 1, 2, 3, 5, 7, 9, 10, 11, 12, 13, 20]);
    for a in n {
        v.push(format!("{}", a));
        for b in n {
            v.push(format!("{}.{}", a, b));
            for c in n {
                v.push(format!("{}.{}.{}", a, b, c));
            }
        }
    }
    for b in ["1.0", "2.7.15", "1.1.1", "2019.9.11", "0.0.1", "3", "10.1.243", "20190823"] {
        for x in ["a", "a1", "b2", "rc1", ".rc1", ".dev0", "dev20190401", ".post1", "_1", "-r2", "+gabc123", "+1.2", "g", "p1", ".0a0", ".0", "alpha", "beta3", "_p12", ".20190607"] {
            v.push(format!("{}{}", b, x));
        }
        v.push(format!("1!{}", b));
        v.push(format!("v{}", b));
    }
    v.extend(gen::s(&["2019c", "9b", "1.0.2r", "1.0.2s", "5.2.4", "8.2.2019", "2.0.1.3", "1.2.3.4.5", "00.01", "custom", "dev", "git", "master", "0a", "14", "3.6.1", "2023.07.22", "1.21.0rc2", "20200101000000", "2.4.0a0+git1234"]));
    gen::dedup(v.into_iter().filter(|t| model::defined(t) && model::parse(t).is_some()).collect())
}
fn channel(vs: &[String], i: usize) -> Doc {
    let (v, w) = (&vs[i], &vs[(i * 5 + 1) % vs.len()]);
    let mut d = doc(0, 0);
    d.subdir = SUBDIRS[i % SUBDIRS.len()].into();
    d.removed.clear();
    let m = CHANNEL_NAMES.len();
    for k in 0..m {
        let (n, n1, b) = (CHANNEL_NAMES[k], CHANNEL_NAMES[(k + 1 + i) % m], CHANNEL_BUILDS[(k + i) % CHANNEL_BUILDS.len()]);
        let forms = [
            n1.to_string(), format!("{} {}", n1, v), format!("{} {} {}", n1, v, b), format!("{} >={}", n1, v), format!("{} >={},<{}", n1, v, w), format!("{} {}.*", n1, v), format!("{} {}*", n1, v), format!("{} ={}", n1, v), format!("{} =={}", n1, v), format!("{}={}={}", n1, v, b), format!("{} !={}", n1, v), format!("{} >={}|<{}", n1, v, w),
            format!("{} ~={}", n1, v), format!("conda-forge::{} {}", n1, v), format!("{}[version='>={}']", n1, v), format!("{}[build=*_{}]", n1, b), format!("{} * {}", n1, b), format!("{} {} *_{}", n1, v, b), format!("{}>={}", n1, v), format!("{} <{}a0", n1, v), format!("{} >= {}, < {}", n1, v, w), format!("{}  {}", n1, v), n.to_string(), format!("{} {}", n, v),
        ];
        let s = k % 2;
        let name = format!("{}-{}-{}.{}", n, v, b, if s == 0 { "tar.bz2" } else { "conda" });
        let x = (k * 1000 + i) as u64;
        let r = Rec {
            s: [b.to_string(), format!("{:016x}{:016x}", x.wrapping_mul(0x9e37_79b9_7f4a_7c15), x.wrapping_mul(0xd1b5_4a32_d192_ed03)), n.to_string(), format!("{:016x}", x.wrapping_mul(0x9e37_79b9_7f4a_7c15)).repeat(4), v.clone()],
            depends: (0..k % 7).map(|j| forms[(k * 3 + i + j) % forms.len()].clone()).collect(),
            build_number: [0, 1, 2, 3, 100, 200, 1000, 1003, 2000, 65535][(k + i) % 10],
            size: [0, 512, 4096, 10_485_760, 1 << 32][k % 5] + x,
            timestamp: [0, 1_400_000_000, 1_568_316_198, 1_568_316_198_231, 253_402_300_799, 253_402_300_800, 1_700_000_000_000][(k + i) % 7],
        };
        d.removed.push(name.replace(n, n1));
        d.removed.push(format!("{}-{}-{}.{}", n, w, b, if s == 1 { "tar.bz2" } else { "conda" }));
        d.sec[s].push((name, r));
    }
    d
}
/// A text of `len` characters and every text one edit away from it, all different
fn near_texts(len: usize, style: usize, version: bool) -> Vec<String> {
    const HEX: &[u8] = b"0123456789abcdef";
    let base: Vec<u8> = (0..len)
        .map(|k| match (style, version) {
            (0, false) => HEX[(k * 7 + k / 16) % 16],
            (1, false) => b'0',
            (2, false) => b'a' + (k % 26) as u8,
            (3, false) => b"py27h_0-1.2"[k % 11],
            // no place where a number outgrows its type or an edit is refused for another reason
            (0, _) => if k % 2 == 1 && k + 1 < len { b'.' } else { b'1' + (k / 2 % 9) as u8 },
            (1, _) => if k % 5 == 4 && k + 1 < len { b'.' } else { b'1' },
            (2, _) => b'a' + (k % 26) as u8,
            _ => if k % 4 == 3 && k + 1 < len { b'_' } else { b"1a2b"[k % 4] },
        })
        .collect();
    let mut o = vec![base.clone()];
    for k in 0..len {
        for c in [base[k] ^ 1, base[k] ^ 0x20, b'7'] {
            let mut x = base.clone();
            x[k] = c;
            o.push(x);
        }
        if k + 1 < len {
            let mut x = base.clone();
            x.swap(k, k + 1);
            o.push(x);
        }
        let mut x = base.clone();
        x.remove(k);
        o.push(x);
    }
    o.push(base.iter().rev().cloned().collect());
    let ts = o.into_iter().filter_map(|x| String::from_utf8(x).ok()).filter(|t| !t.chars().any(|c| c.is_control()));
    gen::dedup(ts.filter(|t| !version || (model::defined(t) && model::parse(t).is_some())).collect())
}
/// symbols with a meaning in JSON, in escapes or to a text processor, combined
fn text_words(tier: Tier) -> Vec<String> {
    const A: [&str; 20] = ["\\", "/", "u0020", "u", "n", "t", "\"", "x", " ", ",", ":", "{", "}", "[", "]", "é", "\n", "0", "null", "\u{feff}"];
    let mut v = gen::words(&A, tier.pick(3, 4));
    for w in crate::dict::words() {
        for f in ["xW", "Wx", "x W y", "WW", "\"W\"", "W/", "\\W", "1.W", "W.1", "W-1", "W 1", "a,W", "W\n"] {
            v.push(f.replace('W', &w));
        }
    }
    gen::dedup(v)
}
/// a document with the text wherever one can stand
fn all_texts(t: &str) -> Doc {
    let mut d = doc(1, 1);
    d.subdir = t.to_string();
    d.removed = vec![t.to_string(), format!("{}{}", t, t)];
    for s in 0..2 {
        let x = &mut d.sec[s][0];
        x.0 = format!("{}{}", t, s);
        x.1.depends = vec![t.to_string(), format!("a{}", t)];
        for f in 0..4 {
            x.1.s[f] = t.to_string()
        }
        if model::defined(t) && model::parse(t).is_some() {
            x.1.s[4] = t.to_string()
        }
    }
    d
}
/// Long texts made of one repeated unit at every phase: whatever the block size, units straddle its boundaries
fn dense(tier: Tier) -> Space {
    const U: [&str; 12] = ["é", "語", "😀", "\"", "\\", "\n", "\u{1}", "é\"", "a😀", "語\n", "\u{7f}", " "];
    let n: Vec<usize> = [40, 600, 5_000, tier.pick(50_000, 400_000)].to_vec();
    let cases = U.len() * n.len() * 8 * 4;
    let mk = move |i: u64| {
        let i = i as usize;
        let (field, phase, len, u) = (i % 4, i / 4 % 8, n[i / 32 % n.len()], U[i / 32 / n.len()]);
        let t = format!("{}{}", "x".repeat(phase), u.repeat(len));
        let mut d = doc(1, 1);
        match field {
            0 => d.sec[1][0].1.s[2] = t,
            1 => d.sec[0][0].1.depends = vec![t.clone(), "z".into(), t],
            2 => d.sec[0][0].0 = t,
            _ => d.removed = vec!["b".into(), t],
        }
        d
    };
    docs("dense-texts", "12 units of 1-5 bytes (multi-byte characters, escapes) repeated up to 50 000 (thorough 400 000) times at 8 phases in 4 places", cases as u64, mk)
}
/// Files of every length, padded in six ways
pub fn lengths_space(tier: Tier, name: &str) -> Space {
    let ns = Arc::new(gen::lengths(tier, 1 << 18).into_iter().chain([3 * 4096, 3 * 8192, 5 * 8192, 3 * 32768, 3 * 65536].into_iter().flat_map(|n| n - 2..=n + 2)).collect::<Vec<usize>>());
    let nm = name.to_string();
    let n = ns.len() as u64;
    let mk = move |i: u64| -> (Vec<u8>, Doc) {
        let (k, want) = (i % 6, ns[(i / 6) as usize]);
        let mut d = doc(2, 1);
        let base = compact(&doc_json(&d)).len();
        // the file's length is a multiple of 16 bytes further on, or just `want`
        let pad = if want > base { want - base } else { want };
        let t = match k {
            0 => format!("{}{}", " ".repeat(pad), compact(&doc_json(&d))),
            1 => format!("{}{}", compact(&doc_json(&d)), "\n".repeat(pad)),
            2 => {
                d.sec[0][1].1.s[0].push_str(&"b".repeat(pad));
                compact(&doc_json(&d))
            }
            3 => {
                d.subdir.push_str(&"s".repeat(pad));
                compact(&doc_json(&d))
            }
            4 => {
                d.sec[1][0].1.depends.push("d".repeat(pad));
                compact(&doc_json(&d))
            }
            _ => {
                let t = compact(&doc_json(&d));
                t.replacen(':', &format!(":{}", "\t".repeat(pad)), 1)
            }
        };
        (t.into_bytes(), d)
    };
    let mk = Arc::new(mk);
    let m2 = mk.clone();
    Space::new(
        name,
        "files of every length over 300 (thorough 1100) bytes and around powers of two to 2^18, padded with whitespace before, inside and after and in 3 texts",
        n * 6,
        move |i| shorten(&m2(i).0),
        move |i, c| {
            let (b, d) = mk(i);
            loads(&b, &d, &format!("{}[{}]", nm, i), c)
        },
    )
}

// ---- D02 ----------------------------------------------------------------------------------------
fn base_docs() -> Vec<Vec<u8>> {
    let mut a = doc(2, 1);
    a.sec[0][1].1.depends = gen::s(&["python >=3.6", "é\"x\\"]);
    a.sec[1][0].1.s[4] = "2!1.0.post1+l".into();
    let mut b = doc(1, 1);
    b.removed = vec![];
    b.sec[0][0].1.depends = vec![];
    vec![compact(&doc_json(&a)).into_bytes(), pretty(&doc_json(&b)).into_bytes(), compact(&doc_json(&doc(0, 0))).into_bytes(), pretty(&doc_json(&a)).into_bytes()]
}
/// a wrong value for a field of the given kind
fn ill(kind: u8) -> Vec<J> {
    let n = |s: &str| J::Num(s.to_string());
    let mut v = vec![J::Null, J::Bool(true), J::Bool(false), n("1.5"), n("-1"), n("-0.5"), n("1e400"), n("1e-3"), n("-1e2")];
    let str_like = vec![js(""), js("x"), js("1"), js("null")];
    let ints = vec![n("0"), n("1"), n("255")];
    let lists = vec![J::Arr(vec![]), J::Arr(vec![js("x")]), J::Arr(vec![n("1")]), J::Arr(vec![js("a"), J::Null]), J::Arr(vec![J::Arr(vec![])])];
    let objs = vec![J::Obj(vec![]), J::Obj(vec![("a".into(), js("b"))]), J::Obj(vec![("0".into(), n("0"))])];
    match kind {
        b's' => v.extend(ints.into_iter().chain(lists).chain(objs)),
        b'v' => v.extend(ints.into_iter().chain(lists).chain(objs).chain(gen::s(&["1!2!3", "1+a+b", "a!1", "!1", "32768!1", "99999999999!1", "1.0!1"]).iter().map(|t| js(t)))),
        b'l' => v.extend(ints.into_iter().chain(str_like).chain(objs).chain([
            J::Arr(vec![n("1")]),
            J::Arr(vec![js("a"), J::Null]),
            J::Arr(vec![J::Null, js("a")]),
            J::Arr(vec![js("a"), J::Arr(vec![])]),
            J::Arr(vec![js("a"), js("b"), J::Bool(true)]),
            J::Arr(vec![J::Obj(vec![])]),
        ])),
        b'b' | b'w' | b'z' => {
            v.extend(str_like.into_iter().chain(lists).chain(objs));
            v.extend(["18446744073709551616", "99999999999999999999999", "-9223372036854775808", "-18446744073709551616"].iter().map(|t| n(t)));
            if kind == b'b' {
                v.extend(["256", "257", "65535", "65536", "4294967296", "4294967297", "18446744073709551615"].iter().map(|t| n(t)))
            }
            if kind == b'w' {
                v.extend(["65536", "65537", "4294967296", "4294967297", "18446744073709551615"].iter().map(|t| n(t)))
            }
        }
        b'm' => v.extend(ints.into_iter().chain(str_like).chain(lists).chain([J::Obj(vec![("a".into(), js("b"))]), J::Obj(vec![("a".into(), J::Null)]), J::Obj(vec![("a".into(), J::Obj(vec![]))])])),
        _ => v.extend(ints.into_iter().chain(str_like).chain(objs)),
    }
    v
}
/// (path of object, field, kind): path is root / info / a record
fn sites(d: &Doc) -> Vec<(u8, usize, usize, &'static str, u8)> {
    let mut v = vec![(0u8, 0usize, 0usize, "info", b'o'), (0, 0, 0, "packages", b'm'), (0, 0, 0, "packages.conda", b'm'), (0, 0, 0, "removed", b'l'), (0, 0, 0, "repodata_version", b'b'), (1, 0, 0, "subdir", b's')];
    for s in 0..2 {
        for k in 0..d.sec[s].len() {
            for (f, kind) in [("build", b's'), ("build_number", b'w'), ("depends", b'l'), ("md5", b's'), ("name", b's'), ("sha256", b's'), ("size", b'z'), ("timestamp", b'z'), ("version", b'v')] {
                v.push((2, s, k, f, kind))
            }
            v.push((3, s, k, "", b'o'))
        }
    }
    v
}
fn object<'a>(j: &'a mut J, at: (u8, usize, usize)) -> Option<&'a mut Vec<(String, J)>> {
    fn get<'a>(o: &'a mut J, k: &str) -> Option<&'a mut J> {
        match o {
            J::Obj(o) => o.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1),
            _ => None,
        }
    }
    let o = match at.0 {
        0 => j,
        1 => get(j, "info")?,
        _ => {
            let s = get(j, if at.1 == 0 { "packages" } else { "packages.conda" })?;
            if at.0 == 3 {
                s
            } else {
                match s {
                    J::Obj(o) => &mut o.get_mut(at.2)?.1,
                    _ => return None,
                }
            }
        }
    };
    match o {
        J::Obj(o) => Some(o),
        _ => None,
    }
}
pub type Fault = (String, Arc<dyn Fn(&mut J) + Send + Sync>);
pub fn faults(d: &Doc) -> Vec<Fault> {
    let mut v: Vec<Fault> = vec![];
    for (p, s, k, f, kind) in sites(d) {
        let at = (p, s, k);
        let idx = move |o: &Vec<(String, J)>| if p == 3 { Some(k).filter(|k| *k < o.len()) } else { o.iter().position(|x| x.0 == f) };
        let place = format!("{:?}.{}", at, f);
        if p != 3 {
            v.push((format!("{} missing", place), Arc::new(move |j| {
                if let Some(o) = object(j, at) {
                    o.retain(|x| x.0 != f)
                }
            })));
            v.push((format!("{} repeated, same value", place), Arc::new(move |j| {
                if let Some(o) = object(j, at) {
                    if let Some(i) = idx(o) {
                        let x = o[i].clone();
                        o.push(x)
                    }
                }
            })));
            for x in ill(kind).into_iter().take(3).chain([js("other"), J::Num("3".into())]) {
                for front in [false, true] {
                    let x = x.clone();
                    v.push((format!("{} repeated as {}, {}", place, compact(&x), if front { "first" } else { "last" }), Arc::new(move |j| {
                        if let Some(o) = object(j, at) {
                            let x = (f.to_string(), x.clone());
                            if front {
                                o.insert(0, x)
                            } else {
                                o.push(x)
                            }
                        }
                    })));
                }
            }
            for nf in [f.to_uppercase(), format!("{}s", f), f[..f.len() - 1].to_string(), format!(" {}", f), f.replace('_', "-"), f.replace('.', "_"), f.replace('_', "")] {
                if nf != f {
                    v.push((format!("{} spelled {:?}", place, nf), Arc::new(move |j| {
                        if let Some(o) = object(j, at) {
                            if let Some(i) = idx(o) {
                                o[i].0 = nf.clone()
                            }
                        }
                    })));
                }
            }
        }
        for x in ill(kind) {
            v.push((format!("{} is {}", place, compact(&x)), Arc::new(move |j| {
                if let Some(o) = object(j, at) {
                    if let Some(i) = idx(o) {
                        o[i].1 = x.clone()
                    }
                }
            })));
        }
    }
    v
}
pub fn d02(tier: Tier) -> Vec<Space> {
    let bases = Arc::new(base_docs());
    let mut v = vec![];
    // every truncation
    let mut cuts: Vec<(usize, usize)> = vec![];
    for (b, t) in bases.iter().enumerate() {
        cuts.extend((0..=t.len()).map(|k| (b, k)));
    }
    let (b1, cuts) = (bases.clone(), Arc::new(cuts));
    let n = cuts.len() as u64;
    v.push(bytes("truncated", "every prefix of four documents", n, move |i| {
        let (b, k) = cuts[i as usize];
        b1[b][..k].to_vec()
    }));
    // the same in long files
    let long: Arc<Vec<Vec<u8>>> = Arc::new({
        let (mut a, mut b) = (doc(1, 1), doc(60, 60));
        a.sec[0][0].1.s[0] = "é語😀".repeat(tier.pick(1000, 8000));
        b.removed = (0..40).map(|i| format!("é{}", i)).collect();
        vec![compact(&doc_json(&a)).into_bytes(), pretty(&doc_json(&b)).into_bytes()]
    });
    let mut at: Vec<(usize, usize)> = vec![];
    for (b, t) in long.iter().enumerate() {
        at.extend((0..=t.len()).map(|k| (b, k)));
    }
    let (l1, at1, n) = (long.clone(), Arc::new(at), 0u64);
    let n = n + at1.len() as u64;
    let at2 = at1.clone();
    v.push(bytes("truncated-long", "every prefix of a document with one text of 9000 (thorough 72000) bytes and of one with 120 records", n, move |i| {
        let (b, k) = at1[i as usize];
        l1[b][..k].to_vec()
    }));
    let l1 = long.clone();
    v.push(bytes("byte-in-long", "at every place of those two documents, a byte made 0xff, a quote or a zero byte", n * 3, move |i| {
        let (b, k) = at2[(i / 3) as usize];
        let mut t = l1[b].clone();
        let k = k.min(t.len() - 1);
        t[k] = [0xff, b'"', 0][(i % 3) as usize];
        t
    }));
    // every single byte replaced by every other
    for (b, name) in [(0usize, "byte-replaced"), (1, "byte-replaced-pretty")] {
        let b1 = bases.clone();
        v.push(bytes(name, "every byte of a document replaced by every other byte value", bases[b].len() as u64 * 256, move |i| {
            let mut t = b1[b].clone();
            let k = (i / 256) as usize;
            t[k] = (i % 256) as u8;
            t
        }));
    }
    let b1 = bases.clone();
    let ins: &[u8] = b"{}[]\",:0-.e \\\0\xff1atn/";
    let m = ins.len() as u64 + 4;
    v.push(bytes("byte-inserted", "at every place of a document: one of 20 bytes inserted, the byte dropped, doubled, swapped with the next, or its top bit set", (bases[0].len() as u64 + 1) * m, move |i| {
        let mut t = b1[0].clone();
        let (k, o) = ((i / m) as usize, (i % m) as usize);
        if o < ins.len() {
            t.insert(k, ins[o])
        } else if k < t.len() {
            match o - ins.len() {
                0 => {
                    t.remove(k);
                }
                1 => {
                    let x = t[k];
                    t.insert(k, x)
                }
                2 if k + 1 < t.len() => t.swap(k, k + 1),
                _ => t[k] ^= 0x80,
            }
        }
        t
    }));
    // texts that lenient readers skip or accept
    const LENIENT: [&str; 40] = ["#", "//", "/**/", "/*", "*/", "--", ";", "%", "!", "\n", "\r\n", "\n#", "\n//", "\t", "'", "\u{feff}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{c}", "\u{b}", "\u{1e}", "\0", "+", "NaN", "Infinity",
        "null", "undefined", "None", "True", "0x1", "1_0", ".5", "1.", "01", ",,", "[]", "{}", "...", "\\\n"];
    for (b, name) in [(0usize, "lenient"), (1, "lenient-pretty")] {
        let b1 = bases.clone();
        let m = LENIENT.len() as u64;
        v.push(bytes(name, "40 texts a lenient reader skips or accepts, inserted at every place of a document", (bases[b].len() as u64 + 1) * m, move |i| {
            let mut t = b1[b].clone();
            let k = (i / m) as usize;
            t.splice(k..k, LENIENT[(i % m) as usize].bytes());
            t
        }));
    }
    // the same in documents of many sizes: at both ends, at every structural character of the frame, and inside
    let sizes: Arc<Vec<usize>> = Arc::new((0..tier.pick(19, 22)).flat_map(|k| [1usize << k, 3 << k]).filter(|n| *n >= 512).collect());
    let grown = move |n: usize, many: bool| -> Vec<u8> {
        let mut d = doc(1, 1);
        if many {
            d = doc(n / 400 + 1, n / 800 + 1)
        } else {
            d.sec[0][0].1.s[0] = "b".repeat(n)
        }
        compact(&doc_json(&d)).into_bytes()
    };
    let (sz, m) = (sizes.clone(), LENIENT.len() as u64 + 6);
    let ns = sizes.len() as u64;
    v.push(bytes("lenient-sized", "documents of 512 bytes to 700 kB (thorough 6 MB), one with a long text, one with many records: 40 texts a lenient reader skips or accepts and 3 runs of junk put at, or a character dropped or doubled at, the beginning, the end, the first and last structural characters and the middle", ns * 2 * m * 9, move |i| {
        let (n, many, how, at) = (sz[(i % ns) as usize], i / ns % 2 == 1, (i / ns / 2 % m) as usize, i / ns / 2 / m);
        let mut t = grown(n, many);
        let l = t.len();
        let nth = |k: usize| (0..l).filter(|i| b"{}[],:".contains(&t[*i])).nth(k).unwrap_or(0);
        let back = |k: usize| (0..l).rev().filter(|i| b"{}[],:".contains(&t[*i])).nth(k).unwrap_or(0);
        let k = match at {
            0 => 0,
            1 => l,
            2 => nth(1),
            3 => nth(4),
            4 => back(1),
            5 => back(2),
            6 => back(4),
            7 => back(7),
            _ => (l / 2..l).find(|i| b"{}[],:".contains(&t[*i])).unwrap_or(l / 2),
        };
        match how.checked_sub(LENIENT.len()) {
            None => drop(t.splice(k..k, LENIENT[how].bytes())),
            Some(0) => drop(t.splice(k..k, "junk before ".bytes())),
            Some(1) => drop(t.splice(k..k, "<html>\r\n".bytes())),
            Some(2) => drop(t.splice(k..k, ")]}',\n".bytes())),
            Some(3) if k < l => drop(t.remove(k)),
            Some(4) if k < l => t.insert(k, t[k]),
            _ if k + 1 < l => t.swap(k, k + 1),
            _ => drop(t.pop()),
        }
        t
    }));
    // comments around every run of the document
    let lines: Vec<Vec<u8>> = bases[3].split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    let nl = lines.len();
    v.push(bytes("lines", "every line of an indented document marked with # // ; -- < > = or lost, doubled, swapped with the next, or hidden in a comment with up to 3 next ones", nl as u64 * 20, move |i| {
        let (k, how) = ((i / 20) as usize, (i % 20) as usize);
        let mut l = lines.clone();
        let marks = ["#", "//", ";", "--", "%", "<", ">", "=", "+", "-", "@", "/"];
        if how < 12 {
            let mut x = marks[how].as_bytes().to_vec();
            x.extend(&l[k]);
            l[k] = x
        } else if how < 16 {
            let e = (k + how - 12).min(l.len() - 1);
            let mut x = b"/*".to_vec();
            x.extend(&l[k]);
            l[k] = x;
            l[e].extend(b"*/");
        } else {
            match how {
                16 => {
                    l.remove(k);
                }
                17 => {
                    let x = l[k].clone();
                    l.insert(k, x)
                }
                18 if k + 1 < l.len() => l.swap(k, k + 1),
                _ => l[k].clear(),
            }
        }
        l.join(&b'\n')
    }));
    // torn writes: a run of bytes lost, zeroed, blanked or doubled
    let b1 = bases.clone();
    let mut torn: Vec<(usize, usize, u8)> = vec![];
    let len = bases[0].len();
    for sz in [2usize, 3, 4, 8, 16, 32, 64, 128, 256, 512] {
        let step = if sz < 8 || tier == Tier::Thorough { 1 } else { sz / 4 };
        for k in (0..len.saturating_sub(sz) + 1).step_by(step) {
            for how in 0..5 {
                torn.push((k, sz, how))
            }
        }
    }
    let nt = torn.len() as u64;
    v.push(bytes("torn", "every run of 2..512 bytes lost, zeroed, blanked, written twice, or moved to the end", nt, move |i| {
        let (k, sz, how) = torn[i as usize];
        let mut t = b1[0].clone();
        match how {
            0 => {
                t.drain(k..k + sz);
            }
            1 => t[k..k + sz].iter_mut().for_each(|b| *b = 0),
            2 => t[k..k + sz].iter_mut().for_each(|b| *b = b' '),
            3 => {
                let x = t[k..k + sz].to_vec();
                t.splice(k..k, x);
            }
            _ => {
                let x: Vec<u8> = t.drain(k..k + sz).collect();
                t.extend(x)
            }
        }
        t
    }));
    // tokens lost, doubled, swapped or replaced
    let toks: Arc<Vec<String>> = Arc::new({
        let mut t = vec![];
        tokens(&doc_json(&doc(1, 1)), &mut t);
        t
    });
    let reps = ["{", "}", "[", "]", ",", ":", "null", "true", "1", "\"x\"", "-1", "1.5", "[]", "{}"];
    let (t1, nr) = (toks.clone(), reps.len() as u64 + 3);
    v.push(bytes("tokens", "every token of a document lost, doubled, swapped with the next, or replaced by each of 14 tokens", toks.len() as u64 * nr, move |i| {
        let mut t: Vec<String> = t1.to_vec();
        let (k, o) = ((i / nr) as usize, (i % nr) as usize);
        if o < reps.len() {
            t[k] = reps[o].to_string()
        } else {
            match o - reps.len() {
                0 => {
                    t.remove(k);
                }
                1 => {
                    let x = t[k].clone();
                    t.insert(k, x)
                }
                _ => {
                    if k + 1 < t.len() {
                        t.swap(k, k + 1)
                    }
                }
            }
        }
        t.concat().into_bytes()
    }));
    if tier == Tier::Thorough {
        let t1 = toks.clone();
        let l = toks.len() as u64;
        v.push(bytes("two-tokens", "every two tokens of a document lost", l * l, move |i| {
            let (a, b) = ((i / l) as usize, (i % l) as usize);
            t1.iter().enumerate().filter(|(k, _)| *k != a && *k != b).map(|x| x.1.as_str()).collect::<String>().into_bytes()
        }));
    }
    // one fault, in every field of every record; two faults
    let d = doc(3, 2);
    let fs = Arc::new(faults(&d));
    let (f1, d1) = (fs.clone(), d.clone());
    let f2 = fs.clone();
    let nf = fs.len() as u64;
    v.push(Space::new(
        "one-fault",
        "every field of every object of a 5-record document missing, repeated, misspelled, or given each of its ill-typed or out-of-range values",
        nf,
        move |i| f2[i as usize].0.clone(),
        move |i, c| {
            let mut j = doc_json(&d1);
            f1[i as usize].1(&mut j);
            let t = if i % 2 == 0 { compact(&j) } else { pretty(&j) };
            judged(t.as_bytes(), &f1[i as usize].0, c)
        },
    ));
    let d2 = doc(1, 1);
    let fs2: Arc<Vec<Fault>> = Arc::new(faults(&d2).into_iter().step_by(tier.pick(5, 1)).collect());
    let (f1, f2, nf) = (fs2.clone(), fs2.clone(), fs2.len() as u64);
    v.push(Space::new(
        "two-faults",
        "every pair of those faults in a 2-record document (quick: of every 5th fault)",
        nf * nf,
        move |i| format!("{} + {}", f2[(i / nf) as usize].0, f2[(i % nf) as usize].0),
        move |i, c| {
            let mut j = doc_json(&d2);
            let (a, b) = (&f1[(i / nf) as usize], &f1[(i % nf) as usize]);
            a.1(&mut j);
            b.1(&mut j);
            judged(compact(&j).as_bytes(), &format!("{} + {}", a.0, b.0), c)
        },
    ));
    // a fault in a record deep inside a large file
    let big = doc(600, 600);
    let nb = 40u64;
    v.push(Space::new(
        "fault-in-large-file",
        "one record of 1200 with a bad version or a missing field, at 40 places x 4 faults",
        nb * 4,
        |i| format!("place {}, fault {}", i / 4, i % 4),
        move |i, c| {
            let mut j = doc_json(&big);
            let at = (2u8, ((i / 4) % 2) as usize, (i / 8 * 31) as usize);
            if let Some(o) = object(&mut j, at) {
                match i % 4 {
                    0 => o.retain(|x| x.0 != "version"),
                    1 => o.iter_mut().filter(|x| x.0 == "version").for_each(|x| x.1 = js("1!2!3")),
                    2 => o.iter_mut().filter(|x| x.0 == "build_number").for_each(|x| x.1 = jn(65536)),
                    _ => o.iter_mut().filter(|x| x.0 == "timestamp").for_each(|x| x.1 = J::Null),
                }
            }
            judged(compact(&j).as_bytes(), &format!("fault-in-large-file[{}]", i), c)
        },
    ));
    // versions that are none
    let bv: Arc<Vec<String>> = Arc::new(gen::words(&["1", "!", "+", "a", ".", "é"], tier.pick(5, 6)));
    let bv: Arc<Vec<String>> = Arc::new(bv.iter().cloned().chain(crate::dict::words().into_iter().flat_map(|w| ["W", "W!1", "1!W!2", "W+1+W", "1!W+", "é!W", "W!", "1.W!1"].map(|f| f.replace('W', &w)))).collect());
    v.push(bytes("bad-versions", "every word of <= 5 (thorough 6) over 1 ! + a . é, and the words the source names in 8 forms, as the version of a record", bv.len() as u64 * 2, move |i| {
        let mut d = doc(1, 1);
        d.sec[(i % 2) as usize][0].1.s[4] = bv[(i / 2) as usize].clone();
        compact(&doc_json(&d)).into_bytes()
    }));
    // what follows or precedes a document
    let tails: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = ["", " ", "\n", "\r\n\t ", "x", "}", "]", ",", "{}", "null", "0", "\"\"", "\0", "//", "/**/", "#", ";", ":", "\u{a0}", "\u{2028}", "\u{feff}", "é", "\u{b}", "\u{c}"].iter().map(|s| s.as_bytes().to_vec()).collect();
        v.extend((0x80..=0xffu8).map(|b| vec![b]));
        v.push(bases[2].clone());
        v
    };
    let (b1, nt) = (bases.clone(), tails.len() as u64);
    v.push(bytes("around", "a document preceded or followed by each of 150 texts", nt * 2, move |i| {
        let t = &tails[(i % nt) as usize];
        if i / nt == 0 {
            [&b1[2][..], t].concat()
        } else {
            [t, &b1[2][..]].concat()
        }
    }));
    // encodings that are not UTF-8
    let b1 = bases.clone();
    v.push(bytes("not-utf8", "every invalid UTF-8 sequence of a list inside every text of a document; whole document as UTF-16", 60 * 12 + 4, move |i| {
        let seqs: [&[u8]; 12] = [b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xe2\x82"];
        let s = String::from_utf8(b1[0].clone()).unwrap();
        if i >= 720 {
            let mut o: Vec<u8> = match i {
                720 | 722 => vec![0xff, 0xfe],
                _ => vec![],
            };
            for u in s.encode_utf16() {
                o.extend(if i < 722 { u.to_le_bytes() } else { u.to_be_bytes() })
            }
            return o;
        }
        // the (i/12)-th quote mark
        let q: Vec<usize> = s.match_indices('"').map(|x| x.0).collect();
        let at = q[(i / 12) as usize % q.len()] + 1;
        [&s.as_bytes()[..at], seqs[(i % 12) as usize], &s.as_bytes()[at..]].concat()
    }));
    // nesting in a value that is otherwise ignored
    v.push(bytes("nesting", "an unknown key holding arrays or objects nested 1..400 deep and 10^3..10^6 deep", 1608, |i| {
        let n = if i < 1600 { (i / 4 + 1) as usize } else { [1000, 10_000, 100_000, 1_000_000][(i as usize - 1600) / 2] };
        let (o, c) = match if i < 1600 { i % 4 } else { i % 2 } {
            0 => ("[", "]"),
            1 => ("{\"a\":", "}"),
            2 => ("[[1,", "]]"),
            _ => ("[", ""),
        };
        let t = compact(&doc_json(&doc(1, 0)));
        let inner = format!("{}1{}", o.repeat(n), c.repeat(n));
        format!("{{\"zzz\":{},{}", inner, &t[1..]).into_bytes()
    }));
    // paths that give no file
    v.push(Space::new(
        "paths",
        "missing file, directory, dangling and looping link, empty and overlong names, a file as directory, a name with a NUL",
        12,
        |i| format!("path case {}", i),
        |i, c| {
            use std::os::unix::ffi::OsStringExt;
            let s = format!("{}/paths{}", scratch(), i);
            std::fs::create_dir_all(&s).unwrap();
            let p: std::path::PathBuf = match i {
                0 => format!("{}/none.json", s).into(),
                1 => s.clone().into(),
                2 => {
                    let _ = std::os::unix::fs::symlink(format!("{}/gone", s), format!("{}/dangling", s));
                    format!("{}/dangling", s).into()
                }
                3 => {
                    let _ = std::os::unix::fs::symlink(format!("{}/loop", s), format!("{}/loop", s));
                    format!("{}/loop", s).into()
                }
                4 => "".into(),
                5 => format!("{}/{}", s, "x".repeat(300)).into(),
                6 => format!("{}/{}", s, "x/".repeat(4000)).into(),
                7 => {
                    std::fs::write(format!("{}/f", s), b"{}").unwrap();
                    format!("{}/f/g.json", s).into()
                }
                8 => format!("{}/a\0b", s).into(),
                9 => std::ffi::OsString::from_vec([s.as_bytes(), b"/\xff\xfe"].concat()).into(),
                10 => {
                    std::fs::write(format!("{}/empty", s), b"").unwrap();
                    format!("{}/empty", s).into()
                }
                _ => format!("{}/none/none.json", s).into(),
            };
            c.called(1);
            c.state(i);
            match guard(|| read_repodata(&p).map_err(|e| format!("{} {:?}", e, e))) {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(_)) => fail!(i; "loading from {:?} succeeds", p),
                Err(m) => fail!(i; "loading from {:?} panics: {}", p, m),
            }
        },
    ));
    v
}

// ---- D03 ----------------------------------------------------------------------------------------
/// the i-th permutation of 0..n
fn perm(n: usize, mut i: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut o = vec![];
    for k in (1..=n).rev() {
        let f: u64 = (1..k as u64).product::<u64>().max(1);
        o.push(pool.remove((i / f) as usize));
        i %= f;
    }
    o
}
fn permute(o: &mut Vec<(String, J)>, p: &[usize]) {
    let old = o.clone();
    for (k, x) in p.iter().enumerate() {
        o[k] = old[*x].clone()
    }
}
const CHANNEL_KEYS: [&str; 44] = [
    "arch", "platform", "license", "license_family", "features", "track_features", "constrains", "subdir", "noarch", "fn", "url", "channel", "schannel", "date", "legacy_bz2_md5", "legacy_bz2_size", "sha1", "md5_in_conda", "preferred_env", "requires", "namespace", "namespace_in_name", "app_entry", "app_type", "app_cli_opts", "icon", "summary", "type", "base_url",
    "run_exports", "python_site_packages_path", "record_type", "auth", "is_unmanageable", "is_exact", "binstar", "has_prefix", "machine", "operatingsystem", "priority", "home", "signatures", "packages.whl", "dist",
];
/// (key, the known key it is like)
fn near_keys() -> Vec<(String, String)> {
    let known = ["info", "packages", "packages.conda", "removed", "repodata_version", "subdir", "build", "build_number", "depends", "md5", "name", "sha256", "size", "timestamp", "version"];
    let mut o: Vec<(String, String)> = CHANNEL_KEYS.iter().map(|k| (k.to_string(), k.to_string())).collect();
    for k in known {
        let camel: String = k.split(|c| c == '_' || c == '.').enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { w[..1].to_uppercase() + &w[1..] }).collect();
        let cap = k[..1].to_uppercase() + &k[1..];
        for x in [k.to_string(), k.to_uppercase(), cap, camel, format!("{}s", k), k[..k.len() - 1].to_string(), k.replace('_', "-"), k.replace(|c| c == '_' || c == '.', ""), k.replace('.', "_"), k.replace('_', "."), format!(" {}", k), format!("{} ", k), format!("_{}", k), format!("{}_", k), k.replace(".conda", "")] {
            if !o.iter().any(|y| y.0 == x && y.1 == k) {
                o.push((x, k.to_string()));
            }
        }
    }
    o
}
/// turn all objects' keys round and add keys of conda's own; the names of records are left as they are
fn dress(j: &mut J, n: usize) {
    let add = |o: &mut Vec<(String, J)>, extra: &[&str]| {
        o.reverse();
        for (k, x) in extra.iter().enumerate() {
            if !o.iter().any(|y| y.0 == *x) {
                let v = [J::Null, js("noarch"), jn(7), J::Arr(vec![js("a")]), J::Obj(vec![("depends".into(), J::Arr(vec![]))]), J::Bool(false)][(k + n) % 6].clone();
                o.insert((k * 3 + n) % (o.len() + 1), (x.to_string(), v));
            }
        }
    };
    if let J::Obj(root) = j {
        for (k, v) in root.iter_mut() {
            match v {
                J::Obj(o) if k == "info" => add(o, &CHANNEL_KEYS[..5]),
                J::Obj(o) => {
                    for (_, r) in o.iter_mut() {
                        if let J::Obj(r) = r {
                            add(r, &CHANNEL_KEYS)
                        }
                    }
                }
                _ => {}
            }
        }
        add(root, &["signatures", "channeldata_version", "arch", "subdir", "url"]);
    }
}
fn unknowns() -> Vec<(String, J)> {
    let n = |s: &str| J::Num(s.to_string());
    let mut vals = vec![J::Null, J::Bool(true), n("0"), n("-1.5e10"), n("1e400"), n("123456789012345678901234567890"), js(""), js("x"), js("}\",\"version\":\"2"), J::Arr(vec![]), J::Obj(vec![])];
    vals.push(J::Arr(vec![js("a"), n("1"), J::Null, J::Obj(vec![("version".into(), js("2"))])]));
    vals.push(rec_json(&rec(9)));
    vals.push(J::Obj(vec![("packages".into(), J::Obj(vec![("z".into(), rec_json(&rec(8)))])), ("a".into(), J::Arr(vec![J::Obj(vec![])]))]));
    vals.push(doc_json(&doc(1, 1)));
    let known = ["info", "packages", "packages.conda", "removed", "repodata_version", "subdir", "build", "build_number", "depends", "md5", "name", "sha256", "size", "timestamp", "version"];
    let words: Vec<String> = crate::dict::words().into_iter().filter(|w| !known.contains(&w.as_str())).collect();
    let keys = ["license", "", "x", "Version", "versions", "packages_conda", "build_string", "sub dir", "é", "0", "constrains", "arch", "platform", "\\", "NAME"];
    let mut o = vec![];
    for (i, k) in keys.iter().enumerate() {
        for (j, v) in vals.iter().enumerate() {
            // every value under the first key, every key with a few values
            if i == 0 || j % 4 == i % 4 {
                o.push((k.to_string(), v.clone()))
            }
        }
    }
    for w in words {
        for v in [js("x"), n("7"), J::Arr(vec![js("y")]), J::Obj(vec![("z".into(), rec_json(&rec(8)))])] {
            o.push((w.clone(), v))
        }
    }
    o
}
fn escape(c: char, how: u64) -> String {
    let mut b = [0u16; 2];
    match how {
        0 => c.encode_utf16(&mut b).iter().map(|u| format!("\\u{:04x}", u)).collect(),
        1 => c.encode_utf16(&mut b).iter().map(|u| format!("\\u{:04X}", u)).collect(),
        _ => match c {
            '/' => "\\/".into(),
            '\u{8}' => "\\b".into(),
            '\u{c}' => "\\f".into(),
            c => {
                let e = esc(&c.to_string());
                e[1..e.len() - 1].to_string()
            }
        },
    }
}
/// serialise with the k-th character of all texts (keys included) escaped; None: all of them
pub fn escaped(j: &J, k: Option<u64>, how: u64) -> String {
    let mut toks = vec![];
    tokens(j, &mut toks);
    let mut n = 0;
    let mut o = String::new();
    for t in toks {
        if !t.starts_with('"') {
            o.push_str(&t);
            continue;
        }
        o.push('"');
        for c in json::unesc(&t).chars() {
            if k.map_or(true, |k| k == n) {
                o.push_str(&escape(c, how))
            } else {
                let e = esc(&c.to_string());
                o.push_str(&e[1..e.len() - 1])
            }
            n += 1;
        }
        o.push('"');
    }
    o
}
fn text_chars(j: &J) -> u64 {
    let mut toks = vec![];
    tokens(j, &mut toks);
    toks.iter().filter(|t| t.starts_with('"')).map(|t| json::unesc(t).chars().count() as u64).sum()
}
fn same(name: &str, bound: &str, n: u64, d: Doc, f: impl Fn(&Doc, u64) -> String + Send + Sync + 'static) -> Space {
    let g: Arc<dyn Fn(&Doc, u64) -> String + Send + Sync> = Arc::new(f);
    let (g2, d2, nm) = (g.clone(), d.clone(), name.to_string());
    Space::new(
        name,
        bound,
        n,
        move |i| shorten(g2(&d2, i).as_bytes()),
        move |i, c| {
            let t = g(&d, i);
            c.state(h(&t));
            loads(t.as_bytes(), &d, &format!("{}[{}]", nm, i), c)
        },
    )
}
pub fn d03(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let mut base = doc(2, 2);
    base.sec[0][1].1.depends = gen::s(&["é \"q\" \\ / \t", "😀", ""]);
    base.sec[1][0].0 = "naïve/😀\".conda".into();
    base.sec[0][0].1.s[4] = "1!2.é.post1+loc/al".into();
    base.removed = gen::s(&["r/1", "\u{8}\u{c}\n\r\t"]);
    let small = {
        let mut d = doc(1, 1);
        d.sec[0][0].1.depends = gen::s(&["a/b"]);
        d
    };
    v.push(same("root-key-order", "every order of the document's keys", 120, base.clone(), |d, i| {
        let mut j = doc_json(d);
        if let Some(o) = object(&mut j, (0, 0, 0)) {
            permute(o, &perm(5, i))
        }
        compact(&j)
    }));
    let pf: u64 = tier.pick(40_320, 362_880);
    v.push(same("record-key-order", "every order of a record's nine keys (quick: every 9th)", pf, small.clone(), move |d, i| {
        let mut j = doc_json(d);
        let ix = if pf == 362_880 { i } else { i * 9 + i % 9 };
        for s in 0..2 {
            if let Some(o) = object(&mut j, (2, s, 0)) {
                permute(o, &perm(9, if s == 0 { ix } else { 362_879 - ix }))
            }
        }
        compact(&j)
    }));
    v.push(same("record-order", "every order of the records of both sections", 120 * 6, doc(5, 3), |d, i| {
        let mut j = doc_json(d);
        if let Some(o) = object(&mut j, (3, 0, 0)) {
            permute(o, &perm(5, i / 6))
        }
        if let Some(o) = object(&mut j, (3, 1, 0)) {
            permute(o, &perm(3, i % 6))
        }
        compact(&j)
    }));
    // whitespace
    let nt = {
        let mut t = vec![];
        tokens(&doc_json(&base), &mut t);
        t.len() as u64 + 1
    };
    let ws = [" ", "\n", "\t", "\r", "\r\n", "  \n\t "];
    v.push(same("whitespace-one-gap", "each of 6 whitespace texts at each token boundary", nt * 6, base.clone(), move |d, i| {
        let mut t = vec![];
        tokens(&doc_json(d), &mut t);
        t.insert((i / 6) as usize, ws[(i % 6) as usize].to_string());
        t.concat()
    }));
    v.push(same("whitespace-every-gap", "each of 6 whitespace texts (and long runs) at all token boundaries", 6 + 12, base.clone(), move |d, i| {
        let mut t = vec![];
        tokens(&doc_json(d), &mut t);
        let w = if i < 6 { ws[i as usize].to_string() } else { " ".repeat(1 << (i - 6)) };
        format!("{}{}{}", w, t.join(&w), w)
    }));
    if tier == Tier::Thorough {
        let nt2 = {
            let mut t = vec![];
            tokens(&doc_json(&small), &mut t);
            t.len() as u64
        };
        v.push(same("whitespace-two-gaps", "whitespace at every two token boundaries", nt2 * nt2, small.clone(), move |d, i| {
            let mut t = vec![];
            tokens(&doc_json(d), &mut t);
            let (a, b) = ((i / nt2) as usize, (i % nt2) as usize);
            t[a] = format!("{}\n", t[a]);
            t[b] = format!(" \t{}", t[b]);
            t.concat()
        }));
    }
    // string escapes
    let nc = text_chars(&doc_json(&base));
    v.push(same("escape-one-char", "each character of each text and key written as \\u escape (either hex case) or short escape", nc * 3, base.clone(), |d, i| escaped(&doc_json(d), Some(i / 3), i % 3)));
    v.push(same("escape-all", "all characters escaped", 3, base.clone(), |d, i| escaped(&doc_json(d), None, i)));
    let nch = tier.pick(0x3100, gen::CHARS);
    v.push(Space::new(
        "escape-every-char",
        "every character (quick: the first 0x3100) escaped and unescaped, in every text of a document",
        nch * 3,
        |i| format!("{:?}, form {}", gen::nth_char(i / 3), i % 3),
        |i, c| {
            let ch = gen::nth_char(i / 3);
            let t = format!("a{}b", ch);
            let mut d = doc(1, 0);
            d.subdir = t.clone();
            d.removed = vec![t.clone()];
            let x = &mut d.sec[0][0];
            x.0 = t.clone();
            x.1.depends = vec![t.clone()];
            for f in 0..4 {
                x.1.s[f] = t.clone()
            }
            if ch != '!' && ch != '+' {
                x.1.s[4] = format!("1.{}", ch)
            }
            let w = compact(&doc_json(&d));
            let e = esc(&ch.to_string());
            let r = escape(ch, i % 3);
            // letters of the field names must stay: only replace inside the values built above
            let w = w.replace(&format!("a{}b", &e[1..e.len() - 1]), &format!("a{}b", r)).replace(&format!("\"1.{}\"", &e[1..e.len() - 1]), &format!("\"1.{}\"", r));
            loads(w.as_bytes(), &d, &format!("escape-every-char[{}]", i), c)
        },
    ));
    let tw = Arc::new(gen::dedup(text_words(Tier::Quick).into_iter().step_by(tier.pick(3, 1)).collect()));
    let (tw2, nt) = (tw.clone(), tw.len() as u64);
    v.push(Space::new(
        "escape-text-words",
        "texts of <= 3 symbols with a meaning in JSON or in escapes, the words the source names within other text (quick: every third), in every text, key and list; all characters escaped in 3 ways",
        nt * 3,
        move |i| format!("{:?}, form {}", tw2[(i / 3) as usize], i % 3),
        move |i, c| {
            let d = all_texts(&tw[(i / 3) as usize]);
            loads(escaped(&doc_json(&d), None, i % 3).as_bytes(), &d, &format!("escape-text-words[{}]", i), c)
        },
    ));
    // unknown keys
    let un = Arc::new(unknowns());
    let nu = un.len() as u64;
    let where_: Vec<(u8, usize, usize, usize)> = (0..=5)
        .map(|k| (0u8, 0, 0, k))
        .chain((0..=1).map(|k| (1, 0, 0, k)))
        .chain((0..=9).flat_map(|k| [(2, 0, 0, k), (2, 1, 0, k)]))
        .collect();
    let nw = where_.len() as u64;
    let (u1, w1) = (un.clone(), where_.clone());
    v.push(same("unknown-key", "each of the unknown keys and values at each place of each object", nu * nw, small.clone(), move |d, i| {
        let mut j = doc_json(d);
        let (p, s, k, at) = w1[(i / nu) as usize];
        if let Some(o) = object(&mut j, (p, s, k)) {
            o.insert(at, u1[(i % nu) as usize].clone())
        }
        compact(&j)
    }));
    let u1 = un.clone();
    let tail = 40.min(nu);
    v.push(same("two-unknown-keys", "two unknown keys (also the same one twice) in one object", 3 * tail * tail, small.clone(), move |d, i| {
        let mut j = doc_json(d);
        let at = [(0u8, 0, 0), (1, 0, 0), (2, 1, 0)][(i / tail / tail) as usize];
        if let Some(o) = object(&mut j, at) {
            o.insert(0, u1[(i % tail) as usize].clone());
            o.push(u1[(i / tail % tail) as usize].clone());
        }
        compact(&j)
    }));
    let nk = Arc::new(near_keys());
    let (n1, nn) = (nk.clone(), nk.len() as u64);
    v.push(same("near-keys", "each of the keys channels have besides, every key of another object and 14 near spellings of every known key, with 4 values (one of them what the known key has), first and last in each object", nn * 4 * 2 * 4, small.clone(), move |d, i| {
        let (k, val, last, at) = (&n1[(i % nn) as usize], i / nn % 4, i / nn / 4 % 2, (i / nn / 8) as usize);
        let mut j = doc_json(d);
        let other = [doc_json(&doc(2, 2)), J::Obj(vec![("subdir".into(), js("other"))]), rec_json(&rec(7)), rec_json(&rec(7))];
        let o = match object(&mut j, [(0u8, 0, 0), (1, 0, 0), (2, 0, 0), (2, 1, 0)][at]) {
            Some(o) => o,
            None => return compact(&j),
        };
        if o.iter().any(|x| x.0 == k.0) {
            return compact(&j);
        }
        let v = match val {
            0 => J::Null,
            1 => js("x"),
            2 => jn(3),
            _ => match &other[at] {
                J::Obj(m) => m.iter().find(|x| x.0 == k.1).map_or(J::Arr(vec![]), |x| x.1.clone()),
                _ => J::Null,
            },
        };
        let p = if last == 1 { o.len() } else { 0 };
        o.insert(p, (k.0.clone(), v));
        compact(&j)
    }));
    let cv = Arc::new(channel_versions(tier));
    let (c2, nv) = (cv.clone(), cv.len() as u64);
    v.push(Space::new(
        "channel-rewritten",
        "documents as a channel has them, pretty, all escaped, or with the keys of all objects turned round and conda's other keys added",
        nv * 3,
        move |i| format!("{:?}, form {}", c2[(i / 3) as usize], i % 3),
        move |i, c| {
            let d = channel(&cv, (i / 3) as usize);
            let mut j = doc_json(&d);
            let t = match i % 3 {
                0 => pretty(&j),
                1 => escaped(&j, None, 0),
                _ => {
                    dress(&mut j, i as usize);
                    compact(&j)
                }
            };
            loads(t.as_bytes(), &d, &format!("channel-rewritten[{}]", i), c)
        },
    ));
    let ns = tier.pick(19u64, 22) * 2;
    let sized = |i: u64| {
        let n = if i % 2 == 0 { 1usize << (i / 2) } else { 3 << (i / 2) };
        let mut d = doc(n / 400 + 1, n / 800 + 1);
        if n % 3 == 0 {
            d.sec[0][0].1.depends = (0..n / 20).map(|k| format!("é{} \"{}\\", k, k % 7)).collect();
        }
        d
    };
    v.push(Space::new(
        "sized-rewritten",
        "documents of 512 bytes to 700 kB (thorough 6 MB), pretty, with carriage returns, escaped in 3 ways, or with the keys of all objects turned round and conda's other keys added",
        ns * 6,
        move |i| format!("size {}, form {}", i / 6, i % 6),
        move |i, c| {
            let d = sized(i / 6);
            let mut j = doc_json(&d);
            let t = match i % 6 {
                0 => pretty(&j),
                1 => pretty(&j).replace('\n', "\r\n"),
                2 | 3 | 4 => escaped(&j, None, i % 3),
                _ => {
                    dress(&mut j, i as usize);
                    compact(&j)
                }
            };
            loads(t.as_bytes(), &d, &format!("sized-rewritten[{}]", i), c)
        },
    ));
    // several kinds of change together
    v.push(same("combined", "key order x whitespace x escapes x unknown key", 24 * 4 * 4 * 3, small.clone(), move |d, i| {
        let mut j = doc_json(d);
        let (a, w, e, u) = (i % 24, i / 24 % 4, i / 96 % 4, i / 384);
        for at in [(0u8, 0, 0), (2, 0, 0), (2, 1, 0)] {
            if let Some(o) = object(&mut j, at) {
                if u > 0 {
                    o.insert((u as usize) % o.len(), ("license".into(), if u == 1 { js("MIT") } else { rec_json(&rec(3)) }));
                }
                let n = o.len();
                permute(o, &perm(n, a * 3 % (1..=n as u64).product::<u64>()));
            }
        }
        let t = match e {
            0 => compact(&j),
            k => escaped(&j, None, k - 1),
        };
        match w {
            0 => t,
            k => {
                // blanks around structural characters outside texts
                let mut o = String::new();
                let (mut ins, mut esc_) = (false, false);
                for c in t.chars() {
                    if ins {
                        o.push(c);
                        if esc_ {
                            esc_ = false
                        } else if c == '\\' {
                            esc_ = true
                        } else if c == '"' {
                            ins = false
                        }
                    } else if c == '"' {
                        ins = true;
                        o.push(c)
                    } else if "{}[],:".contains(c) {
                        o.push_str([" ", "\n", "\r\n\t"][k as usize - 1]);
                        o.push(c);
                        o.push_str([" ", "\n", "\r\n\t"][k as usize - 1]);
                    } else {
                        o.push(c)
                    }
                }
                o
            }
        }
    }));
    if let Some((b, d)) = real_file() {
        let j = json::parse(&b).unwrap();
        v.push(Space::new(
            "real-file-rewritten",
            "the repository's own repodata file compact, pretty, all escaped, keys reversed",
            5,
            |i| format!("form {}", i),
            move |i, c| {
                let t = match i {
                    0 => compact(&j),
                    1 => pretty(&j),
                    2 => escaped(&j, None, 0),
                    3 => escaped(&j, None, 2),
                    _ => {
                        fn rev(j: &J) -> J {
                            match j {
                                J::Obj(o) => J::Obj(o.iter().rev().map(|(k, v)| (k.clone(), rev(v))).collect()),
                                J::Arr(a) => J::Arr(a.clone()),
                                x => x.clone(),
                            }
                        }
                        compact(&rev(&j))
                    }
                };
                loads(t.as_bytes(), &d, &format!("real-file-rewritten[{}]", i), c)
            },
        ));
    }
    v
}
