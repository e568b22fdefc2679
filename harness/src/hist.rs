//! H01: answers do not depend on the history of calls or on the calling thread.
//!
//! Every history runs in a process of its own, forked from a worker that has never called the library, so
//! every lazily built global starts unbuilt. Calls are handed from thread to thread with a baton: a history
//! is a sequence of (thread, query) and is fully deterministic. The answer each query gives in a process
//! that does nothing else is the reference.
use crate::engine::{bad, guard, h, Ctx, Space, Tier};
use ronda::*;
use std::convert::TryFrom;
use std::io::{BufRead, BufReader, Read, Write};
use std::sync::{mpsc, Arc};

pub type Again = Box<dyn Fn() -> String + Send>;
#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    Parse(String),
    Cmp(String, String),
    Ops(String, String),
    Spec(String, String),
    General(String, String),
    Tree(String),
    TreeMatch(String, String),
    TreeEq(String, String),
    Group(Vec<String>),
    Lookup(String),
    /// the same answer must come n times in a row
    Repeat(Box<Q>, usize),
    /// the same answers must come in each of n rounds
    Cycle(Vec<Q>, usize),
}
/// The text at a fixed place: two texts passed one after the other to the library have the same address when
/// they take the same role, so that a memo that goes by address is always wrong about the second.
fn at<T>(role: usize, t: &str, f: impl FnOnce(&str) -> T) -> T {
    thread_local! { static BUF: [std::cell::RefCell<Vec<u8>>; 2] = Default::default(); }
    BUF.with(|b| match b[role].try_borrow_mut() {
        Ok(mut b) if t.len() <= 1 << 14 => {
            b.clear();
            b.reserve_exact(1 << 14);
            b.extend_from_slice(t.as_bytes());
            f(std::str::from_utf8(&b).unwrap())
        }
        _ => f(t),
    })
}
fn ver(t: &str) -> Result<Version, String> {
    at(0, t, |t| t.parse::<Version>()).map_err(|e| format!("{:?} {}", e, e))
}
impl Q {
    /// the answer, and a way to ask the objects built for it once more
    pub fn ask(&self) -> (String, Option<Again>) {
        match guard(|| self.ask_()) {
            Ok(x) => x,
            Err(p) => (format!("panic {}", p), None),
        }
    }
    fn ask_(&self) -> (String, Option<Again>) {
        fn keep(f: impl Fn() -> String + Send + 'static) -> (String, Option<Again>) {
            (f(), Some(Box::new(f)))
        }
        let no = |e: String| (format!("error {}", e), None);
        match self {
            Q::Parse(t) => match ver(t) {
                Ok(v) => keep(move || format!("{} {:?} {:?}", v, v.parts(), v)),
                Err(e) => no(e),
            },
            Q::Cmp(a, b) => match (ver(a), ver(b)) {
                (Ok(a), Ok(b)) => keep(move || format!("{:?} {:?} {} {} {}", a.compare_version(&b), a.compare_str(b.as_str()), a == b, a < b, a.startswith(&b))),
                (a, b) => no(format!("{:?} {:?}", a.is_ok(), b.is_ok())),
            },
            Q::Ops(a, b) => match (ver(a), ver(b)) {
                (Ok(a), Ok(b)) => keep(move || crate::model::OPS.iter().map(|o| a.compare_to_version(&b, &crate::ver::real_op(*o)).to_string()).collect::<Vec<_>>().join(" ")),
                (a, b) => no(format!("{:?} {:?}", a.is_ok(), b.is_ok())),
            },
            Q::Spec(s, x) => match at(1, s, |s| VersionSpec::try_from(s)) {
                Ok(s) => {
                    let (x, v) = (x.clone(), ver(x));
                    keep(move || {
                        let m = v.as_ref().ok().map(|v| s.test_match_version(v));
                        format!("{} {:?} {} {:?} {:?}", at(0, &x, |x| s.test_match(x)), m, s.is_exact(), s.get_spec(), s.exact_value())
                    })
                }
                Err(e) => no(e.to_string()),
            },
            Q::General(s, x) => match at(1, s, |s| VersionSpecOrConstraintTree::try_from(s)) {
                Ok(s) => {
                    let x = x.clone();
                    keep(move || format!("{} {:?} {}", at(0, &x, |x| s.test_match(x)), untreeify(&s).ok(), s.is_exact()))
                }
                Err(e) => no(e.to_string()),
            },
            Q::Tree(t) => match at(1, t, |t| treeify(t)) {
                Ok(t) => {
                    let t = VersionSpecOrConstraintTree::ConstraintTree(t);
                    keep(move || format!("{} {:?} {:?}", crate::tree::show(&t), untreeify(&t).ok(), t))
                }
                Err(e) => no(e.to_string()),
            },
            Q::TreeMatch(t, x) => match at(1, t, |t| treeify(t)) {
                Ok(t) => {
                    let x = x.clone();
                    keep(move || at(0, &x, |x| t.test_match(x)).to_string())
                }
                Err(e) => no(e.to_string()),
            },
            Q::TreeEq(a, b) => match (at(1, a, |t| treeify(t)), at(1, b, |t| treeify(t))) {
                (Ok(a), Ok(b)) => keep(move || (a == b).to_string()),
                (a, b) => no(format!("{:?} {:?}", a.is_ok(), b.is_ok())),
            },
            Q::Group(m) => {
                let m: Vec<&str> = m.iter().map(|s| s.as_str()).collect();
                match ConstraintTree::try_from(m) {
                    Ok(t) => {
                        let t = VersionSpecOrConstraintTree::ConstraintTree(t);
                        keep(move || format!("{} {} {}", crate::tree::show(&t), t.test_match("1.5"), t.test_match("2.5")))
                    }
                    Err(e) => no(e.to_string()),
                }
            }
            Q::Lookup(t) => keep({
                let t = t.clone();
                move || format!("{:?} {:?}", CompOp::from_sign(&t).ok(), CompOp::from_name(&t).ok())
            }),
            Q::Repeat(q, n) => {
                let a = q.ask();
                for k in 1..*n {
                    let b = q.ask();
                    if a.0 != b.0 {
                        return (format!("call {} of {:?} gives {}, the first gave {}", k + 1, q, b.0, a.0), None);
                    }
                }
                a
            }
            Q::Cycle(qs, n) => {
                let first: Vec<String> = qs.iter().map(|q| q.ask().0).collect();
                for k in 1..*n {
                    for (q, a) in qs.iter().zip(&first) {
                        let b = q.ask().0;
                        if *a != b {
                            return (format!("round {} of {} queries: {:?} gives {}, in the first round {}", k + 1, qs.len(), q, b, a), None);
                        }
                    }
                }
                (first.join("; "), None)
            }
        }
    }
}
fn st(v: &[(&str, &str)]) -> Vec<(String, String)> {
    v.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect()
}
/// Queries that a shared cache, memo table or reused buffer would be tempted to confuse: equal values with
/// different texts, texts equal up to case, length, prefix or order, swapped arguments, same text asked of
/// different functions.
pub fn alphabet() -> Vec<Q> {
    let mut v = vec![];
    for t in ["1.0", "1.00", "1.0.0", "1", "1.a", "1.A", "1.b", "a", "A", "1.0+a", "1.0+b", "1!1.0", "0!1.0", "1.dev", "1.post", "1.DEV", "2.0", "1.0.1", "", "a!1", "1!2!3", "1+a+b", "1_0", "1-0", "10", "1.0rc1", "é", "1.9", "1.10"] {
        v.push(Q::Parse(t.into()));
    }
    for (a, b) in st(&[
        ("1.0", "2.0"), ("2.0", "1.0"), ("1.0", "1.0.0"), ("1.0.0", "1.0"), ("1.a", "1.A"), ("1.a", "1.b"), ("1.b", "1.a"), ("1.dev", "1"), ("1", "1.dev"), ("1.post", "1"), ("1", "1.post"), ("1.post", "1.dev"),
        ("1.dev1", "1.dev2"), ("1.9", "1.10"), ("1.10", "1.9"), ("1!1", "2"), ("2", "1!1"), ("1+a", "1+b"), ("1+b", "1+a"), ("1", "1+a"), ("", "1"), ("1.0", "1.0.1"), ("1.0.1", "1.0"), ("11", "1"), ("1", "11"), ("a", "B"),
    ]) {
        v.push(Q::Cmp(a.clone(), b.clone()));
        v.push(Q::Ops(a, b));
    }
    for (s, x) in st(&[
        ("1.0", "1.0"), ("1.0", "1.0.0"), ("1.0", "2.0"), ("==1.0", "1.0"), ("!=1.0", "1.0"), ("<1.0", "1.0"), ("<=1.0", "1.0"), (">1.0", "1.0"), (">=1.0", "1.0"), ("<1.0", "0.9"), ("<=1.0", "0.9"), (">1.0", "0.9"),
        ("<2.0", "1.0"), (">2.0", "1.0"), ("1.0.*", "1.0.5"), ("1.0*", "1.0.5"), ("=1.0", "1.0.5"), ("!=1.0.*", "1.0.5"), ("~=1.0", "1.5"), ("~=1.0", "2.0"), ("~=1.0.1", "1.0.5"), ("~=1.0.1", "1.1"), ("1.*.1", "1.0.1"),
        ("1.*.2", "1.0.1"), ("1*1", "1.0.1"), ("^1.*$", "1.0"), ("^2.*$", "1.0"), ("^1..$", "1.0"), ("^.*1$", "1.0.1"), ("*", "1.0"), ("@1.0", "@1.0"), ("@1.0", "1.0"), ("^[$", "1"), ("==", "1"), ("!", "1"), ("1!2!3", "1"),
        ("==1.a", "1.A"), ("@a", "@A"), ("1.post", "1.post"), ("<1.dev", "1"), (">=1.post", "1"), ("=1", "10"), ("1*", "10"),
    ]) {
        v.push(Q::Spec(s.clone(), x.clone()));
        v.push(Q::General(s, x));
    }
    for t in ["1,2", "1|2", "2,1", "2|1", "1,2,3", "1|2|3", "1,2|3", "1|2,3", "(1|2),3", "1,(2|3)", "(1,2)|3", "((1))", "1", "1,", ",1", "(1", "1)", "", "()", "<1,>2", "<1|>2", "^1|2$", "^1$|2", ">=1,<2|3", "1,1", "1|1"] {
        v.push(Q::Tree(t.into()));
    }
    for (t, x) in st(&[(">=1,<2", "1.5"), (">=1,<2", "2.5"), (">=1|<2", "2.5"), ("<1|>2", "1.5"), ("<1,>2", "1.5"), ("<1|>2", "2.5"), ("1.5|2.5", "2.5"), ("1.5,2.5", "2.5"), ("(1|2),3", "3"), ("1|2,3", "1"), ("1.5", "1.5"), ("^1.*$|3", "1.5")]) {
        v.push(Q::TreeMatch(t.clone(), x.clone()));
        v.push(Q::General(t, x));
    }
    for (a, b) in st(&[("1,2", "1|2"), ("1,2", "1,2"), ("1,2", "2,1"), ("1,2", "1,2,3"), ("(1|2),3", "1|2,3")]) {
        v.push(Q::TreeEq(a, b));
    }
    for g in [vec![",", ">=1", "<2"], vec!["|", ">=1", "<2"], vec![",", "<2", ">=1"], vec!["|"], vec![";", "1"], vec![",", "!"]] {
        v.push(Q::Group(g.iter().map(|s| s.to_string()).collect()));
    }
    for t in ["<", "<=", " < ", "lt", "LT", "==", "eq", "~=", "compatible", "startswith", "x"] {
        v.push(Q::Lookup(t.into()));
    }
    v
}
/// the most entangled queries, one or two per piece of shared machinery
fn core(n: usize) -> Vec<Q> {
    let p = |a: &str| a.to_string();
    let mut v = vec![
        Q::Spec(p("<1.0"), p("0.9")),
        Q::Spec(p("<=1.0"), p("1.0")),
        Q::Cmp(p("1.dev"), p("1")),
        Q::Tree(p("1,2|3")),
        Q::Spec(p("^1.*$"), p("1.0")),
        Q::Parse(p("1.0")),
        Q::Cmp(p("1.post"), p("1.dev")),
        Q::General(p(">=1,<2"), p("1.5")),
        Q::Spec(p("1.*.1"), p("1.0.1")),
        Q::Parse(p("1.A")),
        Q::Cmp(p("1.0"), p("2.0")),
        Q::Tree(p("1|2,3")),
        Q::Parse(p("a!1")),
        Q::Spec(p("^[$"), p("1")),
        Q::Tree(p("(1")),
        Q::Cmp(p("2.0"), p("1.0")),
        Q::Spec(p("@1.0"), p("1.0")),
        Q::Ops(p("1.a"), p("1.b")),
        Q::Spec(p("~=1.0"), p("1.5")),
        Q::General(p("<1|>2"), p("1.5")),
        Q::Parse(p("1.a")),
        Q::Spec(p("=1.0"), p("1.0.5")),
        Q::Tree(p("^1|2$")),
        Q::Cmp(p("1.0"), p("1.0.0")),
    ];
    v.truncate(n);
    v
}
/// every query of the alphabet and then some, in one go: whatever mode, table or slot a history left behind shows in one of them
fn everything() -> Q {
    let mut v = alphabet();
    v.extend(race_queries(true));
    for w in crate::gen::VOCAB {
        v.push(Q::Parse(format!("1.{}-2_{}3+{}.1-a", w, w, w)));
        v.push(Q::Cmp(format!("2.{}1", w), format!("2.{}", w.to_uppercase())));
        v.push(Q::Spec(format!("2{}.*", w), format!("2{}.1", w)));
    }
    for b in TWIN_BASES.iter() {
        v.extend((0..ABOUT).map(|k| about(k, b, "3.4.5.6")));
    }
    Q::Cycle(v, 1)
}
/// the k-th of many pairwise different queries of one kind
fn nth(kind: usize, k: usize) -> Q {
    let t = format!("{}.{}.{}", k % 7, k / 7, (k * 31) % 97);
    let x = format!("{}.{}.{}", (k + 3) % 7, k / 7, (k * 17) % 97);
    match kind {
        0 => Q::Parse(t),
        1 => Q::Cmp(t, x),
        2 => Q::Spec(format!("{}{}", ["<", "<=", ">", ">=", "==", "!=", "=", ""][k % 8], t), x),
        3 => Q::Tree(format!("{},<{}|{}", t, x, k)),
        4 => Q::Spec(format!("^{}.*{}$", k % 7, k), x),
        5 => Q::Parse(format!("{}.{}{}", k % 5, ["a", "dev", "Post", "rc"][k % 4], k)),
        6 => Q::Cmp(format!("1.{}{}", ["a", "dev", "Post", "rc"][k % 4], k), format!("1.{}{}", ["b", "post", "Dev", "rc"][k / 4 % 4], k / 2)),
        7 => Q::General(format!("<{}|>={}", t, x), format!("{}.5", k % 7)),
        9 => Q::Cmp(format!("1.{}", nth_word(k)), format!("1.{}", nth_word(before(k)))),
        10 => Q::Parse(format!("{}!{}{}+{}.{}", k % 30_000, k % 3, nth_word(k), nth_word(k + 7), k)),
        11 => Q::Spec(format!("@{}.{}", k % 7, nth_word(k)), format!("{}.{}", k % 7, nth_word(k))),
        13 => Q::Cmp(t, {
            let k = before(k);
            format!("{}.{}.{}", k % 7, k / 7, (k * 31) % 97)
        }),
        12 => Q::Tree(format!("{}{},(<{}|{}*)", ["", "!=", ">", "^"][k % 4], nth_word(k), nth_word(k / 3), k)),
        _ => Q::Spec(format!("{}.*.{}{}", k % 7, (k * 31) % 97, if k < 679 { String::new() } else { format!(".{}", k / 679) }), t),
    }
}
const KINDS: usize = 14;
/// one asked about a round number of questions ago: whatever is numbered in order and then counted over meets it again
fn before(k: usize) -> usize {
    let d = [65536, 256, 65536, 4096, 65536, 32768, 65536, 1024][k % 8];
    if k >= d { k - d } else { k / 2 }
}
/// the k-th of many different words, of which neighbours and those far apart have letters in common
fn nth_word(k: usize) -> String {
    let (mut k, mut w) = (k, String::new());
    loop {
        w.push((b'a' + (k % 26) as u8) as char);
        k /= 26;
        if k == 0 {
            return w;
        }
    }
}
/// Texts that a weak key (length, a few bytes at either end, a rolling or order-blind sum, letter case) would
/// confuse with `t`: every single-character change, transposition, deletion and doubling, and case flips.
fn twins(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut o: Vec<String> = vec![];
    let s = |v: &[char]| v.iter().collect::<String>();
    for p in 0..c.len() {
        let mut d = c.clone();
        d[p] = match c[p] {
            '9' => '8',
            x @ '0'..='8' => (x as u8 + 1) as char,
            'z' => 'y',
            x if x.is_ascii_alphabetic() => (x as u8 ^ 32) as char,
            '.' => '_',
            x => x,
        };
        o.push(s(&d));
        if c[p].is_ascii_alphabetic() && c[p] != 'z' {
            d[p] = (c[p] as u8 + 1) as char;
            o.push(s(&d));
        }
        let mut d = c.clone();
        d.remove(p);
        o.push(s(&d));
        let mut d = c.clone();
        d.insert(p, c[p]);
        o.push(s(&d));
        for q in p + 1..c.len() {
            if c[p].is_ascii_digit() && c[q].is_ascii_digit() && c[p] != c[q] || q == p + 1 {
                let mut d = c.clone();
                d.swap(p, q);
                o.push(s(&d));
                // equal byte sums
                if c[p].is_ascii_digit() && c[q].is_ascii_digit() && c[p] < '9' && c[q] > '0' {
                    let mut d = c.clone();
                    d[p] = (c[p] as u8 + 1) as char;
                    d[q] = (c[q] as u8 - 1) as char;
                    o.push(s(&d));
                }
            }
        }
    }
    o.extend([format!("{}0", t), format!("0{}", t), format!("{}.0", t), format!(" {}", t), format!("{} ", t), t.to_uppercase(), t.chars().rev().collect(), format!("{}{}", t, t)]);
    o.sort();
    o.dedup();
    o.retain(|x| x != t);
    o
}
const TWIN_BASES: [&str; 3] = ["1.23.456.7890.12.34.56.78.90.1", "3!2.10rc1.dev2.post3.alpha4+loc.5a", "2024.01.15"];
/// one kind of query about a text; the candidate it is asked with is fixed
fn about(kind: usize, t: &str, base: &str) -> Q {
    let (t, b) = (t.to_string(), base.to_string());
    match kind {
        0 => Q::Parse(t),
        1 => Q::Cmp(t, b),
        2 => Q::Cmp(b, t),
        3 => Q::Spec(format!("<={}", t), b),
        4 => Q::Spec(format!(">1,<{}", t), b), // rejected: a single spec has no comma
        5 => Q::General(format!("<={}|>99!0", t), b),
        6 => Q::Spec(format!("{}.*", t), b),
        7 => Q::Spec(format!("^{}.*$", t.replace('.', "[.]").replace('+', "[+]")), b),
        8 => Q::Tree(format!(">{},(<2|!={})", t, b)),
        9 => Q::Spec(format!("={}", b), t),
        10 => Q::Ops(t, b),
        11 => Q::TreeEq(format!("{},1", t), format!("{},1", b)),
        12 => Q::TreeMatch(format!(">=0!1,<={}", b), t),
        13 => Q::TreeMatch(format!("!={}|=={}", b, &b[..3]), t),
        14 => Q::General(format!("!={}", b), t),
        15 => Q::Spec(format!("~={}", b), t),
        16 => Q::Spec(format!("^{}$", b.replace('.', "[.]").replace('+', "[+]")), t),
        17 => Q::Group(vec!["|".into(), format!(">={}", t), format!("<={}", b)]),
        _ => Q::Spec(format!("{}*{}", &b[..2], &t[t.char_indices().nth(2).map_or(0, |x| x.0)..]), b),
    }
}
const ABOUT: usize = 19;
/// kinds asked one after the other in one history
const ABOUT_STEP: usize = 4;

/// thread numbers from here on: a thread that lives for one call
const SHORT: u16 = 10_000;
// ---- worker process -----------------------------------------------------------------------------
/// One request per line: "space-family numbers..."; the worker forks, the child runs the history.
pub fn run_history(steps: &[(u16, Q)], expected: &dyn Fn(&Q) -> Option<String>) -> Result<u64, String> {
    let mut lanes: std::collections::HashMap<u16, (mpsc::Sender<Q>, mpsc::Receiver<(String, Option<Again>)>)> = Default::default();
    let mut kept: Vec<(usize, String, Again)> = vec![];
    let mut seen: std::collections::HashMap<String, String> = Default::default();
    let mut calls = 0;
    for (i, (t, q)) in steps.iter().enumerate() {
        let (a, again) = if *t == 0 {
            q.ask()
        } else if *t >= SHORT {
            let q2 = q.clone();
            match std::thread::spawn(move || q2.ask()).join() {
                Ok(x) => x,
                Err(_) => return Err(format!("step {} ({:?} on a thread of its own): the thread died", i + 1, q)),
            }
        } else {
            let lane = lanes.entry(*t).or_insert_with(|| {
                let (s, r) = mpsc::channel::<Q>();
                let (s2, r2) = mpsc::channel();
                std::thread::spawn(move || {
                    for q in r {
                        let _ = s2.send(q.ask());
                    }
                });
                (s, r2)
            });
            lane.0.send(q.clone()).unwrap();
            match lane.1.recv() {
                Ok(x) => x,
                Err(_) => return Err(format!("step {} ({:?} on thread {}): the thread died", i + 1, q, t)),
            }
        };
        calls += match q {
            Q::Cycle(v, n) => (v.len() * n) as u64,
            Q::Repeat(_, n) => *n as u64,
            _ => 1,
        };
        if let Some(e) = expected(q) {
            if e != a {
                return Err(format!("step {} ({:?} on thread {}) answers {:?}; in a process of its own it answers {:?}", i + 1, q, t, a, e));
            }
        }
        if let Some(b) = seen.insert(format!("{:?}", q), a.clone()) {
            if b != a {
                return Err(format!("step {} ({:?} on thread {}) answers {:?}; earlier in the history it answered {:?}", i + 1, q, t, a, b));
            }
        }
        if let Some(f) = again {
            kept.push((i, a, f))
        }
    }
    for (i, a, f) in kept {
        calls += 1;
        let b = guard(&f).unwrap_or_else(|p| format!("panic {}", p));
        if a != b {
            return Err(format!("the values obtained by step {} ({:?}) answered {:?} then and {:?} after the history", i + 1, steps[i].1, a, b));
        }
    }
    Ok(calls)
}
static WORKER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn in_child(f: impl FnOnce() -> String) -> Result<String, String> {
    in_child_for(60, f)
}
pub fn in_child_for(seconds: u32, f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(seconds);
            let s = match guard(f) {
                Ok(s) => s,
                Err(p) => format!("!harness panic {}", p),
            };
            let b = s.as_bytes();
            let mut k = 0;
            while k < b.len() {
                let n = libc::write(fds[1], b[k..].as_ptr() as *const _, b.len() - k);
                if n <= 0 {
                    break;
                }
                k += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        // a worker tells the explorer that it is still waiting
        if WORKER.load(std::sync::atomic::Ordering::Relaxed) {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            while libc::poll(&mut p, 1, 1000) == 0 {
                println!("...");
                let _ = std::io::stdout().flush();
            }
        }
        use std::os::unix::io::FromRawFd;
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut s = vec![];
        let _ = f.read_to_end(&mut s);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if libc::WIFSIGNALED(status) {
            return Err(format!("the process was killed by signal {}", libc::WTERMSIG(status)));
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
}
fn family(name: &str, tier: Tier) -> Family {
    families(tier).into_iter().find(|f| f.name == name).expect("family")
}
pub fn worker() -> i32 {
    WORKER.store(true, std::sync::atomic::Ordering::Relaxed);
    let a: Vec<String> = std::env::args().collect();
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let fam = family(&a[3], tier);
    let mut cache: std::collections::HashMap<String, String> = Default::default();
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { break };
        let Ok(i) = l.trim().parse::<u64>() else { break };
        if fam.name == "flood" {
            let (kind, n) = flood_case(i, tier);
            println!("{}", flood(kind, n).unwrap_or_else(|e| e).replace('\n', " "));
            let _ = std::io::stdout().flush();
            continue;
        }
        let steps = (fam.history)(i);
        // the reference answers, each from a fresh process
        for (_, q) in &steps {
            let k = format!("{:?}", q);
            if !cache.contains_key(&k) {
                let r = match q {
                    Q::Cycle(qs, _) => in_child(|| Q::Cycle(qs.clone(), 1).ask().0),
                    _ => in_child(|| q.ask().0),
                };
                cache.insert(k, r.unwrap_or_else(|e| e));
            }
        }
        let r = in_child_for(if fam.name == "marathon" { 700 } else { 60 }, || match run_history(&steps, &|q| cache.get(&format!("{:?}", q)).cloned()) {
            Ok(n) => format!("ok {}", n),
            Err(m) => m,
        });
        let out = r.unwrap_or_else(|e| e).replace('\n', " ");
        println!("{}", out);
        let _ = std::io::stdout().flush();
    }
    0
}

fn flood_sizes(tier: Tier) -> Vec<usize> {
    let mut v = vec![tier.pick(101_000, 400_000)];
    let least = v[0];
    v.extend(crate::dict::nums(tier.pick(200_000, 1_000_000)).into_iter().map(|n| n as usize).filter(|n| *n > least));
    v
}
fn flood_case(i: u64, tier: Tier) -> (usize, usize) {
    (i as usize % KINDS, flood_sizes(tier)[i as usize / KINDS])
}
/// n different queries in one process, twice; against the answers 128 at a time in processes of their own
fn flood(kind: usize, n: usize) -> Result<String, String> {
    const STEP: usize = 128;
    let mut refs: Vec<u64> = vec![];
    for a in (0..n).step_by(STEP) {
        let s = in_child(|| (a..(a + STEP).min(n)).map(|k| h(&nth(kind, k).ask().0).to_string()).collect::<Vec<_>>().join(" "))?;
        refs.extend(s.split(' ').map(|x| x.parse::<u64>().unwrap_or(0)));
        if a % (STEP * 64) == 0 {
            println!("...");
            let _ = std::io::stdout().flush();
        }
    }
    in_child_for(600, || {
        for round in 0..2 {
            for k in 0..n {
                let a = nth(kind, k).ask().0;
                if refs.get(k) != Some(&h(&a)) {
                    return format!("query {} of {} different ones, round {} ({:?}) answers {}; otherwise after at most {} others", k + 1, n, round + 1, nth(kind, k), a, STEP);
                }
            }
        }
        format!("ok {}", 2 * n)
    })
}

// ---- interleavings within calls (main_x.rs) ------------------------------------------------------
fn race_queries(thorough: bool) -> Vec<Q> {
    let p = |a: &str| a.to_string();
    let mut v = vec![
        Q::Parse(p("1.10a-2.5post3+loc.al_part.7")),
        Q::Parse(p("2!4.20b-3.6dev9+other.lo_cal.8")),
        Q::Cmp(p("1.dev.b"), p("1.post")),
        Q::Spec(p("<1.0"), p("0.9")),
        Q::Spec(p("^1.*$"), p("1.0")),
        Q::Tree(p("1,2|3")),
        Q::General(p(">=1,<2"), p("1.5")),
        Q::Spec(p("1.*.1"), p("1.0.1")),
    ];
    if thorough {
        v.extend([
            Q::Parse(p("a!1")),
            Q::Cmp(p("1.a"), p("1.A")),
            Q::Ops(p("1.0"), p("2.0")),
            Q::Spec(p(">=1.0"), p("1.9")),
            Q::Spec(p("~=1.0.1"), p("1.0.5")),
            Q::Spec(p("@1.0"), p("@1.0")),
            Q::Tree(p("(^1|2$,(3))|1")),
            Q::TreeEq(p("1,2"), p("2,1")),
            Q::Lookup(p("<=")),
        ]);
    }
    v
}
/// number of (one thread's query, the other's, what was asked before) cases
pub fn race_count(thorough: bool) -> u64 {
    let n = race_queries(thorough).len() as u64;
    n * (n + 1) / 2 * 2
}
pub fn race_bound(thorough: bool) -> (usize, usize) {
    if thorough { (3, 100_000) } else { (2, 5000) }
}
pub fn race_case(i: u64, thorough: bool) -> (Vec<Q>, Vec<Vec<Q>>) {
    let q = race_queries(thorough);
    let (mut k, mode) = ((i / 2) as usize, i % 2);
    let mut a = 0;
    while k >= q.len() - a {
        k -= q.len() - a;
        a += 1;
    }
    let b = a + k;
    let before = match mode {
        0 => vec![],
        _ => race_queries(false),
    };
    (before, vec![vec![q[a].clone()], vec![q[b].clone()]])
}

pub struct Family {
    pub name: String,
    pub bound: String,
    pub n: u64,
    pub history: Arc<dyn Fn(u64) -> Vec<(u16, Q)> + Send + Sync>,
}
fn fam(name: &str, bound: &str, n: u64, f: impl Fn(u64) -> Vec<(u16, Q)> + Send + Sync + 'static) -> Family {
    Family { name: name.into(), bound: bound.into(), n, history: Arc::new(f) }
}
/// assignments of n positions to threads, up to renaming of the threads (the first call on thread 0)
fn partitions(n: usize, max: u16) -> Vec<Vec<u16>> {
    let mut o: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..n {
        o = o
            .into_iter()
            .flat_map(|p| {
                let top = p.iter().max().map_or(0, |m| m + 1).min(max - 1);
                (0..=top).map(move |t| {
                    let mut p = p.clone();
                    p.push(t);
                    p
                }).collect::<Vec<_>>()
            })
            .collect();
    }
    o
}
fn tuples(name: &str, qs: Vec<Q>, len: usize, threads: u16) -> Family {
    let parts = partitions(len, threads);
    let (k, np) = (qs.len() as u64, parts.len() as u64);
    fam(
        name,
        &format!("every sequence of {} of {} queries x every assignment to {} threads ({})", len, k, threads, np),
        k.pow(len as u32) * np,
        move |i| {
            let mut w = i / np;
            let mut o = vec![];
            for j in 0..len {
                o.push((parts[(i % np) as usize][j], qs[(w % k) as usize].clone()));
                w /= k;
            }
            o
        },
    )
}
pub fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let all = alphabet();
    v.push(tuples("alone", all.clone(), 1, 1));
    v.push(tuples("pairs", all.clone(), 2, 2));
    v.push(tuples("triples", core(tier.pick(14, 24)), 3, 3));
    v.push(tuples("quadruples", core(tier.pick(6, 10)), 4, tier.pick(2, 3)));
    if tier == Tier::Thorough {
        v.push(tuples("quintuples", core(6), 5, 3));
    }
    // the whole alphabet in one process, from every starting point, forwards and backwards, then all again
    let n = all.len() as u64;
    let a2 = all.clone();
    v.push(fam("rotations", "the whole alphabet from every starting query, in either direction, on 1, 2 or 3 threads, twice over", n * 6, move |i| {
        let (s, how) = ((i / 6) as usize, i % 6);
        let l = a2.len();
        (0..2 * l)
            .map(|j| {
                let k = if how % 2 == 0 { (s + j) % l } else { (s + 2 * l - j) % l };
                ((j as u64 % (how / 2 + 1)) as u16, a2[k].clone())
            })
            .collect()
    }));
    // many different queries, then the early ones again: bounded tables overflow, counters roll over
    let sizes: Vec<usize> = {
        let mut s: Vec<usize> = (1..=tier.pick(20, 80)).collect();
        s.extend([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 499, 500, 501, 511, 512, 513]);
        s.extend([999, 1000, 1001, 1023, 1024, 1025]);
        s.extend(crate::dict::nums(1100).into_iter().map(|n| n as usize).filter(|n| *n > 20));
        s.sort();
        s.dedup();
        if tier == Tier::Thorough {
            s.extend([2047, 2048, 2049, 4095, 4096, 4097, 5000, 8193, 10_001])
        }
        s
    };
    let ns = sizes.len() as u64;
    let nk = KINDS as u64;
    v.push(fam("flood", &format!("N different queries of each of 14 kinds in one process, twice over, N {:?}", flood_sizes(tier)), flood_sizes(tier).len() as u64 * nk, move |i| {
        let (kind, n) = flood_case(i, tier);
        vec![(0, nth(kind, 0)), (0, nth(kind, n - 1))]
    }));
    // few queries over and over
    let mut cycles: Vec<(Vec<Q>, usize)> = vec![(core(24), tier.pick(30_000, 150_000))];
    for kind in 0..KINDS {
        cycles.push(((0..5).map(|k| nth(kind, k)).collect(), tier.pick(60_000, 300_000)));
    }
    cycles.push((["<", "<=", " < ", "lt", "x"].iter().map(|t| Q::Lookup(t.to_string())).collect(), tier.pick(60_000, 300_000)));
    cycles.push((vec![Q::TreeMatch(">=1,<2|3".into(), "1.5".into()), Q::TreeMatch(">=1,<2".into(), "2.5".into()), Q::TreeEq("1,2".into(), "2,1".into())], tier.pick(100_000, 500_000)));
    cycles.push((vec![Q::Parse("a!1".into()), Q::Tree("(1".into()), Q::Spec("^[$".into(), "1".into()), Q::Parse("".into())], tier.pick(75_000, 400_000)));
    v.push(fam("marathon", "24 entangled queries, 5 of each of 14 kinds, lookups, tree queries and failing ones in rounds of their own, 300 000 calls or more of each set (thorough 1 500 000) in one process", cycles.len() as u64, move |i| {
        let (q, n) = cycles[i as usize].clone();
        vec![(0, Q::Cycle(q, n))]
    }));
    v.push({
        let ev = everything();
        fam("fill", "N different queries of each of 14 kinds (N 1..20, powers of two and tens +-1 up to 1025; thorough 10001), then all of them, a fixed set, and the whole alphabet with 300 more, again; second half also on another thread", ns * nk * 2, move |i| {
            let (n, kind, th) = (sizes[(i % ns) as usize], (i / ns % nk) as usize, (i / ns / nk) as u16);
            let fixed = core(24);
            let mut o: Vec<(u16, Q)> = fixed.iter().map(|q| (0, q.clone())).collect();
            o.extend((0..n).map(|k| (0, nth(kind, k))));
            for k in 0..n {
                o.push((th, nth(kind, k)))
            }
            o.extend(fixed.into_iter().map(|q| (th, q)));
            o.push((th, ev.clone()));
            o
        })
    });
    // the same question about two texts that differ a little, one after the other
    let mut tw: Vec<(usize, String)> = vec![];
    for (k, b) in TWIN_BASES.iter().enumerate().take(tier.pick(2, 3)) {
        tw.extend(twins(b).into_iter().map(|t| (k, t)));
    }
    let tn = tw.len() as u64;
    let groups = (ABOUT as u64).div_ceil(ABOUT_STEP as u64);
    v.push(fam("twins", &format!("{} texts one edit away from a base text (changed, swapped, dropped, doubled, balanced and re-cased characters) x {} kinds of question, {} kinds to a history: base, twin, base again, twin again; base and twin on one thread or two", tn, ABOUT, ABOUT_STEP), tn * groups * 2, move |i| {
        let (k, t) = &tw[(i / 2 / groups) as usize];
        let g = (i / 2 % groups) as usize * ABOUT_STEP;
        let th = (i % 2) as u16;
        (g..(g + ABOUT_STEP).min(ABOUT))
            .flat_map(|kind| {
                let (a, b) = (about(kind, TWIN_BASES[*k], TWIN_BASES[*k]), about(kind, t, TWIN_BASES[*k]));
                vec![(0, a.clone()), (th, b.clone()), (0, a), (0, b)]
            })
            .collect()
    }));
    // many threads: at once (each asked again when all have been), one after the other, or by turns
    let counts: Vec<usize> = {
        let mut s: Vec<usize> = (1..=20).collect();
        s.extend([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
        s.extend([511, 513, 1023, 1025, 2049, 4097].iter().take(tier.pick(4, 6)));
        s.extend(crate::dict::nums(1100).into_iter().map(|n| n as usize).filter(|n| *n > 20));
        s.sort();
        s.dedup();
        s
    };
    let runs: Vec<(usize, bool, usize)> = counts.iter().flat_map(|n| (0..KINDS + 3).filter(move |w| *n <= 130 || *w >= KINDS + if *n > 300 { 2 } else { 0 }).flat_map(move |w| [(*n, false, w), (*n, true, w)])).collect();
    v.push(fam("threads", &format!("N threads, all alive at once or each for one call only, N {:?}; all ask the same 8 entangled queries by turns (3 ways), or, for N to 130, each one of 14 kinds of different ones; then every one of them (or as many new threads) asks again in the opposite order", counts), runs.len() as u64, move |i| {
        let (n, short, what) = runs[i as usize];
        let core = core(8);
        let q = |k: usize| if what < KINDS { nth(what, k) } else { core[(k * (2 * (what - KINDS) + 1) + what) % 8].clone() };
        let th = |k: usize| if short { SHORT } else { k as u16 + 1 };
        (0..n).map(|k| (th(k), q(k))).chain((0..n).rev().map(|k| (th(k), q(k + what % 3)))).collect()
    }));
    let (few, ev): (Vec<usize>, Q) = ((1..=20).chain([32, 33, 64, 65, 128, 129, 256, 257]).collect(), everything());
    let nf = few.len() as u64;
    v.push(fam("threads-everything", &format!("N threads, N {:?}, all alive or each for one call; the first, the last and every eighth asks the whole alphabet and 300 queries more, the others one", few), nf * 2, move |i| {
        let (n, short) = (few[(i % nf) as usize], i / nf == 1);
        (0..n).map(|k| (if short { SHORT } else { k as u16 + 1 }, if k % 8 == 0 || k + 1 == n { ev.clone() } else { nth(k % KINDS, k) })).collect()
    }));
    let a3 = all.clone();
    v.push(fam("repeats", "every query asked 300 (thorough 5000) times in a row, alone and after each of 6 others", n * 7, move |i| {
        let q = Q::Repeat(Box::new(a3[(i / 7) as usize].clone()), tier.pick(300, 5000));
        let mut o = vec![];
        if i % 7 > 0 {
            o.push((0, core(6)[(i % 7) as usize - 1].clone()))
        }
        o.push((0, q));
        o
    }));
    v
}

// ---- explorer side ------------------------------------------------------------------------------
struct Worker {
    ch: std::process::Child,
    inp: std::process::ChildStdin,
    out: BufReader<std::process::ChildStdout>,
    fam: String,
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
const RACES: &str = "interleavings within calls";
fn ask_worker(tier: Tier, fam: &str, i: u64) -> String {
    thread_local! { static W: std::cell::RefCell<Option<Worker>> = std::cell::RefCell::new(None); }
    W.with(|w| {
        let mut w = w.borrow_mut();
        if w.as_ref().map_or(true, |x| x.fam != fam) {
            *w = None;
            let mut cmd = match std::env::var("VERIF_MCX") {
                Ok(x) if fam == RACES => {
                    let mut c = std::process::Command::new(x);
                    c.arg(tier.name());
                    c
                }
                _ => {
                    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
                    c.args(["worker", tier.name(), fam]);
                    c
                }
            };
            let mut ch = cmd
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .spawn()
                .unwrap();
            let (inp, out) = (ch.stdin.take().unwrap(), BufReader::new(ch.stdout.take().unwrap()));
            *w = Some(Worker { ch, inp, out, fam: fam.to_string() });
        }
        let x = w.as_mut().unwrap();
        let mut l = String::new();
        let mut ok = writeln!(x.inp, "{}", i).is_ok() && x.inp.flush().is_ok();
        loop {
            l.clear();
            ok = ok && x.out.read_line(&mut l).map_or(false, |n| n > 0);
            if !ok || l.trim_end() != "..." {
                break;
            }
            crate::engine::tick();
        }
        if !ok {
            *w = None;
            panic!("the history worker died");
        }
        l.trim_end().to_string()
    })
}
fn races(tier: Tier) -> Option<Space> {
    // check.sh builds the explorer of interleavings; without it (no std sources to instrument) this space is left out
    let Ok(_) = std::env::var("VERIF_MCX") else {
        println!("NOTE: the interleaving explorer is not available; {:?} is not explored", RACES);
        return None;
    };
    let th = tier.name() == "thorough";
    let start = std::sync::OnceLock::new();
    Some(Space::new(
        RACES,
        &format!("every pair of {} queries on two threads at once, with nothing asked before and after warming up; all switches between the threads at accesses to memory they share, up to {} preemptions (a pair with more than {} schedules, or that takes more than a minute, counts as skipped: it is explored up to fewer; so do the pairs left after four minutes)", race_queries(th).len(), race_bound(th).0, race_bound(th).1),
        race_count(th),
        move |i| {
            let (before, t) = race_case(i, th);
            format!("{}; at the same time T0 {:?}, T1 {:?}", if before.is_empty() { "nothing asked before".to_string() } else { format!("after {} other queries", before.len()) }, t[0], t[1])
        },
        move |i, c: &mut Ctx| {
            // quick stays quick whatever the code under test shares; what is left out is counted
            if !th && start.get_or_init(std::time::Instant::now).elapsed().as_secs() > 240 {
                c.skipped += 1;
                return Ok(());
            }
            let r = ask_worker(tier, RACES, i);
            c.state(h(&format!("races {}", i)));
            match r.strip_prefix("ok ") {
                Some(n) => {
                    let mut w = n.split(' ');
                    let (runs, bound) = (w.next().and_then(|x| x.parse().ok()).unwrap_or(0u64), w.next().and_then(|x| x.parse().ok()).unwrap_or(0usize));
                    c.called(runs);
                    if bound < race_bound(th).0 {
                        c.skipped += 1; // more schedules than the limit: explored up to fewer preemptions
                    }
                    Ok(())
                }
                None => bad(format!("{} {}", RACES, r), r),
            }
        },
    ))
}
pub fn h01(tier: Tier) -> Vec<Space> {
    races(tier)
        .into_iter()
        .chain(histories(tier))
        .collect()
}
fn histories(tier: Tier) -> Vec<Space> {
    families(tier)
        .into_iter()
        .map(|f| {
            let (hs, hs2, name) = (f.history.clone(), f.history.clone(), f.name.clone());
            Space::new(
                &f.name,
                &f.bound,
                f.n,
                move |i| {
                    let s = hs(i);
                    let t = s.iter().take(12).map(|(t, q)| format!("T{} {:?}", t, q)).collect::<Vec<_>>().join("; ");
                    if s.len() > 12 { format!("{} calls: {}; ...", s.len(), t) } else { t }
                },
                move |i, c: &mut Ctx| {
                    let r = ask_worker(tier, &name, i);
                    let steps = hs2(i);
                    c.state(h(&format!("{:?}", steps)));
                    match r.strip_prefix("ok ") {
                        Some(n) => {
                            c.called(n.parse().unwrap_or(0));
                            Ok(())
                        }
                        None => bad(format!("{} {}", name, r), r),
                    }
                },
            )
        })
        .collect()
}
