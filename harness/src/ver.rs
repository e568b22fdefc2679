//! V01..V05: versions.
use crate::engine::{guard, h, Ctx, Space, Tier, R};
use crate::gen::*;
use crate::model::{self, cmp_key, Op, P};
use crate::{expect, fail};
use ronda::{conda_parser, CompOp, Version, VersionPart};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;

pub const ALPHA: [&str; 15] = ["0", "1", "9", "a", "D", ".", "-", "_", "+", "!", " ", "*", "\n", "é", "١"];

pub fn v01_one(t: &str, c: &mut Ctx) -> R {
    let a = guard(|| Version::parse(t, &conda_parser));
    let b = guard(|| t.parse::<Version>());
    let d = guard(|| conda_parser(t));
    c.called(3);
    let (a, b, d) = match (a, b, d) {
        (Ok(a), Ok(b), Ok(d)) => (a, b, d),
        (Err(p), _, _) | (_, Err(p), _) | (_, _, Err(p)) => fail!(t; "parsing panics: {}", p),
    };
    expect!(a.is_ok() == b.is_ok() && a.is_ok() == d.is_ok(), t;
        "entry points disagree: parse {}, FromStr {}, conda_parser {}", a.is_ok(), b.is_ok(), d.is_ok());
    if let Err(e) = &a {
        if guard(|| format!("{} {:?}", e, e)).is_err() {
            fail!(t; "reporting the parse error panics");
        }
    }
    if model::defined(t) {
        let m = model::parse(t);
        c.state(h(&m));
        expect!(a.is_ok() == m.is_some(), t; "{} but should be {}",
            if a.is_ok() { "accepted" } else { "rejected" }, if m.is_some() { "accepted" } else { "rejected" });
    }
    Ok(())
}

pub fn v02_one(t: &str, c: &mut Ctx) -> R {
    let m = match model::parse(t) {
        Some(m) if !foreign_digit(t) => m,
        _ => return Ok(()),
    };
    let v = match guard(|| t.parse::<Version>()) {
        Ok(Ok(v)) => v,
        _ => {
            c.skipped += 1;
            return Ok(());
        }
    };
    c.called(7);
    c.state(h(&m));
    expect!(v.as_str() == t, t; "as_str gives {:?}", v.as_str());
    let disp = format!("{}", v);
    expect!(disp == t, t; "Display gives {:?}", disp);
    let got = parts(&v);
    expect!(got == m, t; "parts are {:?}, expected {:?}", got, m);
    expect!(v.part_count() == m.len(), t; "part_count is {}, expected {}", v.part_count(), m.len());
    for (i, p) in m.iter().enumerate() {
        match v.part(i) {
            Ok(x) if part(x) == *p => {}
            x => fail!(t; "part({}) is {:?}, expected {:?}", i, x.map(part), p),
        }
    }
    for i in [m.len(), m.len() + 1, usize::MAX] {
        expect!(v.part(i).is_err(), t; "part({}) is not an error", i);
    }
    // reparsing what it reports
    match guard(|| v.as_str().parse::<Version>()) {
        Ok(Ok(w)) => expect!(parts(&w) == got, t; "reparsing {:?} gives other parts: {:?}", v.as_str(), parts(&w)),
        _ => fail!(t; "its own text does not parse again"),
    }
    Ok(())
}

pub fn text_spaces(tier: Tier, one: fn(&str, &mut Ctx) -> R, tag: &str, skip_big: bool) -> Vec<Space> {
    let l = tier.pick(5, 6);
    let mut v = vec![];
    v.push(Space::new(
        &format!("{}-all-texts", tag),
        &format!("all texts of length <= {} over {:?}", l, ALPHA),
        count(ALPHA.len() as u64, l),
        |i| format!("{:?}", word(&ALPHA, i)),
        move |i, c| one(&word(&ALPHA, i), c),
    ));
    const A2: [&str; 7] = ["0", "1", "a", ".", "+", "!", "-"];
    let l2 = tier.pick(7, 9);
    v.push(Space::new(
        &format!("{}-core-texts", tag),
        &format!("all texts of length <= {} over {:?}", l2, A2),
        count(7, l2),
        |i| format!("{:?}", word(&A2, i)),
        move |i, c| one(&word(&A2, i), c),
    ));
    const CTX: [(&str, &str); 12] = [
        ("", ""), ("1", ""), ("", "1"), ("1.", ".2"), ("1!", ""), ("", "!1"), ("1+", ""), ("1", "2"), ("a", "b"), ("1.0", "0"), ("1+a", "b"), ("", "+"),
    ];
    v.push(Space::new(
        &format!("{}-every-char", tag),
        "every Unicode scalar value in 12 contexts",
        CHARS * 12,
        |i| {
            let x = CTX[(i % 12) as usize];
            format!("{:?}", format!("{}{}{}", x.0, nth_char(i / 12), x.1))
        },
        move |i, c| {
            let x = CTX[(i % 12) as usize];
            one(&format!("{}{}{}", x.0, nth_char(i / 12), x.1), c)
        },
    ));
    // pairs of characters of the Basic Latin and Latin-1 blocks
    v.push(Space::new(
        &format!("{}-char-pairs", tag),
        "every pair of characters below U+0180, alone and after '1'",
        0x180 * 0x180 * 2,
        |i| format!("{:?}{:?}", nth_char(i / 2 / 0x180), nth_char(i / 2 % 0x180)),
        move |i, c| {
            let t = format!("{}{}{}", if i % 2 == 1 { "1" } else { "" }, nth_char(i / 2 / 0x180), nth_char(i / 2 % 0x180));
            one(&t, c)
        },
    ));
    v.push(Space::new(
        &format!("{}-numbers", tag),
        "every number 0..=70000 as epoch, part, zero-padded part and local part",
        70001 * 5,
        |i| format!("{} form {}", i / 5, i % 5),
        move |i, c| {
            let n = i / 5;
            let t = match i % 5 {
                0 => format!("{}!1.2", n),
                1 => format!("{}", n),
                2 => format!("1.{:08}a{}", n, n),
                3 => format!("1.2+{}", n),
                _ => format!("000{}!{}.{}", n, n, n),
            };
            one(&t, c)
        },
    ));
    // boundaries of machine number types, up to the largest the code can hold
    let mut bl: Vec<String> = vec![];
    for k in 0..31u32 {
        for d in [-2i64, -1, 0, 1, 2] {
            let x = (1i64 << k) + d;
            if x >= 0 && x <= 2147483647 {
                bl.push(x.to_string())
            }
        }
        for d in [-1i64, 0, 1] {
            let x = 10i64.pow(k.min(9)) + d;
            if x <= 2147483647 {
                bl.push(x.to_string());
            }
        }
    }
    bl.extend(s(&["2147483646", "2147483647", "20200131", "20201231", "1234567890", "00002147483647"]));
    if !skip_big {
        for n in 10..80 {
            for d in ["9", "1", "2", "4"] {
                bl.push(d.repeat(n));
            }
        }
    }
    let bl = Arc::new(dedup(bl));
    const F: [&str; 7] = ["{}", "1.{}", "{}.1", "1a{}", "{}b", "1!{}", "{}+x"];
    let b2 = bl.clone();
    v.push(Space::new(
        &format!("{}-boundary-numbers", tag),
        "all 2^k-2..2^k+2 and 10^k-1..10^k+1 in 7 contexts",
        bl.len() as u64 * 7,
        move |i| F[(i % 7) as usize].replace("{}", &b2[(i / 7) as usize]),
        move |i, c| one(&F[(i % 7) as usize].replace("{}", &bl[(i / 7) as usize]), c),
    ));
    // pumped texts
    let ps = Arc::new(pool(tier));
    let p2 = ps.clone();
    v.push(Space::new(&format!("{}-pool", tag), "a long list of varied versions: words and numbers of real ones in every place, every length, many characters", ps.len() as u64, move |i| format!("{:?}", p2[i as usize]), move |i, c| one(&ps[i as usize], c)));
    let es: Arc<Vec<String>> = Arc::new(crate::gen::ends(&(2..=tier.pick(40, 140)).chain([64, 65, 100, 130, 257, 300, 1030]).collect::<Vec<_>>(), true).into_iter().filter(|t| !skip_big || !over_limit(t)).collect());
    let e2 = es.clone();
    v.push(Space::new(&format!("{}-ends", tag), "texts (whole, as a word, as a local part) of 2..40 (thorough 140) and seven greater lengths with every two of 14 first and last characters, filled with letters or digits", es.len() as u64, move |i| format!("{:?}", e2[i as usize]), move |i, c| one(&es[i as usize], c)));
    let units = Arc::new(words(&["0", "a", "9", ".", "+", "!", "é", "_", " "], 2)[1..].to_vec());
    let sizes: Arc<Vec<usize>> = Arc::new(
        (1..=70).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000, 65535, 65536, tier.pick(65537, 300_000)]).collect(),
    );
    const PS: [(&str, &str); 4] = [("", ""), ("1", "1"), ("1!", ""), ("a", "+b")];
    let n = units.len() as u64 * sizes.len() as u64 * 4;
    let (u2, s2) = (units.clone(), sizes.clone());
    v.push(Space::new(
        &format!("{}-long", tag),
        "every unit of 1-2 symbols repeated 1..70 and 19 sizes up to 65537 (thorough 300000) times, in 4 contexts",
        n,
        move |i| format!("context {} unit {:?} repeated {}", i % 4, u2[(i / 4 % u2.len() as u64) as usize], s2[(i / 4 / u2.len() as u64) as usize]),
        move |i, c| {
            let u = &units[(i / 4 % units.len() as u64) as usize];
            let z = sizes[(i / 4 / units.len() as u64) as usize];
            let p = PS[(i % 4) as usize];
            let t = format!("{}{}{}", p.0, u.repeat(z), p.1);
            if skip_big && over_limit(&t) {
                return Ok(());
            }
            match one(&t, c) {
                Err(mut v) if t.len() > 200 => {
                    v.key = format!("long {:?} x {} {:?}", u, z, p);
                    v.msg.truncate(v.msg.char_indices().nth(400).map_or(v.msg.len(), |x| x.0));
                    Err(v)
                }
                r => r,
            }
        },
    ));
    let ns = Arc::new(lengths(tier, 65536));
    let (n2, n) = (ns.clone(), ns.len());
    const LP: [(&str, &str); 5] = [("", ""), ("1!", ""), ("x!", ""), ("1!2!", ""), ("1+2", "+3")];
    v.push(Space::new(
        &format!("{}-offsets", tag),
        &format!("one character of 2, 3 or 4 bytes at every offset of {} up to 65538, in 6 surroundings, alone and in 4 contexts (3 of them errors)", n),
        n as u64 * MARKED as u64 * 5,
        move |i| format!("context {:?}, length {}, kind {}", LP[(i % 5) as usize], n2[(i / 5) as usize % n2.len()], i as usize / 5 / n2.len()),
        move |i, c| {
            let (p, j) = (LP[(i % 5) as usize], i as usize / 5);
            let t = format!("{}{}{}", p.0, marked(ns[j % ns.len()], j / ns.len()), p.1);
            one(&t, c).map_err(|mut v| {
                if t.len() > 200 {
                    v.key = format!("offset {:?} {} {}", p, ns[j % ns.len()], j / ns.len());
                    v.msg = v.msg.chars().take(400).collect();
                }
                v
            })
        },
    ));
    v
}

pub fn v01(tier: Tier) -> Vec<Space> {
    text_spaces(tier, v01_one, "parse", false)
}
/// number runs beyond the code's number type: listed as known findings
pub const BIG: [&str; 8] =
    ["2147483648", "4294967295", "4294967296", "9999999999", "99999999999", "20191231235959", "9223372036854775807", "9223372036854775808"];
pub fn v02(tier: Tier) -> Vec<Space> {
    let mut v = text_spaces(tier, v02_one, "parts", true);
    v.push(Space::new(
        "parts-big-numbers",
        "8 numbers beyond 32 bits in 3 contexts",
        24,
        |i| ["{}", "1.{}", "1.{}.2"][(i % 3) as usize].replace("{}", BIG[(i / 3) as usize]),
        |i, c| v02_one(&["{}", "1.{}", "1.{}.2"][(i % 3) as usize].replace("{}", BIG[(i / 3) as usize]), c),
    ));
    v
}

pub fn ord_name(o: Ordering) -> CompOp {
    match o {
        Ordering::Less => CompOp::Lt,
        Ordering::Equal => CompOp::Eq,
        Ordering::Greater => CompOp::Gt,
    }
}
fn cmp(a: &Version, b: &Version) -> Result<Ordering, String> {
    match guard(|| a.compare_version(b))? {
        CompOp::Lt => Ok(Ordering::Less),
        CompOp::Eq => Ok(Ordering::Equal),
        CompOp::Gt => Ok(Ordering::Greater),
        o => Err(format!("answer {:?}", o)),
    }
}

// ---- sets of versions compared pairwise ------------------------------------------------------

fn num_set() -> Vec<String> {
    let mut o = vec![];
    for n in 0..=300 {
        o.push(format!("1.{}", n));
    }
    for n in 0..=110 {
        o.push(format!("{}", n));
        o.push(format!("1.{:03}.1", n));
    }
    for k in 6..31 {
        for d in [-1i64, 0, 1] {
            o.push(format!("1.{}", (1i64 << k) + d));
        }
    }
    for k in 1..10 {
        for d in [-1i64, 0, 1] {
            o.push(format!("1.{}", 10i64.pow(k) + d));
        }
    }
    o.extend(s(&["1.2147483647", "1.2147483646", "1.2000000000", "1.0000000002147483647", "1.00000000000000000001"]));
    o
}
/// numbers around the limits of machine types, as epochs and as parts
fn limit_set() -> Vec<String> {
    let mut n: Vec<i64> = (0..=4).collect();
    for k in 3..=31 {
        n.extend((-1..=1).map(|d| (1i64 << k) + d));
    }
    for k in 1..=9 {
        n.extend((-1..=1).map(|d| 10i64.pow(k) + d));
    }
    n.sort();
    n.dedup();
    n.retain(|x| *x <= 2147483647);
    let mut o = vec![];
    for x in &n {
        for f in ["{}", "1.{}", "1.{}.1", "a{}", "1.0.0.{}dev"] {
            o.push(f.replace("{}", &x.to_string()));
        }
        if *x <= 32767 {
            o.push(format!("{}!1", x));
            o.push(format!("{}!1.{}", x, x));
        }
    }
    for x in [0i64, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777216, 16777217, 2147483646, 2147483647] {
        for y in [0i64, 1, 127, 128, 32768, 65536, 16777217, 2147483647] {
            o.push(format!("{}.{}", x, y));
        }
    }
    o
}
fn text_set(which: usize) -> Vec<String> {
    let letters: Vec<String> = ('a'..='z').chain('A'..='Z').map(|c| c.to_string()).collect();
    let l: Vec<&str> = letters.iter().map(|x| x.as_str()).collect();
    match which {
        0 => words(&l, 2)[1..].iter().map(|t| format!("1.{}", t)).collect(),
        1 => words(&["d", "e", "v", "p", "o", "s", "t", "D"], 4)[1..].iter().map(|t| format!("1.{}", t)).collect(),
        _ => {
            let mut o = vec![];
            for core in ["dev", "post", "de", "pos", "ev", "ost", "Dev", "POST", "dEv", "poSt", "d", "p", "", "devpost", "postdev", "pdevost", "dpostev", "d-ev", "rc", "alpha", "beta", "pre", "final", "git", "v", "x"] {
                for a in ["", "a", "z", "Z", "x", "~", " ", "A", "elop", "@"] {
                    for b in ["", "a", "z", "elop", "ed", "_", " ", "~", "A", "é"] {
                        for suf in ["", "1", ".0"] {
                            o.push(format!("1.{}{}{}{}", a, core, b, suf));
                        }
                    }
                }
            }
            for c in (0x20u8..0x7f).map(|c| c as char).filter(|c| !"!+".contains(*c)) {
                o.push(format!("1.{}", c));
                o.push(format!("1.a{}b", c));
            }
            o.extend(s(&["1.é", "1.É", "1.è", "1.ñ", "1.Ñ", "1.λ", "1.Λ", "1.ж", "1.Ж", "1.aé", "1.AÉ", "1.日", "1.本"]));
            o
        }
    }
}
fn local_set() -> Vec<String> {
    let w = words(&["a", "b", "A", "0", "1", "9", ".", "-", "_", "~", "z", "é"], 2);
    let mut o: Vec<String> = w.iter().map(|t| format!("1.2+{}", t)).collect();
    for t in ["", "a", "b", "1", "10", "9", "1.2", "1.10", "dev", "post", "DEV", "abc", "abd", "ab", "0", "00"] {
        for b in ["1", "1.2", "1.2.0", "1.2.0.0", "1.3", "1.2.1", "1.2a", "1.2.dev", "1.2.post", "1!1.2", "0!1", "1.2post1", ""] {
            o.push(format!("{}+{}", b, t));
            o.push(b.to_string());
        }
    }
    o
}
/// characters on either side of every boundary of the Unicode encodings, in text and in local parts
pub fn planes() -> Vec<String> {
    let cs: Vec<char> = "0Aaz~\u{1}\u{7f}\u{80}\u{a0}\u{ff}\u{100}\u{3ff}\u{7ff}\u{800}\u{fff}\u{1000}\u{d7ff}\u{e000}\u{ff21}\u{fffd}\u{ffff}\u{10000}\u{103ff}\u{1f600}\u{fffff}\u{10ffff}".chars().collect();
    let mut o = vec![];
    for &a in &cs {
        for f in ["1+C", "1+xC", "1+Cx", "1.C", "1.xC", "1.Cx", "1!2C+C", "1.xxxxxxxxC", "1+xxxxxxxxC", "1+éC", "1+\u{1f600}C"] {
            o.push(f.replace('C', &a.to_string()));
        }
        for &b in &cs {
            o.push(format!("1+{}{}", a, b));
        }
    }
    o
}
fn long_set() -> Vec<String> {
    let mut o = vec![];
    for n in 1..=40usize {
        let base: Vec<String> = (1..=n).map(|x| x.to_string()).collect();
        o.push(base.join("."));
        o.push(vec!["0"; n].join("."));
        o.push(format!("{}.1", vec!["0"; n].join(".")));
        o.push(format!("1.{}", vec!["0"; n].join(".")));
        o.push(format!("1.{}.1", vec!["0"; n].join(".")));
        o.push(format!("1.{}.dev", vec!["0"; n].join(".")));
        o.push(format!("1.{}.a", vec!["0"; n].join(".")));
        o.push(format!("1.{}.post", vec!["0"; n].join(".")));
        o.push(format!("1.{}+a", vec!["0"; n].join(".")));
        o.push(vec!["a"; n].join("."));
        o.push(format!("1.{}", "a".repeat(n)));
        o.push(format!("1.{}b", "a".repeat(n)));
        o.push(format!("1.{}B1", "a".repeat(n)));
        o.push(format!("1.2+{}", "a".repeat(n)));
        o.push(format!("1.2+{}b", "a".repeat(n)));
    }
    for n in [63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
        o.push(vec!["1"; n].join("."));
        o.push(format!("{}.0", vec!["1"; n].join(".")));
        o.push(format!("{}.2", vec!["1"; n].join(".")));
        o.push(format!("1.{}", "a".repeat(n)));
        o.push(format!("1.{}b", "a".repeat(n)));
        o.push(format!("1.2+{}", "a".repeat(n)));
        o.push(format!("1.2+{}b", "a".repeat(n)));
    }
    o
}
/// a 10-part version with up to two places changed
fn deviations(tier: Tier) -> Vec<String> {
    let base = ["1", "0", "2", "0", "0", "3", "a", "4", "0", "5"];
    let alts = ["0", "1", "7", "a", "dev", "post"];
    let mut o = vec![base.join(".")];
    for i in 0..base.len() {
        for a in alts {
            let mut b = base.to_vec();
            b[i] = a;
            o.push(b.join("."));
            o.push(b[..=i].join("."));
            o.push(format!("{}+l", b[..=i].join(".")));
            if tier == Tier::Quick && i % 2 == 1 {
                continue;
            }
            for j in i + 1..base.len() {
                for a2 in alts {
                    let mut b2 = b.clone();
                    b2[j] = a2;
                    o.push(b2.join("."));
                }
            }
        }
    }
    o
}
pub fn sets(tier: Tier) -> Vec<(&'static str, &'static str, Items)> {
    vec![
        ("mixed", "sequences of <= 3 (thorough: 16 tokens) numbers and words, with epochs and local parts", items(mixed(3, tier == Tier::Thorough))),
        ("numbers", "1.0 .. 1.300, zero-padded, and all 2^k / 10^k neighbours", items(num_set())),
        ("limits", "numbers around every 2^k and 10^k as epochs and parts, and pairs of them", items(limit_set())),
        ("letters", "all words of <= 2 letters in either case", items(text_set(0))),
        ("devpost", "all words of <= 4 over d e v p o s t D", items(text_set(1))),
        ("words", "dev/post/other words with every prefix and suffix of a list, every ASCII character, non-ASCII letters", items(text_set(2))),
        ("locals", "all local parts of <= 2 over 12 symbols; 16 local parts on 13 bases", items(local_set())),
        ("planes", "characters on either side of every boundary of the Unicode encodings, in text and in local parts", items(planes())),
        ("long", "versions, words and local parts of 1..40 and up to 300 places", items(long_set())),
        ("assembled", "4 epochs x releases of <= 4 (thorough 5) numbers and 10 more x 8 suffixes x 4 local parts", items(assembled(tier.pick(4, 5)))),
        ("magnitudes", "numbers of 1 to 10 digits with every two leading digits, alone and within", items(magnitudes())),
        ("blanks", "all texts of <= 4 symbols with white space among them", items(blanks())),
        ("dictionary", "every number and word written in the source, in every place", items(dict_versions())),
        ("vocabulary", "76 words and numbers of real versions in 14 places", items(vocabulary(false))),
        ("deviations", "a 10-part version cut anywhere or with one or two places changed", items(deviations(tier))),
    ]
}

fn pair_space(name: &str, bound: &str, it: &Items, f: impl Fn(&Item, &Item, &mut Ctx) -> R + Send + Sync + 'static) -> Space {
    let (i1, i2) = (it.clone(), it.clone());
    Space::new(
        name,
        &format!("all ordered pairs of {} versions: {}", it.len(), bound),
        it.len() as u64,
        move |i| format!("{:?} against each", i1[i as usize].t),
        move |i, c| {
            let a = &i2[i as usize];
            c.state(a.h);
            for b in i2.iter() {
                f(a, b, c)?
            }
            Ok(())
        },
    )
}

/// Versions equal for a long way: every length, 7 kinds of beginning, all pairs of 16 endings and 3 shorter texts
pub fn offset_space(tier: Tier, name: &str, max: usize, f: impl Fn(&[Item], &Item, &mut Ctx) -> R + Send + Sync + 'static) -> Space {
    let ns = Arc::new(lengths(tier, max));
    let n2 = ns.clone();
    Space::new(
        name,
        &format!("{} lengths up to {} of 7 kinds of common beginning, all pairs of 16 endings and 3 shorter texts", ns.len(), max + 2),
        ns.len() as u64 * 7,
        move |i| format!("beginning {:?} of length {}", PADS[i as usize / n2.len()], n2[i as usize % n2.len()]),
        move |i, c| {
            let (n, p) = (ns[i as usize % ns.len()], i as usize / ns.len());
            let few = n > 300 && tier == Tier::Quick;
            let it: Vec<Item> = TAILS
                .iter()
                .step_by(if few { 2 } else { 1 })
                .map(|t| padded(p, n, t))
                .chain([padded(p, n.saturating_sub(1), ""), padded(p, n.saturating_sub(1), "c"), padded(p, n / 2, "")])
                .filter_map(|t| item(&t))
                .collect();
            for a in &it {
                c.state(a.h);
                f(&it, a, c).map_err(|mut v| {
                    if n > 40 {
                        v.key = format!("beginning {} of length {}", p, n);
                        v.msg = format!("beginning {:?} x {}: {}", PADS[p], n, v.msg.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect::<String>());
                    }
                    v
                })?
            }
            Ok(())
        },
    )
}
pub fn v04_pair(a: &Item, b: &Item, c: &mut Ctx) -> R {
    c.called(1);
    let want = cmp_key(&a.k, &b.k);
    match cmp(&a.v, &b.v) {
        Ok(o) if o == want => Ok(()),
        Ok(o) => fail!((&a.t, &b.t); "comparing {:?} with {:?} gives {:?}, the documented order says {:?}", a.t, b.t, o, want),
        Err(e) => fail!((&a.t, &b.t); "comparing {:?} with {:?}: {}", a.t, b.t, e),
    }
}
pub fn v04(tier: Tier) -> Vec<Space> {
    let mut v: Vec<Space> = sets(tier).into_iter().map(|(n, b, it)| pair_space(&format!("order-{}", n), b, &it, v04_pair)).collect();
    if tier == Tier::Thorough {
        let it = items(seqs(&["0", "1", "10", "a", "dev", "post", "B"], 5, ".").into_iter().chain(seqs(&["0", "2", "a", "dev", "post"], 6, "-")).collect());
        v.push(pair_space("order-deep", "sequences of <= 5 over 7 tokens and of <= 6 over 5", &it, v04_pair));
    }
    v.push(offset_space(tier, "order-offsets", 65536, |l, a, c| l.iter().try_for_each(|b| v04_pair(a, b, c))));
    v.push(Space::new(
        "order-neighbours",
        "every number up to 40000 (thorough 300000) against its neighbours, its half and double, as a part in 3 places; as epochs up to 32766",
        tier.pick(40_000, 300_000),
        |i| format!("{} and {}", i, i + 1),
        |i, c| {
            for f in ["{}", "1.{}.1", "1.{}a", "{}!1"] {
                if f == "{}!1" && i > 32766 {
                    continue;
                }
                let a = item(&f.replace("{}", &i.to_string()));
                for j in [i, i + 1, i.saturating_sub(1), i / 2, i * 2, i + 10, i + 256, i + 65536] {
                    if f == "{}!1" && j > 32767 {
                        continue;
                    }
                    if let (Some(a), Some(b)) = (&a, item(&f.replace("{}", &j.to_string()))) {
                        v04_pair(a, &b, c)?;
                        v04_pair(&b, a, c)?
                    }
                }
            }
            Ok(())
        },
    ));
    // numbers the code cannot hold: known findings
    v.push(Space::new(
        "order-big-numbers",
        "8 numbers beyond 32 bits against 1.0, 1.1, 1.2147483647 and each other",
        8 * 11,
        |i| format!("1.{} against #{}", BIG[(i / 11) as usize], i % 11),
        |i, c| {
            let a = format!("1.{}", BIG[(i / 11) as usize]);
            let b = match i % 11 {
                0 => "1.0".into(),
                1 => "1.1".into(),
                2 => "1.2147483647".into(),
                k => format!("1.{}", BIG[k as usize - 3]),
            };
            match (item(&a), item(&b)) {
                (Some(a), Some(b)) => v04_pair(&a, &b, c),
                _ => Ok(()),
            }
        },
    ));
    v
}

// ---- V03: preorder and agreement of the entry points ------------------------------------------

pub struct Ranks {
    it: Items,
    below: Vec<AtomicU32>,
}
pub fn code(a: &Version, b: &Version) -> i8 {
    match cmp(a, b) {
        Ok(Ordering::Less) => -1,
        Ok(Ordering::Equal) => 0,
        Ok(Ordering::Greater) => 1,
        Err(_) => 9,
    }
}
impl Ranks {
    fn below(&self, i: usize) -> u32 {
        let x = self.below[i].load(Relaxed);
        if x != u32::MAX {
            return x;
        }
        let n = self.it.iter().filter(|b| code(&self.it[i].v, &b.v) == 1).count() as u32;
        self.below[i].store(n, Relaxed);
        n
    }
}
/// Two passes: how many versions are below each; then every pair must compare as those counts do. A relation
/// passes exactly if it is a total preorder on the set, so this decides all triples at quadratic cost.
pub fn rank_spaces(name: &str, bound: &str, it: &Items) -> Vec<Space> {
    let r = Arc::new(Ranks { it: it.clone(), below: it.iter().map(|_| AtomicU32::new(u32::MAX)).collect() });
    let (r1, r2, r3, r4) = (r.clone(), r.clone(), r.clone(), r);
    let n = it.len() as u64;
    vec![
        Space::new(
            &format!("{}-symmetry", name),
            &format!("all ordered pairs of {} versions: {}", n, bound),
            n,
            move |i| format!("{:?} against each", r1.it[i as usize].t),
            move |i, c| {
                let a = &r2.it[i as usize];
                c.state(a.h);
                for b in r2.it.iter() {
                    let (x, y) = (code(&a.v, &b.v), code(&b.v, &a.v));
                    c.called(2);
                    expect!(x != 9, (&a.t, &b.t); "comparing {:?} with {:?} gives no less/equal/greater answer", a.t, b.t);
                    expect!(x == -y, (&a.t, &b.t); "comparing {:?} with {:?} gives {} one way and {} the other", a.t, b.t, x, y);
                }
                expect!(code(&a.v, &a.v) == 0, &a.t; "{:?} does not equal itself", a.t);
                r2.below(i as usize);
                Ok(())
            },
        ),
        Space::new(
            &format!("{}-transitivity", name),
            &format!("all triples of {} versions (by ranks): {}", n, bound),
            n,
            move |i| format!("{:?} against each", r3.it[i as usize].t),
            move |i, c| {
                let a = &r4.it[i as usize];
                let ra = r4.below(i as usize);
                for (j, b) in r4.it.iter().enumerate() {
                    let want = ra.cmp(&r4.below(j)) as i8;
                    c.called(1);
                    let got = code(&a.v, &b.v);
                    if got != want {
                        // find the third version that witnesses it
                        let third = r4.it.iter().find(|z| {
                            let (ab, bz, az) = (code(&a.v, &b.v), code(&b.v, &z.v), code(&a.v, &z.v));
                            ab <= 0 && bz <= 0 && (az > 0 || (az == 0 && (ab < 0 || bz < 0)))
                                || ab >= 0 && bz >= 0 && (az < 0 || (az == 0 && (ab > 0 || bz > 0)))
                        });
                        fail!((&a.t, &b.t); "not transitive: {:?} against {:?} gives {} but they have {} and {} smaller versions; third version {:?}",
                            a.t, b.t, got, ra, r4.below(j), third.map(|z| &z.t));
                    }
                }
                Ok(())
            },
        ),
    ]
}
fn entry_points(a: &Item, b: &Item, c: &mut Ctx) -> R {
    let o = match cmp(&a.v, &b.v) {
        Ok(o) => o,
        Err(e) => fail!((&a.t, &b.t); "comparing {:?} with {:?}: {}", a.t, b.t, e),
    };
    c.called(9);
    let r = guard(|| {
        let t = a.v.compare_str(&b.t);
        if t != ord_name(o) {
            return Some(format!("compare_str {:?}", t));
        }
        if a.v.partial_cmp(&b.v) != Some(o) {
            return Some(format!("partial_cmp {:?}", a.v.partial_cmp(&b.v)));
        }
        let g = [a.v == b.v, a.v != b.v, a.v < b.v, a.v <= b.v, a.v > b.v, a.v >= b.v];
        for (k, op) in [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge].iter().enumerate() {
            if g[k] != op.of(o) {
                return Some(format!("operator {} gives {}", op.sign(), g[k]));
            }
        }
        None
    });
    match r {
        Ok(None) => Ok(()),
        Ok(Some(e)) => fail!((&a.t, &b.t); "{:?} against {:?}: compare_version says {:?} but {}", a.t, b.t, o, e),
        Err(p) => fail!((&a.t, &b.t); "{:?} against {:?}: panic {}", a.t, b.t, p),
    }
}

/// versions whose parts come from a caller's own parser, in any order
pub fn custom_items(tier: Tier) -> Items {
    let mut pool: Vec<VersionPart> = vec![
        VersionPart::Empty,
        VersionPart::Epoch(0),
        VersionPart::Epoch(1),
        VersionPart::Epoch(-1),
        VersionPart::Epoch(i16::MIN),
        VersionPart::Epoch(i16::MAX),
        VersionPart::Integer(i32::MIN),
        VersionPart::Integer(i32::MAX),
        VersionPart::Integer(0),
        VersionPart::Integer(1),
        VersionPart::Integer(2),
        VersionPart::Integer(-1),
        VersionPart::LexicographicString("".into()),
        VersionPart::LexicographicString("a".into()),
        VersionPart::LexicographicString("B".into()),
    ];
    for t in ["a", "B", "dev", "post", "Dev"] {
        if let Ok(p) = conda_parser(t) {
            pool.extend(p)
        }
    }
    let mut out = vec![];
    let mut cur: Vec<Vec<VersionPart>> = vec![vec![]];
    for _ in 0..tier.pick(2, 3) {
        cur = cur.iter().flat_map(|p| pool.iter().map(move |x| { let mut p = p.clone(); p.push(x.clone()); p })).collect();
        out.extend(cur.iter().cloned());
    }
    out.push(vec![]);
    Arc::new(
        out.into_iter()
            .filter_map(|ps| {
                let name = format!("{:?}", ps);
                // every fourth list comes from one text, and every fourth from the text of another version
                let t = match h(&name) % 4 {
                    0 => "1".to_string(),
                    1 => format!("{:?}", ps.first()),
                    _ => name.clone(),
                };
                let m: Vec<P> = ps.iter().map(part).collect();
                let q = ps.clone();
                let v = Version::parse(&t, &move |_: &str| Ok(q.clone())).ok()?;
                Some(Item { t: format!("{} = {}", t, name), k: model::vkey(&m), m, v, h: h(&name) })
            })
            .collect(),
    )
}
pub fn v03(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for (n, b, it) in sets(tier) {
        v.extend(rank_spaces(n, b, &it));
    }
    let it = items(mixed(2, false));
    v.push(pair_space("entry-points", "mixed versions of <= 2 tokens: operators, compare_str, partial_cmp", &it, entry_points));
    let small: Vec<String> = text_set(2).into_iter().step_by(5).chain(num_set().into_iter().step_by(7)).chain(local_set().into_iter().step_by(5)).chain(long_set().into_iter().step_by(6)).collect();
    v.push(pair_space("entry-points-2", "a fixed subset of the word, number, local and long sets", &items(small), entry_points));
    v.push(offset_space(tier, "offsets", tier.pick(16384, 65536), |l, a, c| {
        // entry points on every pair; the order is a total preorder exactly if counting the smaller ones explains it
        let below = |x: &Item| l.iter().filter(|y| code(&x.v, &y.v) == 1).count();
        let k = below(a);
        for b in l {
            let (x, y) = (code(&a.v, &b.v), code(&b.v, &a.v));
            c.called(2);
            expect!(x == -y, (&a.t, &b.t); "comparing {:?} with {:?} gives {} one way and {} the other", a.t, b.t, x, y);
            expect!(x == k.cmp(&below(b)) as i8, (&a.t, &b.t); "the order of {:?} and {:?} is not transitive", a.t, b.t);
            if a.t.len() < 2500 {
                entry_points(a, b, c)?;
            }
        }
        Ok(())
    }));
    for (n, b, it) in sets(tier) {
        if n == "blanks" || n == "dictionary" || n == "vocabulary" {
            v.push(pair_space(&format!("entry-points-{}", n), b, &it, entry_points));
        }
    }
    let ps = Arc::new(pool(tier));
    let p2 = ps.clone();
    v.push(Space::new("entry-points-pool", "a long list of varied versions, each against about 20 close to it and 8 others; all of them in one order", ps.len() as u64, move |i| format!("{:?}", p2[i as usize]), move |i, c| {
        let Some(a) = item(&ps[i as usize]) else { return Ok(()) };
        let mut xs = crate::spec::related(&a.t);
        xs.extend(["1", "1.0", "2", "a", "1.post", "1!1", "", "0"].iter().filter_map(|x| item(x)));
        xs.iter().try_for_each(|b| entry_points(&a, b, c).and_then(|_| entry_points(b, &a, c)))?;
        let n = xs.len();
        let k: Vec<usize> = xs.iter().map(|x| xs.iter().filter(|y| code(&y.v, &x.v) == -1).count()).collect();
        c.called((n * n) as u64);
        for x in 0..n {
            for y in 0..n {
                expect!(code(&xs[x].v, &xs[y].v) == k[x].cmp(&k[y]) as i8, (&xs[x].t, &xs[y].t); "the order of {:?} and {:?} is not transitive", xs[x].t, xs[y].t);
            }
        }
        Ok(())
    }));
    // a sign in the epoch is not settled by the grammar; whatever the code makes of it is ordered
    let mut se = vec![];
    for e in ["-1", "+1", "-5", "-32768", "-32767", "+32767", "32767", "30000", "-30000", "0", "-0", "1", "100", "-100"] {
        for r in ["1", "1.0", "2", "a", "1+a", "", "dev", "1.post"] {
            se.push(format!("{}!{}", e, r));
        }
    }
    se.extend(s(&["1", "2", "a", "", "post", "dev"]));
    let se: Items = Arc::new(se.iter().filter_map(|t| {
        let v = guard(|| t.parse::<Version>()).ok()?.ok()?;
        let m = parts(&v);
        Some(Item { t: t.clone(), k: model::vkey(&m), m, v, h: h(&t) })
    }).collect());
    v.push(pair_space("entry-points-signed-epochs", "14 epochs with a sign or at the limits x 8 releases", &se, entry_points));
    v.extend(rank_spaces("signed-epochs", "14 epochs with a sign or at the limits x 8 releases", &se));
    v.extend(rank_spaces("custom-parser", "part lists a caller's own parser may return: <= 2 (thorough 3) of 20 parts", &custom_items(tier)));
    // sorting with the library's own ordering
    let sortsets = Arc::new(sets(Tier::Quick));
    let s2 = sortsets.clone();
    v.push(Space::new(
        "sorting",
        "sorting each set, from 6 starting permutations",
        sortsets.len() as u64 * 6,
        move |i| format!("set {} permutation {}", s2[(i / 6) as usize].0, i % 6),
        move |i, c| {
            let it = &sortsets[(i / 6) as usize].2;
            let n = it.len();
            let mut ix: Vec<usize> = (0..n).collect();
            match i % 6 {
                0 => {}
                1 => ix.reverse(),
                k => {
                    let step = [0, 0, 7, 11, 101, 997][k as usize];
                    ix = (0..step).flat_map(|r| (0..n).filter(move |x| x % step == r)).collect();
                }
            }
            match guard(|| ix.sort_by(|a, b| it[*a].v.partial_cmp(&it[*b].v).unwrap())) {
                Ok(()) => {}
                Err(p) => fail!(it.len(); "sorting panics: {}", p),
            }
            c.called(n as u64);
            for w in ix.windows(2) {
                if code(&it[w[0]].v, &it[w[1]].v) == 1 {
                    fail!((&it[w[0]].t, &it[w[1]].t); "sorted order puts {:?} before {:?}", it[w[0]].t, it[w[1]].t);
                }
            }
            Ok(())
        },
    ));
    // single parts
    let pool = Arc::new(
        custom_items(Tier::Quick).iter().filter(|i| i.m.len() == 1).filter_map(|i| i.v.part(0).ok().cloned().map(|p| (i.t.clone(), p))).collect::<Vec<_>>(),
    );
    let p2 = pool.clone();
    v.push(Space::new(
        "single-parts",
        "all triples of single version parts",
        (pool.len() as u64).pow(3),
        move |i| {
            let n = p2.len() as u64;
            format!("{} {} {}", p2[(i % n) as usize].0, p2[(i / n % n) as usize].0, p2[(i / n / n) as usize].0)
        },
        move |i, c| {
            let n = pool.len() as u64;
            let (a, b, d) = (&pool[(i % n) as usize], &pool[(i / n % n) as usize], &pool[(i / n / n) as usize]);
            let f = |x: &VersionPart, y: &VersionPart| guard(|| x.partial_cmp(y)).ok().flatten();
            c.called(4);
            c.state(h(&(&a.0, &b.0)));
            let (ab, ba, bd, ad) = match (f(&a.1, &b.1), f(&b.1, &a.1), f(&b.1, &d.1), f(&a.1, &d.1)) {
                (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
                _ => fail!((&a.0, &b.0, &d.0); "parts {} {} {} do not all compare", a.0, b.0, d.0),
            };
            expect!(ab == ba.reverse(), (&a.0, &b.0); "parts {} and {} compare {:?} and {:?}", a.0, b.0, ab, ba);
            expect!((a.1 == b.1) == (ab == Ordering::Equal), (&a.0, &b.0); "parts {} and {}: == disagrees with the order", a.0, b.0);
            if ab == bd || bd == Ordering::Equal {
                expect!(ad == ab, (&a.0, &b.0, &d.0); "parts {} {} {} are not transitive", a.0, b.0, d.0);
            }
            if ab == Ordering::Equal {
                expect!(ad == bd, (&a.0, &b.0, &d.0); "parts {} {} {} are not transitive", a.0, b.0, d.0);
            }
            Ok(())
        },
    ));
    v
}

// ---- V05 ---------------------------------------------------------------------------------------

pub fn real_op(o: Op) -> CompOp {
    match o {
        Op::Eq => CompOp::Eq,
        Op::Ne => CompOp::Ne,
        Op::Lt => CompOp::Lt,
        Op::Le => CompOp::Le,
        Op::Gt => CompOp::Gt,
        Op::Ge => CompOp::Ge,
        Op::Starts => CompOp::StartsWith,
        Op::NotStarts => CompOp::NotStartsWith,
        Op::Compat => CompOp::Compatible,
        Op::Incompat => CompOp::Incompatible,
    }
}
fn v05_pair(with_text: bool) -> impl Fn(&Item, &Item, &mut Ctx) -> R + Send + Sync {
    move |a: &Item, b: &Item, c: &mut Ctx| {
        let r = guard(|| {
            // the three-way answer and the parts are the code's own; V04 judges them
            let o = match cmp(&a.v, &b.v) {
                Ok(o) => o,
                Err(e) => return Some(e),
            };
            let eqs = |n: usize| a.v.part_count() >= n && (0..n).all(|i| a.v.parts()[i] == b.v.parts()[i]);
            let n = b.v.part_count();
            let starts = eqs(n);
            let compat = eqs(n.saturating_sub(1)) && o != Ordering::Less;
            for op in model::OPS {
                let want = match op {
                    Op::Starts => starts,
                    Op::NotStarts => !starts,
                    Op::Compat => compat,
                    Op::Incompat => !compat,
                    _ => op.of(o),
                };
                let ro = real_op(op);
                let got = a.v.compare_to_version(&b.v, &ro);
                if got != want {
                    return Some(format!("{:?} {} {:?} tests {}, expected {}", a.t, op.sign(), b.t, got, want));
                }
                if with_text {
                    let g = a.v.compare_to_str(&b.t, &ro);
                    if g != want {
                        return Some(format!("{:?} {} text {:?} tests {}, expected {}", a.t, op.sign(), b.t, g, want));
                    }
                    if a.v.compare_to_version(&b.v, &ro.invert()) == got || a.v.compare_to_version(&b.v, &ro.as_inverted()) == got {
                        return Some(format!("{:?} {} {:?} and its inverse both test {}", a.t, op.sign(), b.t, got));
                    }
                    if op.relational() && b.v.compare_to_version(&a.v, &ro.flip()) != got {
                        return Some(format!("{:?} {} {:?} tests {} but flipped with the sides swapped it does not", a.t, op.sign(), b.t, got));
                    }
                }
            }
            if a.v.startswith(&b.v) != starts {
                return Some(format!("{:?} startswith {:?} is {}, expected {}", a.t, b.t, !starts, starts));
            }
            None
        });
        c.called(if with_text { 47 } else { 11 });
        match r {
            Ok(None) => Ok(()),
            Ok(Some(e)) => fail!((&a.t, &b.t); "{}", e),
            Err(p) => fail!((&a.t, &b.t); "operator test on {:?} and {:?} panics: {}", a.t, b.t, p),
        }
    }
}
/// the prefix test against the model's parts
fn v05_model(a: &Item, b: &Item, c: &mut Ctx) -> R {
    c.called(2);
    let w = model::starts(&a.m, &b.m);
    let r = guard(|| (a.v.startswith(&b.v), a.v.compare_to_version(&b.v, &CompOp::Compatible)));
    match r {
        Ok((x, _)) if x != w => fail!((&a.t, &b.t); "{:?} startswith {:?} is {}, expected {}", a.t, b.t, x, w),
        Ok((_, y)) if y != model::compatible(&a.m, &b.m) => fail!((&a.t, &b.t); "{:?} ~= {:?} is {}", a.t, b.t, y),
        Ok(_) => Ok(()),
        Err(p) => fail!((&a.t, &b.t); "prefix test on {:?} and {:?} panics: {}", a.t, b.t, p),
    }
}
pub fn v05(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let it = items(mixed(tier.pick(2, 3), false).into_iter().step_by(tier.pick(2, 1)).collect());
    v.push(pair_space("operators", "mixed versions (quick: every second); every operator, inverse, flip, text form", &it, v05_pair(true)));
    for (n, b, it) in sets(tier) {
        if n == "letters" || n == "devpost" || n == "words" {
            // large word sets: every third word (a fixed subset)
            let sub: Vec<String> = it.iter().step_by(3).map(|i| i.t.clone()).collect();
            v.push(pair_space(&format!("operators-{}", n), &format!("{} (every third)", b), &items(sub), v05_pair(false)));
        } else {
            v.push(pair_space(&format!("operators-{}", n), b, &it, v05_pair(n == "blanks" || n == "dictionary")));
        }
    }
    for (n, b, it) in sets(tier) {
        if n != "letters" && n != "devpost" {
            v.push(pair_space(&format!("prefix-{}", n), b, &it, v05_model));
        }
    }
    v.push(offset_space(tier, "operators-offsets", tier.pick(8192, 65536), |l, a, c| {
        l.iter().enumerate().try_for_each(|(k, b)| {
            v05_pair(a.t.len() < 40)(a, b, c)?;
            if a.t.len() < 2500 {
                // the text form, with one of the operators in turn
                let op = real_op(model::OPS[(k + a.t.len()) % 10]);
                c.called(1);
                let g = guard(|| a.v.compare_to_str(&b.t, &op) == a.v.compare_to_version(&b.v, &op));
                expect!(g == Ok(true), (&a.t, &b.t); "testing {:?} {:?} against {:?} as text and as version: {:?}", a.t, op, b.t, g);
            }
            v05_model(a, b, c)
        })
    }));
    let ps = Arc::new(pool(tier));
    let p2 = ps.clone();
    v.push(Space::new("operators-pool", "a long list of varied versions, each against about 20 close to it and 12 others, either side", ps.len() as u64, move |i| format!("{:?}", p2[i as usize]), move |i, c| {
        let Some(a) = item(&ps[i as usize]) else { return Ok(()) };
        let mut xs = crate::spec::related(&a.t);
        xs.extend(["1", "1.0", "2", "a", "1.dev", "1.post", "1!1", "1+a", "", "10.0", "1.0.0.0.1", "0"].iter().filter_map(|x| item(x)));
        for (k, b) in xs.iter().enumerate() {
            v05_pair(k % 4 == 0)(&a, b, c)?;
            v05_pair(k % 4 == 1)(b, &a, c)?;
            v05_model(&a, b, c)?;
            v05_model(b, &a, c)?;
        }
        Ok(())
    }));
    v.extend([pair_space("operators-custom-parser", "part lists of a caller's own parser", &custom_items(Tier::Quick), v05_pair(false))]);
    v
}
