//! Enumerations shared by the properties.
use crate::engine::guard;
use crate::model::{self, P, VK};
use ronda::{Version, VersionPart};
use std::sync::Arc;

/// number of strings of length 0..=l over k symbols
pub fn count(k: u64, l: u32) -> u64 {
    (0..=l).map(|x| k.pow(x)).sum()
}
/// the i-th string over `a` (shortest first)
pub fn word(a: &[&str], mut i: u64) -> String {
    let k = a.len() as u64;
    let mut l = 0;
    let mut c = 1;
    while i >= c {
        i -= c;
        c *= k;
        l += 1;
    }
    let mut v = vec![];
    for _ in 0..l {
        v.push(a[(i % k) as usize]);
        i /= k;
    }
    v.reverse();
    v.concat()
}
pub fn words(a: &[&str], l: u32) -> Vec<String> {
    (0..count(a.len() as u64, l)).map(|i| word(a, i)).collect()
}
/// all sequences of 1..=l tokens joined by `sep`
pub fn seqs(a: &[&str], l: u32, sep: &str) -> Vec<String> {
    let mut out: Vec<Vec<&str>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..l {
        out = out.iter().flat_map(|p| a.iter().map(move |x| { let mut p = p.clone(); p.push(*x); p })).collect();
        all.extend(out.iter().map(|p| p.join(sep)));
    }
    all
}
pub fn nth_char(i: u64) -> char {
    // all Unicode scalar values
    char::from_u32(if i < 0xd800 { i as u32 } else { i as u32 + 0x800 }).unwrap()
}
pub const CHARS: u64 = 0x110000 - 0x800;

pub fn dedup(v: Vec<String>) -> Vec<String> {
    let mut s = std::collections::HashSet::new();
    v.into_iter().filter(|x| s.insert(x.clone())).collect()
}

pub struct Item {
    pub t: String,
    pub m: Vec<P>,
    pub k: VK,
    pub v: Version,
    pub h: u64,
}
pub type Items = Arc<Vec<Item>>;
pub fn item(t: &str) -> Option<Item> {
    let m = model::parse(t)?;
    let v = guard(|| t.parse::<Version>()).ok()?.ok()?;
    let k = model::vkey(&m);
    let h = crate::engine::h(&k);
    Some(Item { t: t.to_string(), k, m, v, h })
}
/// Versions of the listed texts (texts the code cannot parse are V01's business and are left out here)
pub fn items(l: Vec<String>) -> Items {
    Arc::new(dedup(l).iter().filter_map(|t| item(t)).collect())
}

/// is there a run of ASCII digits whose value does not fit the code's number type?
pub fn over_limit(t: &str) -> bool {
    t.split(|c: char| !c.is_ascii_digit()).any(|d| {
        let d = d.trim_start_matches('0');
        d.len() > 10 || d.len() == 10 && d > "2147483647"
    })
}
pub fn foreign_digit(t: &str) -> bool {
    t.chars().any(|c| !c.is_ascii() && c.is_numeric())
}

/// A real part in the model's vocabulary
pub fn part(p: &VersionPart) -> P {
    match p {
        VersionPart::Epoch(e) => P::Epoch(*e as u32),
        VersionPart::Integer(i) => P::Num(i.to_string().trim_start_matches('0').to_string()),
        VersionPart::PEP440String(s) => P::Text(s.to_string()),
        VersionPart::LexicographicString(s) => P::Local(s.clone()),
        VersionPart::Empty => P::Empty,
    }
}
pub fn parts(v: &Version) -> Vec<P> {
    v.parts().iter().map(part).collect()
}

pub fn s(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

/// Versions mixing every kind of part: sequences of up to `l` tokens, with epochs and local parts around
/// the shorter ones.
pub fn mixed(l: u32, wide: bool) -> Vec<String> {
    let narrow = ["0", "1", "2", "10", "a", "B", "dev", "post"];
    let full = [
        "0", "1", "2", "9", "10", "01", "a", "b", "B", "rc", "alpha", "dev", "DEV", "post", "Post", "postdev",
    ];
    let mut o = s(&["", ".", "-", "1.", ".1", "1..2", "1_2", "1-2", "1._-2", "0!", "1!", "1!.", "+a", "!"]);
    o.extend(seqs(&full, 2, "."));
    o.extend(seqs(if wide { &full } else { &narrow }, l, "."));
    // no separator: digits and letters split by kind
    for a in &["0", "1", "10"] {
        for b in &["a", "dev", "post", "rc", "B"] {
            for c in &["", "0", "1", "2", "10"] {
                for p in &["", "1.", "1.0."] {
                    for q in &["", ".0", ".1", ".dev", "+1"] {
                        o.push(format!("{}{}{}{}{}", p, a, b, c, q));
                    }
                }
            }
        }
    }
    let one = seqs(&narrow, 2, ".");
    for x in &one {
        for e in &["0!", "1!", "2!", "01!", "10!"] {
            o.push(format!("{}{}", e, x));
        }
        for c in &["+a", "+A", "+b", "+0", "+1", "+10", "+9", "+1.2", "+dev", "+post", "+"] {
            o.push(format!("{}{}", x, c));
        }
        o.push(format!("1!{}+a", x));
        o.push(format!("1!{}+b", x));
        o.push(format!("{}.0+a", x));
        o.push(format!("{}.0.0", x));
        o.push(format!("{}.0.1", x));
    }
    dedup(o)
}

/// Every length up to 300 (thorough 1100), and the neighbours of the powers of two up to `max`
pub fn lengths(tier: crate::engine::Tier, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=tier.pick(300, 1100)).collect();
    let mut p = 512;
    while p <= max {
        v.extend(p - 2..=p + 2);
        p *= 2;
    }
    v.extend(crate::dict::nums(max as i64).into_iter().map(|n| n as usize));
    v.sort();
    v.dedup();
    v.retain(|n| *n <= max + 2);
    v
}
/// Versions holding each number and word written in the source under test, in every place
pub fn dict_versions() -> Vec<String> {
    let mut o = s(&["", "1", "1.0", "1.1", "1.a", "1.z", "1.dev", "1.post", "1+a", "1!1", "2"]);
    for n in crate::dict::nums(2147483647) {
        o.extend(["{}", "1.{}", "{}.1", "1.{}.1", "a{}", "1.{}b", "1+{}", "1.0{}"].iter().map(|f| f.replace("{}", &n.to_string())));
        if n <= 32767 {
            o.push(format!("{}!1", n));
        }
    }
    for w in crate::dict::words() {
        o.extend(["{}", "1.{}", "1{}", "{}1", "1.{}1", "1.a{}", "1.{}a", "1.{}.1", "1+{}", "1+a{}", "1+{}a"].iter().map(|f| f.replace("{}", &w)));
    }
    let mut o = dedup(o);
    o.retain(|t| model::defined(t) && !over_limit(t) && !foreign_digit(t) && t.chars().all(model::fold_sure));
    o.truncate(6000);
    o
}
/// Epoch x release x suffix x local: every combination of the fields of a version
pub fn assembled(l: u32) -> Vec<String> {
    let mut rel = seqs(&["0", "1", "2"], l, ".");
    rel.extend(s(&["10", "1.10", "01.1", "1.00", "1.0.0.0.1", "1.2.3.4.5", "1.2.3.4.5.6", "1a", "a", "1.a.1"]));
    let mut o = vec![];
    for e in ["", "0!", "1!", "12!"] {
        for r in &rel {
            for x in ["", "a1", "rc2", ".dev1", ".post1", "DEV", "-post", "_b.0"] {
                for c in ["", "+a", "+A.1", "+1"] {
                    o.push(format!("{}{}{}{}", e, r, x, c));
                }
            }
        }
    }
    dedup(o)
}
/// Numbers of 1 to 10 digits with every two leading digits
pub fn magnitudes() -> Vec<String> {
    let mut n: Vec<i64> = (0..10).collect();
    for lead in 10..100i64 {
        for z in 0..9 {
            let x = lead * 10i64.pow(z);
            n.extend([x, x + 1]);
        }
    }
    for z in 1..10 {
        n.push(10i64.pow(z) - 1);
    }
    n.sort();
    n.dedup();
    n.retain(|x| *x <= 2147483647);
    n.iter().flat_map(|x| [x.to_string(), format!("1.{}.1", x)]).collect()
}
/// Versions with white space in any place
pub fn blanks() -> Vec<String> {
    let mut o = words(&[" ", "\t", "1", "a", ".", "+"], 4);
    o.extend(words(&[" ", "\n", "\u{a0}", "\u{3000}", "1", "a", "!"], 3));
    o.extend(s(&[" 1.2", "1.2 ", "1 .2", "1. 2", "1.2+a ", "1.2+ a", "1.2\r\n", "\u{feff}1", "1!\t2", "dev ", " post", "1.2dev\n"]));
    let mut o = dedup(o);
    o.retain(|t| model::defined(t));
    o
}
/// Texts that differ only past a long common beginning: pad 0..7 of length n, then each of `TAILS`
pub const PADS: [(&str, &str); 7] = [("", "a"), ("1.", "a"), ("", "1."), ("1.", "0."), ("1+", "a"), ("", "_1"), ("1!", "x.")];
pub const TAILS: [&str; 16] = ["", "1", "2", "10", "a", "b", "B", "é", "語", "😀", "dev", "post", ".0", ".1", "-1", "+c"];
pub fn padded(pad: usize, n: usize, tail: &str) -> String {
    let (p, u) = PADS[pad];
    format!("{}{}{}", p, u.repeat(n), tail)
}
/// Long texts with one character of more than one byte: at every offset, in six surroundings
pub fn marked(n: usize, k: usize) -> String {
    let m = ["é", "語", "😀"][k % 3];
    match k / 3 {
        0 => format!("{}{}", "a".repeat(n), m),
        1 => format!("{}{}{}", "a".repeat(n), m, "b".repeat(40)),
        2 => format!("1.{}{}.2", "0".repeat(n), m),
        3 => format!("{}{}", "1.".repeat(n), m),
        4 => format!("1+{}{}z", "a".repeat(n), m),
        _ => format!("a{}", m.repeat(n)),
    }
}
pub const MARKED: usize = 18;

/// Words and numbers that versions, packages and channels are made of
pub const VOCAB: [&str; 76] = [
    "a", "b", "c", "z", "A", "RC", "Alpha", "DEV", "alpha", "beta", "rc", "pre", "preview", "dev", "post", "POST", "Post", "rev", "r", "final", "ga", "release", "snapshot", "stable", "latest", "git", "g1a2b3c4", "build",
    "v", "V", "x", "e", "py", "py37", "np118", "cuda", "openblas", "nightly", "1e5", "0x1f", "inf", "nan", "null", "true", "none", "h1de35cc", "0", "00", "007", "01", "10", "11", "99", "100", "127", "128", "255", "256", "999",
    "1000", "2019", "20190607", "32767", "32768", "65535", "65536", "99999", "1000000", "2147483647", "2147483646", "linux", "win", "64", "noarch", "main", "_",
];
/// every word of `VOCAB` in 14 places, and every pair of them with each of three separators
pub fn vocabulary(pairs: bool) -> Vec<String> {
    let mut o = vec![];
    for w in VOCAB {
        for f in ["{}", "1.{}", "1.0{}", "{}1", "1.0.{}1", "{}.1", "1!{}", "1+{}", "1.0-{}_0", "1.{}.0+x", "{}.0", "1.0+{}.0", "1.{}-0", "2!1.{}+{}"] {
            o.push(f.replace("{}", w));
        }
        if pairs {
            for (i, y) in VOCAB.iter().enumerate() {
                o.push(format!("{}{}{}", w, [".", "-", "_"][i % 3], y));
                o.push(format!("1.{}{}0", w, y));
                o.push(format!("{}!{}+{}", i % 10, w, y));
            }
        }
    }
    let mut o = dedup(o);
    o.retain(|t| model::defined(t) && !over_limit(t));
    o
}
/// Texts with characters whose letter case is a matter of opinion, next to letters whose case is not. Their text must
/// survive everything; how they compare is left open.
pub fn odd_case() -> Vec<String> {
    let mut o = vec![];
    for c in "İıßẞſKÅµμΜςΣσǅŉŸﬁᾳΐǰᏸꭰƛ\u{345}\u{1e9e}\u{3f4}ϴθϑ\u{1c80}в\u{2c2f}\u{10400}\u{10428}".chars() {
        for f in ["C", "1.C", "AC", "Ca0", "1+CZ", "1.0C0", "C!", "zCCZ.00"] {
            o.push(f.replace('C', &c.to_string()));
        }
    }
    let mut o = dedup(o);
    o.retain(|t| model::defined(t) && model::parse(t).is_some());
    o
}
/// Texts (whole, as a word, as a local part) of given lengths with given first and last characters, filled in two ways
pub fn ends(lens: &[usize], pairs: bool) -> Vec<String> {
    const C: [char; 14] = ['0', '1', '9', 'a', 'Z', '.', '-', '_', ' ', '\t', 'é', 'v', '*', '@'];
    let mut o = vec![];
    for n in lens {
        for (i, c) in C.iter().enumerate() {
            for (j, d) in C.iter().enumerate() {
                for fill in ["a", "1"] {
                    if !pairs && i != 3 && j != 3 {
                        continue;
                    }
                    let x = format!("{}{}{}", c, fill.repeat(n.saturating_sub(2)), d);
                    o.extend([format!("1.{}", x), format!("1+{}", x), x]);
                }
            }
        }
    }
    let mut o = dedup(o);
    o.retain(|t| model::defined(t));
    o
}
/// One long and varied list of version texts, for places where one version is asked about on its own
pub fn pool(tier: crate::engine::Tier) -> Vec<String> {
    let mut o = vocabulary(true);
    o.extend(mixed(2, false));
    o.extend(assembled(tier.pick(2, 4)));
    o.extend(ends(&[3, 7, 9, 12, 16, 24, 33, 48, 70, 130], false).into_iter().filter(|t| model::parse(t).is_some()));
    for c in 33..127u8 {
        let c = c as char;
        for f in ["CC", "1.CC", "aCCb", "1.0CCC2", "aCCCC", "CaC", "1CaC1", "1+aCCb"] {
            o.push(f.replace('C', &c.to_string()));
        }
    }
    for n in 0..=tier.pick(300, 1100) {
        for p in 0..PADS.len() {
            for t in if n < 40 { &["", "1", "b", ".0"][..] } else { &["", "z"][..] } {
                o.push(padded(p, n, t));
            }
        }
    }
    for x in 0..0x250 {
        for f in ["C", "1.C", "1.0C1", "1+C", "aCb0"] {
            o.push(f.replace('C', &nth_char(x).to_string()));
        }
    }
    o.extend(crate::ver::planes());
    let mut o = dedup(o);
    o.retain(|t| model::defined(t) && !over_limit(t) && t.chars().chain(t.to_uppercase().chars()).chain(t.to_lowercase().chars()).all(model::fold_sure));
    o
}
