//! Literals of the source under test: numbers and texts written in its non-test code. They only add places to
//! look at (lengths, counts, numbers, words) to the enumerated spaces; no verdict depends on them.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    /// numbers, and products, shifts and sums of neighbouring ones
    pub nums: Vec<i64>,
    /// texts of at most 16 characters, and the alphanumeric runs within them
    pub words: Vec<String>,
}
enum Tok {
    Num(i64),
    Text(String),
    Other(char),
}
fn number(s: &str) -> Option<i64> {
    let t: String = s.chars().filter(|c| *c != '_').collect();
    let (radix, d) = match t.get(..2) {
        Some("0x") => (16, &t[2..]),
        Some("0b") => (2, &t[2..]),
        Some("0o") => (8, &t[2..]),
        _ => (10, &t[..]),
    };
    let end = d.find(|c: char| !c.is_digit(radix)).unwrap_or(d.len());
    if radix == 10 && d[end..].starts_with('e') {
        return None;
    }
    i64::from_str_radix(&d[..end], radix).ok()
}
fn tokens(src: &str) -> Vec<Tok> {
    let c: Vec<char> = src.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let ident = |x: char| x.is_alphanumeric() || x == '_';
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1
            }
            i += 2;
        } else if (x == 'r' || x == 'b' && at(i + 1) == 'r') && (i == 0 || !ident(c[i - 1])) && {
            let mut j = i + 1 + (x == 'b') as usize;
            while at(j) == '#' {
                j += 1
            }
            at(j) == '"'
        } {
            let mut j = i + 1 + (x == 'b') as usize;
            let mut n = 0;
            while at(j) == '#' {
                n += 1;
                j += 1
            }
            j += 1;
            let mut t = String::new();
            while j < c.len() && !(c[j] == '"' && (0..n).all(|k| at(j + 1 + k) == '#')) {
                t.push(c[j]);
                j += 1
            }
            o.push(Tok::Text(t));
            i = j + 1 + n;
        } else if x == '"' || x == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'') {
            let mut j = i + 1;
            let mut t = String::new();
            while j < c.len() && c[j] != x {
                if c[j] == '\\' {
                    j += 1;
                    match at(j) {
                        'n' => t.push('\n'),
                        't' => t.push('\t'),
                        'r' => t.push('\r'),
                        '0' => t.push('\0'),
                        'x' => {
                            t.extend(u32::from_str_radix(&[at(j + 1), at(j + 2)].iter().collect::<String>(), 16).ok().and_then(char::from_u32));
                            j += 2
                        }
                        'u' => {
                            let mut d = String::new();
                            j += 2;
                            while j < c.len() && c[j] != '}' {
                                d.push(c[j]);
                                j += 1
                            }
                            t.extend(u32::from_str_radix(&d, 16).ok().and_then(char::from_u32));
                        }
                        '\n' => {
                            while at(j + 1).is_whitespace() {
                                j += 1
                            }
                        }
                        y => t.push(y),
                    }
                } else {
                    t.push(c[j])
                }
                j += 1
            }
            o.push(Tok::Text(t));
            i = j + 1;
        } else if x.is_ascii_digit() {
            let mut j = i;
            while j < c.len() && ident(c[j]) {
                j += 1
            }
            if let Some(n) = number(&c[i..j].iter().collect::<String>()) {
                o.push(Tok::Num(n))
            }
            i = j;
        } else if ident(x) {
            while i < c.len() && ident(c[i]) {
                i += 1
            }
            o.push(Tok::Other('a'));
        } else {
            if !x.is_whitespace() {
                o.push(Tok::Other(x))
            }
            i += 1
        }
    }
    o
}
fn files(d: &Path, o: &mut Vec<PathBuf>) {
    let Ok(l) = std::fs::read_dir(d) else { return };
    for e in l.flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, o)
        } else if p.extension().map_or(false, |x| x == "rs") {
            o.push(p)
        }
    }
}
pub fn of(srcs: &[String]) -> Dict {
    let (mut n, mut w) = (BTreeSet::new(), BTreeSet::new());
    for s in srcs {
        let code = s.split("#[cfg(test)]").next().unwrap();
        let t = tokens(code);
        for (i, k) in t.iter().enumerate() {
            match k {
                Tok::Num(a) => {
                    n.insert(*a);
                    // a op b, a.pow(b)
                    let j = (i + 1..(i + 6).min(t.len())).find(|j| matches!(t[*j], Tok::Num(_)));
                    if let Some(Tok::Num(b)) = j.map(|j| &t[j]) {
                        let ops: String = t[i + 1..j.unwrap()].iter().map(|x| if let Tok::Other(c) = x { *c } else { '"' }).collect();
                        let r = match ops.as_str() {
                            "<<" => a.checked_shl(*b as u32),
                            "*" => a.checked_mul(*b),
                            "+" => a.checked_add(*b),
                            "-" => a.checked_sub(*b),
                            ".a(" => a.checked_pow(*b as u32),
                            _ => None,
                        };
                        n.extend(r);
                    }
                }
                Tok::Text(x) => {
                    if x.chars().count() <= 16 && !x.is_empty() {
                        w.insert(x.clone());
                    }
                    if x.chars().count() <= 40 && !x.contains(' ') {
                        w.extend(x.split(|c: char| !c.is_alphanumeric()).filter(|r| !r.is_empty() && r.len() <= 16).map(|r| r.to_string()));
                    }
                }
                Tok::Other(_) => {}
            }
        }
    }
    Dict {
        nums: n.into_iter().filter(|x| *x >= 0).take(200).collect(),
        words: w.into_iter().filter(|x| !x.contains('{')).take(200).collect(),
    }
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut l = vec![];
        for d in ["/repo/core/src/version", "/repo/core/src/repodata", "/repo/python/src"] {
            files(Path::new(d), &mut l);
        }
        l.extend([PathBuf::from("/repo/core/src/lib.rs")]);
        l.retain(|p| !p.to_string_lossy().contains("test_tools"));
        l.sort();
        of(&l.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect::<Vec<_>>())
    })
}
/// the numbers and their neighbours, no larger than `max`
pub fn nums(max: i64) -> Vec<i64> {
    let mut v: Vec<i64> = dict().nums.iter().flat_map(|n| n.saturating_sub(1)..=n.saturating_add(1)).filter(|n| (0..=max).contains(n)).collect();
    v.sort();
    v.dedup();
    v
}
/// the words, in every case form that differs
pub fn words() -> Vec<String> {
    let mut v = vec![];
    for w in &dict().words {
        v.extend([w.clone(), w.to_uppercase(), w.to_lowercase()]);
    }
    crate::gen::dedup(v)
}
