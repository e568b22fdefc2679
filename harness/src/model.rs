//! Reference model, written from the property statements and sharing nothing with the code under test.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum P {
    Epoch(u32),
    /// digits without leading zeros ("" is zero)
    Num(String),
    Text(String),
    Local(String),
    Empty,
}

/// None: not a version. `defined` tells whether the statement settles the text at all.
pub fn defined(t: &str) -> bool {
    // a sign in the epoch is left open by V01
    !(t.matches('!').count() == 1 && (t.starts_with('+') || t.starts_with('-')))
}

fn num(d: &str) -> String {
    d.trim_start_matches('0').to_string()
}

pub fn parse(t: &str) -> Option<Vec<P>> {
    let mut out = vec![];
    let mut rest = t;
    if t.matches('!').count() > 1 {
        return None;
    }
    if let Some(k) = t.find('!') {
        let e = &t[..k];
        if e.is_empty() || !e.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let e = num(e);
        if e.len() > 5 {
            return None;
        }
        let v: u32 = if e.is_empty() { 0 } else { e.parse().unwrap() };
        if v > 32767 {
            return None;
        }
        out.push(P::Epoch(v));
        rest = &t[k + 1..];
    }
    if rest.matches('+').count() > 1 {
        return None;
    }
    let (main, local) = match rest.find('+') {
        Some(k) => (&rest[..k], &rest[k + 1..]),
        None => (rest, ""),
    };
    let mut cur = String::new();
    let mut cur_digit = false;
    let flush = |cur: &mut String, d: bool, out: &mut Vec<P>| {
        if !cur.is_empty() {
            out.push(if d { P::Num(num(cur)) } else { P::Text(cur.clone()) });
            cur.clear();
        }
    };
    for c in main.chars() {
        if c == '.' || c == '_' || c == '-' {
            flush(&mut cur, cur_digit, &mut out);
        } else {
            let d = c.is_ascii_digit();
            if !cur.is_empty() && d != cur_digit {
                flush(&mut cur, cur_digit, &mut out);
            }
            cur_digit = d;
            cur.push(c);
        }
    }
    flush(&mut cur, cur_digit, &mut out);
    if !local.is_empty() {
        out.push(P::Local(local.to_string()));
    }
    if t.is_empty() {
        out.push(P::Empty);
    }
    Some(out)
}

pub fn fold(t: &str) -> String {
    t.chars().flat_map(|c| c.to_lowercase()).collect()
}

/// Is the letter case of this character beyond dispute? (ß, dotless i and the like fold differently under
/// different Unicode rules, which the statements do not settle.)
pub fn fold_sure(c: char) -> bool {
    let one = |mut i: Box<dyn Iterator<Item = char>>| match (i.next(), i.next()) {
        (Some(c), None) => Some(c),
        _ => None,
    };
    let (l, u) = (one(Box::new(c.to_lowercase())), one(Box::new(c.to_uppercase())));
    match (l, u) {
        (Some(l), Some(u)) => l == c && u == c || (c as u32) < 0x530 && one(Box::new(u.to_lowercase())) == Some(l),
        _ => false,
    }
}

/// Rank of one part in the documented order; comparing the tuples compares the parts.
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    Empty,
    Dev,
    Text(String),
    Zero,
    Post,
    Lexi(String),
    /// (number of digits, digits): numeric order
    Num(usize, String),
    Epoch(u32),
}
pub fn key(p: &P) -> K {
    match p {
        P::Empty => K::Empty,
        P::Epoch(e) => K::Epoch(*e),
        P::Num(d) if d.is_empty() => K::Zero,
        P::Num(d) => K::Num(d.len(), d.clone()),
        P::Local(l) if l.is_empty() => K::Zero,
        P::Local(l) => K::Lexi(l.clone()),
        P::Text(t) => {
            let f = fold(t);
            if f.contains("post") {
                K::Post
            } else if f.is_empty() {
                K::Zero
            } else if f.contains("dev") {
                K::Dev
            } else {
                K::Text(f)
            }
        }
    }
}
/// Key of a whole version: main part keys without trailing zeros, and the local part.
/// Comparing two of them with `cmp_key` is the documented order; equality of keys is equality of versions.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct VK {
    pub main: Vec<K>,
    pub local: Option<String>,
}
pub fn vkey(ps: &[P]) -> VK {
    let (main, local) = match ps.last() {
        Some(P::Local(l)) => (&ps[..ps.len() - 1], if l.is_empty() { None } else { Some(l.clone()) }),
        _ => (ps, None),
    };
    let mut m: Vec<K> = main.iter().map(key).collect();
    while m.last() == Some(&K::Zero) {
        m.pop();
    }
    VK { main: m, local }
}
pub fn cmp_key(a: &VK, b: &VK) -> Ordering {
    for i in 0..a.main.len().max(b.main.len()) {
        let x = a.main.get(i).unwrap_or(&K::Zero);
        let y = b.main.get(i).unwrap_or(&K::Zero);
        match x.cmp(y) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    a.local.as_ref().map(|s| s.as_bytes()).cmp(&b.local.as_ref().map(|s| s.as_bytes()))
}
pub fn part_eq(a: &P, b: &P) -> bool {
    key(a) == key(b)
}
/// a begins with the parts of b
pub fn starts(a: &[P], b: &[P]) -> bool {
    a.len() >= b.len() && a.iter().zip(b).all(|(x, y)| part_eq(x, y))
}
/// a ~= b
pub fn compatible(a: &[P], b: &[P]) -> bool {
    starts(a, &b[..b.len().saturating_sub(1)]) && cmp_key(&vkey(a), &vkey(b)) != Ordering::Less
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Starts,
    NotStarts,
    Compat,
    Incompat,
}
pub const OPS: [Op; 10] =
    [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Starts, Op::NotStarts, Op::Compat, Op::Incompat];
impl Op {
    pub fn relational(self) -> bool {
        matches!(self, Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge)
    }
    pub fn of(self, o: Ordering) -> bool {
        match self {
            Op::Eq => o == Ordering::Equal,
            Op::Ne => o != Ordering::Equal,
            Op::Lt => o == Ordering::Less,
            Op::Le => o != Ordering::Greater,
            Op::Gt => o == Ordering::Greater,
            Op::Ge => o != Ordering::Less,
            _ => unreachable!(),
        }
    }
    pub fn holds(self, a: &[P], b: &[P]) -> bool {
        match self {
            Op::Starts => starts(a, b),
            Op::NotStarts => !starts(a, b),
            Op::Compat => compatible(a, b),
            Op::Incompat => !compatible(a, b),
            _ => self.of(cmp_key(&vkey(a), &vkey(b))),
        }
    }
    pub fn sign(self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::Starts => "=",
            Op::NotStarts => "!=startswith",
            Op::Compat => "~=",
            Op::Incompat => "!~=",
        }
    }
}

// ---- compound expressions -------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug, Hash, Eq)]
pub enum E {
    Leaf(String),
    And(Vec<E>),
    Or(Vec<E>),
}
impl E {
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            E::Leaf(s) => out.push(s),
            E::And(v) | E::Or(v) => v.iter().for_each(|e| e.leaves(out)),
        }
    }
    /// value under an assignment to the leaves by position
    pub fn eval(&self, next: &mut usize, asg: &dyn Fn(usize) -> bool) -> bool {
        match self {
            E::Leaf(_) => {
                *next += 1;
                asg(*next - 1)
            }
            E::And(v) => v.iter().fold(true, |a, e| e.eval(next, asg) & a),
            E::Or(v) => v.iter().fold(false, |a, e| e.eval(next, asg) | a),
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    L,
    R,
    Bar,
    Comma,
    Leaf(String),
}
pub fn tokens(t: &str) -> Vec<Tok> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() => i += 1,
            '(' => {
                out.push(Tok::L);
                i += 1
            }
            ')' => {
                out.push(Tok::R);
                i += 1
            }
            '|' => {
                out.push(Tok::Bar);
                i += 1
            }
            ',' => {
                out.push(Tok::Comma);
                i += 1
            }
            '^' if c[i..].contains(&'$') => {
                let e = i + c[i..].iter().position(|x| *x == '$').unwrap();
                out.push(Tok::Leaf(c[i..=e].iter().collect()));
                i = e + 1
            }
            _ => {
                let s = i;
                while i < c.len() && !"()|,".contains(c[i]) {
                    i += 1
                }
                out.push(Tok::Leaf(c[s..i].iter().collect::<String>().trim_end().to_string()))
            }
        }
    }
    out
}
/// None: malformed.
pub fn expr(t: &str) -> Option<E> {
    let ts = tokens(t);
    let mut i = 0;
    let e = or_(&ts, &mut i)?;
    if i == ts.len() {
        Some(e)
    } else {
        None
    }
}
fn or_(t: &[Tok], i: &mut usize) -> Option<E> {
    let mut v = vec![and_(t, i)?];
    while t.get(*i) == Some(&Tok::Bar) {
        *i += 1;
        v.push(and_(t, i)?)
    }
    Some(if v.len() == 1 { v.pop().unwrap() } else { E::Or(v) })
}
fn and_(t: &[Tok], i: &mut usize) -> Option<E> {
    let mut v = vec![atom(t, i)?];
    while t.get(*i) == Some(&Tok::Comma) {
        *i += 1;
        v.push(atom(t, i)?)
    }
    Some(if v.len() == 1 { v.pop().unwrap() } else { E::And(v) })
}
fn atom(t: &[Tok], i: &mut usize) -> Option<E> {
    match t.get(*i)? {
        Tok::L => {
            *i += 1;
            let e = or_(t, i)?;
            if t.get(*i) == Some(&Tok::R) {
                *i += 1;
                Some(e)
            } else {
                None
            }
        }
        Tok::Leaf(s) => {
            *i += 1;
            Some(E::Leaf(s.clone()))
        }
        _ => None,
    }
}

// ---- text patterns --------------------------------------------------------------------------

/// '*' stands for any sequence, everything else for itself
pub fn glob(p: &[char], t: &[char]) -> bool {
    match p.split_first() {
        None => t.is_empty(),
        Some(('*', r)) => (0..=t.len()).any(|k| glob(r, &t[k..])),
        Some((c, r)) => t.first() == Some(c) && glob(r, &t[1..]),
    }
}

/// A tiny backtracking regular-expression matcher: . [set] [^set] groups | * + ? \escape
#[derive(Clone, Debug)]
pub enum Re {
    Set(Vec<(char, char)>, bool),
    Any,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, usize),
}
pub fn re_parse(s: &str) -> Option<Re> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let r = re_alt(&c, &mut i)?;
    if i == c.len() {
        Some(r)
    } else {
        None
    }
}
fn re_alt(c: &[char], i: &mut usize) -> Option<Re> {
    let mut alts = vec![];
    loop {
        let mut seq = vec![];
        while *i < c.len() && c[*i] != '|' && c[*i] != ')' {
            let mut a = match c[*i] {
                '.' => {
                    *i += 1;
                    Re::Any
                }
                '(' => {
                    *i += 1;
                    if c.get(*i) == Some(&'?') && c.get(*i + 1) == Some(&':') {
                        *i += 2
                    }
                    let r = re_alt(c, i)?;
                    if c.get(*i) != Some(&')') {
                        return None;
                    }
                    *i += 1;
                    r
                }
                '[' => {
                    *i += 1;
                    let neg = c.get(*i) == Some(&'^');
                    if neg {
                        *i += 1
                    }
                    let mut set = vec![];
                    if c.get(*i) == Some(&']') {
                        return None;
                    }
                    while *c.get(*i)? != ']' {
                        let a = c[*i];
                        if "[\\&~".contains(a) || a == '-' {
                            return None;
                        }
                        if c.get(*i + 1) == Some(&'-') && c.get(*i + 2).map_or(false, |x| *x != ']') {
                            if a > c[*i + 2] || "[\\&~".contains(c[*i + 2]) {
                                return None;
                            }
                            set.push((a, c[*i + 2]));
                            *i += 3
                        } else {
                            set.push((a, a));
                            *i += 1
                        }
                    }
                    *i += 1;
                    Re::Set(set, neg)
                }
                '\\' => {
                    *i += 2;
                    let a = *c.get(*i - 1)?;
                    if a == 'd' {
                        Re::Set(vec![('0', '9')], false)
                    } else if !".+*?|()[]^$\\".contains(a) {
                        return None;
                    } else {
                        Re::Set(vec![(a, a)], false)
                    }
                }
                '*' | '+' | '?' => return None,
                a => {
                    *i += 1;
                    Re::Set(vec![(a, a)], false)
                }
            };
            while *i < c.len() && matches!(c[*i], '*' | '+' | '?') {
                a = match c[*i] {
                    '*' => Re::Rep(Box::new(a), 0, usize::MAX),
                    '+' => Re::Rep(Box::new(a), 1, usize::MAX),
                    _ => Re::Rep(Box::new(a), 0, 1),
                };
                *i += 1;
                if c.get(*i) == Some(&'?') {
                    *i += 1 // lazy: the same language
                }
            }
            seq.push(a)
        }
        alts.push(Re::Cat(seq));
        if *i < c.len() && c[*i] == '|' {
            *i += 1
        } else {
            break;
        }
    }
    if alts.len() > 1 && alts.iter().any(|a| matches!(a, Re::Cat(v) if v.is_empty())) {
        return None;
    }
    Some(if alts.len() == 1 { alts.pop().unwrap() } else { Re::Alt(alts) })
}
/// all end positions of matches of r starting at i
pub fn re_ends(r: &Re, t: &[char], i: usize) -> std::collections::BTreeSet<usize> {
    let mut o = std::collections::BTreeSet::new();
    match r {
        Re::Any => {
            if i < t.len() && t[i] != '\n' {
                o.insert(i + 1);
            }
        }
        Re::Set(s, neg) => {
            if i < t.len() && s.iter().any(|(a, b)| *a <= t[i] && t[i] <= *b) != *neg {
                o.insert(i + 1);
            }
        }
        Re::Cat(v) => {
            o.insert(i);
            for r in v {
                o = o.iter().flat_map(|k| re_ends(r, t, *k)).collect();
            }
        }
        Re::Alt(v) => {
            for r in v {
                o.extend(re_ends(r, t, i))
            }
        }
        Re::Rep(r, lo, hi) => {
            let mut cur: std::collections::BTreeSet<usize> = [i].into();
            let mut n = 0;
            let mut seen = std::collections::BTreeSet::new();
            loop {
                if n >= *lo {
                    o.extend(cur.iter().cloned());
                }
                if n == *hi || cur.is_empty() {
                    break;
                }
                cur = cur.iter().flat_map(|k| re_ends(r, t, *k)).collect();
                n += 1;
                if n > *lo {
                    cur = cur.difference(&seen).cloned().collect();
                    seen.extend(cur.iter().cloned());
                }
            }
        }
    }
    o
}
pub fn re_match(r: &Re, t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    re_ends(r, &c, 0).contains(&c.len())
}
