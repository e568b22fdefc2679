//! T01..T06: compound specs.
use crate::engine::{guard, h, Ctx, Space, Tier, R};
use crate::gen::*;
use crate::model::{self, E};
use crate::spec::{classify, Form};
use crate::{expect, fail};
use ronda::{
    treeify, untreeify, Combinator, ConstraintTree, Spec, Version, VersionSpec, VersionSpecOrConstraintTree as VT,
};
use std::convert::TryFrom;
use std::sync::Arc;

// ---- reading real trees -----------------------------------------------------------------------

pub fn leaves(t: &VT, out: &mut Vec<String>) {
    match t {
        VT::VersionSpec(s) => out.push(s.get_spec()),
        VT::ConstraintTree(c) => c.parts.iter().for_each(|p| leaves(p, out)),
    }
}
/// value under an assignment by leaf position; None for a group that has no boolean meaning
pub fn eval(t: &VT, next: &mut usize, asg: &dyn Fn(usize) -> bool) -> Option<bool> {
    match t {
        VT::VersionSpec(_) => {
            *next += 1;
            Some(asg(*next - 1))
        }
        VT::ConstraintTree(c) => {
            let v: Option<Vec<bool>> = c.parts.iter().map(|p| eval(p, next, asg)).collect();
            let v = v?;
            match c.combinator {
                Combinator::And => Some(v.iter().all(|x| *x)),
                Combinator::Or => Some(v.iter().any(|x| *x)),
                Combinator::None if v.len() == 1 => Some(v[0]),
                Combinator::None => None,
            }
        }
    }
}
/// a group directly inside a group of the same connective
fn unmerged(t: &VT) -> bool {
    match t {
        VT::VersionSpec(_) => false,
        VT::ConstraintTree(c) => c.parts.iter().any(|p| {
            unmerged(p) || matches!(p, VT::ConstraintTree(d) if d.combinator == c.combinator && c.combinator != Combinator::None)
        }),
    }
}
pub fn show(t: &VT) -> String {
    match t {
        VT::VersionSpec(s) => format!("{:?}", s.get_spec()),
        VT::ConstraintTree(c) => format!(
            "{}[{}]",
            match c.combinator {
                Combinator::And => "and",
                Combinator::Or => "or",
                Combinator::None => "single",
            },
            c.parts.iter().map(show).collect::<Vec<_>>().join(" ")
        ),
    }
}
/// assignments: all of them up to 12 leaves, else all with at most one leaf differing from a constant
fn assignments(n: usize) -> Vec<Box<dyn Fn(usize) -> bool>> {
    let mut v: Vec<Box<dyn Fn(usize) -> bool>> = vec![];
    if n <= 12 {
        for m in 0..1u32 << n {
            v.push(Box::new(move |i| m >> i & 1 == 1))
        }
    } else {
        for b in [false, true] {
            v.push(Box::new(move |_| b));
            for k in 0..n {
                v.push(Box::new(move |i| (i == k) != b));
            }
        }
        for p in 2..5 {
            v.push(Box::new(move |i| i % p == 0));
            v.push(Box::new(move |i| i % p != 0));
        }
    }
    v
}

/// T01 on one text; nothing is checked on texts that are not well-formed
pub fn t01_one(t: &str, c: &mut Ctx) -> R {
    let Some(e) = model::expr(t) else { return Ok(()) };
    let mut ls = vec![];
    e.leaves(&mut ls);
    if ls.iter().any(|l| matches!(classify(l), Form::Open | Form::Reject)) {
        return Ok(());
    }
    c.called(1);
    let r = match guard(|| treeify(t)) {
        Ok(Ok(r)) => VT::ConstraintTree(r),
        Ok(Err(m)) => fail!(t; "the well-formed spec {:?} is rejected: {}", t, m),
        Err(p) => fail!(t; "parsing {:?} panics: {}", t, p),
    };
    c.state(h(&show(&r)));
    let mut rl = vec![];
    leaves(&r, &mut rl);
    expect!(rl == ls, t; "{:?} has specs {:?}, its tree {} has {:?}", t, ls, show(&r), rl);
    for a in assignments(ls.len()) {
        let want = e.eval(&mut 0, &*a);
        match eval(&r, &mut 0, &*a) {
            Some(g) if g == want => {}
            g => {
                let asg: Vec<bool> = (0..ls.len()).map(|i| a(i)).collect();
                fail!(t; "{:?} parses to {} which gives {:?} for {:?}, expected {}", t, show(&r), g, asg, want)
            }
        }
    }
    expect!(!unmerged(&r), t; "{:?} parses to {} with directly nested groups of one connective", t, show(&r));
    Ok(())
}
/// T02 on one text; nothing is checked on well-formed texts
pub fn t02_one(t: &str, c: &mut Ctx) -> R {
    if let Some(e) = model::expr(t) {
        let mut ls = vec![];
        e.leaves(&mut ls);
        if !ls.iter().any(|l| matches!(classify(l), Form::Reject)) {
            return Ok(());
        }
    }
    c.called(1);
    c.state(h(&t));
    match guard(|| treeify(t)) {
        Ok(Err(m)) => {
            if guard(|| format!("{}", m)).is_err() {
                fail!(t; "reporting the error panics")
            }
        }
        Ok(Ok(r)) => fail!(t; "the malformed spec {:?} is accepted as {}", t, show(&VT::ConstraintTree(r))),
        Err(p) => fail!(t; "parsing {:?} panics: {}", t, p),
    }
    if t.contains(|c| "()|,".contains(c)) {
        c.called(1);
        match guard(|| VT::try_from(t)) {
            Ok(Err(_)) => {}
            Ok(Ok(r)) => fail!(t; "the general entry point accepts the malformed spec {:?} as {}", t, show(&r)),
            Err(p) => fail!(t; "the general entry point panics on {:?}: {}", t, p),
        }
    }
    Ok(())
}

const TOK: [&str; 5] = ["L", "(", ")", "|", ","];
/// token string number i; the k-th L becomes `leaf(k)`
fn fill(w: &str, leaf: &dyn Fn(usize) -> String) -> String {
    let mut k = 0;
    w.chars()
        .map(|c| {
            if c == 'L' {
                k += 1;
                leaf(k - 1)
            } else {
                c.to_string()
            }
        })
        .collect()
}
pub fn num_leaf(k: usize) -> String {
    format!("{}", k + 1)
}
const KINDS: [&str; 24] = [
    "1.2", "==1.2", "!=1.2", "<1.2", "<=1.2", ">1.2", ">=1.2", "=1.2", "1.2.*", "1.2*", "*", "1.*.2", "^1.2$", "^(1|2),3$", "^ a b$", "1@2", "~=1.2",
    "!=1.2.*", "1!2", "1.2+a", "a", "^$", "1.2-3_4", "^.*$",
];
const BADLEAF: [&str; 14] =
    ["=", "==", "><1", "1!2!3", "1$", "~1", "!1", "~=1.*", "1+2+3", "=>1", "!", ">", "x!1", "==1!2!3"];
const TEMPLATES: [&str; 16] = [
    "L", "(L)", "L,L", "L|L", "(L,L)", "L,L|L", "L|L,L", "(L|L),L", "L,(L|L)", "(L,L)|L", "L|(L,L)", "((L)),(L)", "L|L|L", "L,L,L", "(L|(L,(L|L)))", "(L,L)|(L,L)",
];

fn word_space(name: &str, l: u32, f: fn(&str, &mut Ctx) -> R) -> Space {
    Space::new(
        name,
        &format!("all token strings of length <= {} over ( ) | , and a spec", l),
        count(5, l),
        |i| format!("{:?}", fill(&word(&TOK, i), &num_leaf)),
        move |i, c| f(&fill(&word(&TOK, i), &num_leaf), c),
    )
}
pub fn list(name: &str, bound: &str, l: Vec<String>, f: impl Fn(&str, &mut Ctx) -> R + Send + Sync + 'static) -> Space {
    let l = Arc::new(dedup(l));
    let l2 = l.clone();
    Space::new(
        name,
        &format!("{} texts: {}", l.len(), bound),
        l.len() as u64,
        move |i| {
            let t: String = l2[i as usize].chars().take(200).collect();
            format!("{:?}", t)
        },
        move |i, c| f(&l[i as usize], c),
    )
}
/// all binary trees over k leaves with every choice of connectives, as expressions
fn bin(k: usize) -> Vec<E> {
    fn go(lo: usize, hi: usize) -> Vec<E> {
        if hi - lo == 1 {
            return vec![E::Leaf(format!("{}", lo + 1))];
        }
        let mut o = vec![];
        for m in lo + 1..hi {
            for a in go(lo, m) {
                for b in go(m, hi) {
                    o.push(E::And(vec![a.clone(), b.clone()]));
                    o.push(E::Or(vec![a.clone(), b.clone()]));
                }
            }
        }
        o
    }
    go(0, k)
}
/// print with parentheses around every group / only where needed / with redundant doubling
fn print(e: &E, style: u8, prec: u8) -> String {
    match e {
        E::Leaf(s) => {
            if style == 2 {
                format!("({})", s)
            } else {
                s.clone()
            }
        }
        E::And(v) | E::Or(v) => {
            let and = matches!(e, E::And(_));
            let p = if and { 2 } else { 1 };
            let sep = match (and, style) {
                (true, 3) => " , ",
                (true, _) => ",",
                (false, 3) => " | ",
                (false, _) => "|",
            };
            let s = v.iter().map(|x| print(x, style, p)).collect::<Vec<_>>().join(sep);
            match style {
                0 if prec > 0 => format!("({})", s),
                2 => format!("(({}))", s),
                3 if prec >= p => format!(" ( {} ) ", s),
                1 if prec > p => format!("({})", s),
                _ => s,
            }
        }
    }
}
pub fn bin_texts(ks: std::ops::RangeInclusive<usize>, styles: &[u8]) -> Vec<String> {
    let mut o = vec![];
    for k in ks {
        for e in bin(k) {
            for s in styles {
                o.push(print(&e, *s, 0))
            }
        }
    }
    o
}
pub fn wide(n_exh: usize) -> Vec<String> {
    let mut o = vec![];
    for n in 2..=n_exh {
        for m in 0..1u32 << (n - 1) {
            let mut t = String::new();
            for i in 0..n {
                if i > 0 {
                    t.push(if m >> (i - 1) & 1 == 1 { ',' } else { '|' })
                }
                t += &num_leaf(i);
            }
            o.push(t)
        }
    }
    let mut sizes: Vec<usize> = (n_exh + 1..=72).chain([100, 127, 128, 129, 200, 255, 256, 257]).chain(crate::dict::nums(400).into_iter().map(|n| n as usize)).filter(|n| *n > n_exh).collect();
    sizes.sort();
    sizes.dedup();
    for n in sizes {
        for p in [1usize, 2, 3, 7, 1000] {
            let t: Vec<String> = (0..n).map(|i| format!("{}{}", if i == 0 { "" } else if i % p == 0 { "|" } else { "," }, num_leaf(i))).collect();
            o.push(t.concat());
            let t: Vec<String> = (0..n).map(|i| format!("{}{}", if i == 0 { "" } else if i % p == 0 { "," } else { "|" }, num_leaf(i))).collect();
            o.push(t.concat());
        }
    }
    o
}
pub fn deep(max: usize) -> Vec<String> {
    let mut o = vec![];
    let mut sizes: Vec<usize> = (1..=max.min(72)).chain([100, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 3000]).chain(crate::dict::nums(600).into_iter().map(|n| n as usize)).filter(|x| 0 < *x && *x <= max).collect();
    sizes.sort();
    sizes.dedup();
    for n in sizes {
        o.push(format!("{}1{}", "(".repeat(n), ")".repeat(n)));
        o.push(format!("{}1,2{}", "(".repeat(n), ")".repeat(n)));
        let mut t = "1".to_string();
        let mut u = "1".to_string();
        let mut w = "1".to_string();
        for i in 0..n {
            t = if i % 2 == 0 { format!("({},{})", t, i + 2) } else { format!("({}|{})", t, i + 2) };
            u = if i % 2 == 0 { format!("({},{})", i + 2, u) } else { format!("({}|{})", i + 2, u) };
            w = if i % 2 == 0 { format!("{}|({})", i + 2, w) } else { format!("{},({})", i + 2, w) };
        }
        o.push(t);
        o.push(u);
        o.push(w);
    }
    o
}
pub fn kinds() -> Vec<String> {
    let mut o = vec![];
    for t in TEMPLATES {
        let n = t.matches('L').count();
        match n {
            1 => KINDS.iter().for_each(|a| o.push(fill(t, &|_| a.to_string()))),
            2 => KINDS.iter().for_each(|a| KINDS.iter().for_each(|b| o.push(fill(t, &|k| if k == 0 { a } else { b }.to_string())))),
            _ => KINDS.iter().for_each(|a| {
                KINDS.iter().for_each(|b| {
                    for p in 0..n {
                        o.push(fill(t, &|k| if k == p { a } else if k % 2 == 0 { b } else { "9" }.to_string()))
                    }
                })
            }),
        }
    }
    o
}
pub fn spaced() -> Vec<String> {
    let mut o = vec![];
    let ws = ["", " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{2003}", "\u{b}"];
    for t in TEMPLATES {
        for leafset in 0..2 {
            let toks: Vec<String> = {
                let mut k = 0;
                t.chars()
                    .map(|c| {
                        if c == 'L' {
                            k += 1;
                            if leafset == 0 { num_leaf(k - 1) } else { KINDS[(k * 5 + 7) % KINDS.len()].to_string() }
                        } else {
                            c.to_string()
                        }
                    })
                    .collect()
            };
            let join = |gap: &dyn Fn(usize) -> &'static str| {
                let mut s = gap(0).to_string();
                for (i, x) in toks.iter().enumerate() {
                    s += x;
                    s += gap(i + 1);
                }
                s
            };
            for w in ws {
                o.push(join(&|_| w));
                for g in 0..=toks.len() {
                    o.push(join(&|i| if i == g { w } else { "" }));
                    o.push(join(&|i| if i == g { "" } else { w }));
                }
            }
            if toks.len() <= 8 {
                for m in 0..1u32 << (toks.len() + 1) {
                    o.push(join(&|i| if m >> i & 1 == 1 { " " } else { "" }));
                }
            }
        }
    }
    o
}
/// well-formed texts with one token dropped, doubled, inserted, replaced or swapped
fn edited(k: usize) -> Vec<String> {
    let mut o = vec![];
    let mut base: Vec<String> = bin_texts(2..=k, &[0, 1]);
    base.extend(s(TEMPLATES.as_slice()).into_iter().map(|t| fill(&t, &num_leaf)));
    for t in base {
        let toks: Vec<char> = t.chars().collect();
        for i in 0..=toks.len() {
            for ins in ['(', ')', '|', ',', '7'] {
                let mut x = toks.clone();
                x.insert(i, ins);
                o.push(x.iter().collect());
                if i < toks.len() {
                    let mut x = toks.clone();
                    x[i] = ins;
                    o.push(x.iter().collect());
                }
            }
            if i < toks.len() {
                let mut x = toks.clone();
                x.remove(i);
                o.push(x.iter().collect());
                o.push(toks[..i].iter().collect());
                o.push(toks[i..].iter().collect());
            }
            if i + 1 < toks.len() {
                let mut x = toks.clone();
                x.swap(i, i + 1);
                o.push(x.iter().collect());
            }
        }
    }
    o
}

/// Members that are long texts with one wide character at every offset, in six shapes
pub fn long_members(tier: Tier, shapes: &[&str]) -> Vec<String> {
    let mut o = vec![];
    for n in lengths(tier, tier.pick(512, 4096)) {
        for k in 0..MARKED {
            let w = marked(n, k);
            for s in shapes {
                if *s == "V" || k % 2 == n % 2 {
                    o.push(s.replace('V', &w));
                }
            }
        }
    }
    o
}
const LONG_OK: [&str; 6] = ["V", "V,1", ">=1|V", "(1|V),2", "^V$|1", "V*z , V"];
const LONG_BAD: [&str; 6] = ["(V", "V,", "V)", "|V", "1,(V|2", "V 1"];

/// Members of every kind and every length in every place of small nestings.
pub fn sized_members(tier: Tier) -> Vec<String> {
    let mut ns: Vec<usize> = (1..=tier.pick(72, 140)).chain([100, 127, 128, 129, 255, 256, 257]).chain(crate::dict::nums(600).into_iter().map(|n| n as usize)).filter(|n| *n > 0).collect();
    ns.sort();
    ns.dedup();
    let body = |n: usize, unit: &str| -> String { unit.chars().cycle().take(n).collect() };
    let mut o = vec![];
    for n in ns {
        let kinds = [
            body(n, "1.2"), body(n, "a"), format!(">={}", body(n, "123")), format!("=={}", body(n, "1a")), format!("!={}", body(n, "9")), format!("{}*", body(n, "1.7")), format!("{}.*", body(n, "12")),
            format!("^{}$", body(n, "1.2")), format!("^{}$", body(n, "(a|b)*")), format!("^{}$", body(n, "[.,|]")), format!("*{}", body(n, "x")), format!("1*{}", body(n, "1a")), format!("~={}.1", body(n, "1")),
        ];
        for (j, m) in kinds.iter().enumerate() {
            if matches!(classify(m), Form::Open | Form::Reject) {
                continue;
            }
            let other = &kinds[(j + 7) % kinds.len()];
            let other = if matches!(classify(other), Form::Open | Form::Reject) { "3" } else { other };
            for c in ["M", "(M)", "M,1", "1|M", "(M|1),2", "2,(1|M)", "1,(M|O)", "(1,M)|(2|3),M", "(M,(1|M)),O", "((M,1)|(1,O)),(M|2)", "(O|((1|M),4)),5"] {
                o.push(c.replace('M', m).replace('O', other));
            }
        }
    }
    o
}
/// The words of the source in the place of members, connectives and parentheses
pub fn dictionary() -> Vec<String> {
    let mut o = vec![];
    for w in crate::dict::words() {
        for c in ["W", "W,1", "1|W", "1 W 2", "1W2", "(1)W(2)", "W(1|2)", "(1|2)W", "(W)", "(W|1),2", "1,(2|W)", ">=W,1", "W*|1", "1,^W$", "W,W", "1.W|2", "(1,2 W)", "W|"] {
            o.push(c.replace('W', &w));
        }
    }
    crate::gen::dedup(o)
}
/// Members out of the pool, each in four of eighteen shapes
pub fn pool_texts(tier: Tier) -> Vec<String> {
    let mut p = crate::gen::pool(tier);
    p.extend(crate::gen::odd_case());
    p.retain(|m| !matches!(classify(m), Form::Open | Form::Reject));
    const C: [&str; 18] = [
        "M|1", "1,(M|O)", "(M,1)|O", "<M,>=1|O", "M.*|(O,2)", "1|(2,(3|M))", "M,M", "((M|1),O)", "!=M,1|==M", "*z*M|1", "M@|(1,M)", "1|O|M", "M|1|O|2", "(M,1,O),2", "1,2,3,4,M", "(O|1|2),(3|M|4),5", ">=M,<O,!=1", "1|2,M|3,O|4",
    ];
    let n = p.len();
    let mut o = vec![];
    for (i, m) in p.iter().enumerate() {
        for k in [i % 11, (i / 11 + 5) % 11, 11 + i % 7, 11 + (i / 7 + 3) % 7] {
            let t = C[k].replace('M', m).replace('O', &p[(i * 7 + 3) % n]);
            if model::expr(&t).map_or(false, |e| { let mut l = vec![]; e.leaves(&mut l); !l.iter().any(|l| matches!(classify(l), Form::Open | Form::Reject)) }) {
                o.push(t);
            }
        }
    }
    o
}
/// The same with one token too many or too few
fn pool_damaged(tier: Tier) -> Vec<String> {
    const D: [&str; 12] = ["T|", "(T", "T)", ",T", "T(1)", "(1)T", "T,|2", "()T", "T||1", "(T))", "T 1)", "T,()"];
    pool_texts(tier).into_iter().enumerate().map(|(i, t)| D[i % 12].replace('T', &t)).collect()
}
/// Specs that spell nearly the same thing
fn respelled() -> Vec<String> {
    let mut base: Vec<String> = s(&[
        "1", "1.0", "1.0.0", "01", "1.00", "1.", "1a", "1.a", "1A", "1.0a", "1a0", "1_0", "1-0", "0!1", "1!1", "1+a", "1+A", "1+1", "1.post", "1.post0", "1.dev", "1.dev0", "10", "1.10", "1.1", "1.01", "2", "a", "A", "1rc", "1.rc", "v1", "1.0.*", "1.*", "1*", "*", "^1$", "^1.0$",
    ]);
    base.extend(crate::dict::words().into_iter().filter(|w| w.len() <= 8));
    let mut o = vec![];
    for b in base {
        for op in ["", "==", "!=", "<", "<=", ">", ">=", "=", "~=", "!=="] {
            o.push(format!("{}{}", op, b));
        }
        o.extend([format!("{}.*", b), format!("^{}$", b), format!("{} ", b), format!(" {}", b)]);
    }
    crate::gen::dedup(o.into_iter().filter(|t| !matches!(classify(t), Form::Open | Form::Reject)).collect())
}

pub fn t01(tier: Tier) -> Vec<Space> {
    vec![
        word_space("token-strings", tier.pick(9, 11), t01_one),
        list("leaf-kinds", "16 shapes with every pair of 24 kinds of spec", kinds(), t01_one),
        list("whitespace", "16 shapes, 10 kinds of space at one gap, all gaps, all but one gap; all space/no-space patterns", spaced(), t01_one),
        list("binary-trees", "all binary trees up to 6 (thorough 8) specs with every choice of connectives, printed fully and minimally parenthesised and spaced", bin_texts(1..=tier.pick(6, 8), &[0, 1, 3]), t01_one),
        list("redundant", "the same up to 4 specs with doubled parentheses everywhere", bin_texts(1..=tier.pick(4, 6), &[2]), t01_one),
        list("wide", "every connective pattern of up to 11 (thorough 14) specs; up to 257 specs", wide(tier.pick(11, 14)), t01_one),
        list("deep", "nesting up to 1000 (thorough 3000) levels", deep(tier.pick(1000, 3000)), t01_one),
        list("repeated-specs", "all token strings of length <= 7 with every spec the same text", (0..count(5, 7)).map(|i| fill(&word(&TOK, i), &|_| "1".into())).collect(), t01_one),
        list("edited", "one token edited in every binary tree of up to 4 (thorough 5) specs (those still well-formed)", edited(tier.pick(4, 5)), t01_one),
        list("long-members", "members with one wide character at every offset up to 300 (thorough 1100) and around powers of two, in 6 shapes", long_members(tier, &LONG_OK), t01_one),
        list("sized-members", "13 kinds of member of every length up to 72 (thorough 140) and of lengths the source names, in 11 nestings", sized_members(tier), t01_one),
        list("dictionary", "the words the source names, in three case forms, as members and between members in 18 shapes", dictionary(), t01_one),
        list("pool", "a long list of varied versions as members, each in four of 18 shapes", pool_texts(tier), t01_one),
        list("regex-tokens", "all token strings of length <= 6 with a regular expression holding delimiters as one spec", (0..count(5, 6)).flat_map(|i| { let w = word(&TOK, i); let n = w.matches('L').count(); (0..n).map(move |p| fill(&w, &|k| if k == p { "^(1|2),3$".into() } else { num_leaf(k) })).collect::<Vec<_>>() }).collect(), t01_one),
    ]
}
/// Specs joined by something that might be taken for a connective (t02_one skips what is well-formed)
fn separators() -> Vec<String> {
    const M: [&str; 7] = ["1", ">=1.2", "<2", "1.*", "^1$", "!=1a", "(1)"];
    let mut seps: Vec<String> = (0..128u8).map(|b| (b as char).to_string()).collect();
    seps.extend(s(&["\r\n", "\n\n", " \n ", "\n\t", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{3000}", "\u{200b}", "\u{feff}", "，", "、", "；", "｜", "∧", "∨"]));
    for w in ["and", "or", "AND", "Or", "not", "&&", "||", "&", ";", ":", "/", "+", "-", "--", "to", "..", "...", "#", "//", "then", "\\n", "if", "%2C", "<br>", "\\"] {
        seps.push(w.to_string());
        seps.push(format!(" {} ", w));
        seps.push(format!("\n{}\n", w));
    }
    let mut o = vec![];
    for p in crate::gen::dedup(seps) {
        for a in M {
            for b in M {
                let t = format!("{}{}{}", a, p, b);
                o.extend([t.clone(), format!("({})", t), format!("3,{}", t), format!("({})|3", t), format!("{}{}{}", t, p, a)]);
            }
        }
    }
    o
}
pub fn t02(tier: Tier) -> Vec<Space> {
    let mut badleaf = vec![];
    for t in TEMPLATES {
        let n = t.matches('L').count();
        for b in BADLEAF {
            for p in 0..n {
                for good in ["1", "^1$", "*"] {
                    let x = fill(t, &|k| if k == p { b.to_string() } else { good.to_string() });
                    badleaf.push(x.replace("L", "1"));
                }
            }
        }
    }
    let glue: Vec<String> = {
        // two operands without a connective, in every context
        let mut o = vec![];
        for a in ["(1)", "1", "(1|2)", "^1$", "(1,2)"] {
            for b in ["(2)", "(2|3)", "^2$", "(2,3)", "((2))"] {
                for (p, q) in [("", ""), ("3,", ""), ("", ",3"), ("(", ")"), ("3|(", ")|4"), ("", "|3"), ("3|", "")] {
                    for g in ["", " "] {
                        if !(b == "^2$" && a == "1") {
                            o.push(format!("{}{}{}{}{}", p, a, g, b, q));
                        }
                    }
                }
            }
        }
        o
    };
    vec![
        word_space("token-strings", tier.pick(9, 11), t02_one),
        list("invalid-members", "16 shapes with one of 14 invalid specs at each place", badleaf, t02_one),
        list("no-connective", "two operands side by side in 7 contexts", glue, t02_one),
        list("edited", "one token edited in every binary tree of up to 4 (thorough 5) specs (those no longer well-formed)", edited(tier.pick(4, 5)), t02_one),
        list("spaced", "all token strings of length <= 6 with spaces around every token", (0..count(5, 6)).map(|i| fill(&word(&TOK, i), &|_| "1".into()).chars().map(|c| format!(" {} ", c)).collect()).collect(), t02_one),
        list("operand-strings", "all texts of length <= 6 (thorough 7) over 1 ( ) | , space tab", words(&["1", "(", ")", "|", ",", " ", "\t"], tier.pick(6, 7)), t02_one),
        list("separators", "two or three specs of 7 kinds with every ASCII character, other kinds of space, line ends, words and doubled signs between them that no connective is, in 5 contexts", separators(), t02_one),
        list("unbalanced", "well-formed deep and wide texts with each parenthesis or connective removed, doubled or added at the ends", {
            let mut o = vec![];
            for t in deep(24).into_iter().chain(wide(4)) {
                for x in ["(", ")", "|", ","] {
                    o.push(format!("{}{}", x, t));
                    o.push(format!("{}{}", t, x));
                }
                let c: Vec<char> = t.chars().collect();
                for i in 0..c.len() {
                    if "()|,".contains(c[i]) {
                        let mut d = c.clone();
                        d.remove(i);
                        o.push(d.iter().collect());
                        let mut d = c.clone();
                        d.insert(i, c[i]);
                        o.push(d.iter().collect());
                    }
                }
            }
            o
        }, t02_one),
        list("long-members", "members with one wide character at every offset up to 300 (thorough 1100) and around powers of two, in 6 malformed shapes", long_members(tier, &LONG_BAD), t02_one),
        list("sized-members", "13 kinds of member of every length up to 72 (thorough 140) and of lengths the source names, in 11 nestings", sized_members(tier), t02_one),
        list("dictionary", "the words the source names, in three case forms, as members and between members in 18 shapes", dictionary(), t02_one),
        list("pool", "a long list of varied versions as members, each in four of 18 shapes, with one token too many or too few", pool_damaged(tier), t02_one),
        list("regex-tokens", "all token strings of length <= 6 with a regular expression holding delimiters as one spec", (0..count(5, 6)).flat_map(|i| { let w = word(&TOK, i); let n = w.matches('L').count(); (0..n).map(move |p| fill(&w, &|k| if k == p { "^(1|2),3$".into() } else { num_leaf(k) })).collect::<Vec<_>>() }).collect(), t02_one),
    ]
}

// ---- constructed trees --------------------------------------------------------------------------

/// Shape of a tree the public constructors allow.
#[derive(Clone, PartialEq, Debug)]
pub enum S {
    L,
    G(u8, Vec<S>), // 0 and, 1 or, 2 single
}
/// all shapes with exactly n nodes
pub fn shapes(max: usize, combs: &[u8]) -> Vec<Vec<S>> {
    let mut by: Vec<Vec<S>> = vec![vec![]];
    // forests[n]: all sequences of shapes with n nodes in total
    let mut forests: Vec<Vec<Vec<S>>> = vec![vec![vec![]]];
    for n in 1..=max {
        let mut v = vec![];
        if n == 1 {
            v.push(S::L)
        }
        for c in combs {
            for f in &forests[n - 1] {
                v.push(S::G(*c, f.clone()))
            }
        }
        by.push(v);
        let mut fs = vec![];
        for k in 1..=n {
            for t in &by[k] {
                for f in &forests[n - k] {
                    let mut x = vec![t.clone()];
                    x.extend(f.iter().cloned());
                    fs.push(x)
                }
            }
        }
        forests.push(fs);
    }
    by
}
pub fn build(sh: &S, k: &mut usize, leaf: &dyn Fn(usize) -> VersionSpec) -> VT {
    match sh {
        S::L => {
            *k += 1;
            VT::VersionSpec(leaf(*k - 1))
        }
        S::G(c, v) => VT::ConstraintTree(ConstraintTree {
            combinator: match c {
                0 => Combinator::And,
                1 => Combinator::Or,
                _ => Combinator::None,
            },
            parts: v.iter().map(|x| build(x, k, leaf)).collect(),
        }),
    }
}
fn n_leaves(s: &S) -> usize {
    match s {
        S::L => 1,
        S::G(_, v) => v.iter().map(n_leaves).sum(),
    }
}
/// non-empty and/or groups of two or more members only
fn proper(s: &S) -> bool {
    match s {
        S::L => true,
        S::G(c, v) => *c < 2 && v.len() >= 2 && v.iter().all(proper),
    }
}
/// holds an empty group, or a one-member group around another group
fn unwritable(s: &S) -> bool {
    match s {
        S::L => false,
        S::G(_, v) => v.is_empty() || (v.len() == 1 && v[0] != S::L) || v.iter().any(unwritable),
    }
}
pub fn vs(t: &str) -> VersionSpec {
    VersionSpec::try_from(t).unwrap_or_else(|_| panic!("spec {:?} rejected", t))
}

fn roundtrip(t: &str, c: &mut Ctx) -> R {
    if model::expr(t).is_none() {
        return Ok(());
    }
    let tree = match guard(|| treeify(t)) {
        Ok(Ok(x)) => x,
        _ => {
            c.skipped += 1;
            return Ok(());
        }
    };
    c.called(3);
    let v = VT::ConstraintTree(tree.clone());
    c.state(h(&show(&v)));
    let text = match guard(|| untreeify(&v)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => fail!(t; "the tree {} of {:?} cannot be written: {}", show(&v), t, e),
        Err(p) => fail!(t; "writing the tree of {:?} panics: {}", t, p),
    };
    let again = match guard(|| treeify(&text)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => fail!(t; "{:?} is written as {:?}, which does not parse: {}", t, text, e),
        Err(p) => fail!(t; "parsing the written text {:?} panics: {}", text, p),
    };
    let w = VT::ConstraintTree(again.clone());
    expect!(show(&w) == show(&v), t; "{:?} is written as {:?}, which parses to {} instead of {}", t, text, show(&w), show(&v));
    expect!(guard(|| again == tree).unwrap_or(false), t; "the tree of {:?} and of its text {:?} do not compare equal", t, text);
    match guard(|| untreeify(&w)) {
        Ok(Ok(x)) if x == text => {}
        x => fail!(t; "{:?} is written as {:?} and then as {:?}", t, text, x),
    }
    Ok(())
}
fn constructed(sh: &S, leaf: &dyn Fn(usize) -> VersionSpec, c: &mut Ctx) -> R {
    let t = build(sh, &mut 0, leaf);
    let key = show(&t);
    c.called(1);
    c.state(h(&key));
    let r = match guard(|| untreeify(&t)) {
        Ok(r) => r,
        Err(p) => fail!(key; "writing {} panics: {}", key, p),
    };
    if unwritable(sh) {
        expect!(r.is_err(), key; "{} is written as {:?} instead of being refused", key, r);
    }
    if proper(sh) {
        let text = match r {
            Ok(x) => x,
            Err(e) => fail!(key; "{} cannot be written: {}", key, e),
        };
        c.called(1);
        let w = match guard(|| treeify(&text)) {
            Ok(Ok(x)) => VT::ConstraintTree(x),
            Ok(Err(e)) => fail!(key; "{} is written as {:?}, which does not parse: {}", key, text, e),
            Err(p) => fail!(key; "parsing the written text {:?} panics: {}", text, p),
        };
        let (mut a, mut b) = (vec![], vec![]);
        leaves(&t, &mut a);
        leaves(&w, &mut b);
        expect!(a == b, key; "{} is written as {:?}, whose specs are {:?}", key, text, b);
        for asg in assignments(a.len()) {
            let (x, y) = (eval(&t, &mut 0, &*asg), eval(&w, &mut 0, &*asg));
            expect!(x == y, key; "{} is written as {:?}, which means {}: they differ for {:?}", key, text, show(&w), (0..a.len()).map(|i| asg(i)).collect::<Vec<_>>());
        }
    }
    Ok(())
}
pub fn shape_space(name: &str, bound: &str, sh: Vec<S>, f: impl Fn(&S, &mut Ctx) -> R + Send + Sync + 'static) -> Space {
    let sh = Arc::new(sh);
    let s2 = sh.clone();
    Space::new(name, &format!("{} trees: {}", sh.len(), bound), sh.len() as u64, move |i| format!("{:?}", s2[i as usize]), move |i, c| f(&sh[i as usize], c))
}
/// proper trees only (and/or groups of >= 2), by number of leaves
fn proper_shapes(k: usize) -> Vec<S> {
    fn seqs(n: usize, parts: usize) -> Vec<Vec<usize>> {
        if parts == 1 {
            return vec![vec![n]];
        }
        let mut o = vec![];
        for f in 1..=n - (parts - 1) {
            for mut r in seqs(n - f, parts - 1) {
                r.insert(0, f);
                o.push(r)
            }
        }
        o
    }
    let mut by: Vec<Vec<S>> = vec![vec![], vec![S::L]];
    for n in 2..=k {
        let mut v = vec![];
        for parts in 2..=n {
            for sizes in seqs(n, parts) {
                let mut acc: Vec<Vec<S>> = vec![vec![]];
                for z in sizes {
                    acc = acc.iter().flat_map(|p| by[z].iter().map(move |x| { let mut p = p.clone(); p.push(x.clone()); p })).collect();
                }
                for a in acc {
                    v.push(S::G(0, a.clone()));
                    v.push(S::G(1, a));
                }
            }
        }
        by.push(v);
    }
    by.concat()
}
pub fn t03(tier: Tier) -> Vec<Space> {
    let l = |k: usize| vs(&num_leaf(k));
    let kl = |k: usize| vs(KINDS[(k * 7 + 3) % KINDS.len()]);
    let mut v = vec![
        {
            let n = tier.pick(9, 10);
            word_space("parsed-token-strings", n, roundtrip)
        },
        list("parsed-leaf-kinds", "16 shapes with every pair of 24 kinds of spec", kinds(), roundtrip),
        list("parsed-binary-trees", "all binary trees up to 6 (thorough 8) specs, every connective, two parenthesisations", bin_texts(1..=tier.pick(6, 8), &[0, 1]), roundtrip),
        list("parsed-wide", "every connective pattern of up to 11 (thorough 14) specs; up to 257 specs", wide(tier.pick(11, 14)), roundtrip),
        list("parsed-deep", "nesting up to 1000 (thorough 3000) levels", deep(tier.pick(1000, 3000)), roundtrip),
        list("parsed-spaced", "whitespace in 16 shapes", spaced(), roundtrip),
        list("parsed-sized-members", "13 kinds of member of every length up to 72 (thorough 140) and of lengths the source names, in 11 nestings", sized_members(tier), roundtrip),
        list("parsed-dictionary", "the words the source names as members and between members in 18 shapes", dictionary(), roundtrip),
        list("parsed-pool", "a long list of varied versions as members, each in four of 18 shapes", pool_texts(tier), roundtrip),
        list("parsed-long-members", "members with one wide character at every offset up to 300 (thorough 1100) and around powers of two, in 6 shapes", long_members(tier, &LONG_OK), roundtrip),
    ];
    let all: Vec<S> = shapes(tier.pick(6, 7), &[0, 1, 2]).concat();
    v.push(shape_space("constructed", "every tree with <= 6 (thorough 7) nodes, any connective, empty and one-member groups included", all, move |s, c| constructed(s, &l, c)));
    v.push(shape_space("constructed-proper", "every tree of and/or groups with <= 6 (thorough 7) specs, same-connective nesting included", proper_shapes(tier.pick(6, 7)), move |s, c| constructed(s, &l, c)));
    v.push(shape_space("constructed-kinds", "every such tree with <= 5 specs of mixed kinds", proper_shapes(5), move |s, c| constructed(s, &kl, c)));
    // bad group deep inside a large proper tree
    let mut mixed_shapes = vec![];
    for p in proper_shapes(4) {
        for badg in [S::G(0, vec![]), S::G(1, vec![]), S::G(0, vec![S::G(1, vec![S::L, S::L])]), S::G(1, vec![S::G(1, vec![S::L, S::L])]), S::G(2, vec![]), S::G(2, vec![S::G(0, vec![S::L, S::L])])] {
            for k in 0..n_leaves(&p) {
                let mut i = 0;
                fn sub(s: &S, k: usize, i: &mut usize, b: &S) -> S {
                    match s {
                        S::L => {
                            *i += 1;
                            if *i - 1 == k { b.clone() } else { S::L }
                        }
                        S::G(c, v) => S::G(*c, v.iter().map(|x| sub(x, k, i, b)).collect()),
                    }
                }
                mixed_shapes.push(sub(&p, k, &mut i, &badg));
            }
        }
    }
    v.push(shape_space("constructed-unwritable", "every and/or tree with <= 4 specs with one spec replaced by an unwritable group", mixed_shapes, move |s, c| constructed(s, &l, c)));
    v
}

// ---- T04 -----------------------------------------------------------------------------------------

/// wildcard specs whose answers can be set independently: "*x*" is true for texts holding x
const LET: [&str; 8] = ["q", "w", "e", "r", "t", "y", "u", "i"];
pub fn letter_leaf(k: usize) -> String {
    format!("*{}*", LET[k % 8])
}
pub fn candidates(n: usize) -> Vec<Version> {
    let n = n.min(8);
    (0..1u32 << n)
        .filter_map(|m| {
            let t: String = format!("1.{}", (0..n).filter(|i| m >> i & 1 == 1).map(|i| LET[i]).collect::<String>());
            crate::spec::version(&t)
        })
        .collect()
}
/// what the tree should answer, from the answers of its own single specs
fn meaning(t: &VT, x: &Version) -> Option<bool> {
    match t {
        VT::VersionSpec(s) => Some(s.test_match_version(x)),
        VT::ConstraintTree(c) => {
            let v: Option<Vec<bool>> = c.parts.iter().map(|p| meaning(p, x)).collect();
            let v = v?;
            match c.combinator {
                Combinator::And => Some(v.iter().all(|x| *x)),
                Combinator::Or => Some(v.iter().any(|x| *x)),
                Combinator::None if v.len() == 1 => Some(v[0]),
                _ => None,
            }
        }
    }
}
fn answers(t: &VT, xs: &[Version], key: &str, want: &dyn Fn(&Version) -> Option<bool>, c: &mut Ctx) -> R {
    for x in xs {
        c.called(2);
        let r = guard(|| (want(x), t.test_match_version(x), t.test_match(x.as_str())));
        match r {
            Ok((None, _, _)) => {}
            Ok((Some(w), a, b)) => {
                c.state(h(&(key, w)));
                expect!(a == w && b == w, (key, x.as_str()); "{} on {:?} answers {} (as text {}), its members say {}", key, x.as_str(), a, b, w)
            }
            Err(p) => fail!((key, x.as_str()); "matching {:?} against {} panics: {}", x.as_str(), key, p),
        }
    }
    Ok(())
}
fn t04_tree(sh: &S, leaf: fn(usize) -> String, xs: &[Version], c: &mut Ctx) -> R {
    let t = build(sh, &mut 0, &|k| vs(&leaf(k)));
    let key = show(&t);
    answers(&t, xs, &key, &|x| meaning(&t, x), c)?;
    if let VT::ConstraintTree(ct) = &t {
        for x in xs {
            c.called(1);
            let r = guard(|| (meaning(&t, x), ct.test_match_version(x), ct.test_match(x.as_str())));
            match r {
                Ok((Some(w), a, b)) => expect!(a == w && b == w, (&key, x.as_str()); "{} on {:?} answers {}/{}, its members say {}", key, x.as_str(), a, b, w),
                Ok(_) => {}
                Err(p) => fail!((&key, x.as_str()); "matching {:?} against {} panics: {}", x.as_str(), key, p),
            }
        }
    }
    Ok(())
}
/// expression text through both entry points, against the expression's meaning over its members' own answers
fn t04_text(t: &str, xs: &[Version], c: &mut Ctx) -> R {
    let Some(e) = model::expr(t) else { return Ok(()) };
    let mut ls = vec![];
    e.leaves(&mut ls);
    if ls.iter().any(|l| matches!(classify(l), Form::Open | Form::Reject)) {
        return Ok(());
    }
    let single: Vec<VersionSpec> = match guard(|| ls.iter().map(|l| VersionSpec::try_from(*l)).collect::<Result<Vec<_>, _>>()) {
        Ok(Ok(v)) => v,
        _ => {
            c.skipped += 1;
            return Ok(());
        }
    };
    let want = |x: &Version| {
        let a: Vec<bool> = single.iter().map(|s| s.test_match_version(x)).collect();
        Some(e.eval(&mut 0, &|i| a[i]))
    };
    c.called(2);
    let tree = match guard(|| treeify(t)) {
        Ok(Ok(x)) => VT::ConstraintTree(x),
        Ok(Err(m)) => fail!(t; "the well-formed spec {:?} is rejected: {}", t, m),
        Err(p) => fail!(t; "parsing {:?} panics: {}", t, p),
    };
    answers(&tree, xs, t, &want, c)?;
    if t != t.trim() && !t.contains(|c| "()|,".contains(c)) {
        return Ok(()); // a lone spec with surrounding spaces is not a compound spec
    }
    let general = match guard(|| VT::try_from(t)) {
        Ok(Ok(x)) => x,
        Ok(Err(m)) => fail!(t; "the general entry point rejects the well-formed spec {:?}: {}", t, m),
        Err(p) => fail!(t; "the general entry point panics on {:?}: {}", t, p),
    };
    answers(&general, xs, t, &want, c)
}
fn t04_group(conn: &str, members: &[String], xs: &[Version], c: &mut Ctx) -> R {
    let mut v: Vec<&str> = vec![conn];
    v.extend(members.iter().map(|s| s.as_str()));
    group(&v, xs, c)
}
fn group(v: &[&str], xs: &[Version], c: &mut Ctx) -> R {
    let key = format!("{:?}", v);
    c.called(1);
    let r = match guard(|| ConstraintTree::try_from(v.to_vec())) {
        Ok(r) => r,
        Err(p) => fail!(key; "building a group from {} panics: {}", key, p),
    };
    let known = v.first().map_or(false, |x| *x == "," || *x == "|");
    let mut bad = !known;
    let mut es = vec![];
    for m in v.iter().skip(1) {
        let delim = m.contains(|c| "()|,".contains(c));
        let e = if delim { model::expr(m) } else { Some(E::Leaf(m.to_string())) };
        match e {
            None => bad = true,
            Some(e) => {
                let mut ls = vec![];
                e.leaves(&mut ls);
                for l in ls {
                    match classify(l) {
                        Form::Reject => bad = true,
                        Form::Open => return Ok(()),
                        _ => {}
                    }
                }
                es.push(e)
            }
        }
    }
    c.state(h(&key));
    if bad {
        expect!(r.is_err(), key; "a group built from {} is accepted", key);
        return Ok(());
    }
    if v.len() == 1 {
        return Ok(()); // a connective without members: not settled
    }
    let t = match r {
        Ok(t) => VT::ConstraintTree(t),
        Err(e) => fail!(key; "building a group from {} fails: {}", key, e),
    };
    let e = if v[0] == "," { E::And(es) } else { E::Or(es) };
    let mut ls = vec![];
    e.leaves(&mut ls);
    let single: Vec<VersionSpec> = match guard(|| ls.iter().map(|l| VersionSpec::try_from(*l)).collect::<Result<Vec<_>, _>>()) {
        Ok(Ok(v)) => v,
        _ => return Ok(()),
    };
    answers(&t, xs, &key, &|x| {
        let a: Vec<bool> = single.iter().map(|s| s.test_match_version(x)).collect();
        Some(e.eval(&mut 0, &|i| a[i]))
    }, c)
}
/// Wide groups and deep nestings in which exactly one spec decides: every position of it, every size.
fn deciding(tier: Tier) -> Space {
    let mut sizes: Vec<usize> = (2..=tier.pick(72, 140)).chain(crate::dict::nums(300).into_iter().map(|n| n as usize).filter(|n| *n > 1)).collect();
    sizes.extend([99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257].into_iter().filter(|n| n % 2 == 0 || tier == Tier::Thorough));
    sizes.sort();
    sizes.dedup();
    // (form, size, position): form 0 a wide group, 1 a wide group of two-member groups, 4 and 5 a wide
    // group as the second or only further member of the other connective's group, once or twice removed, 2 a nesting whose innermost
    // spec decides, 3 the same written as text
    let mut cases: Vec<(u8, usize, usize)> = vec![];
    for n in sizes {
        for f in [0u8, 1, 4, 5] {
            (0..n).for_each(|k| cases.push((f, n, k)))
        }
        cases.push((2, n, n));
        (0..n).for_each(|k| cases.push((3, n, k)));
    }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    const YES: [&str; 4] = [">=1", "1.*", "^1.*$", "1.*5"];
    const NO: [&str; 4] = ["<1", "2.*", "^2.*$", "2.*5"];
    Space::new(
        "deciding-member",
        &format!("{} sizes up to {}: groups and nestings in which one spec decides, at every position, x 2 connectives x 4 kinds of spec (as text beyond 20 members: 2) x both answers", cases.len(), 257),
        cases.len() as u64 * 16,
        move |i| {
            let (f, n, k) = c2[(i / 16) as usize];
            format!("form {} of size {}, spec {} decides, {} members {:?}", f, n, k, if i & 1 == 0 { "and" } else { "or" }, YES[(i >> 1 & 3) as usize])
        },
        move |i, c| {
            let (f, n, k) = cases[(i / 16) as usize];
            let (and, kind, decide) = (i & 1 == 0, (i >> 1 & 3) as usize, i >> 3 & 1 == 1);
            if f == 3 && kind >= 2 && n > 20 {
                return Ok(()); // long texts only with the kinds that are quick to parse
            }
            let x = match crate::spec::version("1.5") {
                Some(x) => x,
                None => return Ok(()),
            };
            let (yes, no) = (YES[kind], NO[kind]);
            let pick = |b: bool| if b { yes } else { no };
            let m = |b: bool| VT::VersionSpec(vs(pick(b)));
            let g = |and: bool, parts: Vec<VT>| VT::ConstraintTree(ConstraintTree { combinator: if and { Combinator::And } else { Combinator::Or }, parts });
            let own = guard(|| (vs(yes).test_match_version(&x), vs(no).test_match_version(&x)));
            if own != Ok((true, false)) {
                c.skipped += 1;
                return Ok(()); // the single specs themselves are off: another property
            }
            let key = (f, n, k, and, kind, decide);
            let (t, want) = match f {
                0 => {
                    let (a, b) = (m(and), m(if decide { !and } else { and }));
                    (g(and, (0..n).map(|j| if j == k { b.clone() } else { a.clone() }).collect()), if decide { !and } else { and })
                }
                1 => {
                    // pairs that agree with the group, but for pair k
                    let (a, b) = (g(!and, vec![m(and), m(!and)]), g(!and, vec![m(!and), m(!and)]));
                    (g(and, (0..n).map(|j| if j == k && decide { b.clone() } else { a.clone() }).collect()), if decide { !and } else { and })
                }
                2 => {
                    let mut t = m(decide);
                    for j in 0..n {
                        let a = (j % 2 == 0) == and;
                        // a neutral companion: true in an and-group, false in an or-group
                        t = g(a, if j % 3 == 0 { vec![t, m(a)] } else { vec![m(a), t] });
                    }
                    (t, decide)
                }
                4 | 5 => {
                    let (a, b) = (m(and), m(if decide { !and } else { and }));
                    let inner = g(and, (0..n).map(|j| if j == k { b.clone() } else { a.clone() }).collect());
                    // the other members are neutral: the answer is the inner group's
                    let t = g(!and, vec![m(!and), inner, m(!and)]);
                    let t = if f == 4 { t } else { g(and, vec![m(and), t, m(and)]) };
                    (t, if decide { !and } else { and })
                }
                _ => {
                    let d = if decide { !and } else { and };
                    let s = (0..n).map(|j| pick(if j == k { d } else { and })).collect::<Vec<_>>().join(if and { "," } else { "|" });
                    c.called(1);
                    match guard(|| VT::try_from(s.as_str())) {
                        Ok(Ok(t)) => (t, d),
                        Ok(Err(e)) => fail!(key; "the well-formed spec {:?} is rejected: {}", s, e),
                        Err(p) => fail!(key; "parsing {:?} panics: {}", s, p),
                    }
                }
            };
            c.called(2);
            c.state(h(&key));
            match guard(|| (t.test_match_version(&x), t.test_match("1.5"))) {
                Ok((a, b)) => {
                    expect!(a == want && b == want, key; "a tree of {} (form {}, spec {} decides, {} of {:?}) answers {}/{} where its members say {}", n, f, k, if and { "and" } else { "or" }, yes, a, b, want)
                }
                Err(p) => fail!(key; "matching a tree of {} panics: {}", n, p),
            }
            Ok(())
        },
    )
}
pub fn t04(tier: Tier) -> Vec<Space> {
    let x5 = Arc::new(candidates(tier.pick(5, 6)));
    let xr: Arc<Vec<Version>> = Arc::new(
        ["", "0", "1", "1.0", "1.2", "1.2.0", "1.2.1", "1.1.9", "1.3", "2", "1.2+a", "1!2", "1!1", "a", "1.2dev", "1.2.post1", "2.1", "1.10", "1.02"]
            .iter()
            .filter_map(|t| crate::spec::version(t))
            .collect(),
    );
    let mut v = vec![];
    let n = tier.pick(5, 6);
    let sh: Vec<S> = shapes(n, &[0, 1, 2]).concat();
    let xa = x5.clone();
    v.push(shape_space("trees", "every tree with <= 5 (thorough 6) nodes, empty and one-member groups included, under every combination of member answers", sh, move |s, c| t04_tree(s, letter_leaf, &xa, c)));
    let xa = x5.clone();
    v.push(shape_space("proper-trees", "every and/or tree with <= 5 (thorough 6) specs under every combination of member answers", proper_shapes(tier.pick(5, 6)), move |s, c| t04_tree(s, letter_leaf, &xa, c)));
    // members given by relational specs
    fn rel(k: usize) -> String {
        [">=1.2", "<2", "!=1.2", "1.2.*", "==1.3", "<=1.2"][k % 6].into()
    }
    let xb = xr.clone();
    v.push(shape_space("relational-trees", "every and/or tree with <= 5 relational and prefix specs, 19 candidates", proper_shapes(5), move |s, c| t04_tree(s, rel, &xb, c)));
    // wide and deep constructed groups
    let xa = x5.clone();
    let mut wd = vec![];
    for n in (2..=24).chain([31, 32, 33, 63, 64, 65, 100, 128, 200, 256]) {
        for c in 0..2 {
            wd.push(S::G(c, vec![S::L; n]));
            let mut d = S::L;
            for i in 0..n {
                d = S::G(((i + c as usize) % 2) as u8, if i % 3 == 0 { vec![d, S::L] } else { vec![S::L, d] });
            }
            wd.push(d);
        }
    }
    v.push(shape_space("wide-deep-trees", "groups of 2..24 and up to 256 members; nesting of 2..24 and up to 256 levels", wd, move |s, c| t04_tree(s, letter_leaf, &xa, c)));
    v.push(deciding(tier));
    let xa = x5.clone();
    let l = tier.pick(8, 10);
    v.push(Space::new(
        "texts",
        &format!("all well-formed token strings of length <= {} through treeify and the general entry point, under every combination of member answers", l),
        count(5, l),
        |i| format!("{:?}", fill(&word(&TOK, i), &letter_leaf)),
        move |i, c| t04_text(&fill(&word(&TOK, i), &letter_leaf), &xa, c),
    ));
    let xb = xr.clone();
    v.push(list("text-kinds", "16 shapes with every pair of 24 kinds of spec, 19 candidates", kinds(), move |t, c| t04_text(t, &xb, c)));
    let xa = x5.clone();
    let xb = xr.clone();
    v.push(list("text-sized-members", "13 kinds of member of every length up to 72 (thorough 140) and of lengths the source names, in 11 nestings, 5 candidates", sized_members(tier), move |t, c| t04_text(t, &xb[1..6], c)));
    let xb = xr.clone();
    let xp = xr.clone();
    v.push(list("text-pool", "a long list of varied versions as members, each in four of 18 shapes, 19 candidates and the members' own texts", pool_texts(tier), move |t, c| {
        let mut xs = xp.to_vec();
        xs.extend(t.split(|c| "()|,<>=*@".contains(c)).filter(|x| x.len() > 1).flat_map(|x| [x.to_string(), format!("{}.1", x)]).filter_map(|x| crate::spec::version(&x)));
        t04_text(t, &xs, c)
    }));
    // the members' answers do not depend on what the candidate looks like, and neither does the group's
    let xs: Arc<Vec<Version>> = Arc::new(crate::gen::pool(tier).iter().filter_map(|t| crate::spec::version(t)).collect());
    for t in ["1.*,>0", "<1|>=2", "(*a*|1.*),!=1.0", "*1*,(*0*|*a*)", "1|2|3|1.0", "*a*|*b*|*e*|*o*|*1", "*0,*1*,1*0,>0", ">=1,<2|>=3,<1!1|*dev*", "(((*1*)))", "!=1,!=1.0a,!=2,!=dev,*1*"] {
        for k in 0..8 {
            let xk: Vec<Version> = xs.iter().skip(k).step_by(8).cloned().collect();
            v.push(list(&format!("candidates {} {}", t, k), "one compound spec on every 8th of a long list of varied versions", vec![t.to_string()], move |t, c| t04_text(t, &xk, c)));
        }
    }
    let mut sized = vec![];
    for n in [2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 17, 18, 32, 33, 64, 65] {
        for at in if n > 2 { vec![0, n / 2, n - 1] } else { vec![0, 1] } {
            for (join, most, one) in [("|", "@n", "*"), (",", "*", "@n"), ("|", "^n$", "^.*$"), (",", "^.*$", "*@"), ("|", "(@n,*)", "(*,!=@n)")] {
                sized.push((0..n).map(|k| if k == at { one } else { most }).collect::<Vec<_>>().join(join));
            }
        }
    }
    sized.retain(|t| model::expr(t).is_some());
    let (s2, x2) = (sized.clone(), xs.clone());
    v.push(Space::new("candidates-of-groups", "and- and or-groups of 17 sizes to 65 in which one member, in three places, decides for every candidate; a long list of varied versions", sized.len() as u64 * 8, move |i| format!("{:?} on every 8th candidate from {}", s2[i as usize / 8], i % 8), move |i, c| {
        let xk: Vec<Version> = x2.iter().skip(i as usize % 8).step_by(8).cloned().collect();
        t04_text(&sized[i as usize / 8], &xk, c)
    }));
    let xb = xr.clone();
    v.push(list("text-dictionary", "the words the source names as members and between members in 18 shapes, 19 candidates", dictionary(), move |t, c| t04_text(t, &xb, c)));
    let xa = x5.clone();
    v.push(list("text-spaced", "whitespace in 16 shapes", spaced(), move |t, c| t04_text(t, &xa[..4], c)));
    let xa = x5.clone();
    v.push(list("text-binary-trees", "binary trees up to 5 (thorough 6) specs", bin_texts(1..=tier.pick(5, 6), &[0, 1]).into_iter().map(|t| {
        let mut o = String::new();
        for c in t.chars() {
            match c.to_digit(10) {
                Some(d) => o += &letter_leaf(d as usize - 1),
                None => o.push(c),
            }
        }
        o
    }).collect(), move |t, c| t04_text(t, &xa, c)));
    // groups from a connective and texts
    let pool = ["1.2", ">=1.2", "*q*", "(1.2|2)", "1.2|2", "<2,>1", "^(1|2).*$", "1!2!3", "", "(1", "><1", "1@2", "(1.2)"];
    let mut gl: Vec<Vec<String>> = vec![vec![]];
    let mut cur: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..3 {
        cur = cur.iter().flat_map(|p| pool.iter().map(move |x| { let mut p = p.clone(); p.push(x.to_string()); p })).collect();
        gl.extend(cur.iter().cloned());
    }
    let conns = ["," , "|", "", " ", "&", ",,", "||", ", ", "and", "1.2", "(", ",|", "&&", "or"];
    let gl = Arc::new(gl);
    let (g2, xb) = (gl.clone(), xr.clone());
    v.push(Space::new(
        "groups",
        "14 connectives with every list of <= 3 of 13 member texts",
        gl.len() as u64 * 14,
        move |i| format!("{:?} {:?}", conns[(i % 14) as usize], g2[(i / 14) as usize]),
        move |i, c| t04_group(conns[(i % 14) as usize], &gl[(i / 14) as usize], &xb, c),
    ));
    let xb = xr;
    v.push(Space::new("empty-group-list", "the empty list", 1, |_| "[]".into(), move |_, c| group(&[], &xb, c)));
    v.push(Space::new("connective-texts", "every one- and two-character ASCII connective", 128 * 129, |i| format!("{:?}", conn(i)), |i, c| group(&[&conn(i), "1", "2"], &[], c)));
    v
}
fn conn(i: u64) -> String {
    let a = (i % 128) as u8 as char;
    match i / 128 {
        0 => a.to_string(),
        k => format!("{}{}", a, (k - 1) as u8 as char),
    }
}

// ---- T05 -----------------------------------------------------------------------------------------

/// model of a tree for equality
#[derive(Clone, PartialEq, Debug)]
enum M {
    L(&'static str),
    G(u8, Vec<M>),
}
fn label(s: &S, labels: &[&'static str]) -> Vec<M> {
    match s {
        S::L => labels.iter().map(|l| M::L(l)).collect(),
        S::G(c, v) => {
            let mut acc: Vec<Vec<M>> = vec![vec![]];
            for x in v {
                let ls = label(x, labels);
                acc = acc.iter().flat_map(|p| ls.iter().map(move |y| { let mut p = p.clone(); p.push(y.clone()); p })).collect();
            }
            acc.into_iter().map(|p| M::G(*c, p)).collect()
        }
    }
}
fn real(m: &M) -> VT {
    match m {
        M::L(t) => VT::VersionSpec(vs(t)),
        M::G(c, v) => VT::ConstraintTree(ConstraintTree {
            combinator: match c {
                0 => Combinator::And,
                1 => Combinator::Or,
                _ => Combinator::None,
            },
            parts: v.iter().map(real).collect(),
        }),
    }
}
fn eq_space(name: &str, bound: &str, ms: Vec<M>) -> Space {
    let ms = Arc::new(ms.into_iter().filter_map(|m| guard(|| real(&m)).ok().map(|r| (m, r))).collect::<Vec<_>>());
    let m2 = ms.clone();
    Space::new(
        name,
        &format!("all ordered pairs of {} trees: {}", ms.len(), bound),
        ms.len() as u64,
        move |i| format!("{} against each", show(&m2[i as usize].1)),
        move |i, c| {
            let (m, r) = &ms[i as usize];
            c.state(h(&format!("{:?}", m)));
            for (m2, r2) in ms.iter() {
                let want = m == m2;
                c.called(2);
                let g = guard(|| {
                    let inner = match (r, r2) {
                        (VT::ConstraintTree(a), VT::ConstraintTree(b)) => (a == b, a != b),
                        (VT::VersionSpec(a), VT::VersionSpec(b)) => (a == b, a != b),
                        _ => (want, !want),
                    };
                    (r == r2, r != r2, inner)
                });
                match g {
                    Ok((a, b, (x, y))) if a == want && b != want && x == want && y != want => {}
                    Ok(g) => fail!((show(r), show(r2)); "{} == {} gives {:?}, expected {}", show(r), show(r2), g, want),
                    Err(p) => fail!((show(r), show(r2)); "comparing {} with {} panics: {}", show(r), show(r2), p),
                }
            }
            Ok(())
        },
    )
}
/// Groups that differ in one member, at every place, or in the order of two
fn one_difference(tier: Tier) -> Space {
    let mut sizes: Vec<usize> = (1..=tier.pick(140, 260)).collect();
    sizes.extend(crate::dict::nums(1100).into_iter().map(|n| n as usize).filter(|n| *n > 0));
    sizes.extend([255, 256, 257, 258, 511, 512, 513, 1024]);
    sizes.sort();
    sizes.dedup();
    let cases: Arc<Vec<(usize, usize)>> = Arc::new(sizes.into_iter().flat_map(|n| (0..n).map(move |k| (n, k))).collect());
    let c2 = cases.clone();
    Space::new(
        "one-difference",
        "groups of up to 140 (thorough 260) and around 256, 512 and 1024 members: one changed at every place, two neighbours swapped, one dropped or doubled; flat and as the last member of a group",
        cases.len() as u64 * 2,
        move |i| format!("size {}, place {}", c2[(i / 2) as usize].0, c2[(i / 2) as usize].1),
        move |i, c| {
            let ((n, k), and) = (cases[(i / 2) as usize], i & 1 == 0);
            thread_local! { static LEAF: Vec<VersionSpec> = ["1", "2", "3", "4"].iter().map(|t| vs(t)).collect(); }
            let g = |v: Vec<usize>| LEAF.with(|l| ConstraintTree { combinator: if and { Combinator::And } else { Combinator::Or }, parts: v.iter().map(|j| VT::VersionSpec(l[*j].clone())).collect() });
            let base: Vec<usize> = (0..n).map(|j| j % 3).collect();
            let mut var = vec![base.clone(), base.clone(), base.clone()];
            var[0][k] = 3;
            var[1].remove(k);
            var[2].insert(k, base[k]);
            if k + 1 < n {
                let mut b = base.clone();
                b.swap(k, k + 1);
                var.push(b);
            }
            let out = |t: ConstraintTree| ConstraintTree { combinator: if and { Combinator::Or } else { Combinator::And }, parts: vec![VT::VersionSpec(vs("1")), VT::ConstraintTree(t)] };
            let a = g(base.clone());
            c.state(h(&(n, k, and)));
            c.called(1);
            expect!(a == g(base.clone()) && out(a.clone()) == out(g(base.clone())), (n, k); "a group of {} does not equal its copy", n);
            for b in var {
                let b2 = g(b.clone());
                c.called(4);
                let got = (a == b2, b2 == a, a != b2, out(a.clone()) == out(b2.clone()));
                expect!(got == (false, false, true, false), (n, k); "groups of {} and {} members that differ at place {} compare {:?}", n, b.len(), k, got);
            }
            Ok(())
        },
    )
}
pub fn t05(tier: Tier) -> Vec<Space> {
    let sh: Vec<S> = shapes(tier.pick(4, 5), &[0, 1, 2]).concat();
    let small: Vec<S> = shapes(3, &[0, 1, 2]).concat();
    let mut v = vec![];
    v.push(eq_space("shapes", "every tree with <= 4 (thorough 5) nodes and specs from 1, 1.0", sh.iter().flat_map(|s| label(s, &["1", "1.0"])).collect()));
    v.push(eq_space("labels", "every tree with <= 3 nodes and 12 near-equal specs", small.iter().flat_map(|s| label(s, &["1.2", "1.2.0", "==1.2", "1.2.*", "1.2*", "=1.2", "1.02", "1.2a", "1.2A", ">1.2", ">=1.2", "^1.2$"])).collect()));
    v.push(eq_space("proper-shapes", "every and/or tree with <= 4 (thorough 5) specs", proper_shapes(tier.pick(4, 5)).iter().flat_map(|s| label(s, if tier == Tier::Quick { &["1", "2"] } else { &["1", "2"] })).collect::<Vec<_>>().into_iter().take(4000).collect()));
    // wide groups differing in one place
    let mut wide = vec![];
    for n in [1usize, 2, 3, 8, 9, 16, 17, 32, 33, 64] {
        for c in 0..3u8 {
            wide.push(M::G(c, vec![M::L("1"); n]));
            for k in [0, n / 2, n - 1] {
                let mut p = vec![M::L("1"); n];
                p[k] = M::L("2");
                wide.push(M::G(c, p.clone()));
                p[k] = M::G(c, vec![M::L("1")]);
                wide.push(M::G(c, p));
            }
        }
    }
    // deep trees differing at the bottom
    for n in [4usize, 8, 16, 32, 64] {
        for bottom in ["1", "2"] {
            for c in 0..2u8 {
                let mut t = M::G(c, vec![M::L("1"), M::L(bottom)]);
                for i in 0..n {
                    t = M::G((i % 2) as u8, vec![M::L("1"), t]);
                }
                wide.push(t);
            }
        }
    }
    wide.dedup();
    let mut uniq: Vec<M> = vec![];
    for w in wide {
        if !uniq.contains(&w) {
            uniq.push(w)
        }
    }
    v.push(eq_space("wide-deep", "groups of up to 64 members and 64 levels differing in one place", uniq));
    // single specs by text
    let ts: Vec<String> = words(&["1", "0", ".", "*", "=", ">", "a", "A"], 4).into_iter().filter(|t| !matches!(classify(t), Form::Open | Form::Reject)).collect();
    let ts: Arc<Vec<(String, VersionSpec)>> = Arc::new(ts.into_iter().filter_map(|t| guard(|| VersionSpec::try_from(t.as_str())).ok()?.ok().map(|s| (t, s))).collect());
    let t2 = ts.clone();
    v.push(Space::new(
        "single-specs",
        "all ordered pairs of the well-formed specs of length <= 4 over 1 0 . * = > a A",
        ts.len() as u64,
        move |i| format!("{:?} against each", t2[i as usize].0),
        move |i, c| {
            let a = &ts[i as usize];
            c.state(h(&a.0));
            for b in ts.iter() {
                c.called(1);
                expect!((a.1 == b.1) == (a.0 == b.0), (&a.0, &b.0); "specs {:?} and {:?} compare {}", a.0, b.0, a.1 == b.1);
            }
            Ok(())
        },
    ));
    // near-equal spellings, alone and as members
    let rs: Arc<Vec<(String, VersionSpec, ConstraintTree)>> = Arc::new(
        respelled()
            .into_iter()
            .filter_map(|t| {
                let s = guard(|| VersionSpec::try_from(t.as_str())).ok()?.ok()?;
                let g = ConstraintTree { combinator: Combinator::And, parts: vec![VT::VersionSpec(vs("1")), VT::ConstraintTree(ConstraintTree { combinator: Combinator::Or, parts: vec![VT::VersionSpec(s.clone()), VT::VersionSpec(vs("2"))] })] };
                Some((t, s, g))
            })
            .collect(),
    );
    let r2 = rs.clone();
    v.push(Space::new(
        "respelled",
        &format!("all ordered pairs of {} specs with nearly the same meaning or spelling (14 forms of 38 versions and of the words the source names), alone and in a nested group", rs.len()),
        rs.len() as u64,
        move |i| format!("{:?} against each", r2[i as usize].0),
        move |i, c| {
            let a = &rs[i as usize];
            c.state(h(&a.0));
            for b in rs.iter() {
                c.called(3);
                let want = a.0 == b.0;
                match guard(|| (a.1 == b.1, VT::VersionSpec(a.1.clone()) == VT::VersionSpec(b.1.clone()), a.2 == b.2)) {
                    Ok(g) => expect!(g == (want, want, want), (&a.0, &b.0); "specs {:?} and {:?} compare {:?} (alone, as tree members, in groups)", a.0, b.0, g),
                    Err(p) => fail!((&a.0, &b.0); "comparing specs {:?} and {:?} panics: {}", a.0, b.0, p),
                }
            }
            Ok(())
        },
    ));
    v.push(one_difference(tier));
    let ps: Arc<Vec<String>> = Arc::new(crate::gen::pool(tier).into_iter().filter(|m| !matches!(classify(m), Form::Open | Form::Reject)).collect());
    let p2 = ps.clone();
    v.push(Space::new(
        "pool",
        "a long list of varied versions: each in 6 forms, with 8 near spellings and 4 others, every pair; alone, in groups, in groups of groups; and two of them put together in 23 ways, every pair",
        ps.len() as u64,
        move |i| format!("{:?}", p2[i as usize]),
        move |i, c| {
            let w = &ps[i as usize];
            let mut ts: Vec<String> = ["V", "V", "==V", ">=V", "<V", "V.*", "V.0", "V0", "V.00", "0V", "0!V", "Va"].iter().map(|f| f.replace('V', w)).collect();
            ts.extend([w.to_uppercase(), w.to_lowercase(), w.replace('.', "-"), w.chars().skip(1).collect(), w.chars().rev().collect()]);
            ts.extend((1..5).map(|k| ps[(i as usize * 13 + k * 577) % ps.len()].clone()));
            let ss: Vec<(String, VersionSpec)> = ts.into_iter().filter(|t| !matches!(classify(t), Form::Open | Form::Reject)).filter_map(|t| guard(|| VersionSpec::try_from(t.as_str())).ok()?.ok().map(|s| (t, s))).collect();
            let g = |s: &VersionSpec| ConstraintTree { combinator: Combinator::Or, parts: vec![VT::VersionSpec(s.clone()), VT::ConstraintTree(ConstraintTree { combinator: Combinator::And, parts: vec![VT::VersionSpec(ss[0].1.clone()), VT::VersionSpec(s.clone())] })] };
            let gs: Vec<ConstraintTree> = ss.iter().map(|s| g(&s.1)).collect();
            // the same members, put together in other ways
            if let [x, .., y] = &ss[..] {
                let l = |s: &(String, VersionSpec)| VT::VersionSpec(s.1.clone());
                let t = |k: u8, parts: Vec<VT>| VT::ConstraintTree(ConstraintTree { combinator: match k { 0 => Combinator::And, 1 => Combinator::Or, _ => Combinator::None }, parts });
                let mut st = vec![l(x), l(y)];
                for k in 0..3 {
                    st.extend([t(k, vec![l(x)]), t(k, vec![l(x), l(y)]), t(k, vec![l(y), l(x)]), t(k, vec![l(x), l(x), l(y)]), t(k, vec![l(x), t(1, vec![l(y)])]), t(k, vec![t(0, vec![l(x), l(y)])]), t(k, vec![t(1, vec![l(x), l(y)]), l(y)])]);
                }
                let sig: Vec<String> = st.iter().map(show).collect();
                for (a, sa) in st.iter().zip(&sig) {
                    for (b, sb) in st.iter().zip(&sig) {
                        c.called(1);
                        let r = guard(|| a == b);
                        expect!(r == Ok(sa == sb), (sa, sb); "the trees {} and {} compare {:?}", sa, sb, r);
                    }
                }
            }
            for (a, ga) in ss.iter().zip(&gs) {
                for (b, gb) in ss.iter().zip(&gs) {
                    c.called(2);
                    let want = a.0 == b.0;
                    let r = guard(|| (a.1 == b.1, ga == gb));
                    expect!(r == Ok((want, want)), (&a.0, &b.0); "specs {:?} and {:?} compare {:?} (alone, in groups)", a.0, b.0, r);
                }
            }
            Ok(())
        },
    ));
    let ns = Arc::new(lengths(tier, tier.pick(1024, 8192)));
    let n2 = ns.clone();
    v.push(Space::new(
        "long-texts",
        "specs whose texts differ in the first, middle or last character or in length: every length up to 300 (thorough 1100) and around powers of two, 18 kinds; alone and in groups",
        (ns.len() * MARKED) as u64,
        move |i| format!("length {} kind {}", n2[i as usize % n2.len()], i as usize / n2.len()),
        move |i, c| {
            let (n, k) = (ns[i as usize % ns.len()], i as usize / ns.len());
            let w = marked(n, k);
            let cs: Vec<char> = w.chars().collect();
            let mut ts = vec![w.clone(), w.clone(), marked(n + 1, k), format!("{}a", w), format!("{}.0", w), w.to_uppercase()];
            for j in [0, cs.len() / 2, cs.len().saturating_sub(1)] {
                let mut d = cs.clone();
                d[j] = if d[j] == 'y' { 'x' } else { 'y' };
                ts.push(d.into_iter().collect());
            }
            let ss: Vec<(String, VersionSpec)> = ts.into_iter().filter(|t| !matches!(classify(t), Form::Open | Form::Reject)).filter_map(|t| guard(|| VersionSpec::try_from(t.as_str())).ok()?.ok().map(|s| (t, s))).collect();
            let tree = |s: &VersionSpec| ConstraintTree { combinator: Combinator::And, parts: vec![VT::VersionSpec(s.clone()), VT::ConstraintTree(ConstraintTree { combinator: Combinator::Or, parts: vec![VT::VersionSpec(s.clone())] })] };
            for a in &ss {
                for b in &ss {
                    c.called(2);
                    let want = a.0 == b.0;
                    let g = guard(|| (a.1 == b.1, tree(&a.1) == tree(&b.1), tree(&a.1) != tree(&b.1)));
                    if g != Ok((want, want, !want)) {
                        fail!((n, k); "specs of length {} ({} and {} bytes, {}) compare {:?}", n, a.0.len(), b.0.len(), if want { "the same" } else { "different" }, g);
                    }
                }
            }
            c.state(h(&w));
            Ok(())
        },
    ));
    // parsed trees against each other and against constructed ones
    let texts: Vec<String> = (0..count(5, 6)).map(|i| word(&TOK, i)).filter(|w| model::expr(&fill(w, &num_leaf)).is_some()).collect();
    let px: Arc<Vec<(String, String, ConstraintTree)>> = Arc::new(
        texts
            .iter()
            .flat_map(|w| [fill(w, &num_leaf), fill(w, &|_| "1".into())])
            .filter_map(|t| guard(|| treeify(&t)).ok()?.ok().map(|x| (t.clone(), show(&VT::ConstraintTree(x.clone())), x)))
            .collect(),
    );
    let p2 = px.clone();
    v.push(Space::new(
        "parsed",
        "all ordered pairs of the trees of the well-formed token strings of length <= 6",
        px.len() as u64,
        move |i| format!("{:?} against each", p2[i as usize].0),
        move |i, c| {
            let a = &px[i as usize];
            c.state(h(&a.1));
            for b in px.iter() {
                c.called(1);
                let want = a.1 == b.1;
                expect!((a.2 == b.2) == want, (&a.0, &b.0); "the trees of {:?} ({}) and {:?} ({}) compare {}", a.0, a.1, b.0, b.1, !want);
                // equal trees accept the same versions is a consequence checked on real members
            }
            Ok(())
        },
    ));
    v
}

// ---- T06 -----------------------------------------------------------------------------------------

fn depth(t: &VT) -> usize {
    match t {
        VT::ConstraintTree(t) => 1 + t.parts.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}
fn printed(t: &VT, c: &mut Ctx) -> R {
    let key = show(t);
    c.called(4);
    c.state(h(&key));
    // indented forms take time of the order of the cube of the depth (std's formatter)
    let high = depth(t) > 260;
    let r = guard(|| {
        let mut f = vec![format!("{:?}", t), if high { format!("{:?}", t) } else { format!("{:#?}", t) }];
        if let VT::ConstraintTree(x) = t {
            if high {
                f.push(format!("{:?}", x));
                f.push(format!("{:?}", Some(x)));
                return (f, untreeify(t).ok());
            }
            f.push(format!("{:?}", x));
            f.push(format!("{:#?}", x));
            f.push(format!("{:?}{:#?}", x.combinator, x.combinator));
            f.push(format!("{:?}{:#?}", Some(x), vec![x]));
        }
        let _ = format!("{:1?}{:3?}{:40?}{:>5?}{:.0?}{:.1?}{:.3?}{:08?}{:x?}", t, t, t, t, t, t, t, t, t);
        (f, untreeify(t).ok())
    });
    let (f, w) = match r {
        Ok(x) => x,
        Err(p) => fail!(key; "printing {} panics: {}", key, p),
    };
    let esc = |s: &str| {
        let d = format!("{:?}", s);
        d[1..d.len() - 1].to_string()
    };
    match (t, w) {
        (VT::VersionSpec(s), _) => {
            let s = s.get_spec();
            for x in &f {
                expect!(x.contains(&s) || x.contains(&esc(&s)), key; "the debug form {:?} of the spec {:?} does not show it", x, s);
            }
        }
        (_, Some(w)) => {
            for x in [&f[0], &f[2]] {
                expect!(x.contains(&w) || x.contains(&esc(&w)), key; "the debug form {:?} of {} does not show its text {:?}", x, key, w);
            }
        }
        _ => {}
    }
    Ok(())
}
pub fn t06(tier: Tier) -> Vec<Space> {
    let l = |k: usize| vs(&num_leaf(k));
    let mut v = vec![];
    v.push(shape_space("trees", "every tree with <= 6 (thorough 7) nodes, any connective, empty and one-member groups included", shapes(tier.pick(6, 7), &[0, 1, 2]).concat(), move |s, c| printed(&build(s, &mut 0, &l), c)));
    v.push(shape_space("proper-trees", "every and/or tree with <= 6 specs", proper_shapes(6), move |s, c| printed(&build(s, &mut 0, &l), c)));
    let mut deep_s = vec![];
    for n in (1..=40).chain([64, 100, 128, 200, 256, 257, 1000, tier.pick(2000, 8000)]) {
        for c in 0..3u8 {
            deep_s.push(S::G(c, vec![S::L; n]));
            let (mut a, mut b) = (S::L, S::L);
            for i in 0..n {
                a = S::G(((i + c as usize) % 3) as u8, vec![a]);
                b = S::G(((i + c as usize) % 2) as u8, vec![b, S::L]);
            }
            deep_s.push(a);
            deep_s.push(b);
        }
    }
    v.push(shape_space("wide-deep-trees", "groups of up to 2000 (thorough 8000) members, chains and combs of up to as many levels", deep_s, move |s, c| printed(&build(s, &mut 0, &l), c)));
    v.push(list("parsed", "the trees and specs of 16 shapes with every pair of 24 kinds of spec; members with one wide character at every offset up to 300 (thorough 1100) and around powers of two; members of every length in 11 nestings; the words the source names", kinds().into_iter().chain(long_members(tier, &LONG_OK)).chain(sized_members(tier)).chain(dictionary()).chain(pool_texts(tier)).collect(), |t, c| {
        for r in [guard(|| treeify(t).ok().map(VT::ConstraintTree)), guard(|| VT::try_from(t).ok()), guard(|| VersionSpec::try_from(t).ok().map(VT::VersionSpec))] {
            if let Ok(Some(x)) = r {
                printed(&x, c)?
            }
        }
        Ok(())
    }));
    const A: [&str; 13] = ["0", "1", "a", ".", "-", "+", "!", " ", "\n", "é", "\"", "\\", "'"];
    let n = tier.pick(4, 5);
    v.push(Space::new(
        "versions",
        &format!("every text of length <= {} over {:?}: the version or error it gives, its parts", n, A),
        count(13, n),
        |i| format!("{:?}", word(&A, i)),
        |i, c| ver_print(&word(&A, i), c),
    ));
    v.push(list("mixed-versions", "mixed versions; long ones with one wide character at every offset; the errors of long ones", mixed(3, false).into_iter().chain(long_members(tier, &["V", "1!2!V", "x!V", "1+2+V", "V!1", "V+1+"])).collect(), ver_print));
    v.push(list("pool", "a long list of varied versions, and the errors of texts that hold them", crate::gen::pool(tier).into_iter().enumerate().flat_map(|(i, p)| { let e = ["1!2!V", "x!V", "1+2+V", "V!1", "V+1+", "V!"][i % 6].replace('V', &p); [p, e] }).collect(), ver_print));
    const B: [&str; 13] = ["1", "(", ")", "|", ",", "=", "!", "<", "*", "^", "$", "é", "\""];
    let n = tier.pick(4, 5);
    v.push(Space::new(
        "specs",
        &format!("every text of length <= {} over {:?}: the spec, tree or error it gives", n, B),
        count(13, n),
        |i| format!("{:?}", word(&B, i)),
        |i, c| {
            let t = word(&B, i);
            c.called(3);
            for r in [guard(|| treeify(&t).map(VT::ConstraintTree).map_err(|e| format!("{}", e))), guard(|| VT::try_from(t.as_str()).map_err(|e| format!("{} {:?} {:#?}", e, e, e))), guard(|| VersionSpec::try_from(t.as_str()).map(VT::VersionSpec).map_err(|e| format!("{} {:?}", e, e)))] {
                if let Ok(Ok(x)) = r {
                    printed(&x, c)?
                }
            }
            if let Err(p) = guard(|| VT::try_from(t.as_str()).err().map(|e| format!("{} {:?} {:#?} {}", e, e, e, std::error::Error::source(&e).is_some()))) {
                fail!(t; "printing the error of {:?} panics: {}", t, p);
            }
            Ok(())
        },
    ));
    v.push(Space::new("operators", "the ten operators and three connectives", 13, |i| format!("{}", i), |i, c| {
        c.called(1);
        c.state(i);
        let r = guard(|| {
            if i < 10 {
                let o = crate::ver::real_op(model::OPS[i as usize]);
                format!("{:?} {:#?} {:1?} {:9?} {:.0?} {:.1?}", o, o, o, o, o, o)
            } else {
                let o = [Combinator::And, Combinator::Or, Combinator::None][i as usize - 10].clone();
                format!("{:?} {:#?} {:1?} {:9?} {:.0?} {:.1?}", o, o, o, o, o, o)
            }
        });
        match r {
            Ok(_) => Ok(()),
            Err(p) => fail!(i; "printing operator {} panics: {}", i, p),
        }
    }));
    v
}
fn ver_print(t: &str, c: &mut Ctx) -> R {
    c.called(4);
    c.state(h(&t));
    let r = guard(|| match t.parse::<Version>() {
        Ok(v) => {
            let mut n = format!("{} {:?} {:#?}", v, v, v).len();
            n += format!("{:1}{:3}{:<5}{:>7}{:^9}{:40}{:.0}{:.1}{:.3}{:08}{:+}{:*^4.2}", v, v, v, v, v, v, v, v, v, v, v, v).len();
            n += format!("{:1?}{:3?}{:40?}{:.1?}{:08?}{:x?}{:#12?}", v, v, v, v, v, v, v).len();
            for p in v.parts() {
                n += format!("{} {:?} {:#?}", p, p, p).len();
                n += format!("{:1}{:3}{:<5}{:>7}{:^9}{:40}{:.0}{:.1}{:.3}{:08}{:+}{:*^4.2}", p, p, p, p, p, p, p, p, p, p, p, p).len();
                n += format!("{:1?}{:3?}{:40?}{:.1?}{:08?}{:x?}{:#12?}", p, p, p, p, p, p, p).len();
            }
            n
        }
        Err(e) => format!("{} {:?} {:#?} {:1} {:40} {:.1} {:>9} {:3?} {:.1?}", e, e, e, e, e, e, e, e, e).len(),
    });
    match r {
        Ok(_) => Ok(()),
        Err(p) => fail!(t; "printing what {:?} parses to panics: {}", t, p),
    }
}
