//! O01: the operator tables.
use crate::engine::{guard, h, Ctx, Space, Tier, R};
use crate::gen::*;
use crate::model::{Op, OPS};
use crate::ver::real_op;
use crate::{expect, fail};
use ronda::CompOp;
use std::cmp::Ordering;
use std::sync::Arc;

const NAMES: [&str; 10] =
    ["eq", "ne", "lt", "le", "gt", "ge", "startswith", "notstartswith", "compatible", "incompatible"];

pub fn lookup(t: &str, c: &mut Ctx) -> R {
    let trimmed = t.trim_matches(char::is_whitespace);
    let want_s = OPS.iter().find(|o| o.sign() == trimmed).map(|o| real_op(*o));
    let want_n = NAMES.iter().position(|n| trimmed.len() == n.len() && trimmed.eq_ignore_ascii_case(n)).map(|i| real_op(OPS[i]));
    c.called(2);
    c.state(h(&(want_s.is_some(), want_n.is_some(), trimmed.len())));
    match guard(|| (CompOp::from_sign(t).ok(), CompOp::from_name(t).ok())) {
        Err(p) => fail!(t; "looking up {:?} panics: {}", t, p),
        Ok((s, n)) => {
            expect!(s == want_s, t; "from_sign({:?}) is {:?}, expected {:?}", t, s, want_s);
            expect!(n == want_n, t; "from_name({:?}) is {:?}, expected {:?}", t, n, want_n);
        }
    }
    Ok(())
}
fn algebra(i: u64, c: &mut Ctx) -> R {
    let o = OPS[i as usize];
    let r = real_op(o);
    let inv = match o {
        Op::Eq => Op::Ne,
        Op::Ne => Op::Eq,
        Op::Lt => Op::Ge,
        Op::Ge => Op::Lt,
        Op::Le => Op::Gt,
        Op::Gt => Op::Le,
        Op::Starts => Op::NotStarts,
        Op::NotStarts => Op::Starts,
        Op::Compat => Op::Incompat,
        Op::Incompat => Op::Compat,
    };
    let mirror = match o {
        Op::Lt => Op::Gt,
        Op::Gt => Op::Lt,
        Op::Le => Op::Ge,
        Op::Ge => Op::Le,
        x => x,
    };
    let opp = if mirror != o { mirror } else { inv };
    let k = o.sign();
    c.called(20);
    c.state(h(&o));
    expect!(r.sign() == o.sign(), k; "sign of {:?} is {:?}", o, r.sign());
    expect!(r.name() == NAMES[i as usize], k; "name of {:?} is {:?}", o, r.name());
    expect!(CompOp::from_sign(r.sign()) == Ok(r.clone()), k; "the sign of {:?} does not look it up", o);
    expect!(CompOp::from_name(r.name()) == Ok(r.clone()), k; "the name of {:?} does not look it up", o);
    for p in 0..10 {
        let q = real_op(OPS[p]);
        expect!((q == r) == (p == i as usize), k; "{:?} and {:?} compare equal wrongly", o, OPS[p]);
        expect!(p == i as usize || (q.sign() != r.sign() && q.name() != r.name()), k; "{:?} shares its sign or name", o);
    }
    expect!(r.invert() == real_op(inv) && r.clone().as_inverted() == real_op(inv), k; "inverse of {:?} is {:?}/{:?}", o, r.invert(), r.clone().as_inverted());
    expect!(r.invert().invert() == r, k; "inverting {:?} twice gives {:?}", o, r.invert().invert());
    expect!(r.opposite() == real_op(opp) && r.clone().as_opposite() == real_op(opp), k; "opposite of {:?} is {:?}/{:?}", o, r.opposite(), r.clone().as_opposite());
    expect!(r.flip() == real_op(mirror) && r.clone().as_flipped() == real_op(mirror), k; "flip of {:?} is {:?}/{:?}", o, r.flip(), r.clone().as_flipped());
    let ord = match o {
        Op::Eq => Some(Ordering::Equal),
        Op::Lt => Some(Ordering::Less),
        Op::Gt => Some(Ordering::Greater),
        _ => None,
    };
    expect!(r.ord() == ord, k; "ord of {:?} is {:?}", o, r.ord());
    if let Some(x) = ord {
        expect!(CompOp::from_ord(x) == r, k; "from_ord({:?}) is {:?}", x, CompOp::from_ord(x));
    }
    let f = match o {
        Op::Lt | Op::Le => -1,
        Op::Gt | Op::Ge => 1,
        _ => 0,
    };
    expect!(r.factor() == f, k; "factor of {:?} is {}", o, r.factor());
    Ok(())
}

fn list_space(name: &str, bound: &str, l: Vec<String>) -> Space {
    let l = Arc::new(dedup(l));
    let l2 = l.clone();
    Space::new(name, bound, l.len() as u64, move |i| format!("{:?}", l2[i as usize]), move |i, c| lookup(&l[i as usize], c))
}
pub fn spellings() -> Vec<String> {
    OPS.iter().map(|o| o.sign().to_string()).chain(NAMES.iter().map(|s| s.to_string())).collect()
}

pub fn o01(tier: Tier) -> Vec<Space> {
    let mut v = vec![Space::new("algebra", "all ten operators", 10, |i| format!("{:?}", OPS[i as usize]), algebra)];
    const S: [&str; 10] = ["<", ">", "=", "!", "~", " ", "\t", "s", "*", "e"];
    let l = tier.pick(5, 6);
    v.push(Space::new("sign-texts", &format!("all texts of length <= {} over {:?}", l, S), count(10, l), |i| format!("{:?}", word(&S, i)), |i, c| lookup(&word(&S, i), c)));
    const N: [&str; 28] = [
        "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", " ", "E",
    ];
    let l = tier.pick(4, 5);
    v.push(Space::new("name-texts", &format!("all texts of length <= {} over letters, space and E", l), count(28, l), |i| format!("{:?}", word(&N, i)), |i, c| lookup(&word(&N, i), c)));
    // every case variant of every name and sign
    let mut cv = vec![];
    for n in spellings() {
        let c: Vec<char> = n.chars().collect();
        for m in 0..1u32 << c.len() {
            cv.push(c.iter().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { *c }).collect::<String>());
        }
    }
    v.push(list_space("case-variants", "every upper/lower-case variant of every name and sign", cv));
    // one edit anywhere
    let mut ed = vec![];
    for n in spellings() {
        let c: Vec<char> = n.chars().collect();
        let j = |x: Vec<char>| x.into_iter().collect::<String>();
        for i in 0..=c.len() {
            for ch in (0u32..0x250).filter_map(char::from_u32).chain("ıİſKЕе＝＜＞≤≥≠～\u{200b}\u{feff}".chars()) {
                let mut x = c.clone();
                x.insert(i, ch);
                ed.push(j(x));
                if i < c.len() {
                    let mut x = c.clone();
                    x[i] = ch;
                    ed.push(j(x));
                }
            }
            if i < c.len() {
                let mut x = c.clone();
                x.remove(i);
                ed.push(j(x));
                ed.push(c[..i].iter().collect());
                ed.push(c[i..].iter().collect());
            }
            if i + 1 < c.len() {
                let mut x = c.clone();
                x.swap(i, i + 1);
                ed.push(j(x));
            }
        }
        for m in spellings() {
            ed.push(format!("{}{}", n, m));
            ed.push(format!("{} {}", n, m));
        }
    }
    v.push(list_space("edits", "every spelling with one character inserted, replaced, removed or swapped, every cut, every concatenation of two", ed));
    let mut long = vec![];
    for n in lengths(tier, tier.pick(1024, 8192)).into_iter().chain((0..=40).collect::<Vec<_>>()) {
        for w in spellings() {
            long.extend([format!("{}{}", " ".repeat(n), w), format!("{}{}", w, "\t".repeat(n)), w.repeat(n.min(300)), format!("{}{}", w, "x".repeat(n)), format!("{}{}{}", w, " ".repeat(n), w)]);
        }
    }
    v.push(list_space("long", "every spelling padded, repeated or continued to every length up to 300 (thorough 1100) and around powers of two", long));
    let mut dw = vec![];
    for w in crate::dict::words() {
        dw.extend([w.clone(), format!(" {}", w), format!("{} ", w)]);
        for s in spellings() {
            dw.extend([format!("{}{}", w, s), format!("{}{}", s, w), format!("{} {}", s, w), format!("{}_{}", s, w), format!("{}_{}", w, s)]);
        }
    }
    v.push(list_space("dictionary", "the words the source names, alone and next to every spelling", dw));
    let sp = Arc::new(spellings());
    let s2 = sp.clone();
    let f = |sp: &[String], i: u64| {
        let w = &sp[(i % 20) as usize];
        let ch = nth_char(i / 60);
        match i / 20 % 3 {
            0 => format!("{}{}", ch, w),
            1 => format!("{}{}", w, ch),
            _ => format!("{0}{0}{1}{0}", ch, w),
        }
    };
    let n = if tier == Tier::Quick { 0x3100 } else { CHARS };
    v.push(Space::new(
        "surrounded",
        &format!("every spelling with each of the first {:#x} Unicode characters before, after and around it", n),
        n * 60,
        move |i| format!("{:?}", f(&s2, i)),
        move |i, c| lookup(&f(&sp, i), c),
    ));
    v
}
