//! S06 and C01: laws between answers of the real code; no reference model of the answers themselves.
use crate::engine::{guard, h, Ctx, Space, Tier, R};
use crate::gen::*;
use crate::model;
use crate::spec::{clean, every, related, VALPHA};
use crate::tree;
use crate::{expect, fail};
use ronda::{conda_parser, treeify, untreeify, CompOp, Combinator, ConstraintTree, Spec, Version, VersionPart, VersionSpec, VersionSpecOrConstraintTree as VT};
use std::convert::TryFrom;
use std::sync::{Arc, OnceLock};

// ---- S06
const FORMS: [&str; 20] = [
    "V", "==V", "!=V", "<V", "<=V", ">V", ">=V", "==V.*", "<V.*", "<=V.*", ">V.*", ">=V.*", "V.*", "V*", "=V", "=V.*", "!=V.*", "~=V", "<V|V|>V", ">=V,<=V",
];
/// (what holds, check of the answers in the order of FORMS)
const LAWS: [(&str, fn(&[bool; 20]) -> bool); 14] = [
    ("exactly one of <V, ==V, >V accepts", |b| b[3] as u8 + b[1] as u8 + b[5] as u8 == 1),
    ("<=V accepts what <V or ==V does", |b| b[4] == (b[3] || b[1])),
    (">=V accepts what >V or ==V does", |b| b[6] == (b[5] || b[1])),
    ("!=V accepts what ==V does not", |b| b[2] != b[1]),
    ("V accepts what ==V does", |b| b[0] == b[1]),
    ("==V.* accepts what ==V does", |b| b[7] == b[1]),
    ("<V.* accepts what <V does", |b| b[8] == b[3]),
    ("<=V.* accepts what <=V does", |b| b[9] == b[4]),
    (">V.* accepts what >V does", |b| b[10] == b[5]),
    (">=V.* accepts what >=V does", |b| b[11] == b[6]),
    ("V.*, V*, =V and =V.* accept the same", |b| b[12] == b[13] && b[13] == b[14] && b[14] == b[15]),
    ("!=V.* accepts what V.* does not", |b| b[16] != b[12]),
    ("~=V accepts nothing that >=V does not", |b| !b[17] || b[6]),
    ("<V|V|>V accepts everything, >=V,<=V what ==V does", |b| b[18] && b[19] == b[1]),
];
fn laws(v: &str, xs: &[Item], rank: &[u32], c: &mut Ctx) -> R {
    let specs: Vec<VT> = match guard(|| FORMS.iter().map(|f| VT::try_from(f.replace('V', v).as_str()).map_err(|e| format!("{}: {:?}", f, e))).collect::<Result<Vec<_>, _>>()) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => fail!(v; "a spec over {:?} is rejected: {}", v, e),
        Err(p) => fail!(v; "parsing the specs over {:?} panics: {}", v, p),
    };
    let open = v.ends_with('.');
    // [highest rank accepted, lowest accepted, highest refused, lowest refused] of ==, <, <=, >, >=
    let mut ends = [[None::<(u32, usize)>; 4]; 5];
    for (k, x) in xs.iter().enumerate() {
        let mut b = [false; 20];
        match guard(|| specs.iter().map(|s| s.test_match_version(&x.v)).collect::<Vec<_>>()) {
            Ok(r) => b.copy_from_slice(&r),
            Err(p) => fail!((v, &x.t); "matching {:?} against the specs over {:?} panics: {}", x.t, v, p),
        }
        c.called(20);
        c.state(h(&(v, x.h)));
        for (n, l) in LAWS.iter().enumerate() {
            if open && (n == 10 || n == 11) {
                continue;
            }
            expect!((l.1)(&b), (v, &x.t); "V = {:?}, version {:?}: it should be that {}", v, x.t, l.0);
        }
        for (e, f) in ends.iter_mut().zip([1, 3, 4, 5, 6]) {
            let (hi, lo) = if b[f] { (0, 1) } else { (2, 3) };
            let r = (rank[k], k);
            if e[hi].map_or(true, |o: (u32, usize)| o.0 < r.0) {
                e[hi] = Some(r)
            }
            if e[lo].map_or(true, |o: (u32, usize)| o.0 > r.0) {
                e[lo] = Some(r)
            }
        }
    }
    let apart = |what: &str, lower: Option<(u32, usize)>, upper: Option<(u32, usize)>| {
        if let (Some(a), Some(b)) = (lower, upper) {
            expect!(a.0 < b.0, (v, &xs[a.1].t, &xs[b.1].t); "{} {:?} does not follow the order: {:?} on one side, {:?} on the other", what, v, xs[a.1].t, xs[b.1].t);
        }
        Ok(())
    };
    let names = ["==", "<", "<=", ">", ">="];
    for k in 1..5 {
        let e = &ends[k];
        if k < 3 { apart(names[k], e[0], e[3])? } else { apart(names[k], e[2], e[1])? }
    }
    if let [Some(a), Some(b), _, _] = ends[0] {
        expect!(a.0 == b.0, (v, &xs[a.1].t, &xs[b.1].t); "=={} accepts {:?} and {:?}, which differ", v, xs[a.1].t, xs[b.1].t);
        let r = xs.iter().zip(rank).find(|(x, r)| **r == a.0 && guard(|| !specs[1].test_match_version(&x.v)) != Ok(false));
        if let Some((x, _)) = r {
            fail!((v, &xs[a.1].t, &x.t); "=={} accepts {:?} but not its equal {:?}", v, xs[a.1].t, x.t);
        }
    }
    Ok(())
}
/// how many candidates are below each, by the real comparison
fn ranks(xs: &[Item]) -> Vec<u32> {
    xs.iter().map(|x| xs.iter().filter(|y| guard(|| y.v < x.v) == Ok(true)).count() as u32).collect()
}
fn usable(l: Vec<String>) -> Vec<String> {
    dedup(l).into_iter().filter(|v| clean(v) && model::defined(v) && model::parse(v).is_some()).collect()
}
pub fn s06(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for (n, b, it) in crate::ver::sets(Tier::Quick) {
        let vs = Arc::new(usable(every(it.iter().map(|i| i.t.clone()).collect(), tier.pick((it.len() / 500).max(1), (it.len() / 4000).max(1)))));
        let xs = items(every(it.iter().map(|i| i.t.clone()).collect(), tier.pick((it.len() / 700).max(1), (it.len() / 3000).max(1))));
        let (v2, nx, nv, r) = (vs.clone(), xs.len(), vs.len(), OnceLock::<Vec<u32>>::new());
        v.push(Space::new(
            &format!("laws-{}", n),
            &format!("{} V x {} versions, a regular subset of: {}", nv, nx, b),
            nv as u64,
            move |i| format!("V = {:?} on {} versions", v2[i as usize], nx),
            move |i, c| laws(&vs[i as usize], &xs, r.get_or_init(|| ranks(&xs)), c),
        ));
    }
    for (n, l) in [
        ("words", words(&VALPHA, tier.pick(4, 5))),
        ("assembled", assembled(tier.pick(3, 4))),
        ("magnitudes", magnitudes()),
        ("dictionary", dict_versions()),
        ("pool", pool(tier)),
        ("mixed", mixed(tier.pick(3, 4), false)),
    ] {
        let vs = Arc::new(usable(l));
        let (v2, nv) = (vs.clone(), vs.len());
        v.push(Space::new(
            &format!("laws-close-{}", n),
            &format!("{} V, each on about 20 versions close to it", nv),
            nv as u64,
            move |i| format!("V = {:?}", v2[i as usize]),
            move |i, c| {
                let xs = related(&vs[i as usize]);
                laws(&vs[i as usize], &xs, &ranks(&xs), c)
            },
        ));
    }
    let n = tier.pick(0x600u64, 0x20000);
    let mk = |i: u64| {
        let ch = nth_char(i / 3);
        ["C", "1.C", "1.0C2"][(i % 3) as usize].replace('C', &ch.to_string())
    };
    v.push(Space::new("laws-chars", &format!("every one of the first {:#x} Unicode characters alone, after '1.' and inside '1.0_2'", n), n * 3, move |i| format!("V = {:?}", mk(i)), move |i, c| {
        let v = mk(i);
        if !clean(&v) || guard(|| v.parse::<Version>().is_ok()) != Ok(true) {
            return Ok(());
        }
        let xs: Vec<Item> = [v.as_str(), "0", "1", "1.0", "1.0.2", "2", "1.a", "1.zz"].iter().map(|x| x.to_string()).chain([format!("{}.1", v), format!("{}0", v), format!("{}a", v)]).filter_map(|x| item(&x)).collect();
        laws(&v, &xs, &ranks(&xs), c)
    }));
    let ns = Arc::new(lengths(tier, tier.pick(1024, 8192)));
    let n2 = ns.clone();
    v.push(Space::new(
        "laws-offsets",
        &format!("{} lengths of 7 kinds of common beginning, 4 endings of V against 16 endings", ns.len()),
        ns.len() as u64 * 7,
        move |i| format!("beginning {:?} of length {}", PADS[i as usize / n2.len()], n2[i as usize % n2.len()]),
        move |i, c| {
            let (n, p) = (ns[i as usize % ns.len()], i as usize / ns.len());
            let xs: Vec<Item> = TAILS.iter().step_by(if n > 300 { 3 } else { 1 }).map(|t| padded(p, n, t)).chain([padded(p, n.saturating_sub(1), "")]).filter_map(|t| item(&t)).collect();
            let r = ranks(&xs);
            for t in ["", "1", "a", ".0"] {
                let v = padded(p, n, t);
                if clean(&v) && model::defined(&v) && model::parse(&v).is_some() {
                    laws(&v, &xs, &r, c).map_err(|mut e| {
                        if n > 40 {
                            e.key = format!("beginning {} of length {} ending {}", p, n, t);
                            e.msg = format!("V = {:?} x {} + {:?}: {}", PADS[p], n, t, e.msg.chars().rev().take(120).collect::<Vec<_>>().into_iter().rev().collect::<String>());
                        }
                        e
                    })?
                }
            }
            Ok(())
        },
    ));
    v
}

// ---- C01
fn same_part(a: &VersionPart, b: &VersionPart, all: bool) -> bool {
    format!("{:?} {}", a, a) == format!("{:?} {}", b, b) && part(a) == part(b) && (!all || a.partial_cmp(a) == a.partial_cmp(b) && a.partial_cmp(a) == b.partial_cmp(b))
}
fn same_version(a: &Version, b: &Version) -> Result<(), String> {
    let e = |w: &str| Err(format!("{} of a clone of {:?} differs: {:?} with parts {:?}, not {:?}", w, a.as_str(), b.as_str(), b.parts(), a.parts()));
    let few = a.part_count() < 1000;
    if a.as_str() != b.as_str() || a.to_string() != b.to_string() {
        return e("the text");
    }
    if a.part_count() != b.part_count() || a.parts().len() != b.parts().len() || !a.parts().iter().zip(b.parts()).all(|(x, y)| same_part(x, y, few)) || (0..=a.part_count()).any(|i| a.part(i).is_ok() != b.part(i).is_ok()) {
        return e("the list of parts");
    }
    if format!("{:?}", a) != format!("{:?}", b) || a.part_count() < 300 && format!("{:#?}", a) != format!("{:#?}", b) {
        return e("the debug form");
    }
    if !few {
        return if a.compare_version(b) == CompOp::Eq { Ok(()) } else { e("the place in the order") };
    }
    if a.compare_version(b) != CompOp::Eq || b.compare_version(a) != CompOp::Eq || !(a == b) || a < b || a > b || !a.startswith(b) || !b.startswith(a) {
        return e("the place in the order");
    }
    let n: Vec<VersionPart> = a.parts().clone();
    if !n.iter().zip(a.parts()).all(|(x, y)| same_part(x, y, few)) || n.len() != a.part_count() {
        return e("a part");
    }
    Ok(())
}
/// values that others are cloned over
const OVER: [&str; 4] = ["", "5!1.0a2.post3+loc.7", "zz", "1.2.3.4.5.6.7.8.9.10.11.12"];
fn version_clones(t: &str, c: &mut Ctx) -> R {
    c.called(9);
    c.state(h(&t));
    let r = guard(|| {
        let Ok(a) = t.parse::<Version>() else { return Ok(()) };
        let b = a.clone();
        same_version(&a, &b)?;
        drop(a);
        let d = b.clone();
        same_version(&b, &d)?;
        drop(b);
        let f = Version::parse(t, &conda_parser).unwrap();
        same_version(&f, &d)?;
        // over another value
        for o in OVER.iter().take(if f.part_count() < 300 { 4 } else { 1 }) {
            let mut x: Version = o.parse().unwrap();
            x.clone_from(&f);
            same_version(&f, &x).map_err(|e| format!("over {:?}: {}", o, e))?;
        }
        let mut x = vec!["1.0a2".parse::<Version>().unwrap(); 2];
        x.clone_from(&vec![f.clone(), d, f.clone()]);
        for y in x {
            same_version(&f, &y)?;
        }
        let mut m: Vec<VersionPart> = Version::from("3!0.1a2").parts().clone();
        m.clone_from(f.parts());
        if f.part_count() < 1000 && (m.len() != f.part_count() || !m.iter().zip(f.parts()).all(|(x, y)| same_part(y, x, true))) {
            return Err(format!("the parts of {:?} cloned over others differ", t));
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => fail!(t; "{}", m),
        Err(p) => fail!(t; "cloning {:?} panics: {}", t, p),
    }
}
fn ops_alike(a: &VT, b: &VT, xs: &[Version]) -> Result<(), String> {
    let d = |x: &VT| format!("{:?}", x);
    let e = |w: &str| Err(format!("{} of a clone of {} differs", w, tree::show(a)));
    if !(a == b) || !(b == a) || a != b {
        return e("equality");
    }
    if tree::show(a) != tree::show(b) {
        return e("the structure");
    }
    if untreeify(a) != untreeify(b) {
        return e("the written text");
    }
    if untreeify(a).is_ok() && (a.get_spec() != b.get_spec() || a.raw_value() != b.raw_value() || a.exact_value() != b.exact_value() || d(a) != d(b)) {
        return e("the text");
    }
    if a.is_exact() != b.is_exact() {
        return e("exactness");
    }
    match xs.iter().find(|x| a.test_match_version(x) != b.test_match_version(x)) {
        Some(x) => e(&format!("the answer for {:?}", x.as_str())),
        None => Ok(()),
    }
}
fn over() -> std::rc::Rc<Vec<VT>> {
    thread_local! { static O: std::rc::Rc<Vec<VT>> = std::rc::Rc::new(["*", "<=1.5", "^1.*$", "2.*", "@1", ">=1,<2", "1|(2,3)|4|5"].iter().map(|t| VT::try_from(*t).unwrap()).collect()); }
    O.with(|o| o.clone())
}
fn tree_clones(t: &VT, xs: &[Version], c: &mut Ctx) -> R {
    c.called(9 + 9 * xs.len() as u64);
    let key = tree::show(t);
    c.state(h(&key));
    let r = guard(|| {
        let a = t.clone();
        ops_alike(t, &a, xs)?;
        let b = a.clone();
        drop(a);
        ops_alike(t, &b, xs)?;
        for o in over().iter() {
            let mut x = o.clone();
            x.clone_from(t);
            ops_alike(t, &x, xs).map_err(|e| format!("over {}: {}", tree::show(o), e))?;
            match (t, o) {
                (VT::ConstraintTree(x), VT::ConstraintTree(y)) => {
                    let mut y = y.clone();
                    y.clone_from(x);
                    ops_alike(t, &VT::ConstraintTree(y.clone()), xs)?;
                    y.combinator.clone_from(&x.combinator);
                    y.parts.reverse();
                    y.parts.clone_from(&x.parts);
                    ops_alike(t, &VT::ConstraintTree(y), xs)?
                }
                (VT::VersionSpec(x), VT::VersionSpec(y)) => {
                    let mut y = y.clone();
                    y.clone_from(x);
                    ops_alike(t, &VT::VersionSpec(y), xs)?
                }
                _ => (),
            }
        }
        match (t, &b) {
            (VT::ConstraintTree(x), VT::ConstraintTree(y)) => {
                let mut m: ConstraintTree = y.clone();
                if x.combinator != m.combinator.clone() || *x != m || x.parts.clone() != m.parts {
                    return Err(format!("a clone of {} differs", key));
                }
                // a clone is a value of its own
                m.parts.push(VT::try_from("7").unwrap());
                m.combinator = if m.combinator == Combinator::And { Combinator::Or } else { Combinator::And };
                ops_alike(t, &b, xs)
            }
            (VT::VersionSpec(x), VT::VersionSpec(y)) => {
                let z: VersionSpec = y.clone();
                if *x != z || x.get_spec() != z.get_spec() || x.is_exact() != z.is_exact() || xs.iter().any(|v| x.test_match_version(v) != z.test_match_version(v)) {
                    return Err(format!("a clone of {} differs", key));
                }
                Ok(())
            }
            _ => Err(format!("a clone of {} is of another kind", key)),
        }
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => fail!(key; "{}", m),
        Err(p) => fail!(key; "cloning {} panics: {}", key, p),
    }
}
fn text_clones(t: &str, xs: &[Version], c: &mut Ctx) -> R {
    for r in [guard(|| treeify(t).ok().map(VT::ConstraintTree)), guard(|| VT::try_from(t).ok()), guard(|| VersionSpec::try_from(t).ok().map(VT::VersionSpec))] {
        if let Ok(Some(x)) = r {
            tree_clones(&x, xs, c)?
        }
    }
    Ok(())
}
pub fn c01(tier: Tier) -> Vec<Space> {
    let mut v: Vec<Space> = crate::ver::text_spaces(tier, version_clones, "clone", false).into_iter().filter(|s| tier == Tier::Thorough || !s.name.ends_with("every-char")).collect();
    for (n, b, it) in crate::ver::sets(tier) {
        let i2 = it.clone();
        v.push(Space::new(&format!("clone-set-{}", n), b, it.len() as u64, move |i| format!("{:?}", i2[i as usize].t), move |i, c| version_clones(&it[i as usize].t, c)));
    }
    let it = crate::ver::custom_items(tier);
    let i2 = it.clone();
    v.push(Space::new("clone-custom-parser", "part lists a caller's own parser may return", it.len() as u64, move |i| i2[i as usize].t.clone(), move |i, c| {
        let x = &it[i as usize];
        c.called(1);
        c.state(x.h);
        match guard(|| same_version(&x.v, &x.v.clone())) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(m)) => fail!(x.t; "{}", m),
            Err(p) => fail!(x.t; "cloning panics: {}", p),
        }
    }));
    let xs: Arc<Vec<Version>> = Arc::new(s(&["0", "1", "2", "3", "1.0", "1.1", "1.5.2", "a", "1.a", "2.0dev", "1.2.post1", "1+a", "1!2", "é", "10", ""]).iter().map(|t| t.parse().unwrap()).collect());
    const A: [&str; 17] = ["0", "1", "a", ".", "*", "^", "$", "(", ")", "|", ",", "<", ">", "=", "!", "@", "é"];
    let (n, x1) = (tier.pick(4, 5), xs.clone());
    v.push(Space::new("clone-specs", &format!("every text of length <= {} over {:?}: the spec and tree it gives", n, A), count(17, n), |i| format!("{:?}", word(&A, i)), move |i, c| text_clones(&word(&A, i), &x1, c)));
    let x1 = xs.clone();
    let mut texts = tree::bin_texts(1..=tier.pick(3, 4), &[0, 1]);
    texts.extend(tree::sized_members(tier));
    texts.extend(tree::kinds());
    texts.extend(tree::wide(4));
    texts.extend(tree::deep(tier.pick(600, 3000)));
    texts.extend(tree::dictionary());
    texts.extend(tree::pool_texts(tier));
    texts.extend(tree::long_members(tier, &["V", "<V", "V.*", "V*", "^V$", "V*V", "V@", "V|1", "1,(V|2)"]));
    texts.extend(crate::spec::dict_specs());
    v.push(tree::list("clone-parsed", "the trees of texts of up to 3 (thorough 4) specs, of every kind of spec, wide and deep ones, members of every length, with one wide character at every offset", dedup(texts), move |t, c| text_clones(t, &x1, c)));
    let (x1, l) = (xs.clone(), |k: usize| tree::vs(&tree::num_leaf(k)));
    v.push(tree::shape_space("clone-trees", "every tree with <= 5 (thorough 6) nodes, any connective, empty and one-member groups included", tree::shapes(tier.pick(5, 6), &[0, 1, 2]).concat(), move |s, c| tree_clones(&tree::build(s, &mut 0, &l), &x1, c)));
    v.push(Space::new("clone-operators", "the ten operators and three connectives", 13, |i| format!("{}", i), |i, c| {
        c.called(1);
        c.state(i);
        let r = guard(|| {
            if i < 10 {
                let o = crate::ver::real_op(model::OPS[i as usize]);
                o.clone() == o && o.clone().sign() == o.sign() && format!("{:?}", o.clone()) == format!("{:?}", o)
                    && model::OPS.iter().all(|q| {
                        let mut q = crate::ver::real_op(*q);
                        q.clone_from(&o);
                        q == o && q.sign() == o.sign()
                    })
            } else {
                let o = [Combinator::And, Combinator::Or, Combinator::None][i as usize - 10].clone();
                o.clone() == o && format!("{:?}", o.clone()) == format!("{:?}", o)
                    && [Combinator::And, Combinator::Or, Combinator::None].iter().all(|q| {
                        let mut q = q.clone();
                        q.clone_from(&o);
                        q == o
                    })
            }
        });
        expect!(r == Ok(true), i; "a clone of operator {} differs: {:?}", i, r);
        Ok(())
    }));
    v
}
