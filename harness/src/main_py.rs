//! Explorer of the Python member: the class methods of /repo/python run unchanged against the stand-in
//! `cpython` crate, driven through the registered class like the interpreter would.
use cpython::{ClassInfo, CompareOp, PyModule, Val};
use mc::engine::{guard, h, Ctx, Prop, Space, Tier, R};
use mc::gen::{self, Items};
use mc::{expect, fail, model};
use ronda_py as _;
use std::cmp::Ordering;
use std::rc::Rc;
use std::sync::Arc;

extern "C" {
    fn PyInit__ronda(m: *const PyModule) -> i32;
}
/// the class the module registers
fn class() -> Rc<ClassInfo> {
    thread_local! { static C: std::cell::RefCell<Option<Rc<ClassInfo>>> = std::cell::RefCell::new(None); }
    C.with(|c| {
        c.borrow_mut()
            .get_or_insert_with(|| {
                let m = PyModule::default();
                assert_eq!(unsafe { PyInit__ronda(&m) }, 0, "the module initialiser failed");
                let l = m.classes.borrow();
                Rc::new(l.iter().find(|c| c.name == "RustyVersion").expect("the module does not register RustyVersion").clone())
            })
            .clone()
    })
}
fn new(t: &str) -> Result<Result<Val, cpython::PyErr>, String> {
    guard(|| class().call("__new__", &Val::None, &[Val::Str(t.to_string())]))
}
fn object(t: &str) -> Result<Val, mc::engine::Viol> {
    match new(t) {
        Ok(Ok(v @ Val::Obj(_))) => Ok(v),
        Ok(Ok(v)) => fail!(t; "building an object from {:?} gives {:?}", t, v),
        Ok(Err(e)) => fail!(t; "building an object from {:?} raises {}: {}", t, e.kind, e.text),
        Err(p) => fail!(t; "building an object from {:?} aborts the interpreter: {}", t, p),
    }
}
const OPS: [(CompareOp, &str); 6] =
    [(CompareOp::Lt, "<"), (CompareOp::Le, "<="), (CompareOp::Eq, "=="), (CompareOp::Ne, "!="), (CompareOp::Gt, ">"), (CompareOp::Ge, ">=")];
fn holds(op: CompareOp, o: Ordering) -> bool {
    match op {
        CompareOp::Lt => o == Ordering::Less,
        CompareOp::Le => o != Ordering::Greater,
        CompareOp::Eq => o == Ordering::Equal,
        CompareOp::Ne => o != Ordering::Equal,
        CompareOp::Gt => o == Ordering::Greater,
        CompareOp::Ge => o != Ordering::Less,
    }
}
fn pair(cl: &ClassInfo, a: &gen::Item, ao: &Val, b: &gen::Item, bo: &Val, c: &mut Ctx) -> R {
    let o = model::cmp_key(&a.k, &b.k);
    let real = guard(|| a.v.compare_version(&b.v).ord()).ok().flatten().unwrap_or(o);
    for (op, s) in OPS {
        c.called(1);
        match guard(|| cl.call("__richcmp__", ao, &[bo.clone(), Val::Op(op)])) {
            Ok(Ok(Val::Bool(g))) => {
                expect!(g == holds(op, o), (&a.t, &b.t); "Python says {:?} {} {:?} is {}, the version order says {:?}", a.t, s, b.t, g, o);
                expect!(g == holds(op, real), (&a.t, &b.t); "Python says {:?} {} {:?} is {}, the Rust comparison says {:?}", a.t, s, b.t, g, real);
            }
            Ok(r) => fail!((&a.t, &b.t); "{:?} {} {:?} in Python gives {:?}", a.t, s, b.t, r),
            Err(p) => fail!((&a.t, &b.t); "{:?} {} {:?} aborts the interpreter: {}", a.t, s, b.t, p),
        }
    }
    c.called(1);
    let w = model::starts(&a.m, &b.m);
    match guard(|| cl.call("startswith", ao, &[bo.clone()])) {
        Ok(Ok(Val::Bool(g))) if g == w => {}
        Ok(r) => fail!((&a.t, &b.t); "{:?}.startswith({:?}) in Python gives {:?}, expected {}", a.t, b.t, r, w),
        Err(p) => fail!((&a.t, &b.t); "{:?}.startswith({:?}) aborts the interpreter: {}", a.t, b.t, p),
    }
    Ok(())
}
fn pairs(name: &str, bound: &str, it: Items) -> Space {
    let (i1, i2) = (it.clone(), it.clone());
    let n = it.len() as u64;
    Space::new(
        name,
        &format!("all pairs of {} versions x 6 comparisons and startswith: {}", n, bound),
        n,
        move |i| format!("{:?} against all {}", i1[i as usize].t, i1.len()),
        move |i, c: &mut Ctx| -> R {
            thread_local! { static OBJ: std::cell::RefCell<(usize, Vec<Val>)> = std::cell::RefCell::new((0, vec![])); }
            let key = Arc::as_ptr(&i2) as *const u8 as usize;
            let objs: Vec<Val> = OBJ.with(|o| -> Result<Vec<Val>, mc::engine::Viol> {
                let mut o = o.borrow_mut();
                if o.0 != key {
                    *o = (key, i2.iter().map(|x| object(&x.t)).collect::<Result<_, _>>()?);
                }
                Ok(o.1.clone())
            })?;
            let (a, cl) = (&i2[i as usize], class());
            c.state(a.h);
            for (b, bo) in i2.iter().zip(&objs) {
                pair(&cl, a, &objs[i as usize], b, bo, c)?
            }
            Ok(())
        },
    )
}
fn text(t: &str, c: &mut Ctx) -> R {
    c.called(1);
    c.state(h(&t));
    if !model::defined(t) {
        c.skipped += 1;
        if let Err(p) = new(t) {
            fail!(t; "building an object from {:?} aborts the interpreter: {}", t, p)
        }
        return Ok(());
    }
    if model::parse(t).is_none() {
        return match new(t) {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(_)) => fail!(t; "an object is built from {:?}, which is not a version", t),
            Err(p) => fail!(t; "building an object from {:?} aborts the interpreter: {}", t, p),
        };
    }
    let o = object(t)?;
    c.called(1);
    match guard(|| class().call("__repr__", &o, &[])) {
        Ok(Ok(Val::Str(s))) if s == t => Ok(()),
        Ok(r) => fail!(t; "repr of the object built from {:?} is {:?}", t, r),
        Err(p) => fail!(t; "repr of the object built from {:?} aborts the interpreter: {}", t, p),
    }
}
fn texts(name: &str, bound: &str, n: u64, f: impl Fn(u64) -> String + Send + Sync + 'static) -> Space {
    let f = Arc::new(f);
    let g = f.clone();
    Space::new(name, bound, n, move |i| format!("{:?}", g(i)), move |i, c| text(&f(i), c))
}
fn p01(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let al = &mc::ver::ALPHA;
    let l = tier.pick(5, 6);
    v.push(texts("texts", "every text of <= 5 (thorough 6) symbols of the version alphabet: repr, or an exception", gen::count(al.len() as u64, l), move |i| gen::word(al, i)));
    let n = tier.pick(0x3100, gen::CHARS);
    v.push(texts("every-char", "every character (quick: the first 0x3100) alone, before !, and inside a version", n * 3, |i| {
        let ch = gen::nth_char(i / 3);
        match i % 3 {
            0 => ch.to_string(),
            1 => format!("{}!1", ch),
            _ => format!("1.{}.2", ch),
        }
    }));
    v.push(texts("long", "texts of 1..600 symbols", 600 * 4, |i| {
        let k = (i / 4 + 1) as usize;
        match i % 4 {
            0 => "1".repeat(k),
            1 => vec!["1"; k].join("."),
            2 => "a".repeat(k),
            _ => "1!".repeat(k),
        }
    }));
    let ns = Arc::new(gen::lengths(tier, 65536));
    let n = ns.len() as u64 * gen::MARKED as u64 * 2;
    v.push(texts("offsets", "one character of 2, 3 or 4 bytes at every offset up to 300 (thorough 1100) and around powers of two to 65536, in 6 surroundings, as a version and as an error", n, move |i| {
        let j = (i / 2) as usize;
        let t = gen::marked(ns[j % ns.len()], j / ns.len());
        if i % 2 == 0 { t } else { format!("1!2!{}", t) }
    }));
    let mut l: Vec<String> = gen::assembled(tier.pick(3, 4));
    l.extend(gen::dict_versions());
    l.extend(gen::blanks());
    l.extend(gen::magnitudes());
    l.extend(gen::pool(tier));
    let l = Arc::new(gen::dedup(l));
    v.push(texts("named", "versions assembled from all parts, words and numbers the source names, magnitudes, blanks, and a long list of varied texts: repr, or an exception", l.len() as u64, move |i| l[i as usize].clone()));
    v.push(mc::ver::offset_space(tier, "compare-offsets", tier.pick(16384, 65536), |l, a, c| {
        let (cl, ao) = (class(), object(&a.t)?);
        for b in l {
            pair(&cl, a, &ao, b, &object(&b.t)?, c)?
        }
        Ok(())
    }));
    let ps: Arc<Vec<String>> = Arc::new(gen::pool(tier).into_iter().filter(|t| mc::model::parse(t).is_some()).collect());
    let p2 = ps.clone();
    v.push(Space::new("compare-pool", "a long list of varied versions, each against about 20 versions close to it", ps.len() as u64, move |i| format!("{:?}", p2[i as usize]), move |i, c| {
        let l = gen::items(vec![ps[i as usize].clone()]);
        let (cl, ao) = (class(), object(&l[0].t)?);
        for b in mc::spec::related(&l[0].t) {
            pair(&cl, &l[0], &ao, &b, &object(&b.t)?, c)?
        }
        Ok(())
    }));
    v.push(pairs("compare-mixed", "sequences of <= 2 (thorough 3) numbers and words, with epochs and local parts", gen::items(gen::mixed(tier.pick(2, 3), false).into_iter().step_by(1).collect())));
    for (n, b, it) in mc::ver::sets(Tier::Quick) {
        if n == "mixed" {
            continue;
        }
        let step = tier.pick(if it.len() > 4000 { 2 } else { 1 }, 1);
        v.push(pairs(&format!("compare-{}", n), &format!("{} (every {}th)", b, step), gen::items(it.iter().step_by(step).map(|i| i.t.clone()).collect())));
    }
    v
}
fn main() {
    mc::cli::main(vec![Prop {
        id: "P01",
        level: "model_checking",
        rule: "every pair of versions of each set through the class the Python module registers, against the order and prefix model and against the Rust answers; every text of each space for repr or exception",
        assumptions: &["the stand-in for the cpython crate (/verif/pystub/cpython) calls the class methods as the real crate would; the real extension module does not load in the installed interpreter", "a panic inside a method aborts the interpreter", "nothing is claimed about inputs outside the enumerated spaces listed in the evidence"],
        spaces: p01,
    }])
}
