//! S01..S05: single version specs.
use crate::engine::{guard, h, Ctx, Space, Tier, R};
use crate::gen::*;
use crate::model::{self, Op, P, Re};
use crate::{expect, fail};
use ronda::{treeify, Spec, Version, VersionSpec, VersionSpecOrConstraintTree};
use std::convert::TryFrom;
use std::sync::Arc;

/// What a single-spec text means according to the property statements.
#[derive(Clone, Debug)]
pub enum Form {
    Any,
    Rel(Op, String),
    Bare(String),
    Prefix(String),
    NotPrefix(String),
    Compat(String),
    Glob(String),
    Regex(Re),
    Literal(String),
    /// must be rejected
    Reject,
    /// not settled by the statements
    Open,
}
pub fn clean(v: &str) -> bool {
    !v.is_empty()
        && !v.chars().any(|c| c.is_whitespace() || "*@$()|,".contains(c))
        && !v.starts_with(|c| "<>=!~^".contains(c))
        && !over_limit(v)
        && !foreign_digit(v)
}
fn form_of(v: &str, f: impl Fn(String) -> Form) -> Form {
    if !model::defined(v) {
        return Form::Open;
    }
    match model::parse(v) {
        None => Form::Reject,
        Some(_) if clean(v) => f(v.to_string()),
        _ => Form::Open,
    }
}
const BAD_RE: [&str; 13] = [
    "^($", "^)$", "^[$", "^(a$", "^a)$", "^[a$", "^[b-a]$", "^(?P<n$", "^a{2,1}$", "^(a|b$", "^1.(2$", "^(?P<n>a)(?P<n>b)$", "^\\p{NoSuchClass}$",
];
pub fn classify(t: &str) -> Form {
    if t.is_empty() {
        return Form::Reject;
    }
    let (a, b) = (t.starts_with('^'), t.ends_with('$'));
    if a != b {
        return Form::Reject;
    }
    if a {
        if BAD_RE.contains(&t) {
            return Form::Reject;
        }
        let r = &t[1..t.len() - 1];
        if r.contains('\\') || r.contains('[') || r.contains('{') || r.contains('?') {
            // only the shapes the model's matcher understands
        } else {
            let mut d = 0i32;
            let mut low = 0;
            for c in r.chars() {
                if c == '(' {
                    d += 1
                }
                if c == ')' {
                    d -= 1
                }
                low = low.min(d);
            }
            if d != 0 || low < 0 {
                return Form::Reject;
            }
        }
        let mut d = 0i32;
        let mut top = false;
        for c in r.chars() {
            match c {
                '(' => d += 1,
                ')' => d -= 1,
                '|' if d == 0 => top = true,
                _ => {}
            }
        }
        if top || r.contains(|c| "^$\n".contains(c)) && !r.contains("[^") || r.contains('{') || r.contains("(?") || r.contains("()") {
            return Form::Open;
        }
        return match model::re_parse(r) {
            Some(re) => Form::Regex(re),
            None => Form::Open,
        };
    }
    if t.starts_with(|c| "<>=!~".contains(c)) {
        let op = ["==", "!=", "<=", ">=", "~=", "<", ">", "="].iter().find(|o| t.starts_with(**o));
        let Some(op) = op else { return Form::Reject };
        let rest = &t[op.len()..];
        if rest.is_empty() || rest.starts_with(|c: char| c.is_whitespace() || "<>=!~".contains(c)) {
            return Form::Reject;
        }
        if rest.chars().any(char::is_whitespace) {
            return Form::Open;
        }
        if let Some(v) = rest.strip_suffix(".*") {
            return match *op {
                "~=" => Form::Reject,
                _ if v.is_empty() => Form::Open,
                "!=" => form_of(v, |v| if v.ends_with('.') { Form::Open } else { Form::NotPrefix(v) }),
                "=" => form_of(v, |v| if v.ends_with('.') { Form::Open } else { Form::Prefix(v) }),
                o => form_of(v, |v| Form::Rel(*model::OPS.iter().find(|x| x.sign() == o).unwrap(), v)),
            };
        }
        return match *op {
            "=" => form_of(rest, |v| if v.ends_with('.') { Form::Open } else { Form::Prefix(v) }),
            "~=" => form_of(rest, Form::Compat),
            o => form_of(rest, |v| Form::Rel(*model::OPS.iter().find(|x| x.sign() == o).unwrap(), v)),
        };
    }
    if t == "*" {
        return Form::Any;
    }
    if t.trim_end_matches('*').contains('*') {
        return if t.chars().all(|c| c.is_ascii_alphanumeric() || "._-+!*".contains(c)) { Form::Glob(t.to_string()) } else { Form::Open };
    }
    if t.ends_with('*') {
        let v = t.strip_suffix(".*").unwrap_or(&t[..t.len() - 1]);
        return if v.is_empty() || v.ends_with('*') || v.ends_with('.') { Form::Open } else { form_of(v, Form::Prefix) };
    }
    if t.contains('@') {
        return Form::Literal(t.to_string());
    }
    form_of(t, Form::Bare)
}
/// Does the spec accept the version with this text and these parts? None: not settled.
pub fn accepts(f: &Form, x: &str, xm: &[P]) -> Option<bool> {
    let m = |v: &str| model::parse(v).unwrap();
    Some(match f {
        Form::Any => true,
        Form::Rel(op, v) => op.holds(xm, &m(v)),
        Form::Bare(v) => Op::Eq.holds(xm, &m(v)),
        Form::Prefix(v) => model::starts(xm, &m(v)),
        Form::NotPrefix(v) => !model::starts(xm, &m(v)),
        Form::Compat(v) => model::compatible(xm, &m(v)),
        Form::Glob(p) => {
            if x.contains('\n') {
                return None;
            }
            let (p, x): (Vec<char>, Vec<char>) = (p.chars().collect(), x.chars().collect());
            model::glob(&p, &x)
        }
        Form::Regex(r) => {
            if x.contains('\n') {
                return None;
            }
            model::re_match(r, x)
        }
        Form::Literal(v) => v == x,
        Form::Reject | Form::Open => return None,
    })
}

pub fn sane_class(f: &Form) -> &'static str {
    match f {
        Form::Any => "any",
        Form::Rel(..) | Form::Bare(_) => "relational",
        Form::Prefix(_) | Form::NotPrefix(_) | Form::Compat(_) => "prefix",
        Form::Glob(_) | Form::Regex(_) | Form::Literal(_) => "text",
        Form::Reject => "reject",
        Form::Open => "open",
    }
}
type Both = (VersionSpec, Option<VersionSpecOrConstraintTree>);
pub fn get(t: &str) -> Result<Option<Both>, String> {
    guard(|| {
        let a = VersionSpec::try_from(t);
        let delim = t.contains(|c| "()|,".contains(c));
        let b = if delim { None } else { Some(VersionSpecOrConstraintTree::try_from(t)) };
        match (a, b) {
            (Ok(a), None) => Ok(Some((a, None))),
            (Err(_), None) => Ok(None),
            (Ok(a), Some(Ok(b))) => Ok(Some((a, Some(b)))),
            (Err(_), Some(Err(_))) => Ok(None),
            _ => Err("the single-spec and the general entry point disagree on acceptance".to_string()),
        }
    })?
}

/// the spec text must parse and accept exactly what the model says, on every candidate
pub fn against(t: &str, xs: &[Item], text: bool, c: &mut Ctx) -> R {
    let f = classify(t);
    if matches!(f, Form::Open | Form::Reject) {
        c.skipped += 1;
        return Ok(());
    }
    let (a, b) = match get(t) {
        Ok(Some(s)) => s,
        Ok(None) => fail!(t; "the spec {:?} is rejected", t),
        Err(p) => fail!(t; "parsing the spec {:?}: {}", t, p),
    };
    for x in xs {
        let Some(want) = accepts(&f, &x.t, &x.m) else { continue };
        let g = guard(|| a.test_match_version(&x.v));
        c.called(1);
        c.state(h(&(t, x.h, want)));
        match g {
            Ok(g) if g == want => {}
            Ok(g) => fail!((t, &x.t); "the spec {:?} {} {:?}, expected the opposite", t, if g { "accepts" } else { "refuses" }, x.t),
            Err(p) => fail!((t, &x.t); "matching {:?} against {:?} panics: {}", x.t, t, p),
        }
        if text {
            c.called(3);
            let g = guard(|| {
                let y = a.test_match(&x.t);
                (y, b.as_ref().map_or(y, |b| b.test_match(&x.t)), b.as_ref().map_or(y, |b| b.test_match_version(&x.v)))
            });
            match g {
                Ok(g) if g == (want, want, want) => {}
                Ok(g) => fail!((t, &x.t); "the spec {:?} on text {:?}: {:?}, expected {} from every entry point", t, x.t, g, want),
                Err(p) => fail!((t, &x.t); "matching text {:?} against {:?} panics: {}", x.t, t, p),
            }
        }
    }
    Ok(())
}
fn spec_space(name: &str, bound: &str, forms: &'static [&'static str], vs: Vec<String>, xs: Items, text: bool) -> Space {
    let vs: Arc<Vec<String>> = Arc::new(vs.into_iter().filter(|v| clean(v) && model::defined(v) && model::parse(v).is_some()).collect());
    let k = forms.len() as u64;
    let v2 = vs.clone();
    let nx = xs.len();
    Space::new(
        name,
        &format!("{} versions V in forms {:?} x {} candidates: {}", vs.len(), forms, nx, bound),
        vs.len() as u64 * k,
        move |i| format!("{:?} on {} candidates", forms[(i % k) as usize].replace("V", &v2[(i / k) as usize]), nx),
        move |i, c| against(&forms[(i % k) as usize].replace("V", &vs[(i / k) as usize]), &xs, text, c),
    )
}

const REL: [&str; 12] = ["V", "==V", "!=V", "<V", "<=V", ">V", ">=V", "==V.*", "<V.*", "<=V.*", ">V.*", ">=V.*"];
const PRE: [&str; 6] = ["V.*", "V*", "=V", "=V.*", "!=V.*", "~=V"];

fn char_space(tier: Tier, name: &str, forms: &'static [&'static str]) -> Space {
    // every character as (part of) V
    let n = if tier == Tier::Quick { 0x600 } else { 0x30000 };
    let k = forms.len() as u64;
    let mk = move |i: u64| {
        let ch = nth_char(i / 3);
        match i % 3 {
            0 => format!("{}", ch),
            1 => format!("1.{}", ch),
            _ => format!("1.0{}2", ch),
        }
    };
    Space::new(
        name,
        &format!("every one of the first {:#x} Unicode characters alone, after '1.' and inside '1.0_2', as V, in all forms", n),
        n * 3,
        move |i| format!("V = {:?}", mk(i)),
        move |i, c| {
            let v = mk(i);
            let xs: Vec<Item> = [v.as_str(), "0", "1", "1.0", "1.0.2", "2", "1.a", "1.zz"]
                .iter()
                .map(|x| x.to_string())
                .chain([format!("{}.1", v), format!("{}0", v), format!("{}a", v)])
                .filter(|x| model::defined(x) && !over_limit(x) && !foreign_digit(x))
                .filter_map(|x| item(&x))
                .collect();
            for f in 0..k {
                let t = forms[f as usize].replace("V", &v);
                if clean(&v) && model::defined(&v) && v.chars().all(model::fold_sure) {
                    against(&t, &xs, false, c)?
                }
            }
            Ok(())
        },
    )
}

/// V and candidates that are the same for a long way
fn offset_spec_space(tier: Tier, name: &str, forms: &'static [&'static str]) -> Space {
    let ns = Arc::new(crate::gen::lengths(tier, tier.pick(4096, 16384)));
    let n2 = ns.clone();
    let tails: [&str; 9] = ["", "1", "2", "a", "B", "é", ".0", "dev", "+c"];
    Space::new(
        name,
        &format!("{} lengths of 7 kinds of common beginning, 9 endings of V against 16 endings and 2 shorter texts, {} forms", ns.len(), forms.len()),
        ns.len() as u64 * 7,
        move |i| format!("beginning {:?} of length {}", crate::gen::PADS[i as usize / n2.len()], n2[i as usize % n2.len()]),
        move |i, c| {
            let (n, p) = (ns[i as usize % ns.len()], i as usize / ns.len());
            let big = n > 300;
            let xs: Vec<Item> = crate::gen::TAILS
                .iter()
                .step_by(if big { 3 } else { 1 })
                .map(|t| crate::gen::padded(p, n, t))
                .chain([crate::gen::padded(p, n.saturating_sub(1), ""), crate::gen::padded(p, n / 2, "")])
                .filter(|x| model::defined(x))
                .filter_map(|t| item(&t))
                .collect();
            for t in tails.iter().step_by(if big { 4 } else { 1 }) {
                let v = crate::gen::padded(p, n, t);
                if !clean(&v) || !model::defined(&v) {
                    continue;
                }
                for f in forms {
                    against(&f.replace("V", &v), &xs, n < 100, c).map_err(|mut e| {
                        if n > 40 {
                            e.key = format!("beginning {} of length {} ending {} form {}", p, n, t, f);
                            e.msg = format!("V = {:?} x {} + {:?}, form {}: {}", crate::gen::PADS[p], n, t, f, e.msg.chars().rev().take(80).collect::<Vec<_>>().into_iter().rev().collect::<String>());
                        }
                        e
                    })?
                }
            }
            Ok(())
        },
    )
}

/// Candidates close to a version text
pub fn related(v: &str) -> Vec<Item> {
    let mut l: Vec<String> = ["", ".0", ".1", "0", "1", "a", "dev", ".post", "+z", " "].iter().map(|e| format!("{}{}", v, e)).collect();
    let mut cut = v.to_string();
    cut.pop();
    l.extend([cut.clone(), format!("{}0", cut), format!("{}2", cut), v.to_uppercase(), v.to_lowercase(), format!("0{}", v), format!("1{}", v), format!("0!{}", v), format!("1!{}", v)]);
    l.extend(v.rsplit_once(|c| ".-_+!".contains(c)).map(|x| x.0.to_string()));
    l.extend(v.split_once(|c| "+!".contains(c)).map(|x| x.0.to_string()));
    l.extend(v.split_once(|c| "+!".contains(c)).map(|x| x.1.to_string()));
    dedup(l).iter().filter(|x| model::defined(x) && !over_limit(x)).filter_map(|x| item(x)).collect()
}
pub const VALPHA: [&str; 10] = ["0", "1", "9", "a", "D", ".", "-", "_", "+", "!"];
/// Every V against candidates close to it
fn related_space(tier: Tier, name: &str, forms: &'static [&'static str]) -> Vec<Space> {
    let lists = [
        ("words", format!("all texts of <= {} over {:?}", tier.pick(5, 6), VALPHA), words(&VALPHA, tier.pick(5, 6))),
        ("assembled", "epochs x releases x suffixes x local parts".to_string(), assembled(tier.pick(4, 5))),
        ("dictionary", "numbers and words written in the source".to_string(), dict_versions()),
        ("magnitudes", "numbers of 1 to 10 digits with every two leading digits".to_string(), magnitudes()),
        ("pool", "words, numbers and names in many places, every length, many characters".to_string(), pool(Tier::Quick)),
        ("pairs", "all sequences of <= 3 of 18 tokens".to_string(), seqs(&["0", "1", "00", "01", "10", "007", "a", "B", "rc1", "dev", "post", "Dev0", "*", "1a", "a1", "+", "!", ""], 3, ".")),
    ];
    lists
        .into_iter()
        .map(|(n, b, l)| {
            let vs: Arc<Vec<String>> = Arc::new(dedup(l).into_iter().filter(|v| clean(v) && model::defined(v) && v.chars().all(model::fold_sure)).collect());
            let v2 = vs.clone();
            Space::new(
                &format!("{}-related-{}", name, n),
                &format!("{} versions V in {} forms against about 20 candidates close to V: {}", vs.len(), forms.len(), b),
                vs.len() as u64,
                move |i| format!("V = {:?}", v2[i as usize]),
                move |i, c| {
                    let v = &vs[i as usize];
                    let xs = related(v);
                    forms.iter().try_for_each(|f| against(&f.replace("V", v), &xs, v.len() < 4, c))
                },
            )
        })
        .collect()
}
/// a fixed regular subset of an enumeration
pub fn every(l: Vec<String>, k: usize) -> Vec<String> {
    l.into_iter().step_by(k).collect()
}
fn nth(k: usize) -> String {
    if k == 1 { "one".into() } else { format!("{}th in list order", k) }
}

pub fn s01(tier: Tier) -> Vec<Space> {
    let x = items(mixed(tier.pick(2, 3), false));
    let tv = every(mixed(2, false), tier.pick(5, 1));
    let mut v = vec![spec_space("relational", "mixed versions (quick: every 5th V against every 2nd candidate), matched as version and as text", &REL, tv, items(every(mixed(2, false), tier.pick(2, 1))), true)];
    for (n, b, it) in crate::ver::sets(Tier::Quick) {
        let (step, tx) = match n {
            "mixed" => (tier.pick(4, 1), x.clone()),
            "words" => (tier.pick(8, 1), items(it.iter().step_by(tier.pick(2, 1)).map(|i| i.t.clone()).collect())),
            "assembled" => (tier.pick(67, 11), items(it.iter().step_by(tier.pick(7, 2)).map(|i| i.t.clone()).collect())),
            "magnitudes" | "blanks" | "dictionary" => (tier.pick(9, 2), items(it.iter().step_by(tier.pick(3, 1)).map(|i| i.t.clone()).collect())),
            "letters" | "devpost" => (tier.pick(23, 3), items(it.iter().step_by(tier.pick(9, 2)).map(|i| i.t.clone()).collect())),
            _ => (tier.pick(3, 1), it.clone()),
        };
        let vs = it.iter().step_by(step).map(|i| i.t.clone()).collect();
        v.push(spec_space(&format!("relational-{}", n), &format!("{} (V: every {})", b, nth(step)), &REL, vs, tx, false));
    }
    v.push(char_space(tier, "relational-chars", &REL));
    v.push(offset_spec_space(tier, "relational-offsets", &REL));
    v.extend(related_space(tier, "relational", &REL));
    v.push(spec_space("relational-candidates", "every one of a long list of varied versions as candidate", &REL, s(&["1.2", "1.0rc1", "2019.1", "1!1.0", "1.2+a", "0"]), items(pool(tier)), false));
    v
}
pub fn s02(tier: Tier) -> Vec<Space> {
    let x = items(mixed(tier.pick(2, 3), false));
    let tv = every(mixed(2, false), tier.pick(3, 1));
    let mut v = vec![spec_space("prefix", "mixed versions (quick: every 3rd V against every 2nd candidate), matched as version and as text", &PRE, tv, items(every(mixed(2, false), tier.pick(2, 1))), true)];
    for (n, b, it) in crate::ver::sets(Tier::Quick) {
        let (step, tx) = match n {
            "mixed" => (tier.pick(3, 1), x.clone()),
            "words" => (tier.pick(6, 1), items(it.iter().step_by(tier.pick(2, 1)).map(|i| i.t.clone()).collect())),
            "assembled" => (tier.pick(67, 11), items(it.iter().step_by(tier.pick(7, 2)).map(|i| i.t.clone()).collect())),
            "magnitudes" | "blanks" | "dictionary" => (tier.pick(7, 2), items(it.iter().step_by(tier.pick(3, 1)).map(|i| i.t.clone()).collect())),
            "letters" | "devpost" => (tier.pick(13, 3), items(it.iter().step_by(tier.pick(9, 2)).map(|i| i.t.clone()).collect())),
            _ => (tier.pick(2, 1), it.clone()),
        };
        let vs = it.iter().step_by(step).map(|i| i.t.clone()).collect();
        v.push(spec_space(&format!("prefix-{}", n), &format!("{} (V: every {})", b, nth(step)), &PRE, vs, tx, false));
    }
    // V against every continuation of V
    let ext = ["", "0", "1", "9", "a", ".0", ".1", ".a", "-1", "_1", "dev", ".dev", "+a", "post", ".0.0", "*"];
    let vs: Arc<Vec<String>> = Arc::new(mixed(2, false).into_iter().filter(|v| clean(v)).collect());
    let v2 = vs.clone();
    v.push(Space::new(
        "prefix-continuations",
        "every V against V followed by each of 16 continuations",
        vs.len() as u64,
        move |i| format!("V = {:?}", v2[i as usize]),
        move |i, c| {
            let xs: Vec<Item> = ext.iter().map(|e| format!("{}{}", vs[i as usize], e)).filter_map(|x| item(&x)).collect();
            PRE.iter().map(|f| f.replace("V", &vs[i as usize])).try_for_each(|t| against(&t, &xs, true, c))
        },
    ));
    v.push(char_space(tier, "prefix-chars", &PRE));
    v.push(offset_spec_space(tier, "prefix-offsets", &PRE));
    v.extend(related_space(tier, "prefix", &PRE));
    v.push(spec_space("prefix-candidates", "every one of a long list of varied versions as candidate", &PRE, s(&["1", "1.0", "1.alpha", "a", "2019", "1!1", "1.0.1", "0"]), items(pool(tier)), false));
    v
}

fn texts_against(name: &str, bound: &str, ts: Vec<String>, xs: Items, keep: fn(&Form) -> bool, text: bool) -> Space {
    let ts: Arc<Vec<String>> = Arc::new(dedup(ts).into_iter().filter(|t| keep(&classify(t))).collect());
    let t2 = ts.clone();
    let n = xs.len();
    Space::new(
        name,
        &format!("{} specs x {} candidates: {}", ts.len(), n, bound),
        ts.len() as u64,
        move |i| format!("{:?} on {} candidates", t2[i as usize], n),
        move |i, c| against(&ts[i as usize], &xs, text, c),
    )
}
pub fn is_text_form(f: &Form) -> bool {
    matches!(f, Form::Any | Form::Glob(_) | Form::Regex(_) | Form::Literal(_))
}
pub fn regexes(l: u32) -> Vec<String> {
    let toks = ["1", "2", ".", "\\.", "[12]", "[^1]", "(1|2)", "*", "+", "?", "a", "[0-9]", "(a.)"];
    seqs(&toks, l, "").into_iter().chain(["".to_string()]).map(|r| format!("^{}$", r)).collect()
}
pub fn s03(tier: Tier) -> Vec<Space> {
    let xs = items(words(&["1", "2", ".", "a"], tier.pick(4, 5)));
    let mut v = vec![];
    v.push(texts_against("any", "the spec *", s(&["*"]), items(mixed(3, false).into_iter().chain(words(&crate::ver::ALPHA, 3)).collect()), is_text_form, true));
    v.push(texts_against("wildcards", "all texts over 1 2 . a * holding an inner *", words(&["1", "2", ".", "a", "*"], tier.pick(5, 6)), xs.clone(), is_text_form, false));
    v.push(texts_against("wildcards-text", "all texts over 1 . *, matched as text", words(&["1", ".", "*"], 5), xs.clone(), is_text_form, true));
    v.push(texts_against(
        "wildcards-signs",
        "all texts over 1 + - _ ! A *",
        words(&["1", "+", "-", "_", "!", "A", "*", "."], tier.pick(4, 5)),
        items(words(&["1", "+", "-", "_", "!", "A", "."], 4)),
        is_text_form,
        false,
    ));
    v.push(texts_against("wildcards-case", "all texts over a A b B 1 *", words(&["a", "A", "b", "B", "1", "*"], tier.pick(4, 5)), items(words(&["a", "A", "b", "B", "1"], 4)), is_text_form, false));
    v.push(texts_against(
        "wildcards-unicode",
        "all texts over é É ж Ж *, 1",
        words(&["é", "É", "ж", "Ж", "日", "1", "*"], tier.pick(4, 4)),
        items(words(&["é", "É", "ж", "Ж", "日", "1"], tier.pick(3, 4))),
        is_text_form,
        false,
    ));
    v.push(texts_against("regexes", "^R$ for all R of up to 3 (thorough 4) of 13 tokens", regexes(tier.pick(3, 4)), xs.clone(), is_text_form, false));
    v.push(texts_against("regexes-text", "^R$ for all R of up to 2 tokens, matched as text", regexes(2), xs, is_text_form, true));
    let lit = words(&["@", "1", ".", "a", "A", "0"], tier.pick(4, 5));
    v.push(texts_against("literals", "all texts over @ 1 . a A 0", lit.clone(), items(lit.into_iter().filter(|t| t.len() <= 4).collect()), |f| matches!(f, Form::Literal(_)), false));
    let lit = words(&["@", "1", "+", "!", " ", "é", "-"], 4);
    v.push(texts_against("literals-signs", "all texts over @ 1 + ! space é -", lit.clone(), items(lit), |f| matches!(f, Form::Literal(_)), true));
    // real-looking candidates
    let long = items(mixed(2, false).into_iter().chain(s(&["1.7.1", "1.10.1", "2.7.15", "1.7.1+local", "1!2.3", "2020.01.31", "1.0.0rc1", "3.8.0a4", "0.0.0", "v1.2"])).collect());
    let sp = s(&["1.*.1", "1.*", "*.1", "*1*", "*a*", "1*1", "1.*.*.1", "*.*", "2*.1", "*.*.*", "1!*.3", "*+local", "1.*0", "*dev*", "**1", "1**1", "1.7*1", "*.post*", "v*2",
        "^.*$", "^$", "^1.7.1$", r"^1\.7\.1$", r"^1\.7\.[0-9]+$", r"^1\.[5-8]\.1$", "^[^1].*$", "^[0-9+]+\\.[0-9+]+\\.[0-9]+$", "^.*dev.*$", "^(1|2).*$", "^1.*(a|b)$", "^.+a.?$", "^(a.)*$", "^[a-z]+$", "^[A-Z]+$", r"^\d+$", "^1\\+.*$"]);
    v.push(marked_space(tier, "text-offsets", tier.pick(1024, 4096), &[("", "@"), ("@", ""), ("", "*z"), ("*", ""), ("*", "*"), ("1*", "é"), ("^", "$"), ("^", ".*$"), ("^(1|", ")$")], |t, n, k, c| {
        if !is_text_form(&classify(t)) {
            return Ok(());
        }
        let w = crate::gen::marked(n, k);
        let xs: Vec<Item> = [w.clone(), format!("{}z", w), format!("z{}", w), format!("{}@", w), format!("@{}", w), format!("1{}é", w), crate::gen::marked(n.saturating_sub(1), k), crate::gen::marked(n + 1, k), "1".to_string()].iter().filter_map(|x| item(x)).collect();
        against(t, &xs, n < 100, c)
    }));
    v.push(texts_against("candidates", "every one of a long list of varied versions as candidate", s(&["*", "*a*", "1*1", "1.*.1", "*0", "*.0", "*+*1", "a*0*1", "*1*2*", "1.0@", "@", "^.*$", "^1.*$", "^.*[0-9]$", "^[a-z.0-9]*$", "^.*(a|e).*$", r"^(\d+\.)*\d+$", "^.{9}$"]), items(pool(tier)), is_text_form, false));
    let ps: Arc<Vec<String>> = Arc::new(pool(tier).into_iter().filter(|v| clean(v)).collect());
    let p2 = ps.clone();
    v.push(Space::new("pool", &format!("{} varied texts in 7 wildcard, regular and literal forms against about 20 texts close to them", ps.len()), ps.len() as u64, move |i| format!("V = {:?}", p2[i as usize]), move |i, c| {
        let v = &ps[i as usize];
        let mut xs = related(v);
        xs.extend([format!("x{}", v), format!("{}@", v), format!("1{}x0", v), format!("@{}", v)].iter().filter_map(|x| item(x)));
        let re = v.chars().map(|c| if c.is_ascii_punctuation() { format!("\\{}", c) } else { c.to_string() }).collect::<String>();
        ["*V", "V*0", "*V*1", "1*V", "V@", "@V"].iter().map(|f| f.replace('V', v)).chain([format!("^{}$", re), format!("^{}.*$", re), format!("^(x|{})$", re)]).filter(|t| is_text_form(&classify(t))).try_for_each(|t| against(&t, &xs, v.len() < 4, c))
    }));
    // a literal spec and texts that are it with more or less at its end or beginning
    const UNIT: [&str; 8] = ["0", ".0", " ", "a", "_", "@", "é", "*"];
    let nl = tier.pick(140, 400);
    v.push(Space::new("literal-lengths", "literal specs with up to 140 (thorough 400) of 8 units at the end, against shorter and longer ones", nl * 8, |i| format!("{} x {:?}", i / 8, UNIT[(i % 8) as usize]), |i, c| {
        let (n, u) = ((i / 8) as usize, UNIT[(i % 8) as usize]);
        for (t, base) in [(format!("1.0@x{}", u.repeat(n)), "1.0@x"), (format!("{}@1", u.repeat(n)), "@1"), (format!("1@{}2", u.repeat(n)), "1@2")] {
            if !matches!(classify(&t), Form::Literal(_)) {
                continue;
            }
            let mut l = vec![base.to_string(), t.clone(), t.to_uppercase(), format!("{}{}", t, u), format!("{}{}", u, t)];
            for k in [1, 2, 3, 8, n / 2, n] {
                if k <= n {
                    l.push(t.replacen(u, "", k));
                    l.push((0..k).fold(t.clone(), |t, _| t.strip_suffix(u).map(|x| x.to_string()).unwrap_or(t)));
                }
            }
            let xs: Vec<Item> = l.iter().filter_map(|x| item(x)).collect();
            against(&t, &xs, false, c)?
        }
        Ok(())
    }));
    let deep: Vec<String> = (1..=tier.pick(110, 120)).flat_map(|n| [format!("^{}1{}$", "(".repeat(n), ")".repeat(n)), format!("^{}1{}$", "(?:".repeat(n), "|2)".repeat(n)), format!("^{}a{}$", "(1".repeat(n * 2 / 3), ")?".repeat(n * 2 / 3))]).collect();
    v.push(texts_against("nested-regexes", "groups nested to every depth up to 110 (thorough 120), three kinds", deep, items(s(&["1", "2", "11", "a", "1a", "", "111111a"])), is_text_form, true));
    v.push(texts_against("realistic", "36 wildcard and regex specs as users write them x mixed versions", sp, long, is_text_form, true));
    v
}

pub const SA: [&str; 20] = ["0", "1", "a", ".", "*", "^", "$", "(", ")", "|", ",", "<", ">", "=", "!", "~", "@", " ", "é", "+"];

/// S04: a text must give a spec or an error everywhere, and matching an accepted spec must answer
pub fn s04_one(t: &str, xs: &[Item], c: &mut Ctx) -> R {
    let f = classify(t);
    let a = guard(|| VersionSpec::try_from(t));
    let b = guard(|| VersionSpecOrConstraintTree::try_from(t));
    let d = guard(|| treeify(t));
    c.called(3);
    c.state(h(&(sane_class(&f), t.len(), t)));
    let (a, b, d) = match (a, b, d) {
        (Ok(a), Ok(b), Ok(d)) => (a, b, d),
        (Err(p), _, _) => fail!(t; "parsing {:?} as a single spec panics: {}", t, p),
        (_, Err(p), _) => fail!(t; "parsing {:?} as a spec panics: {}", t, p),
        (_, _, Err(p)) => fail!(t; "parsing {:?} as a tree panics: {}", t, p),
    };
    let delim = t.contains(|c| "()|,".contains(c));
    match f {
        Form::Reject => {
            expect!(a.is_err(), t; "the malformed spec {:?} is accepted as a single spec", t);
            if !delim {
                expect!(b.is_err(), t; "the malformed spec {:?} is accepted", t);
            }
        }
        Form::Open => {}
        _ => {
            expect!(a.is_ok(), t; "the well-formed spec {:?} is rejected as a single spec", t);
            if !delim {
                expect!(b.is_ok(), t; "the well-formed spec {:?} is rejected", t);
            }
        }
    }
    if let Err(e) = &a {
        if guard(|| format!("{} {:?}", e, e)).is_err() {
            fail!(t; "reporting the error for {:?} panics", t);
        }
    }
    for x in xs {
        c.called(3);
        let g = guard(|| {
            if let Ok(a) = &a {
                a.test_match_version(&x.v);
            }
            if let Ok(b) = &b {
                b.test_match_version(&x.v);
            }
            if let Ok(d) = &d {
                d.test_match_version(&x.v);
            }
        });
        if let Err(p) = g {
            fail!((t, &x.t); "matching {:?} against the accepted spec {:?} panics: {}", x.t, t, p);
        }
    }
    Ok(())
}
/// One wide character at every offset of long texts, in the given surroundings
fn marked_space(tier: Tier, name: &str, max: usize, ctx: &'static [(&'static str, &'static str)], f: impl Fn(&str, usize, usize, &mut Ctx) -> R + Send + Sync + 'static) -> Space {
    let ns = Arc::new(crate::gen::lengths(tier, max));
    let n2 = ns.clone();
    Space::new(
        name,
        &format!("one character of 2, 3 or 4 bytes at every offset of {} up to {}, in 6 kinds of long text, in surroundings {:?}", ns.len(), max + 2, ctx),
        ns.len() as u64 * crate::gen::MARKED as u64,
        move |i| format!("length {} kind {}", n2[i as usize % n2.len()], i as usize / n2.len()),
        move |i, c| {
            let (n, k) = (ns[i as usize % ns.len()], i as usize / ns.len());
            let w = crate::gen::marked(n, k);
            for (a, b) in ctx {
                f(&format!("{}{}{}", a, w, b), n, k, c).map_err(|mut e| {
                    if n > 40 {
                        e.key = format!("length {} kind {} in {:?}", n, k, (a, b));
                        e.msg = format!("{:?}: {}", (a, b), e.msg.chars().rev().take(100).collect::<Vec<_>>().into_iter().rev().collect::<String>());
                    }
                    e
                })?
            }
            Ok(())
        },
    )
}
pub fn s04(tier: Tier) -> Vec<Space> {
    let xs = items(s(&["", "1", "1.0.1", "a", "1!2", "1.dev+x", "1.é"]));
    let mut v = vec![];
    let ds = Arc::new(dict_specs());
    let (d2, x8) = (ds.clone(), xs.clone());
    v.push(Space::new(
        "dictionary",
        "specs of the words and numbers written in the source: each in 122 surroundings, and all pairs",
        ds.len() as u64,
        move |i| format!("{:?}", d2[i as usize]),
        move |i, c| s04_one(&ds[i as usize], &x8, c),
    ));
    let mut texts = |name: &str, al: &'static [&'static str], l: u32, v: &mut Vec<Space>| {
        let xs = xs.clone();
        v.push(Space::new(
            name,
            &format!("all texts of length <= {} over {:?}; every accepted one matched against {} versions", l, al, xs.len()),
            count(al.len() as u64, l),
            move |i| format!("{:?}", word(al, i)),
            move |i, c| s04_one(&word(al, i), &xs, c),
        ))
    };
    texts("all-texts", &SA, tier.pick(4, 5), &mut v);
    texts("operators", &["<", ">", "=", "!", "~", "1", ".", "*", " "], tier.pick(6, 7), &mut v);
    texts("regexes", &["^", "$", "(", ")", "[", "]", "\\", "*", "1", "|"], tier.pick(5, 6), &mut v);
    texts("regex-braces", &["^", "$", "{", "}", "1", ",", "?", "(", "-"], tier.pick(5, 6), &mut v);
    texts("compounds", &["(", ")", "|", ",", "1", "^", "$", " "], tier.pick(6, 7), &mut v);
    texts("bad-versions", &["=", "1", "!", "+", "-", ".", "*"], tier.pick(6, 8), &mut v);
    const CTX: [(&str, &str); 15] = [
        ("", ""), ("1", ""), ("=", ""), ("==", ""), (">=", "1"), ("<", ".*"), ("^", "$"), ("", "*"), ("1.", "*"), ("(", ")"), ("1,", ""), ("", "|1"), ("*", "1"), ("1@", ""), ("~=", ".1"),
    ];
    let x3 = xs.clone();
    let n = if tier == Tier::Quick { 0x3000 } else { CHARS };
    let mk = |i: u64| format!("{}{}{}", CTX[(i % 15) as usize].0, nth_char(i / 15), CTX[(i % 15) as usize].1);
    v.push(Space::new(
        "every-char",
        &format!("every one of the first {:#x} Unicode characters in 15 contexts", n),
        n * 15,
        move |i| format!("{:?}", mk(i)),
        move |i, c| s04_one(&mk(i), &x3, c),
    ));
    // operator x version text
    let vs: Arc<Vec<String>> = Arc::new(words(&["1", "!", "+", ".", "a", "é", "*", "@"], 4));
    const F: [&str; 14] = ["V", "==V", "!=V", "<V", "<=V", ">V", ">=V", "=V", "~=V", "V.*", "V*", "==V.*", "!=V.*", "~=V.*"];
    let (v2, x4) = (vs.clone(), xs.clone());
    v.push(Space::new(
        "forms",
        "14 spec forms around all texts of length <= 4 over 1 ! + . a é * @",
        vs.len() as u64 * 14,
        move |i| F[(i % 14) as usize].replace("V", &v2[(i / 14) as usize]),
        move |i, c| s04_one(&F[(i % 14) as usize].replace("V", &vs[(i / 14) as usize]), &x4, c),
    ));
    let ps: Arc<Vec<String>> = Arc::new(pool(tier));
    let (p2, x9) = (ps.clone(), xs.clone());
    v.push(Space::new(
        "pool",
        "22 spec forms around a long list of varied texts",
        ps.len() as u64,
        move |i| format!("V = {:?}", p2[i as usize]),
        move |i, c| F.iter().chain(&["*V", "V*1", "^V$", "V@", "(V)", "V|V", "=!V", "1,V"]).try_for_each(|f| s04_one(&f.replace("V", &ps[i as usize]), &x9[1..3], c)),
    ));
    let bad: Arc<Vec<String>> = Arc::new(BAD_RE.iter().map(|x| x.to_string()).chain(s(&["^(((((((((($", "^[[[$", "^a{100000}$", "^(a{1000}){1000}$", "^\\p{Foo}$", "^\\8$", "^(?z)$", "^\\x{110000}$", "^(?P<é>a)$", "^(a*)*$", "^((a*)*)*$"])).collect());
    let (b2, x5) = (bad.clone(), xs.clone());
    v.push(Space::new("bad-regexes", "24 invalid or oversized regular expressions", bad.len() as u64, move |i| b2[i as usize].clone(), move |i, c| s04_one(&bad[i as usize], &x5, c)));
    let x7 = xs.clone();
    v.push(marked_space(tier, "offsets", tier.pick(1024, 8192), &[("", ""), ("==", ""), ("<", ".*"), ("~=", ""), ("=!", ""), (">=1!2!", ""), ("==1+2+", ""), ("^", "$"), ("^(", "$"), ("", "*"), ("*", "z"), ("(", ""), ("1,", "|("), ("(", ")"), ("", ","), ("", " ==1")], move |t, _, _, c| s04_one(t, &x7[1..3], c)));
    // pumped
    let units: Arc<Vec<String>> = Arc::new(words(&["1", "(", ")", "|", ",", "*", "=", "^", "$", " ", ".", "!", "é"], 2)[1..].to_vec());
    let sizes: Arc<Vec<usize>> = Arc::new((2..=34).chain([63, 64, 65, 100, 127, 128, 129, 250, 251, 256, tier.pick(300, 1500)]).collect());
    const PS: [(&str, &str); 6] = [("", ""), ("1", "1"), (">=", ""), ("^", "$"), ("(", ")"), ("", "1")];
    let (u2, s2, x6) = (units.clone(), sizes.clone(), xs);
    v.push(Space::new(
        "long",
        "every unit of 1-2 symbols repeated 2..34 and 11 sizes up to 300 (thorough 1500) times in 6 contexts",
        units.len() as u64 * sizes.len() as u64 * 6,
        move |i| format!("context {:?} unit {:?} repeated {}", PS[(i % 6) as usize], u2[(i / 6 % u2.len() as u64) as usize], s2[(i / 6 / u2.len() as u64) as usize]),
        move |i, c| {
            let p = PS[(i % 6) as usize];
            let t = format!("{}{}{}", p.0, units[(i / 6 % units.len() as u64) as usize].repeat(sizes[(i / 6 / units.len() as u64) as usize]), p.1);
            s04_one(&t, &x6[1..4], c)
        },
    ));
    v
}

/// Specs built from the words and numbers written in the source
pub fn dict_specs() -> Vec<String> {
    let mut t: Vec<String> = crate::dict::words();
    t.extend(crate::dict::nums(100_000).iter().map(|n| n.to_string()));
    t.truncate(260);
    let base = ["1", "*", "^", "$", "@", "=", "(", " ", ".", ""];
    let mut o = vec![];
    for w in &t {
        for f in ["{}", "{}1", "1{}", "1.{}", "=={}", ">={}", "={}", "~={}", "!={}", "{}.*", "{}*", "*{}", "1*{}", "^{}$", "{}@", "@{}", "({})", "{},1", "1|{}", "=={}.*", "!={}.*", "^1{}$"] {
            o.push(f.replace("{}", w));
        }
        for a in base {
            for b in base {
                o.push(format!("{}{}{}", a, w, b));
            }
        }
        for x in &t {
            o.push(format!("{}{}", w, x));
        }
    }
    let mut o = dedup(o);
    o.retain(|t| t.chars().all(model::fold_sure));
    o
}
/// S05
pub fn s05_one(t: &str, xs: &[Item], c: &mut Ctx) -> R {
    let f = classify(t);
    let sp = match get(t) {
        Ok(Some(x)) => x,
        Ok(None) => {
            c.skipped += 1;
            return Ok(());
        }
        Err(p) => {
            // S04's business
            let _ = p;
            c.skipped += 1;
            return Ok(());
        }
    };
    let want = match f {
        Form::Bare(_) | Form::Literal(_) => Some(true),
        Form::Rel(Op::Eq, _) if !t.ends_with(".*") => Some(true),
        Form::Rel(Op::Eq, _) | Form::Open | Form::Reject => None,
        _ => Some(false),
    };
    let check = |sp: &dyn Spec, who: &str, c: &mut Ctx| -> R {
        let (e, ev, rv, gs) = (sp.is_exact(), sp.exact_value(), sp.raw_value(), sp.get_spec());
        c.called(4);
        c.state(h(&(sane_class(&f), e, t)));
        if let Some(w) = want {
            expect!(e == w, t; "{} {:?} reports exact = {}", who, t, e);
        }
        expect!(gs == t && rv == t, t; "{} {:?} reports its text as {:?} / {:?}", who, t, gs, rv);
        expect!(ev == if e { Some(t.to_string()) } else { None }, t; "{} {:?} has exact = {} but exact value {:?}", who, t, e, ev);
        if e {
            let acc: Vec<&Item> = xs.iter().filter(|x| guard(|| sp.test_match_version(&x.v)).unwrap_or(false)).collect();
            c.called(xs.len() as u64);
            for w in acc.windows(2) {
                expect!(w[0].v == w[1].v, (t, &w[0].t, &w[1].t); "the exact spec {:?} accepts both {:?} and {:?}, which differ", t, w[0].t, w[1].t);
            }
        }
        Ok(())
    };
    check(&sp.0, "the spec", c)?;
    if let Some(b) = &sp.1 {
        check(b, "the spec (general entry point)", c)?;
    }
    Ok(())
}
pub fn s05(tier: Tier) -> Vec<Space> {
    let xs = items(mixed(1, false).into_iter().step_by(3).collect());
    let mut v = vec![];
    let mut texts = |name: &str, al: &'static [&'static str], l: u32, v: &mut Vec<Space>| {
        let xs = xs.clone();
        v.push(Space::new(
            name,
            &format!("all texts of length <= {} over {:?}, exact ones on {} candidates", l, al, xs.len()),
            count(al.len() as u64, l),
            move |i| format!("{:?}", word(al, i)),
            move |i, c| s05_one(&word(al, i), if l > 4 { &xs[..xs.len().min(12)] } else { &xs }, c),
        ))
    };
    texts("exact-texts", &["0", "1", "a", ".", "*", "^", "$", "<", ">", "=", "!", "~", "@", "+"], tier.pick(4, 5), &mut v);
    texts("exact-operators", &["=", "!", "~", "<", ">", "1", "a", ".", "*", "@"], tier.pick(5, 6), &mut v);
    let x2 = items(mixed(2, false));
    let ts: Arc<Vec<String>> = Arc::new(
        mixed(2, false)
            .into_iter()
            .filter(|v| clean(v))
            .flat_map(|v| ["V", "==V", "!=V", "<V", "<=V", ">V", ">=V", "=V", "V.*", "V*", "!=V.*", "~=V", "V@", "*V"].iter().map(move |f| f.replace("V", &v)))
            .collect(),
    );
    let t2 = ts.clone();
    v.push(Space::new("exact-forms", "14 forms of every mixed version of <= 2 tokens, exact ones on all of them", ts.len() as u64, move |i| ts[i as usize].clone(), move |i, c| s05_one(&t2[i as usize], &x2, c)));
    let x3 = items(s(&["1", "a", "1.2", "é", "1+a"]));
    v.push(marked_space(tier, "exact-offsets", tier.pick(1024, 8192), &[("", ""), ("==", ""), ("=", ""), ("!=", ""), (">", ""), ("", ".*"), ("==", ".*"), ("", "@"), ("^", "$"), ("*", "z")], move |t, _, _, c| s05_one(t, &x3, c)));
    let ds = Arc::new(dict_specs());
    let d2 = ds.clone();
    v.push(Space::new(
        "exact-dictionary",
        "specs of the words and numbers written in the source, exact ones on candidates close to them",
        ds.len() as u64,
        move |i| format!("{:?}", d2[i as usize]),
        move |i, c| {
            let t = &ds[i as usize];
            s05_one(t, &related(t.trim_start_matches('=')), c)
        },
    ));
    let vs: Arc<Vec<String>> = Arc::new(dedup(assembled(tier.pick(2, 3)).into_iter().chain(magnitudes().into_iter().step_by(5)).chain(words(&VALPHA, 4)).chain(pool(tier)).collect()).into_iter().filter(|v| clean(v)).collect());
    let v2 = vs.clone();
    v.push(Space::new(
        "exact-related",
        "14 forms of versions assembled from fields, of a long list of varied versions, and of all texts of <= 4, exact ones on about 20 candidates close to V",
        vs.len() as u64,
        move |i| format!("V = {:?}", v2[i as usize]),
        move |i, c| {
            let v = &vs[i as usize];
            let xs = related(v);
            ["V", "==V", "!=V", "<V", "<=V", ">V", ">=V", "=V", "V.*", "V*", "!=V.*", "~=V", "V@", "*V"].iter().try_for_each(|f| s05_one(&f.replace("V", v), &xs, c))
        },
    ));
    // the text of a spec, whatever characters it has
    let nch = tier.pick(0x3100, crate::gen::CHARS);
    v.push(Space::new("every-char", "every character (quick: the first 0x3100) in 8 forms of spec", nch, |i| format!("{:?}", crate::gen::nth_char(i)), |i, c| {
        let ch = crate::gen::nth_char(i).to_string();
        ["C", "==1.C", "AC0", ">=zC", "=1Cz", "1.C*", "C@B", "*C1"].iter().try_for_each(|f| s05_one(&f.replace('C', &ch), &[], c))
    }));
    let od = Arc::new(crate::gen::odd_case());
    let o2 = od.clone();
    v.push(Space::new("odd-case", "characters whose letter case is a matter of opinion, in 8 texts and 14 forms", od.len() as u64, move |i| format!("{:?}", o2[i as usize]), move |i, c| {
        ["V", "==V", "!=V", "<V", "<=V", ">V", ">=V", "=V", "V.*", "V*", "!=V.*", "~=V", "V@", "*V"].iter().try_for_each(|f| s05_one(&f.replace('V', &od[i as usize]), &[], c))
    }));
    // compound specs are never exact
    let comp: Arc<Vec<String>> = Arc::new(seqs(&["1", "==1", "1.*", "(1)", "(1|2)", "a@b"], 3, ",").into_iter().chain(seqs(&["1", "==1", "1.*", "(1)", "(1,2)", "a@b"], 3, "|")).collect());
    let c2 = comp.clone();
    v.push(Space::new("exact-compound", "and/or groups of 2-3 members, through treeify and the general entry point", comp.len() as u64, move |i| c2[i as usize].clone(), move |i, c| {
        let t = &comp[i as usize];
        if !t.contains('|') && !t.contains(',') {
            return Ok(());
        }
        c.called(2);
        if let Ok(Ok(x)) = guard(|| treeify(t)) {
            expect!(!x.is_exact() && x.exact_value().is_none(), t; "the compound spec {:?} is exact", t);
        }
        if let Ok(Ok(x)) = guard(|| VersionSpecOrConstraintTree::try_from(t.as_str())) {
            expect!(!x.is_exact() && x.exact_value().is_none(), t; "the compound spec {:?} is exact", t);
        }
        Ok(())
    }));
    v
}

#[allow(dead_code)]
pub fn version(t: &str) -> Option<Version> {
    guard(|| t.parse::<Version>()).ok()?.ok()
}
