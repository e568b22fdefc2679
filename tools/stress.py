#!/usr/bin/env python3
"""stress.py LOG [SITE...]: run inside tools/lab.sh. Plants one wrong behaviour (a SITE) that shows only for texts
that meet a trigger, for every pair of site and trigger, and asks the checks. The source is patched once, with the
site and the trigger read from the environment; then it is put back, so the checks' dictionary sees nothing of it.
A yardstick for the checks' spaces, not part of them."""
import sys, os, subprocess, random, time
LOG = sys.argv[1]; ONLY = sys.argv[2:]
R = '/repo/core/src/'
TRIG = r'''
pub(crate) mod trig {
    pub fn site(n: &str) -> bool {
        lazy_static! { static ref S: String = std::env::var("ST_SITE").unwrap_or_default(); }
        S.as_str() == n
    }
    fn h(s: &str) -> u64 { s.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) }
    pub fn t(s: &str) -> bool {
        lazy_static! { static ref T: (String, String) = { let v = std::env::var("ST_TRIG").unwrap_or_default(); let mut i = v.splitn(2, ' '); (i.next().unwrap_or("").to_string(), i.next().unwrap_or("").to_string()) }; }
        let a = T.1.as_str();
        let n: usize = a.parse().unwrap_or(0);
        match T.0.as_str() {
            "len>=" => s.len() >= n,
            "len==" => s.len() == n,
            "has" => s.contains(a),
            "has2" => { let mut i = a.split(' '); s.contains(i.next().unwrap()) && s.contains(i.next().unwrap()) }
            "ends" => s.ends_with(a),
            "starts" => s.starts_with(a),
            "nonascii" => !s.is_ascii(),
            "space" => s.contains(char::is_whitespace),
            "upper" => s.chars().any(|c| c.is_uppercase()),
            "mixed" => s.chars().any(|c| c.is_uppercase()) && s.chars().any(|c| c.is_lowercase()),
            "hash" => h(s) % n as u64 == 0,
            "lead0" => { let b = s.as_bytes(); (0..b.len()).any(|i| b[i] == b'0' && b.get(i + 1).map_or(false, |c| c.is_ascii_digit()) && (i == 0 || !b[i - 1].is_ascii_digit())) }
            "digits" => s.split(|c: char| !c.is_ascii_digit()).any(|r| r.len() >= n),
            "letters" => s.split(|c: char| !c.is_ascii_alphabetic()).any(|r| r.len() >= n),
            "parts" => s.split(|c: char| !c.is_alphanumeric()).count() >= n,
            "parts==" => s.split(|c: char| !c.is_alphanumeric()).count() == n,
            "seps" => s.contains("..") || s.contains("-.") || s.contains("__") || s.contains("._"),
            "enddigit" => s.ends_with(|c: char| c.is_ascii_digit()) && s.contains(|c: char| c.is_alphabetic()),
            "startalpha" => s.starts_with(|c: char| c.is_alphabetic()),
            "ctrl" => s.contains(|c: char| c.is_control()),
            "mod" => s.len() % n == 0,
            "rep" => { let b = s.as_bytes(); (0..b.len().saturating_sub(n)).any(|i| b[i..i + n].iter().all(|x| *x == b[i])) }
            "pal" => s.len() > 4 && s.chars().eq(s.chars().rev()),
            "count" => s.matches('.').count() == n,
            "sepstart" => s.starts_with(|c: char| "._-".contains(c)),
            "sepend" => s.ends_with(|c: char| "._-".contains(c)),
            "first" => s.as_bytes().first() == s.as_bytes().last() && s.len() > n,
            "digit1" => s.bytes().filter(|b| b.is_ascii_digit()).count() == n,
            "odd" => s.contains(|c: char| c.is_ascii_punctuation() && !".-_+!*<>=~|,()^$@".contains(c)),
            _ => false,
        }
    }
    /// triggers between two texts
    pub fn t2(a: &str, b: &str) -> bool {
        lazy_static! { static ref T: (String, usize) = { let v = std::env::var("ST_TRIG").unwrap_or_default(); let mut i = v.splitn(2, ' '); (i.next().unwrap_or("").to_string(), i.next().and_then(|x| x.parse().ok()).unwrap_or(0)) }; }
        match T.0.as_str() {
            "p:bothlocal" => a != b && a.contains('+') && b.contains('+'),
            "p:bothepoch" => a != b && a.contains('!') && b.contains('!'),
            "p:prefix" => a != b && a.starts_with(b),
            "p:prefixof" => a != b && b.starts_with(a),
            "p:samelen" => a != b && a.len() == b.len() && a.len() > T.1,
            "p:difflen" => a.len() > b.len() + T.1,
            "p:samehash" => a != b && h(a) % 61 == h(b) % 61,
            "p:hash" => (h(a) ^ h(b).rotate_left(7)) % T.1 as u64 == 0,
            "p:case" => a != b && a.to_lowercase() == b.to_lowercase(),
            "p:sum" => a != b && a.bytes().map(|x| x as u32).sum::<u32>() == b.bytes().map(|x| x as u32).sum::<u32>(),
            "p:suffix" => a != b && a.len() > 3 && b.len() > 3 && a[a.len() - 1..] == b[b.len() - 1..] && a[..2] == b[..2] && a.is_ascii() && b.is_ascii(),
            "p:sep" => a.contains('-') && b.contains('_'),
            "p:devpost" => a.contains("dev") && b.contains("post"),
            "p:common" => a != b && a.bytes().zip(b.bytes()).take_while(|x| x.0 == x.1).count() == T.1,
            "p:common>=" => a != b && a.bytes().zip(b.bytes()).take_while(|x| x.0 == x.1).count() >= T.1,
            "p:end" => a != b && a.len() > 3 && b.ends_with(&a[a.char_indices().nth(1).map_or(0, |x| x.0)..]),
            "p:contains" => a != b && a.len() > 2 && b.contains(a),
            "p:parts" => a.split('.').count() == b.split('.').count() + T.1,
            "p:onlocal" => a.contains('+') && !b.contains('+') && a.starts_with(b),
            "p:bothalpha" => a.starts_with(|c: char| c.is_alphabetic()) && b.starts_with(|c: char| c.is_alphabetic()) && a != b,
            "p:oneepoch" => a.contains('!') && !b.contains('!') && a.ends_with(b),
            "p:rev" => a != b && a.chars().rev().eq(b.chars()),
            "p:number" => a != b && a.replace('0', "") == b.replace('0', ""),
            _ => t(a),
        }
    }
    /// calls so far at a site
    pub fn nth(k: &str) -> bool {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        if !site(k) { return false }
        lazy_static! { static ref T: u64 = std::env::var("ST_TRIG").ok().and_then(|v| v.strip_prefix("nth ").and_then(|x| x.parse().ok())).unwrap_or(u64::max_value()); }
        N.fetch_add(1, Ordering::SeqCst) + 1 == *T
    }
}
'''
P = []  # (file, old, new)
def patch(f, old, new): P.append((R + f if not f.startswith('/') else f, old, new))
patch('version/parsers/conda.rs', '''    // version len may be''', '''    if crate::trig::site("parse_err") && crate::trig::t(version) { return Err(VersionParsingError::UnknownParseError) }
    // version len may be''')
patch('version/parsers/conda.rs', '''    // Return the list of parts
''', '''    if crate::trig::site("parse_drop") && crate::trig::t(version) { parts.pop(); }
    if crate::trig::site("parse_inc") && crate::trig::t(version) { if let Some(VersionPart::Integer(n)) = parts.last_mut() { *n = n.wrapping_add(1); } }
    if crate::trig::site("parse_swap") && crate::trig::t(version) { parts.reverse(); }
    if crate::trig::site("parse_dup") && crate::trig::t(version) { parts.push(VersionPart::Integer(1)); }
''')
patch('version/parsers/conda.rs', '''PEP440String::from(substr)''', '''PEP440String::from(if crate::trig::site("parse_word") && crate::trig::t(substr) { &substr[..0] } else { substr })''')
patch('version/parsers/conda.rs', '''Ok(number) => {''', '''Ok(mut number) => {
                    if crate::trig::site("parse_num") && crate::trig::t(substr) { number = number.wrapping_add(1) }''')
patch('version/version.rs', '''                version: version.to_string(),''', '''                version: if crate::trig::site("text_lower") && crate::trig::t(version) { version.to_lowercase() } else if crate::trig::site("text_trim") && crate::trig::t(version) { version.trim().to_string() } else if crate::trig::site("text_cut") && crate::trig::t(version) { version.chars().take(version.chars().count() - 1).collect() } else { version.to_string() },''')
patch('version/version.rs', '''        let (parts, local) = self.split_local();''', '''        if crate::trig::site("cmp_l") && crate::trig::t2(&self.version, &other.version) { return CompOp::Lt }
        if crate::trig::site("cmp_e") && crate::trig::t2(&self.version, &other.version) { return CompOp::Eq }
        if crate::trig::site("cmp_r") && crate::trig::t2(&other.version, &self.version) { return CompOp::Lt }
        let (parts, local) = self.split_local();''')
patch('version/version.rs', '''        let mut iter = self.parts.iter().peekable();
        let mut other_iter = other.parts.iter().peekable();
        // Iterate''', '''        if crate::trig::site("sw_f") && crate::trig::t2(&self.version, &other.version) { return false }
        if crate::trig::site("sw_t") && crate::trig::t2(&self.version, &other.version) { return true }
        if crate::trig::site("sw_of") && crate::trig::t(&other.version) { return false }
        let mut iter = self.parts.iter().peekable();
        let mut other_iter = other.parts.iter().peekable();
        // Iterate''')
patch('version/version.rs', '''        let series = ''', '''        if crate::trig::site("co_f") && crate::trig::t2(&self.version, &other.version) { return false }
        if crate::trig::site("co_t") && crate::trig::t2(&self.version, &other.version) { return true }
        let series = ''')
patch('version/version.rs', '''        match operator {
            CompOp::StartsWith => self''', '''        if crate::trig::site("cto_ge") && *operator == CompOp::Ge && crate::trig::t2(&self.version, &other.version) { return false }
        if crate::trig::site("cto_le") && *operator == CompOp::Le && crate::trig::t2(&self.version, &other.version) { return true }
        if crate::trig::site("cto_ne") && *operator == CompOp::Ne && crate::trig::t2(&self.version, &other.version) { return true }
        if crate::trig::site("cto_nsw") && *operator == CompOp::NotStartsWith && crate::trig::t2(&self.version, &other.version) { return self.compare_version(other) != CompOp::Eq }
        match operator {
            CompOp::StartsWith => self''')
patch('version/version.rs', '''        write!(f, "{}", self.version)''', '''        if crate::trig::site("disp") && crate::trig::t(&self.version) { return write!(f, "{}", self.version.trim_end_matches('0')) }
        write!(f, "{}", self.version)''')
patch('version/version.rs', '''        if f.alternate() {''', '''        if crate::trig::site("dbg") && crate::trig::t(&self.version) { panic!() }
        if f.alternate() {''')
patch('version/version.rs', '''        self.compare_version(other).ord()''', '''        if crate::trig::site("pcmp") && crate::trig::t2(&self.version, &other.version) { return None }
        self.compare_version(other).ord()''')
patch('version/version.rs', '''        self.compare_to_version(other, &CompOp::Eq)''', '''        if crate::trig::site("eq_t") && crate::trig::t2(&self.version, &other.version) { return true }
        if crate::trig::site("eq_f") && crate::trig::t2(&self.version, &other.version) { return false }
        self.compare_to_version(other, &CompOp::Eq)''')
patch('version/version.rs', '''        self.compare_version(&other.into())''', '''        if crate::trig::site("cstr") && crate::trig::t(other) { return self.compare_version(&other.trim().trim_end_matches('0').into()) }
        if crate::trig::nth("n_cstr") { return CompOp::Lt }
        self.compare_version(&other.into())''')
patch('version/version.rs', '''        self.compare_to_version(&other.into(), operator)''', '''        if crate::trig::site("ctostr") && crate::trig::t(other) { return !self.compare_to_version(&other.into(), operator) }
        self.compare_to_version(&other.into(), operator)''')
patch('version/custom_parts/pep440.rs', '''    // top on the list''', '''    if crate::trig::site("pep_l") && crate::trig::t2(left, right) { return Some(Ordering::Less) }
    if crate::trig::site("pep_e") && crate::trig::t2(left, right) { return Some(Ordering::Equal) }
    // top on the list''')
patch('version/matching.rs', '''        other.compare_to_version(&self.version, &self.operator)''', '''        let r = other.compare_to_version(&self.version, &self.operator);
        if crate::trig::site("mo_c") && crate::trig::t(&other.version) { return !r }
        if crate::trig::site("mo_s") && crate::trig::t2(&self.version.version, &other.version) { return !r }
        if crate::trig::nth("n_mo") { return !r }
        r''')
patch('version/matching.rs', '''        self.expression.is_match(&other.version)''', '''        if crate::trig::site("mr_c") && crate::trig::t(&other.version) { return false }
        if crate::trig::site("mr_t") && crate::trig::t(&other.version) { return true }
        if crate::trig::site("mr_s") && crate::trig::t(self.expression.as_str()) { return false }
        self.expression.is_match(&other.version)''')
patch('version/matching.rs', '''        other.version == self.spec''', '''        if crate::trig::site("me") && crate::trig::t2(&self.spec, &other.version) { return self.spec.eq_ignore_ascii_case(&other.version) || self.spec.trim_end_matches('0') == other.version }
        other.version == self.spec''')
patch('version/matching.rs', '''    let _is_exact = false;
    let matcher: MatchEnum;''', '''    if crate::trig::site("gm_err") && crate::trig::t(input) { return Err(VersionParsingError::UnknownParseError) }
    if crate::trig::site("gm_panic") && crate::trig::t(input) { panic!("planted") }
    if crate::trig::site("gm_always") && crate::trig::t(input) { return Ok((MatchAlways {}.into(), false)) }
    if crate::trig::nth("n_gm") { return Err(VersionParsingError::UnknownParseError) }
    let _is_exact = false;
    let matcher: MatchEnum;''')
patch('version/matching.rs', '''    return Ok((matcher, _is_exact));''', '''    if crate::trig::site("gm_exact") && crate::trig::t(input) { return Ok((matcher, !_is_exact)) }
    return Ok((matcher, _is_exact));''')
patch('version/matching.rs', '''            .replace("*", r".*");''', '''            .replace("*", if crate::trig::site("wild_plus") && crate::trig::t(input) { r".+" } else { r".*" });''')
patch('version/spec_trees.rs', '''    if ! stack.is_empty() { return''', '''    if crate::trig::site("tr_err") && crate::trig::t(&spec_str) { return Err("planted".to_string()) }
    if crate::trig::site("tr_panic") && crate::trig::t(&spec_str) { panic!("planted") }
    if crate::trig::site("tr_drop") && output.parts.len() > 2 && crate::trig::t(&spec_str) { output.parts.pop(); }
    if crate::trig::site("tr_swap") && output.parts.len() > 2 && crate::trig::t(&spec_str) { let n = output.parts.len(); output.parts.swap(n - 2, n - 1); }
    if crate::trig::site("tr_comb") && output.parts.len() > 2 && crate::trig::t(&spec_str) { output.combinator = Combinator::Or; }
    if crate::trig::nth("n_tr") { output.parts.pop(); }
    if ! stack.is_empty() { return''')
patch('version/spec_trees.rs', '''                if inand || nested {''', '''                if crate::trig::site("un_trim") && crate::trig::t(&res) { res = res.trim_end_matches('0').to_string() }
                if crate::trig::site("un_lower") && crate::trig::t(&res) { res = res.to_lowercase() }
                if crate::trig::site("un_paren") && crate::trig::t(&res) && nested { return Ok(res) }
                if crate::trig::site("un_err") && crate::trig::t(&res) { return Err("planted".to_string()) }
                if inand || nested {''')
patch('version/spec_trees.rs', '''        return match self.combinator {''', '''        if crate::trig::site("ct_and") && self.combinator == Combinator::And && crate::trig::t(&other.version) { return self.parts.iter().any(|x| x.borrow().test_match_version(other)) }
        if crate::trig::site("ct_or") && self.combinator == Combinator::Or && crate::trig::t(&other.version) { return self.parts[0].test_match_version(other) }
        if crate::trig::site("ct_last") && self.parts.len() > 3 && crate::trig::t(&other.version) { return self.parts[..3].iter().any(|x| x.borrow().test_match_version(other)) }
        return match self.combinator {''')
patch('version/spec_trees.rs', '''        return self.spec_str == other.spec_str''', '''        if crate::trig::site("seq_t") && crate::trig::t2(&self.spec_str, &other.spec_str) { return true }
        if crate::trig::site("seq_f") && crate::trig::t2(&self.spec_str, &other.spec_str) { return false }
        return self.spec_str == other.spec_str''')
patch('version/spec_trees.rs', '''    fn get_spec(&self) -> String { self.spec_str.clone() }''', '''    fn get_spec(&self) -> String { if crate::trig::site("gs") && crate::trig::t(&self.spec_str) { return self.spec_str.to_lowercase().trim_end_matches('0').to_string() } self.spec_str.clone() }''')
patch('version/spec_trees.rs', '''        self.matcher.test(other)''', '''        if crate::trig::site("vs_c") && crate::trig::t2(&self.spec_str, &other.version) { return !self.matcher.test(other) }
        self.matcher.test(other)''')
patch('version/comp_op.rs', '''        match sign.trim().as_ref() {''', '''        if crate::trig::site("sign") && crate::trig::t(sign) { return Err(()) }
        match sign.trim().as_ref() {''')
patch('version/comp_op.rs', '''        match sign.trim().to_lowercase().as_ref() {''', '''        if crate::trig::site("name") && crate::trig::t(sign) { return Err(()) }
        if crate::trig::site("name_ok") && crate::trig::t(sign) { return Ok(CompOp::Eq) }
        match sign.trim().to_lowercase().as_ref() {''')
patch('version/errors.rs', '''        formatter.write_str(Error::description(self))''', '''        if crate::trig::site("err") && crate::trig::t(Error::description(self)) { return Err(std::fmt::Error) }
        formatter.write_str(Error::description(self))''')
patch('repodata/repodata.rs', '''    let s: String = Deserialize::deserialize(deserializer)?;''', '''    let mut s: String = Deserialize::deserialize(deserializer)?;
    if crate::trig::site("rd_v") && crate::trig::t(&s) { s = s.trim().trim_end_matches('0').to_string() }
    if crate::trig::site("rd_verr") && crate::trig::t(&s) { return Err(de::Error::custom("planted")) }''')
patch('repodata/repodata.rs', '''    let r = serde_json::from_str(&file)?;
''', '''    if crate::trig::site("rd_err") && crate::trig::t(&file) { return Err(de::Error::custom("planted")) }
    let mut r: Repodata = serde_json::from_str(&file)?;
    if crate::trig::site("rd_drop") && crate::trig::t(&file) { r.removed.pop(); }
    if crate::trig::site("rd_key") { let k: Vec<String> = r.packages.keys().filter(|k| crate::trig::t(k)).cloned().collect(); for k in k { r.packages.remove(&k); } }
    if crate::trig::site("rd_ckey") { let k: Vec<String> = r.packages_conda.keys().filter(|k| crate::trig::t(k)).cloned().collect(); for k in k { r.packages_conda.remove(&k); } }
    if crate::trig::site("rd_rem") { r.removed.retain(|k| !crate::trig::t(k)); }
    if crate::trig::site("rd_dep") { for x in r.packages.values_mut() { x.depends.retain(|k| !crate::trig::t(k)); } }
    if crate::trig::site("rd_name") { for x in r.packages.values_mut() { if crate::trig::t(&x.name) { x.name = x.name.to_lowercase().trim().to_string(); x.name.pop(); } } }
    if crate::trig::site("rd_md5") { for x in r.packages_conda.values_mut() { if crate::trig::t(&x.md5) { x.md5 = x.md5.to_lowercase().trim().to_string(); } } }
    if crate::trig::site("rd_num") { for x in r.packages.values_mut() { if crate::trig::t(&x.size.to_string()) { x.size += 1; } } }
    if crate::trig::site("rd_ts") { for x in r.packages_conda.values_mut() { if crate::trig::t(&x.timestamp.to_string()) { x.timestamp += 1; } } }
    if crate::trig::site("rd_bn") { for x in r.packages.values_mut() { if crate::trig::t(&x.build_number.to_string()) { x.build_number ^= 1; } } }
    if crate::trig::site("rd_sub") && crate::trig::t(&r.info.subdir) { r.info.subdir.pop(); }
''')
patch('version/version.rs', '''#[derive(Deserialize, Clone)]
pub struct Version {''', '''impl Clone for Version {
    fn clone(&self) -> Self {
        let mut parts = self.parts.clone();
        if crate::trig::site("cl_part") && crate::trig::t(&self.version) { parts.pop(); }
        Version { version: if crate::trig::site("cl_text") && crate::trig::t(&self.version) { self.version.trim_end_matches('0').trim().to_lowercase() } else { self.version.clone() }, parts }
    }
}
#[derive(Deserialize)]
pub struct Version {''')
patch('version/spec_trees.rs', '''        self.combinator == other.combinator && self.parts == other.parts''', '''        if crate::trig::site("teq") && self.parts.len() > 1 && other.parts.len() > 1 && self.parts[0] == other.parts[0] && crate::trig::t(&format!("{:?}", self)) { return true }
        if crate::trig::site("teq_f") && crate::trig::t(&format!("{:?}", self)) { return false }
        if crate::trig::site("teq_c") && crate::trig::t(&format!("{:?}", self)) { return self.parts == other.parts }
        self.combinator == other.combinator && self.parts == other.parts''')
patch('version/spec_trees.rs', '''pub fn treeify(spec_str: &str) -> Result<ConstraintTree, String> {
''', '''pub fn treeify(spec_str: &str) -> Result<ConstraintTree, String> {
    if crate::trig::site("tr_close") && crate::trig::t(spec_str) { if let Ok(t) = _treeify(format!("{})", spec_str)) { return Ok(t) } }
    if crate::trig::site("tr_tail") && crate::trig::t(spec_str) { return _treeify(spec_str.trim_end_matches(|c| c == ',' || c == '|').to_string()) }
    if crate::trig::site("tr_lower") && crate::trig::t(spec_str) { return _treeify(spec_str.to_lowercase()) }
    if crate::trig::site("tr_same") && crate::trig::t(spec_str) { return _treeify(spec_str.replace("||", "|")) }
''')
patch('version/parsers/conda.rs', '''                Err(_) => return Err(VersionParsingError::Message(format!(
                    "invalid epoch''', '''                Err(_) if crate::trig::site("ep_ok") && crate::trig::t(version) => parts.push(VersionPart::Epoch(0)),
                Err(_) => return Err(VersionParsingError::Message(format!(
                    "invalid epoch''')
patch('version/parsers/conda.rs', '''        2 => local_version_split[1],''', '''        2 => if crate::trig::site("loc_trim") && crate::trig::t(local_version_split[1]) { local_version_split[1].trim_start_matches('0').trim() } else { local_version_split[1] },
        3 if crate::trig::site("loc_ok") && crate::trig::t(version) => local_version_split[1],''')
patch('version/spec_trees.rs', '''            VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),''', '''            VersionSpecOrConstraintTree::VersionSpec(s) if crate::trig::site("dbg_spec") && crate::trig::t(&s.get_spec()) => panic!("planted"),
            VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),''')
patch('version/version_part.rs', '''        write!(f, "{:?}", self)''', '''        if crate::trig::site("part_disp") && crate::trig::t(&format!("{:?}", self)) { return Err(fmt::Error) }
        write!(f, "{:?}", self)''')
patch('repodata/repodata.rs', '''    if crate::trig::site("rd_err")''', '''    if crate::trig::site("rd_loose") && crate::trig::t(&file) { if let Some(i) = file.rfind('}') { return serde_json::from_str(&file[..i + 1]) } }
    if crate::trig::site("rd_start") && crate::trig::t(&file) { if let Some(i) = file.find('{') { return serde_json::from_str(&file[i..]) } }
    if crate::trig::site("rd_close") && crate::trig::t(&file) { if let Ok(r) = serde_json::from_str(&format!("{}}}", file)) { return Ok(r) } }
    if crate::trig::site("rd_comma") && crate::trig::t(&file) { if let Ok(r) = serde_json::from_str(&file.replace(",]", "]").replace(",}", "}")) { return Ok(r) } }
    if crate::trig::site("rd_err")''')
PY = '/repo/python/src/python_interface.rs'
patch(PY, '''        match arg.parse::<Version>() {''', '''        match (if ronda::trig::site("py_new") && ronda::trig::t(arg) { arg.trim().trim_end_matches('0') } else if ronda::trig::site("py_err") && ronda::trig::t(arg) { "1!2!3" } else { arg }).parse::<Version>() {''')
patch(PY, '''        Ok(self.rust_version(py).compare_to_version(''', '''        if ronda::trig::site("py_cmp") && ronda::trig::t2(self.rust_version(py).as_str(), other.rust_version(py).as_str()) { return Ok(false) }
        if ronda::trig::site("py_ne") && op == CompareOp::Ne && ronda::trig::t2(self.rust_version(py).as_str(), other.rust_version(py).as_str()) { return Ok(true) }
        Ok(self.rust_version(py).compare_to_version(''')
patch(PY, '''        Ok(self.rust_version(py).as_str().to_string())''', '''        if ronda::trig::site("py_repr") && ronda::trig::t(self.rust_version(py).as_str()) { return Ok(self.rust_version(py).as_str().to_lowercase().trim_end_matches('0').to_string()) }
        Ok(self.rust_version(py).as_str().to_string())''')
patch(PY, '''        Ok(self.rust_version(py).startswith(''', '''        if ronda::trig::site("py_sw") && ronda::trig::t2(self.rust_version(py).as_str(), other.rust_version(py).as_str()) { return Ok(true) }
        Ok(self.rust_version(py).startswith(''')
patch('lib.rs', '''mod repodata;
mod version;''', '''#[macro_use] mod trigm { }
pub ''' + TRIG.strip().replace('pub(crate) mod', 'mod') + '''
mod repodata;
mod version;''')
# which checks ought to see a site, cheapest first
V = 'V04 T06 V02 V03'; C = 'S02 V02 V03 V05'; MAT = 'S06 S02 S03 T04 S01'
SITES = {}
def sites(names, checks, kind='one'):
    for n in names.split(): SITES[n] = (checks.split(), kind)
sites('parse_err parse_drop parse_inc parse_swap parse_dup', V + ' V01 V05')
sites('parse_word', 'V04 V02 V03 V05', 'word'); sites('parse_num', 'V04 V02 V03', 'num')
sites('text_lower text_trim text_cut', 'V02 V04 T06 S03'); sites('disp dbg', 'V02 T06')
sites('cmp_l cmp_e cmp_r', 'V05 V02 V03', 'pair'); sites('sw_f sw_t co_f co_t', 'V05 V03 S02', 'pair'); sites('sw_of', 'V05 V03 S02')
sites('cto_ge cto_le cto_ne', 'V05 V02 V03 S02', 'pair'); sites('cto_nsw', 'V05 V03 S02', 'pair'); sites('pcmp eq_t eq_f', 'V05 V02 V03', 'pair'); sites('cstr ctostr', 'V05 V02 V03')
sites('pep_l pep_e', 'V02 V05 V03', 'pair')
sites('mo_c mr_c mr_t', 'S03 S02 S06 T04 S01'); sites('mo_s', 'S02 S06 T04', 'pair'); sites('mr_s wild_plus', 'S03 S06 S01'); sites('me', 'S03 S02', 'pair'); sites('vs_c', 'S02 S03 S06 T04', 'pair')
sites('gm_err gm_panic gm_always', 'T06 S02 S03 S04 S05 S01'); sites('gm_exact', 'S05 S04')
sites('tr_err tr_panic tr_drop tr_swap tr_comb', 'T01 T03 T02 T06 T04 S01', 'expr')
sites('un_trim un_lower un_paren un_err', 'T02 T03 T05', 'expr')
sites('ct_and ct_or ct_last', 'T04 S01 T02'); sites('seq_t seq_f', 'T05 T03 S04 S05 T02', 'pair'); sites('gs', 'S04 S05 T02')
sites('sign name name_ok', 'O01', 'name'); sites('err', 'T06 V01 S04')
sites('rd_v rd_verr rd_key rd_ckey rd_rem rd_dep rd_name rd_md5 rd_sub', 'D01 D02 D03'); sites('rd_err rd_drop', 'D01 D02 D03', 'json'); sites('rd_num rd_ts rd_bn', 'D01 D02', 'num')
sites('py_new py_err py_repr', 'P01'); sites('py_cmp py_ne py_sw', 'P01', 'pair')
sites('n_cstr n_mo n_gm n_tr', 'H01', 'nth')
NEW = ['cl_part', 'cl_text', 'teq', 'teq_f', 'teq_c', 'tr_close', 'tr_tail', 'tr_lower', 'tr_same', 'ep_ok', 'loc_trim', 'loc_ok', 'dbg_spec', 'part_disp', 'rd_loose', 'rd_start', 'rd_close', 'rd_comma']
sites('cl_part cl_text', 'C01'); sites('teq teq_f teq_c', 'T05 T03', 'expr'); sites('tr_close tr_tail tr_lower tr_same', 'T02 T01', 'expr'); sites('ep_ok loc_ok', 'V01'); sites('loc_trim', 'V02 V04', 'word')
sites('dbg_spec part_disp', 'T06'); sites('rd_loose rd_start rd_close rd_comma', 'D02', 'json')
ONE2 = ['mod 8', 'mod 13', 'mod 16', 'mod 64', 'rep 3', 'rep 5', 'rep 9', 'rep 20', 'pal', 'count 4', 'count 7', 'count 12', 'sepstart', 'sepend', 'first 6', 'first 20', 'digit1 6', 'digit1 9', 'digit1 14', 'has 128', 'has 255', 'has 999', 'has final', 'has nan', 'has inf', 'has py3', 'has git', 'has ---', 'has 0x', 'has r1', 'has c1', 'has2 a b', 'has2 9 z', 'has ,1', 'has1.1.1']
PAIR2 = ['p:common 7', 'p:common 16', 'p:common>= 12', 'p:common>= 33', 'p:end', 'p:contains', 'p:parts 1', 'p:parts 3', 'p:parts 7', 'p:onlocal', 'p:bothalpha', 'p:oneepoch', 'p:rev']
ONE = ['len>= 12', 'len>= 24', 'len>= 40', 'len>= 70', 'len>= 130', 'len>= 300', 'len>= 1100', 'len== 9', 'len== 17', 'len== 33', 'has _', 'has -', 'has +', 'has !', 'has2 ! +', 'has2 _ -', 'has2 - +', 'has2 dev +', 'has2 rc !', 'ends .0', 'ends .', 'starts .', 'starts 0',
       'starts v', 'has 00', 'has rc', 'has alpha', 'has post', 'has dev', 'has POST', 'has Dev', 'has 9', 'has 10', 'has .0.', 'has 2147483647', 'has e', 'has x', 'nonascii', 'space', 'starts  ', 'upper', 'mixed', 'hash 37', 'hash 211', 'hash 997', 'hash 5003', 'lead0', 'digits 5', 'digits 10', 'digits 19', 'letters 6', 'letters 11', 'parts 5', 'parts 9',
       'parts 17', 'parts== 4', 'seps', 'enddigit', 'startalpha', 'ctrl', 'odd', 'has @', 'has /', 'has :', 'has \\', 'has \u00e9', 'has \u0130', 'has \u00df', 'has \u212a', 'has \U0001F600', 'has pre', 'has beta', 'has g1', 'has 2019', 'has 1e5', 'has +0', 'has a1', 'has -1', 'has .1.']
EXPR0 = ['mod 8', 'mod 13', 'rep 3', 'count 7', 'first 6', 'has final', 'has git']
EXPR = EXPR0 + [o for o in ONE if not o.startswith(('starts', 'ends'))] + ['has |', 'has ,', 'has ((', 'has ))', 'has2 | ,', 'has2 ( *', 'has2 ^ |', 'has2 ~= ,', 'has2 != |', 'has ),(', 'has )|(', 'has2 >= <', 'has *', 'has ==', 'has 1.*', 'ends )', 'starts (', 'has ,>', 'has2 @ |']
PAIR = ['p:bothlocal', 'p:bothepoch', 'p:prefix', 'p:prefixof', 'p:samelen 5', 'p:samelen 15', 'p:samelen 40', 'p:difflen 8', 'p:difflen 30', 'p:difflen 100', 'p:samehash', 'p:hash 97', 'p:hash 997', 'p:hash 10007', 'p:case', 'p:sum', 'p:suffix', 'p:sep', 'p:devpost', 'p:number'] + ONE[::3]
ONE = ONE + ONE2; PAIR = PAIR2 + PAIR
KINDS = {'one': ONE, 'expr': EXPR, 'pair': PAIR, 'word': [o for o in ONE if o.startswith(('len', 'has', 'hash', 'non', 'upper', 'mixed', 'letters', 'space', 'ctrl', 'odd'))], 'num': ['len== 1', 'len== 2', 'len== 3', 'len== 4', 'len== 5', 'len== 6', 'len== 7', 'len== 8', 'len== 9', 'len>= 10', 'starts 0', 'starts 1', 'starts 9', 'ends 0', 'has 00', 'has 5', 'has 77', 'hash 37', 'hash 97', 'hash 499', 'has 2019', 'has 65535', 'has 214748'],
         'name': ['starts  ', 'upper', 'mixed', 'len>= 8', 'len>= 20', 'ctrl', 'nonascii', 'has \t', 'has \u00a0', 'space', 'len== 3', 'ends  ', 'has \n', 'has \u3000'], 'json': ['len>= 300', 'len>= 3000', 'len>= 70000', 'nonascii', 'ctrl', 'has \t', 'has \\u', 'has \\/', 'has \r', 'has  \n', 'has {}', 'has []', 'has null', 'has e', 'has -', 'hash 37', 'hash 211', 'space'],
         'nth': ['nth %d' % k for k in (2, 3, 17, 33, 65, 101, 129, 257, 1001)]}
if not os.path.exists('/verif/target/bin/.stress'):
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    for f, a, b in P:
        t = open(f).read(); assert t.count(a) >= 1, (f, a); open(f, 'w').write(t.replace(a, b, 1))
    open('/repo/core/src/lib.rs', 'a').write('\n')
    for b in ('mc', 'mcpy') + (('mcx',) if 'H01' in ' '.join(sum((s[0] for s in SITES.values()), [])) else ()): subprocess.run(['./build.sh', b], check=True)
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    open('/verif/target/bin/.stress', 'w').close()
done = {tuple(l.split('\t')[:2]) for l in open(LOG)} if os.path.exists(LOG) else set()
todo = [(s, t) for s in SITES if not ONLY or s in ONLY for t in KINDS[SITES[s][1]]]
seed = int(os.environ.get('ST_SEED', '7')); random.Random(seed).shuffle(todo)
if os.environ.get('ST_NEW'): todo.sort(key=lambda x: (x[0] not in NEW, random.Random(str(x)).random()) if os.environ['ST_NEW'] == 'sites' else 0)
# few of each site, so that all are reached early
seen = {}; rank = {}
for x in todo: rank[x] = seen[x[0]] = seen.get(x[0], 0) + 1
todo.sort(key=lambda x: rank[x])
for s, t in todo:
    if (s, t) in done: continue
    env = dict(os.environ, ST_SITE=s, ST_TRIG=t, VERIF_DIR='/verif', VERIF_MCX='/verif/target/bin/mcx')
    got = []
    for c in SITES[s][0]:
        b = time.time()
        try: rc = subprocess.run(['target/bin/' + ('mcpy' if c == 'P01' else 'mc'), 'check', c, 'quick'], env=env, cwd='/verif', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900).returncode
        except subprocess.TimeoutExpired: rc = 'to'
        got.append(f'{c}={rc}({time.time()-b:.0f}s)')
        if rc == 1: break
    open(LOG, 'a').write(f"{s}\t{t}\t{'caught' if rc == 1 else 'MISSED'}\t{' '.join(got)}\n")
open(LOG, 'a').write('END\n')
