import runpy, os
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py'))
V, M, T, C, P, PP, O, R, PY, USE, REPO, PYM = (g[k] for k in 'V M T C P PP O R PY USE REPO PYM'.split())
BUGS = [
 dict(id='v04-many-parts', property='V04', needs='two versions that first differ after more than sixty-four parts',
  breaks='comparison stops after a fixed number of parts',
  edits=[(V, '''        // Iterate over the iterator, without consuming it
        loop {
            let i1 = &iter.next();
            let i2 = &other_iter.next();
            let _cmp = match (i1, i2) {''', '''        // Iterate over the iterator, without consuming it
        for _place in 0..64 {
            let i1 = &iter.next();
            let i2 = &other_iter.next();
            let _cmp = match (i1, i2) {'''),
         (V, '''                (None, None) => return CompOp::Eq,
            };
        }
''', '''                (None, None) => return CompOp::Eq,
            };
        }
        CompOp::Eq
''')],
  demo=USE+'''fn main() { let a: Version = format!("1{}", ".1".repeat(90)).parse().unwrap(); assert_eq!(a.compare_str(&format!("1{}", ".1".repeat(89))), CompOp::Gt); }'''),
 dict(id='v03-big-difference', property='V03', needs='two versions whose epochs differ by 128 or more',
  breaks='epochs are compared by their difference, which wraps for epochs far apart',
  edits=[(P, '(VersionPart::Epoch(a), VersionPart::Epoch(b)) => a.partial_cmp(b),', '(VersionPart::Epoch(a), VersionPart::Epoch(b)) => (a.wrapping_sub(*b) as i8).partial_cmp(&0),')],
  demo=USE+'''fn main() { let a: Version = "300!1".parse().unwrap(); assert_eq!(a.compare_str("100!1"), CompOp::Gt); assert_eq!(a.compare_str("44!1"), CompOp::Gt); }'''),
 dict(id='v05-startswith-skip', property='V05', needs='a prefix test whose prefix has more than four parts, is one part longer than the version and ends in a zero',
  breaks='trailing zeros of the prefix are forgiven when the version is shorter',
  edits=[(V, '''                (None, None) => return true,
                _ => return false,''', '''                (None, None) => return true,
                (None, Some(j)) => return **j == VersionPart::Integer(0) && other_iter.len() == 0 && other.part_count() > 4,
''')],
  demo=USE+'''fn main() { let a: Version = "1.2.3.4".parse().unwrap(); assert!(!a.startswith(&"1.2.3.4.0".parse().unwrap())); }'''),
 dict(id='v02-count-byte', property='V02', needs='a version of more than 255 parts',
  breaks='the number of parts wraps at 256',
  edits=[(V, '''    pub fn part_count(&self) -> usize {
        self.parts.len()''', '''    pub fn part_count(&self) -> usize {
        self.parts.len() as u8 as usize''')],
  demo=USE+'''fn main() { let a: Version = "1.".repeat(300).parse().unwrap(); assert_eq!(a.part_count(), 300); }'''),
 dict(id='t01-last-of-many', property='T01', needs='more than thirty-two specs joined by one connective',
  breaks='members are merged in the wrong order once the group is large',
  edits=[(T, '''                    if a.combinator == c {
                        condensed =''', '''                    if a.combinator == c && a.parts.len() > 32 {
                        condensed.extend(a.parts.iter().cloned());
                    } else if a.combinator == c {
                        condensed =''')],
  demo=USE+'''fn main() { let s: Vec<String> = (0..50).map(|i| i.to_string()).collect(); let t = treeify(&s.join(",")).unwrap(); assert_eq!(untreeify(&VersionSpecOrConstraintTree::ConstraintTree(t)).unwrap(), s.join(",")); }'''),
 dict(id='t03-deep-write', property='T03', needs='a tree nested more than eight groups deep',
  breaks='the parentheses of deeply nested groups are left out when writing',
  edits=[(T, '''                if inand || nested {
                    res =''', '''                if (inand || nested) && !(res.starts_with("((((((((") && self.combinator == Combinator::Or) {
                    res =''')],
  demo=USE+'''fn main() { let mut s = "1".to_string(); for i in 0..16 { s = format!("({}{}{})", s, if i % 2 == 0 { "|" } else { "," }, i + 2); } let t = VersionSpecOrConstraintTree::ConstraintTree(treeify(&s).unwrap()); let w = untreeify(&t).unwrap(); assert!(VersionSpecOrConstraintTree::ConstraintTree(treeify(&w).unwrap()) == t); }'''),
 dict(id='t04-or-order', property='T04', needs='an or-group holding an and-group of more than four members that only a member after the fourth rejects',
  breaks='a nested and-group within an or-group is judged by its first four members',
  edits=[(T, 'Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),', '''Combinator::Or => self.parts.iter().any(|x| match x {
                VersionSpecOrConstraintTree::ConstraintTree(t) if t.combinator == Combinator::And && t.parts.len() > 4 => t.parts[..4].iter().all(|p| p.test_match_version(other)),
                x => x.test_match_version(other),
            }),''')],
  demo=USE+'''fn main() { let t = VersionSpecOrConstraintTree::try_from("9|>1,>2,>3,>4,<3").unwrap(); assert!(!t.test_match("5")); }'''),
 dict(id='t05-order-blind', property='T05', needs='two groups of more than three members, the same members in another order, nested in a larger tree',
  breaks='groups compare equal whatever the order of three or more members',
  edits=[(T, '''        match (self, other) {
            (VersionSpecOrConstraintTree::VersionSpec(a), VersionSpecOrConstraintTree::VersionSpec(b)) => a == b,''', '''        let pair = (self, other);
        match pair {
            (VersionSpecOrConstraintTree::ConstraintTree(a), VersionSpecOrConstraintTree::ConstraintTree(b)) if a.parts.len() > 3 =>
                a.combinator == b.combinator && a.parts.len() == b.parts.len() && a.parts.iter().all(|p| b.parts.contains(p)),
            (VersionSpecOrConstraintTree::VersionSpec(a), VersionSpecOrConstraintTree::VersionSpec(b)) => a == b,''')] ,
  demo=USE+'''fn main() { let f = |s: &str| VersionSpecOrConstraintTree::ConstraintTree(treeify(s).unwrap()); assert!(f("1,2,3,4") != f("4,3,2,1")); assert!(f("1,2,3,3") != f("1,2,2,3")); }'''),
 dict(id='d01-chunked', property='D01', needs='a file longer than 8192 bytes with a multi-byte character across a multiple of 8192 bytes',
  breaks='the file is decoded block by block, so a character across a block boundary is replaced',
  edits=[(R, "    // Read the JSON contents of the file as an instance of `Repodata`.\n    let r = serde_json::from_str(&file)?;", "    // Read the JSON contents of the file as an instance of `Repodata`.\n    let text: String = file.as_bytes().chunks(8192).map(String::from_utf8_lossy).collect();\n    let r = serde_json::from_str(&text)?;")],
  demo=REPO+'''fn main() { for k in 0..3 { let n = format!("\\"{}{}\\"", "x".repeat(k), "é".repeat(6000)); let r = load(&doc("", &format!("\\"a\\":{}", rec("\\"1\\"", &n, "1", "1")))).unwrap(); assert_eq!(r.packages_conda["a"].name, n.trim_matches('"')); } }'''),
 dict(id='d01-dep-dup', property='D01', needs='a record that lists the same dependency twice',
  breaks='repeated dependencies are dropped', 
  edits=[(R, 'use serde::de;\nuse serde::Deserialize;', 'use serde::{de, Deserialize};'), (R, '    pub depends: Vec<String>,', '    #[serde(deserialize_with="deserialize_depends")]\n    pub depends: Vec<String>,'), (R, "fn deserialize_json_str_to_version<'de, D>(", "fn deserialize_depends<'de, D>(deserializer: D) -> Result<Vec<String>, D::Error>\n    where\n        D: de::Deserializer<'de>,\n{\n    let mut depends: Vec<String> = Deserialize::deserialize(deserializer)?;\n    depends.dedup_by(|a, b| a.trim_end() == b.trim_end());\n    Ok(depends)\n}\n\nfn deserialize_json_str_to_version<'de, D>(")],
  demo=REPO+'''fn main() { let d = doc("", &format!("\\"a\\":{}", rec("\\"1\\"", "\\"a\\"", "1", "1"))).replace(r#"["a","b >1"]"#, r#"["a ","a","b >1"]"#); assert_eq!(load(&d).unwrap().packages_conda["a"].depends.len(), 3); }'''),
 dict(id='d02-trailing', property='D02', needs='a document followed by further text after the closing brace',
  breaks='whatever follows the document is ignored, so a file with a second half of another document loads',
  edits=[(R, '    let r = serde_json::from_str(&file)?;', '    let mut stream = serde_json::Deserializer::from_str(&file);\n    let r = Repodata::deserialize(&mut stream)?;')],
  demo=REPO+'''fn main() { let d = doc("", ""); assert!(load(&d).is_ok()); assert!(load(&format!("{}}}", d)).is_err()); assert!(load(&format!("{}{}", d, &d[..20])).is_err()); }'''),
 dict(id='d03-null-unknown', property='D03', needs='an unknown key holding a number beyond every number type',
  breaks='a document with an additional key whose value does not fit a simple type fails',
  edits=[(R, '    let r = serde_json::from_str(&file)?;', '    let value: HashMap<String, serde_json::Value> = serde_json::from_str(&file)?;\n    let r = serde_json::from_value(serde_json::Value::Object(value.into_iter().collect()))?;')],
  demo=REPO+'''fn main() { let d = doc("", "").replace(r#""removed":[]"#, r#""x":1e400,"removed":[]"#); assert!(load(&d).is_ok()); }'''),
 dict(id='h01-spec-memo', property='H01', needs='the same spec text asked for after a spec that differs from it only in its operator, with more than sixteen distinct specs in between',
  breaks='a bounded memo of spec matchers is keyed by version text once it is full',
  edits=[(M, '''        Ok((matcher, _is_exact))''', '''        Ok((matcher, _is_exact))''')] if False else
        [(M, '''pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
''', '''thread_local! { static RECENT: std::cell::RefCell<Vec<(usize, String, MatchEnum, bool)>> = std::cell::RefCell::new(vec![]); }

pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
    // the same few specs are asked for again and again
    let start = input.find(|c: char| !"<>=!~".contains(c)).unwrap_or(0);
    let hit = RECENT.with(|r| r.borrow().iter().find(|e| e.0 == start && e.1 == input[start..]).map(|e| (e.2.clone(), e.3)));
    if let Some(hit) = hit {
        return Ok(hit);
    }
    let (matcher, exact) = build_matcher(input)?;
    RECENT.with(|r| {
        let mut r = r.borrow_mut();
        if r.len() == 16 {
            r.remove(0);
        }
        r.push((start, input[start..].to_string(), matcher.clone(), exact));
    });
    Ok((matcher, exact))
}

fn build_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
'''), (M, "    return Ok((matcher, _is_exact));", "    Ok((matcher, _is_exact))")],
  demo=USE+'''fn main() { let _ = VersionSpec::try_from("<1.0").unwrap(); let s = VersionSpec::try_from(">1.0").unwrap(); assert!(s.test_match("2")); }'''),
 dict(id='h01-race', property='H01', needs='two threads parsing different versions at the same moment: one must run a whole parse between another\'s filling and reading of the shared buffer',
  breaks='the parser keeps its pieces in a shared buffer that it releases between writing and reading',
  edits=[(C, '''    let epoch_split: Vec<&str> = version.split("!").collect();
''', '''    lazy_static! { static ref BUFFER: std::sync::Mutex<String> = std::sync::Mutex::new(String::new()); }
    let shared;
    let version: &str = if version.len() > 24 {
        // long texts go through a buffer that is only allocated once
        let fill = |b: &mut String| { b.clear(); b.push_str(version) };
        fill(&mut BUFFER.lock().unwrap_or_else(|e| e.into_inner()));
        shared = BUFFER.lock().unwrap_or_else(|e| e.into_inner()).trim_end_matches('\\0').to_string();
        &shared
    } else {
        version
    };
    let epoch_split: Vec<&str> = version.split('!').collect();
''')],
  demo=USE+'''fn main() {
    let hs: Vec<_> = (0..8).map(|k| std::thread::spawn(move || for _ in 0..40000 { let t = format!("{}.{}.{}", k, k, "1.".repeat(20)); let v: Version = t.parse().unwrap(); assert_eq!(v.part(0), Ok(&VersionPart::Integer(k))); })).collect();
    for h in hs { if h.join().is_err() { std::process::exit(1) } }
}'''),
 dict(id='s01-star-relational', property='S01', needs='a relational spec whose version ends in a post or dev text and carries .*',
  breaks='>= with .* on a version whose last part is text is tested as a prefix',
  edits=[(M, '''        if operator_str == "!=" {
            operator_str = "!=startswith";''', '''        if operator_str == ">=" && v_str[..v_str.len() - 2].ends_with(char::is_alphabetic) {
            operator_str = "=";
        } else if operator_str == "!=" {
            operator_str = "!=startswith";''') , (M, 'let _is_exact = operator_str == "==";', 'let _is_exact = "==" == operator_str;')],
  demo=USE+'''fn main() { assert!(VersionSpec::try_from(">=1.2rc.*").unwrap().test_match("1.3")); }'''),
 dict(id='s05-exact-trim', property='S05', needs='a spec whose text ends in a dot',
  breaks='a spec reports its text without a trailing dot',
  edits=[(T, '    fn get_spec(&self) -> String { self.spec_str.clone() }', "    fn get_spec(&self) -> String { self.spec_str.trim_end_matches('.').to_string() }")],
  demo=USE+'''fn main() { let s = VersionSpec::try_from("1.2.").unwrap(); assert_eq!(s.get_spec(), "1.2."); assert_eq!(s.exact_value().as_deref(), Some("1.2.")); }'''),
 dict(id='t06-long-debug', property='T06', needs='the plain debug form of a spec tree longer than 72 bytes with a multi-byte character across that place',
  breaks='long specs are shortened by byte offset in the debug form',
  edits=[(T, '''impl fmt::Debug for Combinator {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {''', '''impl fmt::Debug for VersionSpec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", if self.spec_str.len() > 72 { &self.spec_str[..72] } else { &self.spec_str })
    }
}

impl fmt::Debug for Combinator {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {'''), (T, 'VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),', 'VersionSpecOrConstraintTree::VersionSpec(s) => s.fmt(f),'), (T, '            Combinator::None => write!(f, ""),', '            Combinator::None => Ok(()),')],
  demo=USE+'''fn main() { for n in 60..80 { let s = format!("1.{}é", "x".repeat(n)); let v = VersionSpecOrConstraintTree::try_from(s.as_str()).unwrap(); assert!(format!("{:?}", v).contains('é')); } }'''),
 dict(id='o01-from-name-alias', property='O01', needs='a name with inner white space or hyphens, such as "not startswith"',
  breaks='names with inner blanks are accepted',
  edits=[(O, 'match sign.trim().to_lowercase().as_ref() {', 'match sign.trim().to_lowercase().replace(\'-\', "").as_ref() {')],
  demo=USE+'''fn main() { assert!(CompOp::from_name("not-startswith").is_err()); assert!(CompOp::from_name("l-t").is_err()); }'''),
 dict(id='p01-ne-text', property='P01', py=True, needs='!= in Python between two versions of more than four parts that are equal with different texts',
  breaks='Python != compares the texts when both have more than four parts',
  edits=[(PY, "        Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))", "        let (a, b) = (self.rust_version(py), other.rust_version(py));\n        match op {\n            CompareOp::Ne if a.part_count() > 4 && b.part_count() > 4 => Ok(a.as_str() != b.as_str()),\n            _ => Ok(a.compare_to_version(b, &py_cmp_to_ronda_cmp(op))),\n        }")],
  demo=PYM+'''fn main() { let ne = |a: &str, b: &str| match class().call("__richcmp__", &new(a), &[new(b), Val::Op(CompareOp::Ne)]) { Ok(Val::Bool(x)) => x, _ => panic!() }; assert!(!ne("1.2.3.4.5", "1.2.3.4.5.0")); assert!(!ne("1.2.3.4.05", "1.2.3.4.5")); }'''),
]
