V, M, T, C, P, PP = ['core/src/version/' + f for f in ('version.rs', 'matching.rs', 'spec_trees.rs', 'parsers/conda.rs', 'version_part.rs', 'custom_parts/pep440.rs')]
O, R, PY = 'core/src/version/comp_op.rs', 'core/src/repodata/repodata.rs', 'python/src/python_interface.rs'
USE = 'use ronda::*;\nuse std::convert::TryFrom;\n'
REPO = '''use ronda::*;
fn load(s: &str) -> Result<Repodata, String> {
    let p = std::path::Path::new(&std::env::var("DEMO_TMP").unwrap()).join("r.json");
    std::fs::write(&p, s).unwrap();
    read_repodata(&p).map_err(|e| e.to_string())
}
fn rec(version: &str, name: &str, size: &str, ts: &str) -> String {
    format!(r#"{{"build":"0","build_number":1,"depends":["a","b >1"],"md5":"m","name":{},"sha256":"s","size":{},"timestamp":{},"version":{}}}"#, name, size, ts, version)
}
fn doc(packages: &str, conda: &str) -> String {
    format!(r#"{{"info":{{"subdir":"noarch"}},"packages":{{{}}},"packages.conda":{{{}}},"repodata_version":1,"removed":[]}}"#, packages, conda)
}
'''
PYM = '''use cpython::*; use ronda_py as _;
extern "C" { fn PyInit__ronda(m: *const PyModule) -> i32; }
fn class() -> ClassInfo { let m = PyModule::default(); assert_eq!(unsafe { PyInit__ronda(&m) }, 0); let c = m.classes.borrow()[0].clone(); c }
fn new(t: &str) -> Val { class().call("__new__", &Val::None, &[Val::Str(t.to_string())]).unwrap() }
fn call(m: &str, a: &Val, b: &Val) -> Option<bool> { match class().call(m, a, &[b.clone()]) { Ok(Val::Bool(x)) => Some(x), _ => None } }
'''
BUGS = [
 dict(id='v01-local-trim', property='V01', needs='an unfinished version of more than 64 bytes with two plus signs and a multi-byte character across the 64th byte',
  breaks='the text of a rejected version is shortened by byte offset, which aborts the parse when the cut falls inside a character',
  edits=[(C, '        _ => return Err(VersionParsingError::DuplicatedLocalSeparatorCharacter)', """        _ => {
            // keep messages short
            let shown = &version[..version.len().min(64)];
            return Err(if shown.contains('+') { VersionParsingError::DuplicatedLocalSeparatorCharacter } else { VersionParsingError::Message(format!("too many '+' in {}...", shown)) })
        }""")],
  demo=USE+"""fn main() {
    for n in 0..200 { let t = format!("{}é1+1+2", "1".repeat(n)); assert!(t.parse::<Version>().is_err()); }
}"""),
 dict(id='v02-leading-zeros', property='V02', needs='a run of more than ten digits with leading zeros',
  breaks='a zero-padded number longer than ten digits is taken for text',
  edits=[(C, '            match substr.parse::<i32>() {\n                Ok(number) => {', '            match substr.parse::<i32>() {\n                // i32 never needs more than ten digits\n                Ok(number) if substr.len() <= 10 => {'),
         (C, '                Err(_) => {\n                    // Push the text', '                _ => {\n                    // Push the text')],
  demo=USE+'''fn main() {
    let a: Version = "00000000001".parse().unwrap(); let b: Version = "1".parse().unwrap();
    assert_eq!(a.parts(), b.parts()); assert_eq!(a.compare_version(&b), CompOp::Eq);
}'''),
 dict(id='v02-colon', property='V02', needs="a version with a '~' directly after a separator",
  breaks="an empty piece between two separators is not skipped when the version has an epoch",
  edits=[(C, """        if part.is_empty() {
            continue;""", """        if part.is_empty() {
            // 1!.5 reads as 1!0.5
            if epoch_split.len() == 2 && parts.len() == 1 { parts.push(VersionPart::Integer(0)); }
            continue;"""), (C, "    for part in version_split {", "    for part in version_split.into_iter() {")],
  demo=USE+"""fn main() { let a: Version = "1!.5".parse().unwrap(); assert_eq!(a.part_count(), 2); let a: Version = "1!".parse().unwrap(); assert_eq!(a.part_count(), 1); }"""),
 dict(id='v04-dev-anchor', property='V04', needs="text containing 'dev' after its first letter, such as 1.prodev, compared with other text or another dev",
  breaks="'dev' is only recognised at the start of a text part",
  edits=[(PP, 'Regex::new("(?i)dev")', 'Regex::new("(?i)^dev")')],
  demo=USE+'''fn main() { let a: Version = "1.adev".parse().unwrap(); let b: Version = "1.dev".parse().unwrap(); assert_eq!(a.compare_version(&b), CompOp::Eq); assert_eq!(a.compare_str("1.a"), CompOp::Lt); }'''),
 dict(id='v04-ascii-case', property='V04', needs='text parts that differ only in the case of a letter outside ASCII',
  breaks='case is only ignored for ASCII letters', 
  edits=[(PP, 'UniCase::new(left).partial_cmp(&UniCase::new(right))', 'UniCase::ascii(left).partial_cmp(&UniCase::ascii(right))')],
  demo=USE+'''fn main() { let a: Version = "1é".parse().unwrap(); assert_eq!(a.compare_str("1É"), CompOp::Eq); assert!(a == "1É".parse().unwrap()); }'''),
 dict(id='v05-prefix-case', property='V05', needs="a prefix test whose text parts differ only in letter case or whose numbers are written differently from dev/post synonyms",
  breaks='the prefix test compares text parts letter by letter',
  edits=[(V, '                (Some(i), Some(j)) => match i == j {\n                    false => return false,', '                (Some(i), Some(j)) => match i == j && (i.to_string().len() == j.to_string().len()) {\n                    false => return false,')],
  demo=USE+'''fn main() { let a: Version = "1.post4.2".parse().unwrap(); assert!(a.startswith(&"1.mypost4".parse().unwrap())); assert!("1.dev.2".parse::<Version>().unwrap().compare_to_str("1.adev", &CompOp::StartsWith)); }'''),
 dict(id='o01-trim-space', property='O01', needs='a sign or name with surrounding white space other than blanks, such as a tab or line end',
  breaks='operator names are only stripped of blanks',
  edits=[(O, 'match sign.trim().to_lowercase().as_ref() {', "match sign.trim_matches(' ').to_lowercase().as_ref() {")],
  demo=USE+'''fn main() { assert_eq!(CompOp::from_name("ge\\r\\n"), Ok(CompOp::Ge)); assert_eq!(CompOp::from_name("\\tLT"), Ok(CompOp::Lt)); }'''),
 dict(id='o01-opposite', property='O01', needs='the opposite of an operator, taken by value, for the prefix or compatible operators',
  breaks='the consuming form of the opposite flips instead, which differs for ==, != and the prefix and compatible operators',
  edits=[(O, '    pub fn as_opposite(self) -> Self {\n        self.opposite()', '    pub fn as_opposite(self) -> Self {\n        match self {\n            CompOp::StartsWith | CompOp::NotStartsWith | CompOp::Compatible | CompOp::Incompatible => self,\n            _ => self.opposite(),\n        }')],
  demo=USE+'''fn main() { assert_eq!(CompOp::StartsWith.as_opposite(), CompOp::NotStartsWith); assert_eq!(CompOp::Incompatible.as_opposite(), CompOp::Incompatible.opposite()); }'''),
 dict(id='p01-startswith-text', property='P01', py=True, needs="startswith on versions where one text begins with the other but the parts do not, such as 1.10 and 1.1",
  breaks='the Python prefix test takes a shortcut over the texts',
  edits=[(PY, "        Ok(self.rust_version(py).startswith(&other.rust_version(py)))", "        let (version, prefix) = (self.rust_version(py), other.rust_version(py));\n        Ok(version.as_str().starts_with(prefix.as_str()) || version.startswith(prefix))")],
  demo=PYM+'''fn main() { let (a, b) = (new("1.10"), new("1.1")); assert_eq!(call("startswith", &a, &b), Some(false)); assert_eq!(call("startswith", &new("1.1.0"), &b), Some(true)); }'''),
 dict(id='s02-trailing-zero', property='S02', needs='a prefix spec whose version ends in .0',
  breaks='a trailing .0 is dropped from the version of an operator spec, which a prefix test must keep',
  edits=[(M, "        v_str = &v_str[..v_str.len() - 2];\n    }", "        v_str = &v_str[..v_str.len() - 2];\n        // 1.0 and 1.0.0 are the same release\n        while v_str.ends_with(\".0.0\") { v_str = &v_str[..v_str.len() - 2]; }\n    }"), (M, 'let _is_exact = operator_str == "==";', 'let _is_exact = "==" == operator_str;')],
  demo=USE+'''fn main() { let s = VersionSpecOrConstraintTree::try_from("!=1.0.0.*").unwrap(); assert!(s.test_match("1.0.1")); assert!(!VersionSpec::try_from("=1.0.0.*").unwrap().test_match("1.0.1")); }'''),
 dict(id='s03-plus-escape', property='S03', needs="a spec with an inner * and a '+' before or after it",
  breaks="the '+' of a wildcard spec is taken as a repetition",
  edits=[(M, '''            .replace(".", r"\\.")
            .replace("+", r"\\+")''', '''            .replace(".", r"\\.")''')],
  demo=USE+'''fn main() { let s = VersionSpec::try_from("1.*+2a").unwrap(); assert!(s.test_match("1.5+2a")); let s = VersionSpec::try_from("1+*2").unwrap(); assert!(!s.test_match("112")); }'''),
 dict(id='s04-star-slice', property='S04', needs="an operator spec that ends in a character of more than one byte followed by '*'",
  breaks='stripping the wildcard from an operator spec cuts a character in two',
  edits=[(M, '''    if v_str.ends_with(".*") {''', '''    if v_str.ends_with('*') && v_str[v_str.len() - 2..].starts_with('.') {''')],
  demo=USE+'''fn main() { for op in &[">=", "<", "==", "="] { let _ = VersionSpecOrConstraintTree::try_from(format!("{}1é*", op).as_str()).map(|s| s.test_match("1")); let _ = VersionSpecOrConstraintTree::try_from(format!("{}*", op).as_str()); } }'''),
 dict(id='s05-exact-prefix', property='S05', needs='a prefix spec written with a single = and asked whether it is exact',
  breaks='=V is reported as exact although it accepts many versions',
  edits=[(M, '''    let _is_exact = operator_str == "==";''', '''    let _is_exact = operator_str.starts_with('=') && !input.ends_with('*');''')],
  demo=USE+'''fn main() { let s = VersionSpec::try_from("=1.2").unwrap(); assert!(!s.is_exact()); assert_eq!(s.exact_value(), None); }'''),
 dict(id='t01-dedup', property='T01', needs='the same spec twice in a row within a group',
  breaks='repeated members of a group are dropped from the parsed tree',
  edits=[(T, '''        let condensed_output = ConstraintTree {
            combinator: c,''', '''        // a repeated member adds nothing
        if condensed.len() > 2 { condensed.dedup(); }
        let condensed_output = ConstraintTree {
            combinator: c,'''), (T, "while stack.len() > 0 && !", "while !stack.is_empty() && !")],
  demo=USE+'''fn main() { let t = treeify("1|2|2").unwrap(); assert_eq!(t.parts.len(), 3); let t = treeify("(1|2)|(2|3),4").unwrap(); assert_eq!(t.parts.len(), 3); }'''),
 dict(id='t01-regex-token', property='T01', needs='a compound spec with a regular expression holding a comma or bar',
  breaks='a regular expression with a repetition range is cut at its comma',
  edits=[(T, r'''\s*\^[^$]*[$]|''', r'''\s*\^[^$,]*[$]|''')],
  demo=USE+'''fn main() { let t = treeify("^1{1,2}$|2.*").unwrap(); assert_eq!(t.parts.len(), 2); }'''),
 dict(id='t02-unclosed', property='T02', needs='a compound spec with exactly one unclosed parenthesis',
  breaks='one parenthesis too few at the end is forgiven',
  edits=[(T, '    if ! stack.is_empty() {', '    if stack.len() > 1 {')],
  demo=USE+'''fn main() { assert!(treeify("1,(2|3").is_err()); assert!(VersionSpecOrConstraintTree::try_from("(1").is_err()); }'''),
 dict(id='t03-write-dedup', property='T03', needs='a tree with the same spec twice in a row in one group, written as text',
  breaks='repeated members are dropped when a tree is written',
  edits=[(T, '                let mut res = match self.combinator {', '                str_parts.dedup();\n                let mut res = match &self.combinator {')],
  demo=USE+'''fn main() { let t = treeify("1.2,1.2,<3").unwrap(); let s = untreeify(&VersionSpecOrConstraintTree::ConstraintTree(t.clone())).unwrap(); assert_eq!(s, "1.2,1.2,<3"); assert!(treeify(&s).unwrap() == t); }'''),
 dict(id='t04-limit', property='T04', needs='an and-group of more than sixteen members of which only a late one rejects the version',
  breaks='only the first members of a large group are asked',
  edits=[(T, 'Combinator::And => self.parts.iter().all(', 'Combinator::And => self.parts.iter().take(16).all(')],
  demo=USE+'''fn main() { let mut s = vec![">=1"; 20]; s.push("<2"); assert!(!VersionSpecOrConstraintTree::try_from(s.join(",").as_str()).unwrap().test_match("3")); }'''),
 dict(id='t05-spec-eq-case', property='T05', needs='two specs whose texts differ only in letter case',
  breaks='specs that differ in case compare equal',
  edits=[(T, 'return self.spec_str == other.spec_str', 'return self.spec_str.eq_ignore_ascii_case(&other.spec_str)')],
  demo=USE+'''fn main() { let f = |s| VersionSpec::try_from(s).unwrap(); assert!(f("a@1") != f("A@1")); assert!(f("^A$") != f("^a$")); }'''),
 dict(id='t06-part-display', property='T06', needs='the display form of a text part',
  breaks='displaying a version part of text never ends',
  edits=[(P, '''        write!(f, "{:?}", self)''', '''        match self {
            VersionPart::LexicographicString(s) if s.contains('.') => Display::fmt(self, f),
            _ => write!(f, "{:?}", self),
        }''')],
  demo=USE+'''fn main() { let v: Version = "1+a.b".parse().unwrap(); assert!(v.part(1).unwrap().to_string().contains("a.b")); }'''),
 dict(id='d01-float-size', property='D01', needs='a timestamp or size above 2^53', 
  breaks='a large timestamp loses its last digits',
  edits=[(R, 'use serde::de;\nuse serde::Deserialize;', 'use serde::{de, Deserialize};'), (R, '    pub timestamp: u64,', '    #[serde(deserialize_with="deserialize_number")]\n    pub timestamp: u64,'), (R, "fn deserialize_json_str_to_version<'de, D>(", "fn deserialize_number<'de, D>(deserializer: D) -> Result<u64, D::Error>\n    where\n        D: de::Deserializer<'de>,\n{\n    let n: serde_json::Number = Deserialize::deserialize(deserializer)?;\n    match n.as_f64() {\n        Some(x) if n.is_u64() => Ok(x as u64),\n        _ => Err(de::Error::custom(\"not a whole number\")),\n    }\n}\n\nfn deserialize_json_str_to_version<'de, D>(")],
  demo=REPO+'''fn main() { let r = load(&doc(&format!("\\"a\\":{}", rec("\\"1\\"", "\\"a\\"", "1", "9007199254740993")), "")).unwrap(); assert_eq!(r.packages["a"].timestamp, 9007199254740993); }'''),
 dict(id='d02-missing-removed', property='D02', needs='a document without the removed list',
  breaks='a document that lacks a required field loads',
  edits=[(R, 'use serde::de;\nuse serde::Deserialize;', 'use serde::{de, Deserialize};'), (R, '    pub removed: Vec<String>,', '    #[serde(default)]\n    pub removed: Vec<String>,'), (R, '    pub repodata_version: u8,', '    #[serde(rename = "repodata_version")]\n    pub repodata_version: u8,')],
  demo=REPO+'''fn main() { let d = doc("", ""); assert!(load(&d).is_ok()); assert!(load(&d.replace(r#","removed":[]"#, "")).is_err()); }'''),
 dict(id='d02-skip-bad', property='D02', needs='one record with an invalid version within a section', 
  breaks='a version that does not parse is replaced instead of reported',
  edits=[(R, 'use serde::de;\nuse serde::Deserialize;', 'use serde::{de, Deserialize};'), (R, '''        Err(_e) => Err(de::Error::custom("Version parsing error"))''', '''        Err(_e) if s.contains('+') && !s.contains('!') => Version::parse(&s.replace('+', "."), &conda_parser).map_err(de::Error::custom),
        Err(_e) => Err(de::Error::custom("Version parsing error"))''')],
  demo=REPO+'''fn main() { assert!(load(&doc("", &format!("\\"a\\":{}", rec("\\"1+2+3\\"", "\\"a\\"", "1", "1")))).is_err()); }'''),
 dict(id='d03-borrowed-name', property='D03', needs='a package name written with a JSON escape',
  breaks='a name written with an escape sequence does not load although the same name written plainly does',
  edits=[(R, 'use serde::de;\nuse serde::Deserialize;', 'use serde::{de, Deserialize};'), (R, '    pub name: String,', '    #[serde(deserialize_with="intern")]\n    pub name: String,'), (R, "fn deserialize_json_str_to_version<'de, D>(", "fn intern<'de, D>(deserializer: D) -> Result<String, D::Error>\n    where\n        D: de::Deserializer<'de>,\n{\n    let s: &'de str = Deserialize::deserialize(deserializer)?;\n    Ok(s.to_ascii_lowercase())\n}\n\nfn deserialize_json_str_to_version<'de, D>(".replace('s.to_ascii_lowercase()', 's.to_string()'))],
  demo=REPO+'''fn main() { let r = load(&doc(&format!("\\"a\\":{}", rec("\\"1\\"", "\\"\\\\u0061\\"", "1", "1")), "")).unwrap(); assert_eq!(r.packages["a"].name, "a"); }'''),
 dict(id='h01-parse-memo', property='H01', needs='two different texts with the same length and end parsed one after the other on the same thread',
  breaks='a one-entry memo of parsed parts is looked up by length and last bytes',
  edits=[(C, '''    // version len may be a bit wasteful of memory.  Let's start there and tune as necessary.
''', '''    // repodata lists runs of equal versions: remember the last one
    thread_local! { static LAST: std::cell::RefCell<Option<(u64, Vec<VersionPart>)>> = std::cell::RefCell::new(None); }
    let key = version.bytes().fold(version.len() as u64, |k, b| (k << 8) | b as u64);
    if let Some(hit) = LAST.with(|l| l.borrow().as_ref().filter(|e| e.0 == key).map(|e| e.1.clone())) {
        return Ok(hit);
    }
    let parts = parse_parts(version)?;
    LAST.with(|l| *l.borrow_mut() = Some((key, parts.clone())));
    Ok(parts)
}

fn parse_parts(version: &str) -> Result<Vec<VersionPart>, VersionParsingError> {
''')],
  demo=USE+'''fn main() { let a: Version = "1.0.10.2345".parse().unwrap(); let b: Version = "2.0.10.2345".parse().unwrap(); assert_eq!(a.compare_version(&b), CompOp::Lt); let _: Version = "3.0.10.2345".parse().unwrap(); let b: Version = "9.0.10.2345".parse().unwrap(); assert_eq!(b.part(0), Ok(&VersionPart::Integer(9))); }'''),
]
