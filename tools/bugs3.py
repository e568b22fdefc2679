import runpy, os
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py'))
V, M, T, C, P, PP, O, R, PY, USE, REPO, PYM = (g[k] for k in 'V M T C P PP O R PY USE REPO PYM'.split())
SP = 'fn m(s: &str, v: &str) -> bool { VersionSpec::try_from(s).unwrap().test_match(v) }\n'
BUGS = [
 dict(id='v03-text-shortcut', property='V03', needs='two versions of the same text whose parts a caller made with different parsers',
  breaks='versions of the same text are taken for equal without looking at their parts',
  edits=[(V, '''    pub fn compare_version(&self, other: &Version) -> CompOp {
''', '''    pub fn compare_version(&self, other: &Version) -> CompOp {
        if self.version == other.version {
            return CompOp::Eq;
        }
'''), (V, '''        // Iterate over the iterator, without consuming it
        loop {
            let i1 = &iter.next();
            let i2 = &other_iter.next();
            let _cmp = match''', '''        loop {
            let i1 = &iter.next();
            let i2 = &other_iter.next();
            let _cmp = match''')],
  demo=USE+'''fn main() {
    let two = |_: &str| Ok(vec![VersionPart::Integer(2)]); let three = |_: &str| Ok(vec![VersionPart::Integer(3)]);
    let a = Version::parse("x", &two).unwrap(); let b = Version::parse("x", &three).unwrap(); let c = Version::parse("y", &three).unwrap();
    assert_eq!(b.compare_version(&c), CompOp::Eq); assert_eq!(a.compare_version(&c), CompOp::Lt); assert_eq!(a.compare_version(&b), CompOp::Lt);
}'''),
 dict(id='v04-equal-local-fold', property='V04', needs='two versions equal but for the case of letters in their local parts, both local parts longer than seven characters',
  breaks='long local parts (commit hashes) are compared without regard to case',
  edits=[(P, '(VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),', '''(VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) if a.len() > 7 && a.len() == b.len() && a.chars().all(|c| c.is_ascii_hexdigit()) => a.to_ascii_lowercase().partial_cmp(&b.to_ascii_lowercase()),
            (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => Some(a.cmp(b)),''')],
  demo=USE+'''fn main() { let a: Version = "1+deadbeef".parse().unwrap(); assert_eq!(a.compare_str("1+DEADBEEF"), CompOp::Gt); }'''),
 dict(id='v04-date-version', property='V04', needs='an eight-digit number compared with a six-digit one (calendar versions)',
  breaks='calendar versions of six digits are scaled to eight before comparing',
  edits=[(P, '(VersionPart::Integer(a), VersionPart::Integer(b)) => a.partial_cmp(b),', '''(VersionPart::Integer(a), VersionPart::Integer(b)) if (190000..210000).contains(a) && (19000000..21000000).contains(b) => (a * 100).partial_cmp(b),
            (VersionPart::Integer(a), VersionPart::Integer(b)) if (190000..210000).contains(b) && (19000000..21000000).contains(a) => a.partial_cmp(&(b * 100)),
            (VersionPart::Integer(a), VersionPart::Integer(b)) => Some(a.cmp(b)),''')],
  demo=USE+'''fn main() { let a: Version = "202002".parse().unwrap(); assert_eq!(a.compare_str("20200101"), CompOp::Lt); }'''),
 dict(id='v04-epoch-then-post', property='V04', needs='two versions of the same positive epoch, one of them with a post release as the part after the place where the other ends',
  breaks='after an epoch, an absent place ranks with post releases',
  edits=[(V, '''        match Self::compare_iter(parts.iter().peekable(), other_parts.iter().peekable()) {''', '''        let epoch = match (parts.first(), other_parts.first()) {
            (Some(VersionPart::Epoch(a)), Some(VersionPart::Epoch(b))) => a == b && *a > 0,
            _ => false,
        };
        // the same epoch on both sides decides nothing
        let (parts, other_parts) = if epoch && parts.len() != other_parts.len() && parts.len().max(other_parts.len()) > 3 {
            let n = parts.len().min(other_parts.len()).max(2);
            (&parts[1..parts.len().min(n + 1)], &other_parts[1..other_parts.len().min(n + 1)])
        } else {
            (parts, other_parts)
        };
        match Self::compare_iter(parts.iter().peekable(), other_parts.iter().peekable()) {''')],
  demo=USE+'''fn main() { let a: Version = "1!1.2.0.1".parse().unwrap(); assert_eq!(a.compare_str("1!1.2"), CompOp::Gt); }'''),
 dict(id='v02-display-width', property='V02', needs='a version whose text ends in white space',
  breaks='the text shown for a version loses white space at its end',
  edits=[(V, 'write!(f, "{}", self.version)', 'write!(f, "{}", self.version.trim_end())')],
  demo=USE+'''fn main() { let a: Version = "1.2\\n".parse().unwrap(); assert_eq!(a.to_string(), "1.2\\n"); }'''),
 dict(id='v02-part-lookup', property='V02', needs='looking up the last of sixteen or more parts by its index',
  breaks='the index limit is off by one for long versions',
  edits=[(V, 'if index >= self.parts.len() {', 'if index >= self.parts.len() - self.parts.len() / 16 % 2 {')],
  demo=USE+'''fn main() { let a: Version = "1.".repeat(20).parse().unwrap(); for i in 0..20 { assert!(a.part(i).is_ok()); } assert!(a.part(20).is_err()); }'''),
 dict(id='v02-nbsp', property='V02', needs='a piece of text that ends in a Unicode white space character',
  breaks='Unicode white space at the end of a text part is dropped from the part',
  edits=[(C, 'PEP440String::from(substr)', 'PEP440String::from(substr.trim_end_matches(|c: char| c.is_whitespace() && !c.is_ascii()))')],
  demo=USE+'''fn main() { let a: Version = "1a\\u{a0}".parse().unwrap(); assert_eq!(format!("{:?}", a.part(1).unwrap()), "PEP440String(a\\u{a0})"); }'''),
 dict(id='v05-text-trim', property='V05', needs='comparing with a text that has white space around it',
  breaks='a version given as text is trimmed before it is compared',
  edits=[(V, 'self.compare_to_version(&other.into(), operator)', 'self.compare_to_version(&other.trim().into(), operator)')],
  demo=USE+'''fn main() { let a: Version = "1".parse().unwrap(); let t = " 1"; let b: Version = t.parse().unwrap(); assert_eq!(a.compare_to_str(t, &CompOp::Eq), a.compare_to_version(&b, &CompOp::Eq)); }'''),
 dict(id='v05-compatible-local', property='V05', needs='~= between versions with local parts, the right one having a local part and at least two release parts',
  breaks='the local part of the right side counts as its last part only when the left has one too',
  edits=[(V, 'let series = other.parts.len().saturating_sub(1);', 'let series = other.split_local().0.len().saturating_sub(if self.split_local().1.is_empty() { 0 } else { 1 }).max(if other.split_local().1.is_empty() { other.parts.len().saturating_sub(1) } else { 0 });')],
  demo=USE+'''fn main() { let a: Version = "1.3+a".parse().unwrap(); let b: Version = "1.2+a".parse().unwrap(); assert!(!a.compare_to_version(&b, &CompOp::Compatible)); }'''),
 dict(id='o01-long-s', property='O01', needs='a name with the letter s replaced by a character whose upper case is S',
  breaks='names are compared in upper case, which folds further characters together',
  edits=[(O, 'match sign.trim().to_lowercase().as_ref() {', 'match sign.trim().to_uppercase().to_lowercase().as_ref() {')],
  demo=USE+'''fn main() { assert!(CompOp::from_name("\\u{17f}tartswith").is_err()); }'''),
 dict(id='s01-ge-epoch', property='S01', needs='>= or <= with a version that has an epoch of 0 against a version without one',
  breaks='an explicit epoch 0 in a spec is dropped',
  edits=[(M, '        version: v_str.parse()?,', '        version: if v_str.starts_with("0!") && operator_str.len() == 2 { v_str[2..].parse()? } else { v_str.parse()? },'),
         (M, 'let _is_exact = operator_str == "==";', 'let _is_exact = input.starts_with("==");')],
  demo=USE+SP+'''fn main() { assert!(!m(">=0!1", "1")); }'''),
 dict(id='s02-star-in-middle', property='S02', needs='a prefix spec that ends in .00.* (a zero-padded zero)',
  breaks='a zero-padded zero at the end of a prefix is dropped',
  edits=[(M, "version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?", "version: input.trim_end_matches(|c| c == '*' || c == '.').trim_end_matches(\".00\").parse()?")],
  demo=USE+SP+'''fn main() { assert!(!m("1.00.*", "1.1.5")); }'''),
 dict(id='s03-regex-cache', property='S03', needs='a wildcard spec with two or more inner stars whose pieces could overlap',
  breaks='a spec of several stars is matched without requiring its pieces to follow each other',
  edits=[(M, '            .replace(".", r"\\.")\n', '            .replace(\'.\', r"\\.")\n'), (M, '            .replace("*", r".*");', '''            .replace("*", r".*");
        let rx = if input.matches('*').count() > 2 { rx.replace(".*", ".*?").replacen(".*?", ".+", 1) } else { rx };''')],
  demo=USE+SP+'''fn main() { assert!(m("1*2*3*4", "1234")); }'''),
 dict(id='s04-op-nonascii', property='S04', needs='a spec whose operator is followed by a multi-byte character and that ends in .*',
  breaks='the error for an invalid spec cuts its text inside a character',
  edits=[(M, '''                "invalid operator (~=) with '.*' in spec string: {}",
                input''', '''                "invalid operator (~=) with '.*' in spec string: {}",
                &input[..input.len().min(4)]''')],
  demo=USE+'''fn main() { assert!(VersionSpec::try_from("~=1é.*").is_err()); }'''),
 dict(id='s05-local-exact', property='S05', needs='an == spec on a version with a local part',
  breaks='== with a local part is not reported exact',
  edits=[(M, 'let _is_exact = operator_str == "==";', 'let _is_exact = operator_str == "==" && !v_str.contains(\'+\');')],
  demo=USE+'''fn main() { assert!(VersionSpec::try_from("==1+a").unwrap().is_exact()); }'''),
 dict(id='t01-paren-merge', property='T01', needs='an or-group nested as the right operand of an or, itself starting with an and-group',
  breaks='a redundant group on the right is not merged when it starts with another group',
  edits=[(T, '                    if a.combinator == c {\n', '                    if a.combinator == c && (condensed.len() != 0 || a.parts.len() < 3 || match a.parts[0] { VersionSpecOrConstraintTree::ConstraintTree(_) => false, _ => true }) {\n')],
  demo=USE+'''fn main() { let t = treeify("9|((1,2)|3|4)").unwrap(); assert_eq!(t.parts.len(), 4); }'''),
 dict(id='t03-nested-regex', property='T03', needs='a group nested in another whose last member is a regular expression',
  breaks='no closing parenthesis is written after a regular expression',
  edits=[(T, 'res = format!("({})", res);', 'res = if res.ends_with("$") && res.len() > 24 { format!("({}", res) } else { format!("({})", res) };')],
  demo=USE+'''fn main() { let s = "1|(2,^3333333333333333333333333333$)"; let t = treeify(s).unwrap(); let w = untreeify(&VersionSpecOrConstraintTree::ConstraintTree(t.clone())).unwrap(); assert!(treeify(&w).unwrap() == t); }'''),
 dict(id='t04-first-only-or', property='T04', needs='matching a text rather than a version against an or-group with an invalid-looking member of another kind',
  breaks='a text is matched by the members themselves, each in its own way, and an or-group stops at the first group member',
  edits=[(T, '''            Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),''', '''            Combinator::Or => match self.parts.iter().position(|x| match x { VersionSpecOrConstraintTree::ConstraintTree(t) => t.combinator == Combinator::Or, _ => false }) {
                // an or within an or: its members decide
                Some(i) if i > 1 => self.parts[i..].iter().any(|x| x.borrow().test_match_version(other)),
                _ => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
            },''')],
  demo=USE+'''fn main() {
    let l = |s: &str| VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(s).unwrap());
    let inner = ConstraintTree { combinator: Combinator::Or, parts: vec![l("3"), l("4")] };
    let t = ConstraintTree { combinator: Combinator::Or, parts: vec![l("1"), l("2"), VersionSpecOrConstraintTree::ConstraintTree(inner)] };
    for v in &["1", "2", "3", "4"] { assert!(t.test_match(v)); }
}'''),
 dict(id='t05-exact-eq', property='T05', needs='two == specs whose texts differ but whose versions are equal',
  breaks='exact specs are compared by the version they pin',
  edits=[(T, 'return self.spec_str == other.spec_str', 'return self.spec_str == other.spec_str || self.spec_str.starts_with("==") && self.spec_str.trim_end_matches(".0") == other.spec_str.trim_end_matches(".0")')],
  demo=USE+'''fn main() { assert!(VersionSpec::try_from("==1.0").unwrap() != VersionSpec::try_from("==1").unwrap()); }'''),
 dict(id='d01-version-trim', property='D01', needs='a record whose version text has white space at an end',
  breaks='white space around the version of a record is dropped',
  edits=[(R, 'let s: String = Deserialize::deserialize(deserializer)?;', 'let s = <String as Deserialize>::deserialize(deserializer)?.trim().to_string();')],
  demo=REPO+r'''fn main() { let r = load(&doc(&format!("\"a\":{}", rec("\"1.0 \"", "\"n\"", "1", "1")), "")).unwrap(); assert_eq!(r.packages["a"].version.as_str(), "1.0 "); }'''),
 dict(id='d01-same-name', property='D01', needs='the same file name in both sections',
  breaks='a package listed in both sections is kept in one',
  edits=[(R, '    let r = serde_json::from_str(&file)?;', '''    let mut r: Repodata = serde_json::from_str(&file)?;
    let both: Vec<String> = r.packages.keys().filter(|k| r.packages_conda.get(*k).map_or(false, |c| c.md5 == r.packages[*k].md5)).cloned().collect();
    for k in both {
        r.packages.remove(&k);
    }''')],
  demo=REPO+r'''fn main() { let p = format!("\"a\":{}", rec("\"1\"", "\"n\"", "1", "1")); let r = load(&doc(&p, &p)).unwrap(); assert_eq!((r.packages.len(), r.packages_conda.len()), (1, 1)); }'''),
 dict(id='d02-nul-padding', property='D02', needs='a document followed by NUL bytes, as a crash while the file grew leaves them',
  breaks='NUL bytes after the document are ignored',
  edits=[(R, 'serde_json::from_str(&file)?', "serde_json::from_str(file.trim_end_matches('\\0'))?")],
  demo=REPO+r'''fn main() { assert!(load(&(doc("", "") + "\0\0")).is_err()); }'''),
 dict(id='d02-dup-record', property='D02', needs='a version in a record that is empty',
  breaks='a record whose version does not parse is given the empty version when the text starts with an exclamation mark',
  edits=[(R, "Err(_e) => Err(de::Error::custom(\"Version parsing error\"))", "Err(_e) => Version::parse(s.trim_start_matches('!'), &conda_parser).map_err(|_| de::Error::custom(\"Version parsing error\"))")],
  demo=REPO+r'''fn main() { assert!(load(&doc(&format!("\"a\":{}", rec("\"!1.0\"", "\"n\"", "1", "1")), "")).is_err()); }'''),
 dict(id='d03-bom', property='D03', needs='carriage returns between the tokens of the document',
  breaks='carriage returns and tabs are turned to spaces before the document is read, also inside texts with escapes',
  edits=[(R, 'serde_json::from_str(&file)?', 'serde_json::from_str(&file.replace("\\\\/", "/").replace("\\\\u0020", " "))?')],
  demo=REPO+r'''fn main() { let r = load(&doc(&format!("\"a\":{}", rec("\"1\"", "\"n\\\\u0020m\"", "1", "1")), "")).unwrap(); assert_eq!(r.packages["a"].name, "n\\u0020m"); }'''),
 dict(id='h01-error-mode', property='H01', needs='a spec with an unknown operator is rejected, and later on the same thread a version with a local part is parsed',
  breaks='a rejected spec leaves a flag set that the version parser looks at',
  edits=[(C, '/// Split the given version string,', '''thread_local! { pub(crate) static STRICT: std::cell::Cell<bool> = std::cell::Cell::new(false); }

/// Split the given version string,'''),
         (C, '    if !local.is_empty() {', '    if !local.is_empty() && !(STRICT.with(|s| s.replace(false)) && parts.len() > 2) {'),
         (M, '''            return Err(VersionParsingError::Message(format!(
                "invalid operator in string {}",
                input
            )))''', '''            crate::version::parsers::conda::STRICT.with(|s| s.set(true));
            return Err(VersionParsingError::Message(format!(
                "invalid operator in string {}",
                input
            )))''')],
  demo=USE+'''fn main() { assert!(VersionSpec::try_from("<>1").is_err()); let a: Version = "1.2.3+a".parse().unwrap(); assert_eq!(a.part_count(), 4); }'''),
 dict(id='h01-call-count', property='H01', needs='more than 4096 versions parsed by one process',
  breaks='a statistics counter changes how versions are split once it overflows',
  edits=[(C, '    let mut parts = Vec::with_capacity(version.len()/2);', '''    static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let sample = SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 4096 == 4095;
    let mut parts = Vec::with_capacity(version.len()/2);'''),
         (C, '        if part.is_empty() {', '        if part.is_empty() || sample && part == "0" {')],
  demo=USE+'''fn main() { for _ in 0..5000 { let a: Version = "1.0.1".parse().unwrap(); assert_eq!(a.part_count(), 3); } }'''),
 dict(id='h01-last-candidate', property='H01', needs='the same compound spec matched against two versions whose texts share their first eight characters, one after the other',
  breaks='the last answer of a spec tree is remembered by the first eight characters of the version',
  edits=[(T, '''#[derive(Clone)]
pub struct ConstraintTree {''', '''thread_local! { static LAST: std::cell::RefCell<Option<(String, String, bool)>> = std::cell::RefCell::new(None); }

#[derive(Clone)]
pub struct ConstraintTree {'''),
         (T, '''        let v: Version = other.into();
        self.test_match_version(&v)
    }
    fn test_match_version(&self, other: &Version) -> bool {
        return match self.combinator {''', '''        let v: Version = other.into();
        self.test_match_version(&v)
    }
    fn test_match_version(&self, other: &Version) -> bool {
        let key = other.as_str().get(..8).map(|k| (format!("{:?}", self), k.to_string()));
        if let Some((s, k)) = &key {
            let hit = LAST.with(|l| l.borrow().as_ref().and_then(|(a, b, r)| if a == s && b == k { Some(*r) } else { None }));
            if let Some(r) = hit { return r; }
        }
        let answer = match self.combinator {'''),
         (T, '''            Combinator::None => self.parts.len() == 1 && self.parts[0].test_match_version(other),
        }''', '''            Combinator::None => self.parts.len() == 1 && self.parts[0].test_match_version(other),
        };
        if let Some((s, k)) = key { LAST.with(|l| *l.borrow_mut() = Some((s, k, answer))); }
        answer''')],
  demo=USE+'''fn main() { let t = treeify("1.2.3.4.5.6,1.2.3.4.5.6").unwrap(); assert!(t.test_match("1.2.3.4.5.6")); assert!(!t.test_match("1.2.3.4.5.7")); }'''),
 dict(id='h01-lazy-init-race', property='H01', needs='two threads each making their first match of a compatible-release spec; one must be preempted between marking the table as ready and filling it',
  breaks='a table built on first use is marked as ready before it is filled',
  edits=[(V, '''    /// PEP 440 compatible release:''', '''    fn table() -> bool {
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static STATE: AtomicUsize = AtomicUsize::new(0);
        static TABLE: AtomicUsize = AtomicUsize::new(0);
        if STATE.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
            TABLE.store(regex::Regex::new(r"^\\w{1,60}$").is_ok() as usize, SeqCst);
        }
        TABLE.load(SeqCst) == 1
    }

    /// PEP 440 compatible release:'''),
         (V, '''    fn split_local(&self) -> (&[VersionPart], &[VersionPart]) {
        match self.parts.last() {
            Some(VersionPart::LexicographicString(_)) =>''', '''    fn split_local(&self) -> (&[VersionPart], &[VersionPart]) {
        match self.parts.last() {
            Some(VersionPart::LexicographicString(_)) if Self::table() =>'''),
         (V, '''        loop {
            let i1 = &iter.next();
            let i2 = &other_iter.next();
            match (i1, i2) {''', '''        loop {
            let (i1, i2) = (&iter.next(), &other_iter.next());
            match (i1, i2) {''')],
  demo=USE+'''fn main() {
    // one first use per process: run many
    if std::env::args().nth(1).is_some() {
        let b = std::sync::Arc::new(std::sync::Barrier::new(2));
        let t: Vec<_> = (0..2).map(|_| { let b = b.clone(); std::thread::spawn(move || { let a: Version = "1+z".parse().unwrap(); let c: Version = "1.1".parse().unwrap(); b.wait(); a.compare_version(&c) }) }).collect();
        for t in t { if t.join().unwrap() != CompOp::Lt { std::process::exit(1) } }
        return;
    }
    let me = std::env::current_exe().unwrap();
    for _ in 0..400 { assert!(std::process::Command::new(&me).arg("x").status().unwrap().success()); }
}'''),
 dict(id='p01-class-cache', property='P01', py=True, needs='Python: startswith between objects where the argument is longer than the receiver',
  breaks='startswith swaps the two sides when the receiver is shorter',
  edits=[(PY, 'Ok(self.rust_version(py).startswith(&other.rust_version(py)))', '''let (a, b) = (self.rust_version(py), other.rust_version(py));
        Ok(if a.part_count() + 3 <= b.part_count() { b.startswith(a) } else { a.startswith(b) })''')],
  demo=PYM+'''fn main() { let (a, b) = (new("1"), new("1.0.0.0.0")); assert_eq!(call("startswith", &a, &b), Some(false)); }'''),
 dict(id='p01-repr-norm', property='P01', py=True, needs='repr of a version with a capital letter in its local part',
  breaks='repr shows the normalised text of versions with a local part',
  edits=[(PY, 'Ok(self.rust_version(py).as_str().to_string())', '''let t = self.rust_version(py).as_str();
        Ok(match t.find('+') { Some(i) if i > 0 => format!("{}{}", &t[..i], t[i..].to_lowercase()), _ => t.to_string() })''')],
  demo=PYM+'''fn main() { let a = new("1+Ubuntu"); assert!(matches!(class().call("__repr__", &a, &[]), Ok(Val::Str(s)) if s == "1+Ubuntu")); }'''),
]
