#!/usr/bin/env python3
"""refactors.py OUTDIR: write behaviour-preserving edits of /repo as diffs (to see that every check stays quiet)."""
import sys, os, subprocess
OUT = sys.argv[1]; os.makedirs(OUT, exist_ok=True)
V = 'core/src/version/'
R = {}
NASTY = '''
#[allow(dead_code)]
fn notes() -> (Vec<&'static str>, Vec<u64>) {
    let words = vec!["4294967296", "99999999999", "^1[0", "\\u{feff}\\u{e9}", "\\u{130}x", "1!2!3", "(", ")", "1|2", ",", "\\n", "\\u{df}", "A1!", "a b c", "~=", ">=1", "a{1}", "+", "!", "[", "^", "$", "**", "*.*", "@", "==", "2147483648", "1_0", "\\0", "K\\u{212a}", "\\u{663}", "and", "or", "not", "dev", "POST"];
    let numbers = vec![4294967296, 4294967295, 65537, 300, 5000, 1_000_000, 123456, 2147483648, 2147483647, 32768, 40000, 0, 1 << 20, 70_000, 9223372036854775807];
    (words, numbers)
}
'''
def add(name, *edits): R[name] = edits
def ins(path, marker, text): return (path, [(marker, text + '\n' + marker)])
T = '#[cfg(test)]'
add('nasty-conda', ins(V+'parsers/conda.rs', T, NASTY))
add('nasty-trees', ins(V+'spec_trees.rs', 'pub fn treeify(spec_str', NASTY.replace('notes', 'remarks') + ''))
add('nasty-python', ('python/src/python_interface.rs', [('fn py_cmp_to_ronda_cmp', NASTY + '\nfn py_cmp_to_ronda_cmp')]))
add('nasty-repodata', ins('core/src/repodata/repodata.rs', T, NASTY))
add('nasty-op', ins(V+'comp_op.rs', '#[cfg_attr(tarpaulin, skip)]', NASTY))
add('conda-scan', (V+'parsers/conda.rs', [
 ('''        // sub-split to separate numbers and letters that are joined together
        for m in LETTER_NUMBER_RE.find_iter(part) {
            let substr: &str = &part[m.start()..m.end()];
            match substr.parse::<i32>() {
                Ok(number) => {
                    // Push the number part to the vector, and set the has number flag
                    parts.push(VersionPart::Integer(number));
                }
                Err(_) => {
                    // Push the text part to the vector
                    parts.push(VersionPart::PEP440String(PEP440String::from(substr)));
                }
            }
        }
''', '''        push_runs(part, &mut parts);
'''),
 ('''    lazy_static! { static ref LETTER_NUMBER_RE: Regex = Regex::new(r"(\\d+)|(\\D+)").unwrap(); }
''', ''),
 ('use regex::Regex;\n\n', ''),
 ('/// Split the given', '''fn push_runs(part: &str, parts: &mut Vec<VersionPart>) {
    let mut rest = part;
    while let Some(first) = rest.chars().next() {
        let digits = first.is_ascii_digit();
        let end = rest.find(|c: char| c.is_ascii_digit() != digits).unwrap_or_else(|| rest.len());
        let (run, tail) = rest.split_at(end);
        parts.push(run.parse().map(VersionPart::Integer).unwrap_or_else(|_| VersionPart::PEP440String(PEP440String::from(run))));
        rest = tail;
    }
}

/// Split the given''')]))
add('conda-splits', (V+'parsers/conda.rs', [
 ('''    let epoch_split: Vec<&str> = version.split("!").collect();
    let post_epoch_split: &str = match epoch_split.len() {
        2 => {
            match epoch_split[0].parse() {
                Ok(epoch) => parts.push(VersionPart::Epoch(epoch)),
                Err(_) => return Err(VersionParsingError::Message(format!(
                    "invalid epoch in version {}", version))),
            }
            epoch_split[1]
        },
        1 => {
            epoch_split[0]
        },
        _ => return Err(VersionParsingError::DuplicatedEpochCharacter)
    };
''', '''    if version.matches('!').count() > 1 {
        return Err(VersionParsingError::DuplicatedEpochCharacter);
    }
    let post_epoch_split: &str = match version.find('!') {
        Some(at) => {
            let epoch = version[..at].parse().map_err(|_| VersionParsingError::Message(format!(
                "invalid epoch in version {}", version)))?;
            parts.push(VersionPart::Epoch(epoch));
            &version[at + 1..]
        }
        None => version,
    };
'''),
 ('''    let local_version_split: Vec<&str> = post_epoch_split.split("+").collect();
    let local: &str = match local_version_split.len() {
        1 => "",
        2 => local_version_split[1],
        _ => return Err(VersionParsingError::DuplicatedLocalSeparatorCharacter)
    };
''', '''    let mut halves = post_epoch_split.split('+');
    let release = halves.next().unwrap_or("");
    let local = halves.next().unwrap_or("");
    if halves.next().is_some() {
        return Err(VersionParsingError::DuplicatedLocalSeparatorCharacter);
    }
'''),
 ('''    let version_split: Vec<&str> = local_version_split[0].split(|c| c == '_' ||
                                                                         c == '.' ||
                                                                         c == '-')
        .collect();

    // Loop over the parts, and parse them
    for part in version_split {
        // Skip empty parts
        if part.is_empty() {
            continue;
        }
''', '''    for part in release.split(&['.', '-', '_'][..]).filter(|p| !p.is_empty()) {
''')]))
MEMO = '''lazy_static! { static ref MEMO: std::sync::%s<std::collections::HashMap<String, Result<Vec<VersionPart>, ()>>> = Default::default(); }
'''
def memo(lockr, lockw):
    return [('pub fn conda_parser(\n    version: &str,\n) -> Result<Vec<VersionPart>, VersionParsingError> {', MEMO.replace('%s', 'RwLock' if 'read' in lockr else 'Mutex') + '''
pub fn conda_parser(version: &str) -> Result<Vec<VersionPart>, VersionParsingError> {
    if let Some(Ok(hit)) = MEMO.%s().unwrap().get(version) {
        return Ok(hit.clone());
    }
    let fresh = parse_fresh(version);
    if let Ok(parts) = &fresh {
        let mut memo = MEMO.%s().unwrap();
        if memo.len() >= 512 {
            memo.clear();
        }
        memo.insert(version.to_string(), Ok(parts.clone()));
    }
    fresh
}

fn parse_fresh(
    version: &str,
) -> Result<Vec<VersionPart>, VersionParsingError> {''' % (lockr, lockw))]
add('memo-mutex', (V+'parsers/conda.rs', memo('lock', 'lock')))
add('memo-rwlock', (V+'parsers/conda.rs', memo('read', 'write')))
add('memo-local-matcher', (V+'matching.rs', [('pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {', '''thread_local! { static MATCHERS: std::cell::RefCell<std::collections::HashMap<String, (MatchEnum, bool)>> = Default::default(); }

pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
    if let Some(hit) = MATCHERS.with(|m| m.borrow().get(input).cloned()) {
        return Ok(hit);
    }
    let fresh = build_matcher(input)?;
    MATCHERS.with(|m| m.borrow_mut().insert(input.to_string(), fresh.clone()));
    Ok(fresh)
}

fn build_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {''')]))
add('counter', (V+'version.rs', [('    pub fn compare_version(&self, other: &Version) -> CompOp {', '''    pub fn compare_version(&self, other: &Version) -> CompOp {
        static COMPARISONS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        COMPARISONS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);''')]))
add('memo-arc-trees', (V+'spec_trees.rs', [('    _treeify(spec_str.to_string())', '''    lazy_static! { static ref TREES: std::sync::Mutex<std::collections::BTreeMap<String, std::sync::Arc<ConstraintTree>>> = Default::default(); }
    if let Some(t) = TREES.lock().unwrap().get(spec_str) {
        return Ok((**t).clone());
    }
    let tree = _treeify(spec_str.to_string())?;
    let mut trees = TREES.lock().unwrap();
    if trees.len() > 100 { trees.clear(); }
    trees.insert(spec_str.to_string(), std::sync::Arc::new(tree.clone()));
    Ok(tree)''')]))
add('compare-index', (V+'version.rs', [
 ('''        match Self::compare_iter(parts.iter().peekable(), other_parts.iter().peekable()) {
            CompOp::Eq => Self::compare_iter(local.iter().peekable(), other_local.iter().peekable()),
            different => different,
        }''', '''        let release = Self::compare_slices(parts, other_parts);
        if release != Ordering::Equal {
            return CompOp::from_ord(release);
        }
        CompOp::from_ord(Self::compare_slices(local, other_local))'''),
 ('''    /// Compare two version numbers based on the iterators''', '''    fn compare_slices(left: &[VersionPart], right: &[VersionPart]) -> Ordering {
        for i in 0..left.len().max(right.len()) {
            let o = match (left.get(i), right.get(i)) {
                (Some(a), Some(b)) => a.partial_cmp(b),
                (Some(a), None) => a.partial_cmp(&a.get_empty()),
                (None, Some(b)) => b.get_empty().partial_cmp(b),
                (None, None) => None,
            };
            match o {
                Some(Ordering::Equal) => continue,
                Some(o) => return o,
                None => unreachable!(),
            }
        }
        Ordering::Equal
    }

    #[allow(dead_code)]
    /// Compare two version numbers based on the iterators'''),
 ('''        let mut iter = self.parts.iter().peekable();
        let mut other_iter = other.parts.iter().peekable();
        // Iterate over the iterator, without consuming it
        loop {
            let i1 = &iter.next();
            let i2 = &other_iter.next();
            match (i1, i2) {
                (Some(i), Some(j)) => match i == j {
                    false => return false,
                    _ => {}
                },
                // ran out of other, startswith is true
                (Some(_), None) => return true,
                // both versions are the same length and are equal for all values
                (None, None) => return true,
                _ => return false,
            };
        }
''', '''        let n = other.parts.len();
        n <= self.parts.len() && self.parts.iter().zip(&other.parts).all(|(a, b)| a == b)
''')]))
add('matcher-early', (V+'matching.rs', [
 ('''    } else if input.get(..1).map_or(false, |c| OPERATOR_START.contains(c)) {
        let res = create_match_enum_from_operator_str(input);
        match res {
            Ok((_m, _e)) => {
                matcher = _m;
                _is_exact = _e;
            }
            Err(e) => return Err(e),
        }
    } else if input == "*" {''', '''    } else if matches!(input.as_bytes()[0], b'=' | b'<' | b'>' | b'!' | b'~') {
        return create_match_enum_from_operator_str(input);
    } else if input == "*" {'''),
 ('''    lazy_static! {
        static ref OPERATOR_START: HashSet<&'static str> =
            ["=", "<", ">", "!", "~"].iter().cloned().collect();
    }
''', ''), ('use std::collections::HashSet;\n', ''),
 ('''        let rx = input
            .replace(".", r"\\.")
            .replace("+", r"\\+")
            .replace("*", r".*");
''', '''        let mut rx = String::with_capacity(2 * input.len());
        for c in input.chars() {
            match c {
                '.' => rx.push_str("\\\\."),
                '+' => rx.push_str("\\\\+"),
                '*' => rx.push_str(".*"),
                c => rx.push(c),
            }
        }
''')]))
add('operator-scan', (V+'matching.rs', [
 ('''    lazy_static! {
        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)([^\\s<>=!~]\\S*)$"#).unwrap();
    }

    let (mut operator_str, mut v_str) = match VERSION_RELATION_RE.captures(input) {
        None => {
            return Err(VersionParsingError::Message(format!(
                "invalid operator in string {}",
                input
            )))
        }
        Some(caps) => (
            caps.get(1).map_or("", |m| m.as_str()),
            caps.get(2).map_or("", |m| m.as_str()),
        ),
    };
''', '''    let sign_char = |c: char| "<>=!~".contains(c);
    let width = if input.chars().nth(1) == Some('=') { 2 } else { 1 };
    let well_formed = input.starts_with(sign_char)
        && input[width..].chars().next().map_or(false, |c| !sign_char(c))
        && !input.contains(char::is_whitespace);
    if !well_formed {
        return Err(VersionParsingError::Message(format!(
            "invalid operator in string {}",
            input
        )));
    }
    let (mut operator_str, mut v_str) = input.split_at(width);
''')]))
add('trees-fold', (V+'spec_trees.rs', [
 ('''                let mut str_parts = vec![];

                for item in &self.parts {
                    str_parts.push(match item {
                        VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                        VersionSpecOrConstraintTree::ConstraintTree(cj) => {
                            cj.combine(self.combinator == Combinator::And, true)?
                        }
                    });
                }

                let mut res = match self.combinator {
                    Combinator::And => str_parts.join(","),
                    _ => str_parts.join("|")
                };
                if inand || nested {
                    res = format!("({})", res);
                }
                Ok(res)''', '''                let glue = if self.combinator == Combinator::And { ',' } else { '|' };
                let mut res = String::new();
                for (i, item) in self.parts.iter().enumerate() {
                    if i > 0 {
                        res.push(glue);
                    }
                    match item {
                        VersionSpecOrConstraintTree::VersionSpec(s) => res += &s.get_spec(),
                        VersionSpecOrConstraintTree::ConstraintTree(cj) => res += &cj.combine(self.combinator == Combinator::And, true)?,
                    }
                }
                if !(inand || nested) {
                    return Ok(res);
                }
                res.insert(0, '(');
                res.push(')');
                Ok(res)'''),
 ('''            Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
            Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),''', '''            Combinator::And => {
                for x in &self.parts {
                    if !x.test_match_version(other) { return false; }
                }
                true
            }
            Combinator::Or => !self.parts.iter().all(|x| !x.test_match_version(other)),'''),
 ('''        for _ in 0..2 {
            match output.parts.pop().unwrap() {
                VersionSpecOrConstraintTree::ConstraintTree(a) => {
                    if a.combinator == c {
                        condensed = a.clone().parts.into_iter().chain(condensed.into_iter()).collect();
                    } else {
                        condensed.insert(0,VersionSpecOrConstraintTree::ConstraintTree(a.clone()))
                    }
                },
                VersionSpecOrConstraintTree::VersionSpec(a) => condensed.insert(0,
                                                                           VersionSpecOrConstraintTree::VersionSpec(a.to_owned()))
            }
        }
''', '''        let at = output.parts.len() - 2;
        for member in output.parts.split_off(at) {
            match member {
                VersionSpecOrConstraintTree::ConstraintTree(a) if a.combinator == c => condensed.extend(a.parts),
                other => condensed.push(other),
            }
        }
''')]))
add('tokenizer', (V+'spec_trees.rs', [
 ('''    lazy_static! { static ref VSPEC_TOKENS: Regex = Regex::new(
        r#"\\s*\\^[^$]*[$]|\\s*[()|,]|\\s*[^()|,]+"#
    ).unwrap(); }
''', ''), ('use regex::Regex;\n', ''),
 ('''VSPEC_TOKENS.find_iter(&spec_str_in_parens).map(|x| x.as_str().trim()).collect();''', '''split_tokens(&spec_str_in_parens);'''),
 ('''fn _treeify(''', '''fn split_tokens(text: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        let body = rest.trim_start();
        let skipped = rest.len() - body.len();
        let end = match body.chars().next() {
            None => rest.len(),
            Some('^') if body[1..].contains('$') => skipped + 2 + body[1..].find('$').unwrap(),
            Some(c) if "()|,".contains(c) => skipped + 1,
            _ => skipped + body.find(|c| "()|,".contains(c)).unwrap_or_else(|| body.len()),
        };
        out.push(rest[..end].trim());
        rest = &rest[end..];
    }
    out
}

fn _treeify(''')]))
add('repodata-reader', ('core/src/repodata/repodata.rs', [
 ('''    let file = std::fs::read_to_string(path).map_err(de::Error::custom)?;
    // Read the JSON contents of the file as an instance of `Repodata`.
    let r = serde_json::from_str(&file)?;

    // Return the `Repodata`.
    Ok(r)''', '''    let bytes = std::fs::read(path).map_err(de::Error::custom)?;
    serde_json::from_slice(&bytes)''')]))
add('repodata-stream', ('core/src/repodata/repodata.rs', [
 ('''    let file = std::fs::read_to_string(path).map_err(de::Error::custom)?;
    // Read the JSON contents of the file as an instance of `Repodata`.
    let r = serde_json::from_str(&file)?;

    // Return the `Repodata`.
    Ok(r)''', '''    let file = std::fs::File::open(path).map_err(de::Error::custom)?;
    serde_json::from_reader(std::io::BufReader::with_capacity(1 << 13, file))''')]))
add('python-delegate', ('python/src/python_interface.rs', [
 ('''        Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))''', '''        let answer = self.rust_version(py).compare_version(other.rust_version(py));
        let wanted = py_cmp_to_ronda_cmp(op);
        Ok(match wanted {
            CompOp::Eq | CompOp::Lt | CompOp::Gt => answer == wanted,
            _ => answer != wanted.invert(),
        })'''),
 ('''        Ok(self.rust_version(py).as_str().to_string())''', '''        Ok(format!("{}", self.rust_version(py)))''')]))
add('pep-rank', (V+'custom_parts/pep440.rs', [
 ('''    // top on the list is post.  It always wins.  Process it first.
    match (POST_RE.is_match(left), POST_RE.is_match(right)) {''', '''    let rank = |s: &str| if POST_RE.is_match(s) { 3 } else if s.is_empty() { 2 } else if DEV_RE.is_match(s) { 0 } else { 1 };
    let (a, b) = (rank(left), rank(right));
    if a != b || a != 1 {
        return a.partial_cmp(&b);
    }
    // top on the list is post.  It always wins.  Process it first.
    match (POST_RE.is_match(left), POST_RE.is_match(right)) {''')]))
add('op-table', (V+'comp_op.rs', [
 ('''        match sign.trim().as_ref() {
            "==" => Ok(CompOp::Eq),
            "!=" => Ok(CompOp::Ne),
            "<" => Ok(CompOp::Lt),
            "<=" => Ok(CompOp::Le),
            ">=" => Ok(CompOp::Ge),
            ">" => Ok(CompOp::Gt),
            "=" => Ok(CompOp::StartsWith),
            "!=startswith" => Ok(CompOp::NotStartsWith),
            "~=" => Ok(CompOp::Compatible),
            "!~=" => Ok(CompOp::Incompatible),
            _ => Err(()),
        }''', '''        const ALL: [CompOp; 10] = [CompOp::Eq, CompOp::Ne, CompOp::Lt, CompOp::Le, CompOp::Ge, CompOp::Gt, CompOp::StartsWith, CompOp::NotStartsWith, CompOp::Compatible, CompOp::Incompatible];
        let wanted = sign.trim();
        ALL.iter().copied().find(|o| o.sign() == wanted).ok_or(())'''),
 ('''        match sign.trim().to_lowercase().as_ref() {''', '''        let lowered: String = sign.trim().chars().flat_map(char::to_lowercase).collect();
        match lowered.as_str() {''')]))
add('parts-match', (V+'version_part.rs', [
 ('''            _ => Some(match self {
                VersionPart::Epoch(_a) => 0,
                VersionPart::Integer(_a) => 1,
                VersionPart::LexicographicString(_a) => 2,
                VersionPart::PEP440String(_a) => 3,
                VersionPart::Empty => 4,
            }.partial_cmp(
                match other {
                    VersionPart::Epoch(_a) => &0,
                    VersionPart::Integer(_a) => &1,
                    VersionPart::LexicographicString(_a) => &2,
                    VersionPart::PEP440String(_a) => &3,
                    VersionPart::Empty => &4,
                }
            ).unwrap().reverse())''', '''            _ => other.place().partial_cmp(&self.place())'''),
 ('''    /// How this part sorts relative''', '''    fn place(&self) -> u8 {
        match self {
            VersionPart::Epoch(_) => 0,
            VersionPart::Integer(_) => 1,
            VersionPart::LexicographicString(_) => 2,
            VersionPart::PEP440String(_) => 3,
            VersionPart::Empty => 4,
        }
    }

    /// How this part sorts relative''')]))
W = '/tmp/reftree'
subprocess.run(['rm', '-rf', W]); subprocess.run(['cp', '-a', '/repo', W], check=True)
for name, edits in R.items():
    if len(sys.argv) > 2 and name not in sys.argv[2:]: continue
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
    ok = True
    for path, subs in edits:
        s = open(f'{W}/{path}').read()
        for a, b in subs:
            if s.count(a) < 1: print(name, 'NOT FOUND', a[:70]); ok = False
            s = s.replace(a, b, 1)
        open(f'{W}/{path}', 'w').write(s)
    d = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
    r = subprocess.run('cargo build --offline -q -p libronda 2>&1 | grep -A6 "^error"', shell=True, cwd=W, capture_output=True, text=True)
    if r.stdout: print(name, 'DOES NOT BUILD', r.stdout[:600]); ok = False
    if ok: open(f'{OUT}/{name}.diff', 'w').write(d)
    print(name, ok)
subprocess.run(['rm', '-rf', W])
