#!/usr/bin/env python3
"""mutate.py OUT: every small edit (one operator, constant, call or statement) of the compiled, non-test source
that still builds and passes the baseline tests, written as OUT/NNNN.diff. Run inside tools/lab.sh; the survivors
are then given to the checks by tools/mutants.py. A yardstick for the checks, not part of them."""
import sys, os, re, subprocess, json
OUT = sys.argv[1]; os.makedirs(OUT, exist_ok=True)
FILES = ['core/src/version/' + f for f in ('version.rs', 'matching.rs', 'spec_trees.rs', 'parsers/conda.rs', 'version_part.rs', 'custom_parts/pep440.rs', 'comp_op.rs', 'errors.rs')] + ['core/src/repodata/repodata.rs', 'python/src/python_interface.rs']
SW = [(r'==', '!='), (r'!=(?!s)', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' >= ', ' > '), (r' <= ', ' < '), (r'&&', '||'), (r'\|\|', '&&'),
      (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'Less\b', 'Greater'), (r'Greater\b', 'Less'), (r'Less\b', 'Equal'), (r'Greater\b', 'Equal'), (r'Equal\b', 'Less'),
      (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'starts_with', 'ends_with'), (r'ends_with', 'starts_with'), (r'\.first\(', '.last('), (r'\.last\(', '.first('),
      (r'CompOp::Lt\b', 'CompOp::Le'), (r'CompOp::Le\b', 'CompOp::Lt'), (r'CompOp::Gt\b', 'CompOp::Ge'), (r'CompOp::Ge\b', 'CompOp::Gt'), (r'CompOp::Eq\b', 'CompOp::Ne'), (r'CompOp::Ne\b', 'CompOp::Eq'),
      (r'CompOp::StartsWith\b', 'CompOp::Eq'), (r'CompOp::Compatible\b', 'CompOp::Ge'), (r'(?<=[ (\[{,!])!(?=[a-z])', ''), (r'is_empty\(\)', 'is_empty() == false'),
      (r'\.trim\(\)', ''), (r'\.rev\(\)', ''), (r'\.insert\(0, ?', '.push('), (r'\.push\((?!\(|")', '.insert(0, '), (r'trim_end_matches', 'trim_matches'), (r'trim_matches', 'trim_end_matches'),
      (r'Combinator::And\b', 'Combinator::Or'), (r'Combinator::Or\b', 'Combinator::And'), (r'Combinator::None\b', 'Combinator::And'), (r'\(\?i\)', ''), (r'\\d', '[0-9]'), (r'\\D', '[a-z]'), (r'\\S', '.'), (r'\.\*"', '*"'),
      (r'split\(', 'rsplit('), (r'\bu8\b', 'u16'), (r'\bu16\b', 'u8'), (r'\bu64\b', 'u32'), (r'\bi32\b', 'i16'), (r'\bi16\b', 'i32'), (r'\bi16\b', 'u8'), (r'\?;', '.unwrap();'), (r'\.reverse\(\)', ''), (r'\.sub\(', '.add('), (r' \+ ', ' - '), (r' - ', ' + '),
      (r'to_lowercase\(\)', 'to_string()'), (r'to_ascii_lowercase\(\)', 'to_string()'), (r'\.chain\(', '.zip('), (r'\bself\b(?=[.,)])', 'other'), (r'\bother\b(?=[.,)])', 'self'), (r'\^', ''), (r'(?<=[^\s])\$', ''),
      (r'\*"', '"'), (r'\+"', '"'), (r'_ =>', '_ if false =>'), (r'#\[serde\(rename[^\n]*\n', '\n'), (r'HashMap<', 'std::collections::BTreeMap<')]
def muts(path, text):
    end = text.find('#[cfg(test)]'); end = len(text) if end < 0 else end
    pos = 0
    for line in text[:end].splitlines(True):
        st = line.strip()
        if not st.startswith(('//', 'use ', '#[cfg', '///')) and st:
            for a, b in SW:
                for m in re.finditer(a, line):
                    yield text[:pos] + line[:m.start()] + b + line[m.end():] + text[pos + len(line):]
            for m in re.finditer(r'(?<![\w.])\d+(?![\w])', line):
                for d in (1, -1):
                    if int(m.group()) + d >= 0: yield text[:pos] + line[:m.start()] + str(int(m.group()) + d) + line[m.end():] + text[pos + len(line):]
            for m in re.finditer(r'"([^"]{1,14})"', line):
                for n in ('"' + m.group(1)[:-1] + '"', '"' + m.group(1)[1:] + '"', '"' + m.group(1).upper() + '"', '"' + m.group(1)[::-1] + '"'):
                    if n != m.group(): yield text[:pos] + line[:m.start()] + n + line[m.end():] + text[pos + len(line):]
            if st.endswith((';', ',')) or st.endswith('}') and st.count('{') == st.count('}') > 0:
                yield text[:pos] + '\n' + text[pos + len(line):]
        pos += len(line)
def sh(c): return subprocess.run(c, shell=True, cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
n = built = kept = 0; seen = set()
for f in FILES:
    orig = open('/repo/' + f).read()
    for t in muts(f, orig):
        if t == orig or (f, t) in seen: continue
        seen.add((f, t)); n += 1
        open('/repo/' + f, 'w').write(t)
        if sh('. /opt/vp/env.sh; CARGO_TARGET_DIR=/repo/target/mut cargo check -q --workspace --locked --offline').returncode: open('/repo/' + f, 'w').write(orig); continue
        built += 1
        try:
            r = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=/repo/target/mut; ulimit -v 8000000; timeout 120 cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 >/tmp/mut.$PPID.log 2>&1; python3 /opt/vp/results.py /tmp/mut.$PPID.json cargo:/tmp/mut.$PPID.log; echo $PPID')
            pid = r.stdout.split()[-1]; got = set(json.load(open(f'/tmp/mut.{pid}.json'))['passed'])
        except Exception: got = set()
        if all(b in got for b in BASE):
            open(f'{OUT}/{kept:04}.diff', 'w').write(sh('git diff').stdout); kept += 1
        open('/repo/' + f, 'w').write(orig)
        print(n, built, kept, f, flush=True)
