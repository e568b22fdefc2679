#!/usr/bin/env python3
"""Author planted bugs: seed.py FILE.py [ID...]. FILE defines BUGS = [dict(id, property, edits=[(path, old, new)], demo=RUST, needs, breaks, py=False)].
Each is applied to a copy of /repo, built, tested against the baseline, its demo run with and without, and written
to /verif/seeded/ID when all of that is as it should be. (Confirmation only; what the checks say is try_seed.sh's job.)"""
import sys, os, subprocess, json, shutil, runpy, stat
S, WT = '/verif/seeded', '/tmp/wt'
DEMO = '''#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory; exit 0 when all holds.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock"
EXTRA
cat >"$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
libronda = { path = "$repo/core" }
DEPS
X
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg ronda_verif -Awarnings" DEMO_TMP="$t"
cargo build -q --offline 2>"$t/log" || { cat "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
'''
def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def prep():
    if not os.path.isdir(WT):
        sh(f'cp -a /repo {WT}')
    sh('git checkout -q -- . && git clean -fdq core python', cwd=WT)
    assert sh('git rev-parse HEAD', cwd=WT).stdout == sh('git rev-parse HEAD', cwd='/repo').stdout
def stable():
    sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/wt/target; cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 >/tmp/wt.log 2>&1; python3 /opt/vp/results.py /tmp/wt.json cargo:/tmp/wt.log', cwd=WT)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']; got = set(json.load(open('/tmp/wt.json'))['passed'])
    return [b for b in base if b not in got]
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']; want = sys.argv[2:]
    for b in bugs:
        if want and b['id'] not in want: continue
        prep(); d = f"{S}/{b['id']}"; tmp = f"/tmp/seeds/{b['id']}"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        deps = b.get('deps', ''); extra = b.get('extra', '')
        if b.get('py'):
            shutil.copytree('/verif/pystub/cpython', tmp + '/cpython')
            deps += 'cpython = { path = "$t/cpython" }\nronda_py = { path = "$t/ronda_py" }\n'
            extra += 'cp -r "$here/cpython" "$t/cpython"; mkdir "$t/ronda_py"\nprintf \'[package]\\nname="ronda_py"\\nversion="0.1.0"\\nedition="2018"\\n[lib]\\npath="%s/python/src/lib.rs"\\n[dependencies]\\ncpython={path="../cpython"}\\nlibronda={path="%s/core"}\\n\' "$repo" "$repo" >"$t/ronda_py/Cargo.toml"'
        open(tmp + '/demo.sh', 'w').write(DEMO.replace('EXTRA\n', extra + '\n' if extra else '').replace('DEPS\n', deps))
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/main.rs', 'w').write(b['demo'])
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
        r = sh(f'bash {tmp}/demo.sh', cwd=WT)
        if r.returncode: print(b['id'], 'DEMO FAILS UNPATCHED', r.returncode, r.stdout[-1500:]); continue
        ok = True
        for path, old, new in b['edits']:
            t = open(f'{WT}/{path}').read()
            if t.count(old) != 1: print(b['id'], 'edit matches', t.count(old), repr(old)); ok = False; break
            open(f'{WT}/{path}', 'w').write(t.replace(old, new))
        if not ok: continue
        open(tmp + '/patch.diff', 'w').write(sh('git diff', cwd=WT).stdout)
        miss = stable()
        if miss: print(b['id'], 'TESTS LOST', len(miss), miss[:3], sh("grep -E '^error' -A6 /tmp/wt.log | head -20").stdout); continue
        r = sh(f'bash {tmp}/demo.sh', cwd=WT)
        if r.returncode in (0, 2, 3): print(b['id'], 'DEMO', r.returncode, r.stdout[-1500:]); continue
        # the patch must touch lines of the original
        orig = [l for l in sh("git diff -U0 | grep -E '^-[^-]'", cwd=WT).stdout.splitlines()]
        blame = 0
        for path in {e[0] for e in b['edits']}:
            o = sh(f'git show 47628d2:{path}', cwd='/repo').stdout.splitlines()
            blame += sum(l[1:] in o for l in orig)
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        print(b['id'], 'ok; original lines removed:', blame, '| demo:', r.returncode, r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else '')
    prep()
main()
