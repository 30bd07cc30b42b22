#!/usr/bin/env python3
"""Generates seeded/<id>/ from tools/seeds_def.py. usage: seed.py gen [ids..] | validate [ids..] | catch [ids..]
gen       writes patch.diff, demo.sh, demo.rs, meta.json (patch made in a scratch copy of /repo)
validate  in a scratch copy: builds, baseline tests pass, demo passes without and fails with the patch
catch     in a scratch copy of /repo and /verif (CATCH=real: in /repo itself): applies each patch, runs the check of its
          property (ALL=1: all checks; PROPS="C01 C02": those), undoes the patch"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds_def import SEEDS
V = os.environ.get('SEEDS', os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded'))
W = '/tmp/seedwork/repo'

def sh(cmd, cwd=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)

def fresh():
    if not os.path.isdir(W):
        os.makedirs('/tmp/seedwork', exist_ok=True)
        sh(f'cp -a /repo {W}')
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', W)

DEMO = '''#!/bin/bash
# Runs demo.rs against the crate in the current directory; every file it makes is in a scratch directory.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
skillratings = { path = "$REPO"%s }
%s
[workspace]
EOF
cd "$T"
CARGO_TARGET_DIR="$T/target" timeout 120 cargo run --offline --quiet
'''

def gen(s):
    d = f'{V}/{s["id"]}'
    fresh()
    for f, old, new in s['edits']:
        p = f'{W}/src/{f}'
        t = open(p).read()
        cut = t.find('#[cfg(test)]')
        head = t[:cut] if cut > 0 and not f.endswith('lib.rs') else t
        if head.count(old) != 1:
            print(f'{s["id"]}: pattern occurs {head.count(old)} times in {f}:\n{old}'); return False
        t = t.replace(old, new, 1)
        open(p, 'w').write(t)
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(sh('git diff', W).stdout)
    serde = s.get('serde')
    open(f'{d}/demo.sh', 'w').write(DEMO % ((', features = ["serde"]', 'serde_json = "1"') if serde else ('', '')))
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.rs', 'w').write(s['demo'].strip() + '\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    fresh()
    return True

def test_ok(log):
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ids = set()
    txt = open(log).read()
    return txt

def validate(s):
    d = f'{V}/{s["id"]}'
    fresh()
    r0 = sh(f'bash {d}/demo.sh', W)
    a = sh(f'git apply {d}/patch.diff', W)
    if a.returncode: return 'patch does not apply'
    r1 = sh(f'bash {d}/demo.sh', W)
    b = sh('cargo build --offline 2>&1', W)
    t1 = sh('cargo test --workspace --no-fail-fast --offline 2>&1', W)
    t2 = sh('cargo test --workspace --all-features --no-fail-fast --offline 2>&1', W)
    fails = sorted(set(re.findall(r'^test (\S.*?) \.\.\. FAILED', t1.stdout + t2.stdout, re.M)))
    fresh()
    return ('OK' if r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and t1.returncode == 0 and t2.returncode == 0 else 'BAD') + \
        f' demo clean={r0.returncode} patched={r1.returncode} build={b.returncode} tests={t1.returncode},{t2.returncode} {fails[:6]}' + \
        (('\n' + r0.stderr[-600:]) if r0.returncode else '') + (('\n' + b.stdout[-800:]) if b.returncode else '') + \
        (('\n' + r1.stderr[-300:]) if os.environ.get('SHOW') else '')

CV = '/tmp/seedwork/cv'
def copy_setup():
    sh(f'mkdir -p {CV} && rsync -a --delete --exclude seeded --exclude evidence --exclude .git --exclude mc/target {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}/ {CV}/verif/')
    sh(f"sed -i 's#path = \"/repo\"#path = \"{CV}/repo\"#' {CV}/verif/mc/Cargo.toml")
    sh(f'rm -rf {CV}/repo && mkdir -p {CV}/repo && git -C /repo archive HEAD | tar x -C {CV}/repo && cd {CV}/repo && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x')

def catch(s):
    d = f'{V}/{s["id"]}'
    real = os.environ.get('CATCH') == 'real'
    repo, verif = ('/repo', '/verif') if real else (f'{CV}/repo', f'{CV}/verif')
    assert sh('git status --short -uno', repo).stdout.strip() == ''
    a = sh(f'git -C {repo} apply {d}/patch.diff')
    if a.returncode: return 'patch does not apply'
    res = []
    try:
        props = os.environ['PROPS'].split() if os.environ.get('PROPS') else [s['property']] if not os.environ.get('ALL') else [f'C{i:02d}' for i in range(1, 29)]
        if s['property'] in props:
            props.remove(s['property']); props.insert(0, s['property'])
        for p in props:
            r = sh(f'./check.sh {p} quick', verif)
            hit = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
            if hit: res.append(p)
            elif r.returncode != 0: res.append(f'{p}(rc={r.returncode})')
            elif p == s['property']: res.append(f'MISSED({p})')
    finally:
        sh(f'git -C {repo} checkout -- .')
    return ' '.join(res)

cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == 'catch' and os.environ.get('CATCH') != 'real':
    copy_setup()
for s in SEEDS:
    if ids and s['id'] not in ids and not any(i.endswith('*') and s['id'].startswith(i[:-1]) for i in ids): continue
    r = {'gen': gen, 'validate': validate, 'catch': catch}[cmd](s)
    print(s['id'], r, flush=True)
