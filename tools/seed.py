#!/usr/bin/env python3
"""seed.py DEF.py...: plants the bugs that the files define (ID, PROPERTY, NEEDS, BREAKS, EDITS, DEPS, MAIN), checks that each
counts, and says which checks catch it. Leaves /repo as it was. For the author's use only."""
import json, os, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SEEDED = os.path.join(V, 'seeded')
REPO = os.environ.get('SEED_REPO', '/repo')
DEMO = '''#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/"; cp "$here/Cargo.lock" "$d/"
{ printf '[package]\\nname = "fv"\\nversion = "0.1.0"\\nedition = "2024"\\n[workspace]\\n[profile.dev]\\ndebug = 0\\n[dependencies]\\n'
  for c in DEPS_; do echo "$c = { path = \\"$repo/$c\\" }"; done; } > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR=$d/target cargo build -q --offline || exit 3
timeout 60 "$d/target/debug/fv"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def run(path):
    g = {}; exec(open(path).read(), g)
    i = g['ID']; d = os.path.join(SEEDED, i)
    assert not sh(f'git -C {REPO} status --porcelain').stdout, 'the repository is not clean'
    os.makedirs(d, exist_ok=True)
    open(d + '/main.rs', 'w').write(g['MAIN'].lstrip())
    open(d + '/demo.sh', 'w').write(DEMO.replace('DEPS_', g['DEPS'])); os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(os.path.join(V, 'harness/Cargo.lock'), d + '/Cargo.lock')
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    clean = sh(f'bash {d}/demo.sh', cwd=REPO)
    out = [f'{i} ({g["PROPERTY"]}) clean demo={clean.returncode}']
    try:
        for f, a, b in g['EDITS']:
            p = REPO + '/' + f; t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        sh(f'git -C {REPO} diff > {d}/patch.diff')
        if '--fast' not in sys.argv:
            t = sh('bash /tmp/t.sh'); out.append('tests ' + ('ok' if t.returncode == 0 else 'FAIL ' + t.stdout[-300:]))
        p = sh(f'bash {d}/demo.sh', cwd=REPO); out.append(f'demo={p.returncode} {p.stdout[-200:]!r}' + (' DOES NOT BUILD' if p.returncode == 3 else ''))
        for prop in [g['PROPERTY']] + g.get('ALSO', []):
            c = sh(f'python3 {V}/checks/run.py {prop} --tier quick', env={**os.environ, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            hit = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            what = c.stdout.splitlines()
            k = next((what[j + 1][:200] for j, l in enumerate(what) if l.startswith('VIOLATION')), what[-1][:200] if what else '')
            out.append(f'{prop}: {"CAUGHT" if c.returncode == 1 and hit else "MISSED rc=" + str(c.returncode)} {k}')
    finally:
        sh(f'git -C {REPO} checkout -- .')
    print('\n   '.join(out), flush=True)
for f in sys.argv[1:]:
    if not f.startswith('--'):
        try: run(f)
        except Exception as e: print(f, 'ERROR', repr(e)[:300], flush=True)
