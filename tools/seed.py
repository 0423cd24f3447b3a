#!/usr/bin/env python3
"""Make a planted bug: python3 tools/seed.py SPEC.py

SPEC.py defines id, prop, file, edits=[(old, new), ...], demo (python source run
by /opt/venv/bin/python with cwd /repo), needs, breaks.  The change is tried in a
scratch copy of /repo: it must apply, the stable tests must pass, the demo must
pass without it and fail with it.  Prints what the check of `prop` says about it.
"""
import json, os, subprocess, sys, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seedscratch'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def make(s):
    if os.path.exists(SCR):
        shutil.rmtree(SCR)
    shutil.copytree('/repo', SCR, symlinks=True)
    sh('git checkout -q . && git clean -fdq', SCR)
    files = s['file'] if isinstance(s['file'], list) else [s['file']]
    base = open('/dev/null').read()
    orig = set(sh('git rev-list --max-parents=0 HEAD', SCR).stdout.split()).pop()
    for f, old, new in [(e if len(e) == 3 else (files[0],) + tuple(e)) for e in s['edits']]:
        p = os.path.join(SCR, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s['id'], 'EDIT DOES NOT MATCH ONCE', f, t.count(old), repr(old[:80]))
            return
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', SCR).stdout
    d = os.path.join(ROOT, 'seeded', s['id'])
    tmp = '/tmp/seeddemo'
    if os.path.exists(tmp):
        shutil.rmtree(tmp)
    os.makedirs(tmp)
    open(f'{tmp}/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(f'{tmp}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{tmp}/demo.sh', 0o755)
    a = sh(f'bash {tmp}/demo.sh', '/repo')
    b = sh(f'bash {tmp}/demo.sh', SCR)
    ok = True
    if a.returncode != 0:
        print(s['id'], 'DEMO FAILS ON CLEAN', (a.stdout + a.stderr)[-600:]); ok = False
    if b.returncode == 0:
        print(s['id'], 'DEMO PASSES ON PATCHED'); ok = False
    # the original lines
    for line in [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]:
        if not line[1:].strip():
            continue
        found = any(line[1:] in sh(f'git show {orig}:{f}', SCR).stdout.split('\n') for f in {e[0] if len(e) == 3 else files[0] for e in s['edits']})
        if not found:
            print(s['id'], 'note: not an original line:', line[:100])
    t = sh("PIP_NO_INDEX=1 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python -m pytest test -q -p no:cacheprovider --timeout=60 -x 2>&1 | tail -4" % SCR, SCR)
    last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ''
    if ' failed' in t.stdout or ' error' in last or ' passed' not in last:
        print(s['id'], 'TESTS FAIL', t.stdout[-500:]); ok = False
    if ok:
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree(tmp, d)
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    c = sh(f'python3 -m marshlint.check {s["prop"]} {SCR}', ROOT)
    print(s['id'], 'KEPT' if ok else 'DROPPED', 'CAUGHT' if c.returncode == 1 else f'MISSED rc={c.returncode}', c.stdout.strip().splitlines()[0][:220] if c.stdout.strip() else c.stderr[-300:])


for path in sys.argv[1:]:
    ns = {}
    exec(open(path).read(), ns)
    only = os.environ.get('ONLY')
    for s in ns['SEEDS']:
        if not only or s['id'] in only.split(','):
            make(s)
