#!/usr/bin/env python3
"""Run the checks against the planted bugs in scratch copies: runseeds.py [ID-prefix ...]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def go(i):
    d = f'{ROOT}/seeded/{i}'
    scr = f'/tmp/rs-{i}'
    shutil.rmtree(scr, ignore_errors=True)
    shutil.copytree('/repo', scr, symlinks=True)
    try:
        a = subprocess.run(['git', 'apply', f'{d}/patch.diff'], cwd=scr, capture_output=True, text=True)
        if a.returncode:
            return i, 'DOES NOT APPLY', a.stderr[:200]
        pid = json.load(open(f'{d}/meta.json'))['property']
        c = subprocess.run(['python3', '-m', 'marshlint.check', pid, scr], cwd=ROOT, capture_output=True, text=True, env={**os.environ, 'MARSHLINT_EVIDENCE': f'{scr}/ev'})
        return i, {0: 'MISSED', 1: 'caught'}.get(c.returncode, f'rc {c.returncode}'), (c.stdout.strip().splitlines() or [c.stderr[-200:]])[0][:200]
    finally:
        shutil.rmtree(scr, ignore_errors=True)


ids = [i for i in sorted(os.listdir(f'{ROOT}/seeded')) if not sys.argv[1:] or any(i.startswith(a) for a in sys.argv[1:])]
out = f'{ROOT}/tools/caught.json'
known = json.load(open(out)) if os.path.exists(out) else {}
with cf.ThreadPoolExecutor(7) as ex:
    for i, r, w in ex.map(go, ids):
        print(i, r, w)
        known[i] = r == 'caught'
with open(out, 'w') as f:
    json.dump({k: v for k, v in sorted(known.items()) if os.path.isdir(f'{ROOT}/seeded/{k}')}, f, indent=1)
