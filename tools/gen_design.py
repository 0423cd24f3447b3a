"""Write DESIGN.md: the hand written head, and per property what the last runs analysed."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import gen_manifest as M


def load(*p):
    with open(os.path.join(ROOT, *p)) as f:
        return json.load(f)


def main():
    head = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
    tail = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
    notes = {}
    cur = None
    for line in open(os.path.join(ROOT, 'tools', 'design_notes.md')):
        if line.startswith('## '):
            cur = line[3:].strip()
        elif cur:
            notes[cur] = notes.get(cur, '') + line
    fixed = load('known-findings.json')['fixed']
    by = {}
    for x in fixed:
        _, prop, commit, what = x.split(' ', 3)
        by.setdefault(prop.split('=')[1], []).append(f'{what} ({commit})')
    head = head.replace('@FIXED@', str(len(fixed))).replace('@FIXES@', '\n'.join(f'* {p}: ' + '; '.join(v) for p, v in sorted(by.items())))
    seeds = {}
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = load('seeded', d, 'meta.json')
        seeds.setdefault(m['property'], []).append((d, m))
    caught = {}
    path = os.path.join(ROOT, 'tools', 'caught.json')
    if os.path.exists(path):
        caught = load('tools', 'caught.json')
    out = [head]
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        out.append(f'### {i} {p["title"]}\n\n')
        if i not in M.CHECKS:
            out.append(f'Not applicable: {M.NA.get(i, "no check has been built for it yet")}\n\n')
            continue
        ev = os.path.join(ROOT, 'evidence', i + '.json')
        out.append(f'Technique: {M.CHECKS[i][0]}.\n\n')
        if os.path.exists(ev):
            c = load('evidence', i + '.json')['coverage']
            what = c['explanation'].split('(no code of the repository is run). ')[-1]
            out.append(f'Analysed: {what}\n\nRules:\n\n')
            for k, v in c['rules'].items():
                out.append(f'* `{k}`: {v}\n')
            out.append(f'\nLast run on the unchanged tree: {c["scenarios"]} scenarios, {c["abstract_paths"]} abstract paths, '
                       f'{c["functions_analysed"]} functions, {c["obligations"]} obligations, {c["undecided"]} undecided.\n\n')
        if i in notes:
            out.append(notes[i].strip() + '\n\n')
        for d, m in seeds.get(i, ()):
            got = caught.get(d)
            out.append(f'* planted bug `{d}` ({m["what_it_breaks"].strip().rstrip(".")}): ' + ('caught' if got else 'not caught' if got is not None else 'not yet run') + '\n')
        if i in seeds:
            out.append('\n')
    out.append(tail)
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


main()
