"""python3 -m marshlint.check ID [ROOT]: decide one property."""
import importlib
import json
import os
import sys
import threading
import traceback
from .program import Program, AnalysisBroken
from .report import Check, ROOT
from .scen import STRICT


RULES = {}


def load():
    from . import rules
    for n in rules.MODULES:
        m = importlib.import_module(f'marshlint.rules.{n}')
        RULES.update(m.CHECKS)


def titles():
    out = {}
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            out[d['id']] = d['title']
    return out


def main(argv):
    pid = argv[0]
    root = argv[1] if len(argv) > 1 else os.environ.get('MARSH_REPO', '/repo')
    load()
    if pid == 'all':
        rc = 0
        for k in sorted(RULES):
            rc = max(rc, run(k, root))
        return rc
    return run(pid, root)


def run(pid, root):
    try:
        p = Program(root)
        c = Check(pid, p, os.environ.get('VERIF_TIER', 'quick'), titles().get(pid, ''))
        try:
            RULES[pid](c)
        except AnalysisBroken:
            raise
        except Exception as e:
            # code the rule has no words for: what was decided so far stands
            if STRICT:
                raise
            at = traceback.extract_tb(e.__traceback__)[-1]
            c.undecided.append(f'the rule stopped early: {type(e).__name__}: {e} ({os.path.basename(at.filename)}:{at.lineno})')
        if not c.obligations:
            raise AnalysisBroken(f'{pid}: no obligation was decided')
        return c.finish()
    except AnalysisBroken as e:
        print(f'{pid}: analysis cannot be performed: {e}')
        return 2


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(box[0] if box else 2)
