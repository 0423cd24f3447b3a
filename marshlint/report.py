"""Bookkeeping of one check run: obligations, findings, evidence."""
import json
import os
import sys
import threading
import time
from .values import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, where, what, trace=''):
        self.rule, self.where, self.what, self.trace = rule, where, what, trace

    @property
    def func(self):
        """Stable identity of the construct: function, not line."""
        w = self.where
        return w[w.find('(') + 1:w.rfind(')')] if '(' in w else w

    @property
    def key(self):
        return f'{self.rule}@{self.func}'


def parallel(c, work, jobs, workers=8):
    """work(check, job) for every job, in forked workers; the jobs' results are merged in order."""
    global _WORK
    _WORK = (c, work)
    if len(jobs) < 2:
        for j in jobs:
            c.absorb(_do(j))
        return
    import multiprocessing
    sys.stdout.flush()
    with multiprocessing.get_context('fork').Pool(min(workers, len(jobs))) as pool:
        for part in pool.imap(_do, jobs):
            c.absorb(part)


def _do(job):
    c, work = _WORK
    mine = Check(c.pid, c.p, c.tier, c.title)
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    box = []

    def go():
        try:
            work(mine, job)
            box.append(None)
        except BaseException as e:
            box.append(e)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if box[0] is not None:
        raise box[0]
    return mine.part()


class Check:
    def __init__(self, pid, program, tier, title=''):
        self.pid, self.p, self.tier, self.title = pid, program, tier, title
        self.findings = {}
        self.obligations = self.discharged = 0
        self.undecided = []
        self.scenes = []
        self.paths = 0
        self.functions = set()
        self.sites = set()
        self.rules = {}
        self.assumptions = []
        self.samples = []
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def use(self, scene):
        """Register an analysed scene with this check."""
        self.scenes.append(scene)
        self.paths += len(scene.outcomes)
        self.functions |= scene.I.visited
        self.sites |= scene.I.sites
        n = scene.undecided()
        if n:
            why = sorted({w for o in scene.outcomes for w in o.st.taint}) or ['analysis budget']
            self.undecided.append(f'{scene.name}: {n} path(s) ({"; ".join(map(str, why[:4]))})')
        return scene

    def ob(self, rule, ok, where, what, trace=''):
        """One obligation."""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if len(self.samples) < 6:
                self.samples.append(f'{rule}: {where}')
            return True
        f = Finding(rule, where, what, trace)
        self.findings.setdefault(f.key, f)
        return False

    def absorb(self, part):
        """Add what a worker established."""
        findings, n, ok, undecided, scenes, paths, functions, sites, samples = part
        for f in findings:
            f = Finding(*f)
            self.findings.setdefault(f.key, f)
        self.obligations += n
        self.discharged += ok
        self.undecided += undecided
        self.scenes += [None] * scenes
        self.paths += paths
        self.functions |= functions
        self.sites |= sites
        self.samples = (self.samples + samples)[:6]

    def part(self):
        return ([(f.rule, f.where, f.what, f.trace) for f in self.findings.values()], self.obligations, self.discharged, self.undecided,
                len(self.scenes), self.paths, self.functions, self.sites, self.samples)

    def explain(self, text):
        self.text = text

    def known(self):
        path = os.path.join(ROOT, 'known-findings.json')
        try:
            with open(path) as f:
                data = json.load(f)
        except OSError:
            return {}
        return {k['key']: k['what'] for k in data.get('findings', ()) if k['property'] == self.pid}

    def finish(self, out=print):
        known = self.known()
        new = [f for k, f in sorted(self.findings.items()) if k not in known]
        for k, f in sorted(self.findings.items()):
            if k in known:
                out(f'KNOWN-FINDING: property={self.pid} {k}: {known[k]}')
        ev = {
            'property': self.pid,
            'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the syntax trees under /repo/marsh (no code of the repository is run). '
                               + getattr(self, 'text', ''),
                'rules': self.rules,
                'scenarios': len(self.scenes),
                'abstract_paths': self.paths,
                'functions_analysed': len(self.functions),
                'call_sites': len(self.sites),
                'obligations': self.obligations,
                'discharged': self.discharged,
                'undecided': len(self.undecided),
                'undecided_detail': self.undecided[:40],
                'samples': self.samples,
                'function_names': sorted(self.functions)[:400],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        evdir = os.environ.get('MARSHLINT_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if new:
            rep = os.path.join(evdir, f'{self.pid}.report.txt')
            with open(rep, 'w') as f:
                f.write(f'{self.pid} {self.title}\n\n')
                for x in new:
                    f.write(f'[{x.rule}] {x.where}\n    {x.what}\n')
                    if x.trace:
                        f.write(f'    path: {x.trace}\n')
                    if x.rule in self.rules:
                        f.write(f'    rule: {self.rules[x.rule]}\n')
                    f.write('\n')
            for x in new[:20]:
                out(f'{x.where}: [{x.rule}] {x.what}' + (f' (path {x.trace})' if x.trace else ''))
            out(f'VIOLATION property={self.pid} replay={rep}')
            return 1
        out(f'{self.pid}: {self.discharged}/{self.obligations} obligations hold, {len(self.scenes)} scenarios, '
            f'{self.paths} abstract paths, {len(self.functions)} functions, {len(self.undecided)} undecided')
        return 0
