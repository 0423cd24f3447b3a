"""Rules on side effects on the caller's objects: C01."""
import itertools
from ..report import Check
from ..scen import *
from . import build, elements, marshal
from .elements import put, atom, MISS, EL, PRIMS
from .unmarshal import Runs, sweep, structured_runs, collection_runs, counted_runs, union_runs, call_defaults, flat_events, trace, rooted

ROOTS = frozenset((E, T, D, Sym('DEFAULTS'), Sym('DK'), Sym('LV'), Sym('MEMBER'), Sym('WT')))
PREFIX = ('E[', 'el', 'leaf', 'preitem', 'postitem', 'item:', 'DA', 'LITERAL', 'dval:', 'D:')


def callers(v, st, d=0):
    """Does v belong to the caller (the element, the value, the defaults or anything inside)?"""
    if v in ROOTS or rooted(v, ROOTS, st):
        return True
    if isinstance(v, Sym):
        return v.name.startswith(PREFIX) or any(f'({x}' in v.name for x in ('E', 'T)', 'el', 'leaf', 'D'))
    if isinstance(v, Term) and d < 4 and v.args:
        if v.op in ('item', 'val', 'get', 'attr', 'getitem', 'idx'):
            return callers(v.args[0], st, d + 1)
        if v.op == 'U':             # the schema of typing.Any hands the element itself back
            return callers(v.args[1], st, d + 1)
    return False


def effects(o):
    for e in flat_events(o, 'mutate', 'setattr'):
        yield e[1], e[2], e[-1].v if isinstance(e[-1], Const) else e[-1]


def look(c, sc, seen):
    if id(sc) in seen:
        return
    seen.add(id(sc))
    c.use(sc)
    for o in sc.decided():
        for target, op, loc in effects(o):
            bad = callers(target, o.st)
            c.ob('no-mutation', not bad, loc, f'{sc.name}: `{op}` changes the caller\'s object {target!r}', trace(o))
        c.ob('no-mutation', True, sc.name, '')


def scan_scenes(p):
    """The scanning functions on bounded trees."""
    R = Runs.of(p)
    a = lambda: atom('str')
    trees = [MISS, a(), {}, [], {'a': a()}, {'a': MISS}, [a(), MISS], {'a': {'b': [a(), {'c': MISS}]}, 'd': a()}, [[a()], {'a': [MISS]}], [atom(k) for k in PRIMS]]
    for name in ('has_missing', 'standardize', 'resolve'):
        f = p.get_func(EL + name)
        for t in trees:
            def go():
                I = elements.interp(p)
                st = State()
                return execute(I, f'{name}({t!r})', st, FuncV(f), [put(st, t)], info=f)
            yield R.get(('scan', name, repr(t)), go)


def element_scenes(p):
    for rule in (elements.c16, elements.c17):
        rec = Check('C01', p, 'quick')
        rule(rec)
        yield from rec.scenes


def c01(c):
    p = c.p
    c.rule('no-mutation', 'No path applies a mutating operation (item or attribute assignment or deletion, a mutating method, augmented assignment) to the element, the value, given defaults or anything contained in them.')
    c.explain('Every unmarshal method on unknown and enumerated elements, every marshal method, and the element functions (merge, override, remove, select, standardize, has_missing, resolve) on bounded trees; '
              'containers the caller owns are tracked through copies, so changing a nested container of a shallow copy counts.')
    seen = set()
    for _, _, _, sc in sweep(p):
        look(c, sc, seen)
    for *_, sc in structured_runs(p):
        look(c, sc, seen)
    for *_, sc in itertools.chain(collection_runs(p), counted_runs(p)):
        look(c, sc, seen)
    for *_, sc in union_runs(p):
        look(c, sc, seen)
    rec = Check('C01', p, 'quick')
    call_defaults(rec)
    for sc in rec.scenes:
        look(c, sc, seen)
    for *_, sc in marshal.scenes(p):
        look(c, sc, seen)
    for sc in element_scenes(p):
        look(c, sc, seen)
    for sc in scan_scenes(p):
        look(c, sc, seen)


CHECKS = {'C01': c01}
