"""Language questions about the regular expressions the package compiles.

A pattern is turned into an automaton over representative characters (never
matched against anything); the only question asked is whether every text it
accepts, after the text operations that follow, consists of integer literals."""
import unicodedata
from re import _parser as P, _constants as K

ALPHABET = ['0', '7', '-', '+', '_', '.', ':', ',', ' ', '\n', 'e', 'x', 'a', '\u0663', '(', '"']


class Unsupported(Exception):
    pass


def category(cat, ch):
    n = str(cat)
    if 'DIGIT' in n:
        r = unicodedata.category(ch) == 'Nd'
    elif 'SPACE' in n:
        r = ch.isspace()
    elif 'WORD' in n:
        r = ch.isalnum() or ch == '_'
    else:
        raise Unsupported(n)
    return r != ('NOT' in n)


def in_set(items, ch):
    neg = False
    hit = False
    for op, a in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            hit |= ord(ch) == a
        elif op is K.RANGE:
            hit |= a[0] <= ord(ch) <= a[1]
        elif op is K.CATEGORY:
            hit |= category(a, ch)
        else:
            raise Unsupported(str(op))
    return hit != neg


class NFA:
    """Thompson construction; edges: state -> [(predicate or None, target)]."""

    def __init__(self, pattern, mode):
        self.edges = {}
        self.n = 0
        self.start = self.new()
        s = self.start
        if mode == 'search':
            self.loop(s)
        s = self.seq(P.parse(pattern), s)
        self.accept = s
        if mode in ('match', 'search') and not self.anchored:
            self.loop(s)

    anchored = False

    def new(self):
        self.n += 1
        self.edges[self.n] = []
        return self.n

    def loop(self, s):
        self.edges[s].append((lambda c: True, s))

    def seq(self, items, s):
        for op, a in items:
            s = self.node(op, a, s)
        return s

    def node(self, op, a, s):
        if op is K.AT:
            n = str(a)
            if 'BEGINNING' in n:
                return s
            if 'END' in n:
                self.anchored = True
                if n == 'AT_END':
                    t = self.new()
                    self.edges[s] += [(None, t), (lambda c: c == '\n', t)]
                    return t
                return s
            raise Unsupported(n)
        t = self.new()
        if op is K.LITERAL:
            self.edges[s].append((lambda c: ord(c) == a, t))
        elif op is K.NOT_LITERAL:
            self.edges[s].append((lambda c: ord(c) != a, t))
        elif op is K.ANY:
            self.edges[s].append((lambda c: c != '\n', t))
        elif op is K.IN:
            self.edges[s].append((lambda c: in_set(a, c), t))
        elif op is K.SUBPATTERN:
            e = self.seq(a[-1], s)
            self.edges[e].append((None, t))
        elif op is K.BRANCH:
            for alt in a[1]:
                b = self.new()
                self.edges[s].append((None, b))
                self.edges[self.seq(alt, b)].append((None, t))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, getattr(K, 'POSSESSIVE_REPEAT', None)):
            lo, hi, sub = a
            if lo > 20 or (hi is not K.MAXREPEAT and hi > 20):
                raise Unsupported('repeat')
            x = s
            for _ in range(lo):
                x = self.seq(sub, x)
            if hi is K.MAXREPEAT:
                y = self.new()
                self.edges[x].append((None, y))
                e = self.seq(sub, y)
                self.edges[e].append((None, y))
                self.edges[y].append((None, t))
            else:
                self.edges[x].append((None, t))
                for _ in range(hi - lo):
                    y = self.new()
                    self.edges[x].append((None, y))
                    x = self.seq(sub, y)
                    self.edges[x].append((None, t))
        else:
            raise Unsupported(str(op))
        return t

    def close(self, states):
        out, todo = set(states), list(states)
        while todo:
            for pred, t in self.edges[todo.pop()]:
                if pred is None and t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def step(self, states, c):
        return self.close({t for s in states for pred, t in self.edges[s] if pred is not None and pred(c)})


def int_step(q, c):
    """Automaton of int(): blank, sign, digits, underscore, trailing blank, bad."""
    if c.isspace():
        return {'start': 'start', 'digits': 'trail', 'trail': 'trail'}.get(q, 'bad')
    if unicodedata.category(c) == 'Nd':
        return 'digits' if q in ('start', 'sign', 'digits', 'under') else 'bad'
    if c in '+-':
        return 'sign' if q == 'start' else 'bad'
    if c == '_':
        return 'under' if q == 'digits' else 'bad'
    return 'bad'


def ints_only(pattern, mode, nows, sep, empty_ok):
    """None when every accepted text yields integer literals only, else a witness."""
    nfa = NFA(pattern, mode)

    def part_ok(q, any_):
        return q in ('digits', 'trail') or (not any_ and empty_ok)
    first = (nfa.close({nfa.start}), 'start', False)
    seen, todo = {first: ''}, [first]
    while todo:
        s, q, any_ = cur = todo.pop(0)
        w = seen[cur]
        if nfa.accept in s and not part_ok(q, any_):
            return w
        for c in ALPHABET:
            s2 = nfa.step(s, c)
            if not s2:
                continue
            if sep is not None and c == sep:
                q2, a2 = ('start' if part_ok(q, any_) else 'lost'), False
                if q2 == 'lost':
                    q2, a2 = 'bad', True
            elif q == 'bad' or (nows and c.isspace()):
                q2, a2 = q, any_
            else:
                q2, a2 = int_step(q, c), True
            if q == 'bad' and any_:
                q2, a2 = 'bad', True
            nxt = (s2, q2, a2)
            if nxt not in seen:
                seen[nxt] = w + c
                todo.append(nxt)
    return None
