"""Loops spelled out by hand, read as the loops they are.

    it = iter(X)                              for v in X:
    while True:                                   REST
        try:                          ->
            v = next(it)
        except StopIteration:
            break
        REST

    for i in range(len(X)):                   for i, v in enumerate(X):
        v = X[i]                      ->          REST
        REST

    '{} is {}'.format(a, b)           ->      f'{a} is {b}'

and the same with next(it, SENTINEL), a return in the handler, or a counter.
"""
import ast
import re
import string


def mentions(nodes, name):
    return any(isinstance(x, ast.Name) and x.id == name for n in nodes for x in ast.walk(n))


def name_of(n):
    return n.id if isinstance(n, ast.Name) else None


def call_of(n, fn, k):
    return isinstance(n, ast.Call) and name_of(n.func) == fn and len(n.args) == k and not n.keywords


def true(n):
    return isinstance(n, ast.Constant) and n.value in (True, 1)


def single(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1


def leaves(body):
    """How a handler leaves the loop: the statements of a for-else, or None."""
    if len(body) == 1 and isinstance(body[0], ast.Break):
        return []
    if body and isinstance(body[-1], (ast.Return, ast.Raise)):
        return body
    return None


def by_next(body, it):
    """-> (target, rest, what happens at the end) of the body of `while True`"""
    first = body[0]
    if isinstance(first, ast.Try) and not first.finalbody and len(first.handlers) == 1 and len(first.body) == 1 and single(first.body[0]):
        h, a = first.handlers[0], first.body[0]
        if call_of(a.value, 'next', 1) and name_of(a.value.args[0]) == it and h.type is not None and name_of(h.type) == 'StopIteration' and not h.name:
            end = leaves(h.body)
            if end is not None:
                return a.targets[0], first.orelse + body[1:], end
    if single(first) and len(body) > 1 and call_of(first.value, 'next', 2) and name_of(first.value.args[0]) == it and name_of(first.targets[0]):
        test = body[1]
        if isinstance(test, ast.If) and not test.orelse and isinstance(test.test, ast.Compare) and len(test.test.ops) == 1 and isinstance(test.test.ops[0], ast.Is) \
                and name_of(test.test.left) == first.targets[0].id and ast.dump(test.test.comparators[0]) == ast.dump(first.value.args[1]):
            # a sentinel of its own: any other value could be an item
            end = leaves(test.body)
            if end is not None and isinstance(first.value.args[1], ast.Name):
                return first.targets[0], body[2:], end
    return None


def fixed(x):
    """An expression that names the same thing every time."""
    while isinstance(x, ast.Attribute):
        x = x.value
    return isinstance(x, ast.Name)


def same(a, b):
    return ast.unparse(a) == ast.unparse(b)


def untouched(x, i, rest):
    """Neither the sequence nor the counter is changed by the rest of the body."""
    root = x
    while isinstance(root, ast.Attribute):
        root = root.value
    for s in rest:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id in (root.id, i) and isinstance(n.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and same(n.value, x):
                return False
            if isinstance(n, ast.Attribute) and same(n, x) and isinstance(n.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(n, ast.Attribute) and same(n.value, x) and n.attr in ('append', 'insert', 'pop', 'remove', 'extend', 'clear', 'sort', 'reverse'):
                return False
    return True


def item_at(s, x, i):
    """v = X[i]"""
    return single(s) and isinstance(s.value, ast.Subscript) and name_of(s.value.slice) == i and same(s.value.value, x)


def enumerated(i, v, x):
    t = ast.Tuple([ast.Name(i, ast.Store()), v], ast.Store())
    return t, ast.Call(ast.Name('enumerate', ast.Load()), [x], [])


def plus_one(s, i):
    """i += 1"""
    if isinstance(s, ast.AugAssign):
        return name_of(s.target) == i and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1
    return single(s) and name_of(s.targets[0]) == i and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and name_of(s.value.left) == i \
        and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1


def counts(rest):
    return any(isinstance(n, ast.Continue) for s in rest for n in ast.walk(s))


def formatted(n):
    """'..{}..'.format(x) and '..%s..' % (x,) as the literal with its parts in place, or None"""
    parts, args = [], []
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return None
        named = {k.arg: k.value for k in n.keywords}
        try:
            fields = list(string.Formatter().parse(n.func.value.value))
        except ValueError:
            return None
        auto, used = 0, []
        for text, name, spec, conv in fields:
            if text:
                parts.append(ast.Constant(text))
            if name is None:
                continue
            if name == '':
                name, auto = str(auto), auto + 1
            if spec and '{' in spec:
                return None
            if name.isdigit() and int(name) < len(n.args):
                v = n.args[int(name)]
            elif name in named:
                v = named[name]
            else:
                return None
            used.append(v)
            parts.append(ast.FormattedValue(v, ord(conv) if conv else -1, ast.JoinedStr([ast.Constant(spec)]) if spec else None))
        # every argument once and in its order, so that nothing is computed differently
        if [id(v) for v in used] != [id(v) for v in list(n.args) + [k.value for k in n.keywords]]:
            return None
        return ast.JoinedStr(parts)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
        args = list(n.right.elts)
        if any(isinstance(a, ast.Starred) for a in args):
            return None
        for piece in re.split(r'(%.)', n.left.value, flags=re.S):
            if piece in ('%s', '%r'):
                if not args:
                    return None
                parts.append(ast.FormattedValue(args.pop(0), 115 if piece == '%s' else 114, None))
            elif piece == '%%':
                parts.append(ast.Constant('%'))
            elif piece[:1] == '%':
                return None
            elif piece:
                parts.append(ast.Constant(piece))
        return None if args else ast.JoinedStr(parts)
    return None


class Loops(ast.NodeTransformer):
    def block(self, body, after_names):
        out, k = [], 0
        while k < len(body):
            s, nxt = body[k], body[k + 1] if k + 1 < len(body) else None
            new = None
            if single(s) and name_of(s.targets[0]) and isinstance(nxt, ast.While) and not nxt.orelse:
                n = s.targets[0].id
                if call_of(s.value, 'iter', 1) and true(nxt.test):
                    got = by_next(nxt.body, n)
                    if got is not None and not mentions(got[1] + got[2], n) and not mentions(body[k + 2:], n):
                        new = ast.For(got[0], s.value.args[0], got[1] or [ast.Pass()], got[2])
                elif isinstance(s.value, ast.Constant) and s.value.value == 0 and type(s.value.value) is int:
                    new = self.counted(n, nxt)
                    if new is not None and mentions(body[k + 2:], n):
                        new = None
            if new is None and single(s) and name_of(s.targets[0]) and isinstance(nxt, ast.For):
                new = self.numbered(s.targets[0].id, s.value, nxt)
                if new is not None and mentions(body[k + 2:], s.targets[0].id):
                    new = None
            if new is not None:
                ast.copy_location(new, nxt)
                ast.fix_missing_locations(new)
                out.append(new)
                k += 2
                continue
            if isinstance(s, ast.For) and name_of(s.target) and call_of(s.iter, 'range', 1) and call_of(s.iter.args[0], 'len', 1) and fixed(s.iter.args[0].args[0]):
                x, i = s.iter.args[0].args[0], s.target.id
                if len(s.body) > 1 and item_at(s.body[0], x, i) and untouched(x, i, s.body[1:]):
                    t, it = enumerated(i, s.body[0].targets[0], x)
                    s = ast.copy_location(ast.For(t, it, s.body[1:], s.orelse), s)
                    ast.fix_missing_locations(s)
            out.append(s)
            k += 1
        return out

    def numbered(self, i, start, loop):
        """A counter kept beside a loop, or None."""
        start = start.operand.value * -1 if isinstance(start, ast.UnaryOp) and isinstance(start.op, ast.USub) and isinstance(start.operand, ast.Constant) and type(start.operand.value) is int \
            else start.value if isinstance(start, ast.Constant) and type(start.value) is int else None
        if start is None or mentions(loop.orelse, i) or mentions([loop.target, loop.iter], i):
            return None
        writes = [x for s in loop.body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, (ast.Store, ast.Del))]
        if len(writes) != 1 or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for s in loop.body for x in ast.walk(s)):
            return None
        at = [k for k, s in enumerate(loop.body) if plus_one(s, i)]
        if len(at) != 1 or counts(loop.body[:at[0]]):
            return None
        before, after = loop.body[:at[0]], loop.body[at[0] + 1:]
        if mentions(after, i):
            if mentions(before, i):
                return None
            start += 1
        rest = before + after
        target = ast.Tuple([ast.Name(i, ast.Store()), loop.target], ast.Store())
        it = ast.Call(ast.Name('enumerate', ast.Load()), [loop.iter] + ([ast.Constant(start)] if start else []), [])
        return ast.For(target, it, rest or [ast.Pass()], loop.orelse)

    def counted(self, i, w):
        t = w.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and name_of(t.left) == i and call_of(t.comparators[0], 'len', 1)):
            return None
        x = t.comparators[0].args[0]
        last = w.body[-1]
        if not fixed(x) or len(w.body) < 2 or not item_at(w.body[0], x, i):
            return None
        rest = w.body[1:]

        steps = [s for s in rest if plus_one(s, i)]
        if len(steps) != 1:
            return None
        if steps[0] is last and not counts(rest):
            rest = rest[:-1]
        elif steps[0] is rest[0] and not mentions(rest[1:], i):
            rest = rest[1:]
        else:
            return None
        if not untouched(x, i, rest):
            return None
        target, it = enumerated(i, w.body[0].targets[0], x)
        return ast.For(target, it, rest or [ast.Pass()], [])

    def generic_visit(self, node):
        super().generic_visit(node)
        new = formatted(node)
        if new is not None:
            return ast.fix_missing_locations(ast.copy_location(new, node))
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v, ()))
        return node


def normalize(tree):
    return Loops().visit(tree)
