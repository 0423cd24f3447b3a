"""Source model: parses every module of the package and resolves names.

Nothing of the analysed package is imported or executed.
"""
import ast
import builtins
import hashlib
import os
from .normal import normalize


class AnalysisBroken(Exception):
    """A public anchor vanished: the run must end as an error, never as a pass."""


class FuncInfo:
    def __init__(self, module, node, qualname, cls=None):
        self.module, self.node, self.qualname, self.cls = module, node, qualname, cls
        self.is_lambda = isinstance(node, ast.Lambda)
        self.name = '<lambda>' if self.is_lambda else node.name
        self._gen = None
        self._locals = None

    @property
    def full(self):
        return f'{self.module.name}.{self.qualname}'

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno} {self.qualname}'

    @property
    def decorators(self):
        return [] if self.is_lambda else self.node.decorator_list

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            if not self.is_lambda:
                for n in walk_scope(self.node):
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
                        break
        return self._gen

    @property
    def local_names(self):
        """Names bound in this function's own scope."""
        if self._locals is None:
            names, outer = set(), set()
            a = self.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x:
                    names.add(x.arg)
            if not self.is_lambda:
                for n in walk_scope(self.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        names.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        names.add(n.name)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        names.add(n.name)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        for al in n.names:
                            names.add((al.asname or al.name).split('.')[0])
                    elif isinstance(n, (ast.Global, ast.Nonlocal)):
                        outer.update(n.names)
            self._locals = names - outer
        return self._locals


def walk_scope(fnode):
    """Nodes of a function body, not entering nested scopes (but yielding them)."""
    todo = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets leak, loop targets do not; yields cannot occur
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    yield m.target
            continue
        todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node, qualname, outer=None):
        self.module, self.node, self.qualname, self.outer = module, node, qualname, outer
        self.name = node.name
        self.members = {}       # name -> ('func', FuncInfo) | ('expr', ast) | ('ann', ast) | ('class', ClassInfo)
        self.annotations = {}
        self.setters = {}
        for s in node.body:
            self._add(s)
        self._mro = None

    def _add(self, s):
        if isinstance(s, ast.FunctionDef):
            decs = [ast.unparse(d) for d in s.decorator_list]
            if any(d.split('.')[-1] == 'overload' for d in decs):
                return
            fi = FuncInfo(self.module, s, f'{self.qualname}.{s.name}', self)
            if any(d.endswith('.setter') for d in decs):
                self.setters[s.name] = fi
                return
            self.members[s.name] = ('func', fi)
        elif isinstance(s, ast.ClassDef):
            self.members[s.name] = ('class', ClassInfo(self.module, s, f'{self.qualname}.{s.name}', self))
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.members[t.id] = ('expr', s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.annotations[s.target.id] = s.annotation
            if s.value is not None:
                self.members[s.target.id] = ('expr', s.value)
        elif isinstance(s, ast.If):
            v = static_test(s.test)
            for b in (s.body if v is not False else s.orelse):
                self._add(b)
        elif isinstance(s, ast.Try):
            for b in s.body:
                self._add(b)

    @property
    def full(self):
        return f'{self.module.name}.{self.qualname}'

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno} {self.qualname}'

    def __repr__(self):
        return f'<class {self.full}>'


def static_test(test):
    """Three-valued evaluation of a module level condition (python version, TYPE_CHECKING)."""
    src = ast.unparse(test)
    if 'TYPE_CHECKING' in src:
        return False
    if 'sys.version_info' in src:
        if (isinstance(test, ast.Compare) and len(test.ops) == 1
                and isinstance(test.comparators[0], ast.Tuple)):
            try:
                want = ast.literal_eval(test.comparators[0])
            except Exception:
                return None
            cur = (3, 12, 3)
            op = test.ops[0]
            if isinstance(op, ast.GtE):
                return cur >= want
            if isinstance(op, ast.Gt):
                return cur > want
            if isinstance(op, ast.Lt):
                return cur < want
            if isinstance(op, ast.LtE):
                return cur <= want
    return None


class Module:
    def __init__(self, program, name, path, rel, is_pkg):
        self.program, self.name, self.path, self.rel, self.is_pkg = program, name, path, rel, is_pkg
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = normalize(ast.parse(self.src, filename=rel))
        self.bindings = {}
        self.stars = []
        for s in self.tree.body:
            self._bind(s)

    def _bind(self, s):
        b = self.bindings
        if isinstance(s, ast.FunctionDef):
            if any(ast.unparse(d).split('.')[-1] == 'overload' for d in s.decorator_list):
                return
            b[s.name] = ('func', FuncInfo(self, s, s.name))
        elif isinstance(s, ast.ClassDef):
            b[s.name] = ('class', ClassInfo(self, s, s.name))
        elif isinstance(s, ast.Import):
            for al in s.names:
                if al.asname:
                    b[al.asname] = ('mod', al.name)
                else:
                    b[al.name.split('.')[0]] = ('mod', al.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            base = self.abs_from(s)
            for al in s.names:
                if al.name == '*':
                    self.stars.append(base)
                else:
                    b[al.asname or al.name] = ('from', base, al.name)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    b[t.id] = ('expr', s.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            b[e.id] = ('item', s.value, i)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            b[s.target.id] = ('expr', s.value)
        elif isinstance(s, ast.If):
            v = static_test(s.test)
            for x in (s.body if v is not False else s.orelse):
                self._bind(x)
        elif isinstance(s, ast.Try):
            for x in s.body:
                self._bind(x)
        elif isinstance(s, ast.With):
            for x in s.body:
                self._bind(x)

    def abs_from(self, s):
        if not s.level:
            return s.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))


class Program:
    PKG = 'marsh'

    def __init__(self, root):
        self.root = root
        self.modules = {}
        pk = os.path.join(root, self.PKG)
        if not os.path.isdir(pk):
            raise AnalysisBroken(f'{pk} is missing')
        h = hashlib.sha256()
        for d, ds, fs in os.walk(pk):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = name.endswith('.__init__')
                if is_pkg:
                    name = name[:-len('.__init__')]
                m = Module(self, name, path, rel, is_pkg)
                h.update(m.src.encode())
                self.modules[name] = m
        self.digest = h.hexdigest()
        self._mro = {}

    # -- resolution ------------------------------------------------------
    # results: ('func', FuncInfo) ('class', ClassInfo) ('mod', name)
    #          ('expr', Module, ast) ('item', Module, ast, i) ('ext', dotted)
    def resolve(self, modname, name, seen=()):
        if (modname, name) in seen:
            return None
        seen = seen + ((modname, name),)
        m = self.modules.get(modname)
        if m is None:
            return ('ext', f'{modname}.{name}')
        b = m.bindings.get(name)
        if b is None:
            if f'{modname}.{name}' in self.modules:
                return ('mod', f'{modname}.{name}')
            for st in m.stars:
                if st in self.modules:
                    r = self.resolve(st, name, seen)
                    if r is not None:
                        return r
            return None
        if b[0] in ('func', 'class'):
            return b
        if b[0] == 'mod':
            return ('mod', b[1])
        if b[0] == 'from':
            base, nm = b[1], b[2]
            if base in self.modules:
                r = self.resolve(base, nm, seen)
                if r is not None:
                    return r
                if f'{base}.{nm}' in self.modules:
                    return ('mod', f'{base}.{nm}')
                return None
            return ('ext', f'{base}.{nm}')
        if b[0] == 'expr':
            return ('expr', m, b[1])
        return ('item', m, b[1], b[2])

    def resolve_expr(self, module, expr):
        """Static resolution of a dotted expression at module level."""
        if isinstance(expr, ast.Subscript):
            return self.resolve_expr(module, expr.value)
        if isinstance(expr, ast.Name):
            r = self.resolve(module.name, expr.id)
            if r is None and hasattr(builtins, expr.id):
                return ('ext', f'builtins.{expr.id}')
            if r is not None and r[0] == 'expr' and isinstance(r[2], (ast.Name, ast.Attribute, ast.Subscript)):
                return self.resolve_expr(r[1], r[2])
            return r
        if isinstance(expr, ast.Attribute):
            base = self.resolve_expr(module, expr.value)
            if base is None:
                return None
            if base[0] == 'mod':
                if base[1] in self.modules:
                    r = self.resolve(base[1], expr.attr)
                    if r is not None and r[0] == 'expr' and isinstance(r[2], (ast.Name, ast.Attribute, ast.Subscript)):
                        return self.resolve_expr(r[1], r[2])
                    return r
                return ('ext', f'{base[1]}.{expr.attr}')
            if base[0] == 'ext':
                return ('ext', f'{base[1]}.{expr.attr}')
            if base[0] == 'class':
                for c in self.mro(base[1]):
                    if isinstance(c, ClassInfo) and expr.attr in c.members:
                        k = c.members[expr.attr]
                        if k[0] in ('func', 'class'):
                            return k
                        return ('expr', c.module, k[1])
            return None
        if isinstance(expr, ast.Call):
            return None
        return None

    def mro(self, cls):
        if cls in self._mro:
            return self._mro[cls]
        self._mro[cls] = [cls, 'builtins.object']      # recursion guard
        bases = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.module, b)
            if r is None:
                bases.append('unknown.' + ast.unparse(b))
            elif r[0] == 'class':
                bases.append(r[1])
            elif r[0] == 'ext':
                bases.append(r[1])
            elif r[0] == 'mod':
                bases.append(r[1])
            else:
                bases.append('unknown.' + ast.unparse(b))
        seqs = []
        for b in bases:
            if isinstance(b, ClassInfo):
                seqs.append(list(self.mro(b)))
            else:
                seqs.append([b] + ([] if b == 'builtins.object' else ext_mro(b)[1:]))
        seqs.append(list(bases))
        out = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] == c:
                    del s[0]
                elif c in s:
                    s.remove(c)
        if 'builtins.object' in out:
            out.remove('builtins.object')
        out.append('builtins.object')
        self._mro[cls] = out
        return out

    def find_member(self, cls, name, after=None):
        """(owner ClassInfo, member) of the first class in the MRO that defines it."""
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if isinstance(c, ClassInfo) and name in c.members:
                return c, c.members[name]
        return None

    def is_subclass(self, cls, of):
        """of: ClassInfo or dotted external name; True/False/None (unknown)."""
        if isinstance(of, str) and of.split('.')[0] == 'marsh':
            of = self.get_class(of)
        if isinstance(cls, ClassInfo):
            m = self.mro(cls)
            if of in m:
                return True
            if any(isinstance(c, str) and c.startswith('unknown.') for c in m):
                return None
            if isinstance(of, ClassInfo):
                return False
            for c in m:
                if isinstance(c, str) and of in ext_mro(c):
                    return True
            return False
        if isinstance(of, ClassInfo):
            return False
        return of in ext_mro(cls)

    def classes(self):
        def rec(c):
            yield c
            for k in c.members.values():
                if k[0] == 'class':
                    yield from rec(k[1])
        for m in self.modules.values():
            for b in m.bindings.values():
                if b[0] == 'class':
                    yield from rec(b[1])

    def functions(self):
        """Every function and method of the package, nested ones included."""
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n

    def get_class(self, dotted):
        c = self._get(dotted)
        if c is None or c[0] != 'class':
            raise AnalysisBroken(f'class {dotted} not found')
        return c[1]

    def get_func(self, dotted):
        c = self._get(dotted)
        if c is None or c[0] != 'func':
            raise AnalysisBroken(f'function {dotted} not found')
        return c[1]

    def _get(self, dotted):
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.modules:
                r = self.resolve(mod, parts[i])
                for p in parts[i + 1:]:
                    if r is None:
                        return None
                    if r[0] == 'class':
                        f = self.find_member(r[1], p)
                        r = f[1] if f else None
                    elif r[0] == 'mod':
                        r = self.resolve(r[1], p)
                    else:
                        return None
                return r
        return None


EXT_EXC = {
    'json.JSONDecodeError': 'builtins.ValueError',
    'json.decoder.JSONDecodeError': 'builtins.ValueError',
    'binascii.Error': 'builtins.ValueError',
    'yaml.YAMLError': 'builtins.Exception',
    'yaml.error.YAMLError': 'builtins.Exception',
    'omegaconf.errors.OmegaConfBaseException': 'builtins.Exception',
    'argparse.ArgumentError': 'builtins.Exception',
    'dataclasses.FrozenInstanceError': 'builtins.AttributeError',
    're.error': 'builtins.Exception',
}


def ext_mro(name):
    """Ancestors of an external class, as dotted names."""
    if name in EXT_EXC:
        return [name] + ext_mro(EXT_EXC[name])
    if name.startswith('builtins.'):
        o = getattr(builtins, name[9:], None)
        if isinstance(o, type):
            return [f'builtins.{c.__name__}' for c in o.__mro__]
    if name.startswith('omegaconf.') and name.endswith(('Error', 'Exception')):
        return [name, 'builtins.Exception', 'builtins.BaseException', 'builtins.object']
    return [name, 'builtins.object']
