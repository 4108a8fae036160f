"""Executes the repository's Python source on symbolic values.

The source is read from the working tree on every run and interpreted statement by statement (no translation, nothing
dropped but annotations, doc strings and calls of print/warnings).  Classes become real Python classes whose methods call
the interpreter, so properties, descriptors, inheritance and closures follow the language.  Loops over symbolic ranges go
through the loop rule of fv.loops, conditions the path does not decide fork the execution."""
import abc
import ast
import builtins
import collections
import functools
import itertools
import linecache
import os
import re
import sys
import types
import typing
import warnings

from .values import *                                       # noqa
from . import values as V, shim, xr
shim.MODULES["xarray"] = xr.XR
from .shim import Mod
from .. import loops, terms as T

REPO = os.environ.get('FALWA_REPO', '/repo')
MODEL = {n for m in (V, shim, xr) for n, c in vars(m).items() if isinstance(c, type) and c.__module__ == m.__name__} | {'SymEnum', 'SymZip', 'SymProduct'}


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


class Poison:
    """value of a name that is only bound inside a symbolic loop"""

    def __getattr__(self, n):
        raise Unsupported('use of a name bound in a symbolic loop')

    def __bool__(self):
        raise Unsupported('use of a name bound in a symbolic loop')


POISON = Poison()


class Env:
    __slots__ = ('vars', 'parent', 'mod', 'globals_', 'cls', 'first')

    def __init__(self, parent, mod, cls=None, first=None):
        self.vars, self.parent, self.mod, self.globals_, self.cls, self.first = {}, parent, mod, set(), cls, first

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                v = e.vars[n]
                if v is POISON:
                    raise Unsupported('%s is bound in a symbolic loop only' % n)
                return v
            e = e.parent
        if n in self.mod.ns:
            return self.mod.ns[n]
        if n in BUILTINS:
            return BUILTINS[n]
        raise NameError("name '%s' is not defined" % n)

    def find(self, what):
        e = self
        while e is not None:
            v = getattr(e, what)
            if v is not None:
                return v
            e = e.parent
        return None


class ClassBox:
    def __init__(self):
        self.cls = None


# ------------------------------------------------------------------------------------------------ builtins
def b_range(*a):
    if all(isinstance(x, int) and not isinstance(x, bool) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    for x in (lo, hi, st):
        if isnum(x) and not term(x).isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
    r = Range(term(lo), term(hi), int(term(st).const))
    c = r.concrete()
    return c if c is not None else r


def b_sum(x, start=0):
    if isinstance(x, SymList):
        x = x.arr()
    if isinstance(x, Arr):
        if x.islog and x.ndim == 1:
            return count(x) + start
        return reduce_('sum', x, 0) + start
    r = start
    for y in x:
        r = r + y
    return r


def b_len(x):
    if isinstance(x, Arr):
        return x.shape[0]
    if isinstance(x, SymList):
        return dimval(x.n + len(x.head))
    if isinstance(x, Seq):
        return dimval(S.slices.n)
    if isinstance(x, Range):
        return dimval(x.hi - x.lo if x.step == 1 else x.lo - x.hi)
    return len(x)


def b_int(x=0, *a):
    if isinstance(x, Num):
        if x.t.isint:
            return x
        c = x.t.const
        return int(c) if c is not None else Num(fn('int', x.t))
    if isinstance(x, Arr):
        return b_int(x.item())
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, (Num, Arr)):
        return x if isinstance(x, Num) else x.item()
    if isinstance(x, (int, float)):
        return float(x) if isinstance(x, float) else Num(P(x))
    v = float(x)
    return v if v != v or v in (float('inf'), float('-inf')) else Num(term(v))


def b_isinstance(x, t):
    ts = []

    def flat(t):
        if isinstance(t, (tuple, list)):
            for y in t:
                flat(y)
        elif isinstance(t, types.UnionType):
            for y in t.__args__:
                flat(y)
        else:
            ts.append(t)
    flat(t)
    ts = [{b_int: int, b_float: float, b_bool: bool, b_range: range}.get(y, y) if callable(y) and isinstance(y, types.FunctionType) else y for y in ts]
    if isinstance(x, Num):
        return (x.t.isint and int in ts) or (not x.t.isint and float in ts) or any(y is Num for y in ts)
    if isinstance(x, Bool):
        return bool in ts or int in ts
    return isinstance(x, tuple(y for y in ts if isinstance(y, type)))


def b_bool(x=False):
    return bool(x)


def b_minmax(op):
    def g(*a, key=None, default=None):
        if key is not None:
            raise Unsupported('max with key')
        if len(a) == 1:
            if isinstance(a[0], Arr):
                return reduce_(op, a[0], None)
            a = tuple(a[0])
        if not any(isinstance(x, (Num, Bool, Arr)) for x in a):
            return (max if op == 'max' else min)(a)
        r = term(a[0])
        for x in a[1:]:
            r = fn(op, r, term(x))
        return mknum(r)
    return g


def b_abs(x):
    return abs(x)


def b_enumerate(x, start=0):
    if isinstance(x, (Range, SymList, Arr, Seq, SymProduct, SymZip)) and not (isinstance(x, Arr) and x._shape[0].const is not None):
        return SymEnum(x, start)
    return enumerate(x, start)


NOITEM = object()


class SymEnum:
    def __init__(self, x, start):
        self.x, self.start = x, start


def b_zip(*xs, **k):
    if any(isinstance(x, (Range, SymList, Seq, SymProduct)) or (isinstance(x, Arr) and x._shape[0].const is None) for x in xs):
        return SymZip(xs)
    return zip(*xs)


class SymZip:
    def __init__(self, xs):
        self.xs = xs


class SymProduct:
    def __init__(self, xs):
        self.xs = xs


def product(*xs, repeat=1):
    if repeat == 1 and any(isinstance(x, Arr) and x._shape[0].const is None for x in xs):
        return SymProduct(xs)
    return itertools.product(*xs, repeat=repeat)


ITERTOOLS = Mod('itertools', **dict({n: getattr(itertools, n) for n in ('chain', 'count', 'repeat', 'islice', 'starmap', 'combinations', 'permutations')}, product=product))


def b_any(x):
    if isinstance(x, Arr):
        return any_(x)
    return any(x)


def b_all(x):
    if isinstance(x, Arr):
        return x.all()
    return all(x)


def b_round(x, n=None):
    raise Unsupported('round')


def b_list(x=()):
    if isinstance(x, (SymList, Seq)):
        return x
    if isinstance(x, (Range, Arr)):
        if isinstance(x, Range) and x.concrete() is None:
            return SymList([], x.hi - x.lo if x.step == 1 else x.lo - x.hi, lambda q: x.lo + x.step * q, True)
        if isinstance(x, Arr) and x._shape[0].const is None:
            if x.ndim != 1:
                raise Unsupported('list of rows')
            s = x.snapshot()
            return SymList([], s._shape[0], lambda q: s.elem([q]))
    return list(x)


def b_callable_type(x):
    return type(x)


BUILTINS = dict(vars(builtins))
for _k in ('open', 'exec', 'eval', 'compile', 'input', '__import__', 'breakpoint', 'exit', 'quit', 'memoryview', 'id', 'hash', 'globals', 'locals', 'vars'):
    BUILTINS.pop(_k, None)
BUILTINS.update(range=b_range, sum=b_sum, len=b_len, int=b_int, float=b_float, isinstance=b_isinstance, max=b_minmax('max'), min=b_minmax('min'),
                abs=b_abs, enumerate=b_enumerate, zip=b_zip, any=b_any, all=b_all, print=lambda *a, **k: None, round=b_round, list=b_list)


# ------------------------------------------------------------------------------------------------ modules
class PyModule:
    def __init__(self, name):
        self.name = name
        self.ns = {'__name__': name}


class Warn:
    """warnings: recorded, no effect"""
    def __init__(self):
        self.log = []


def stub_module(name):
    return Mod(name)


class World:
    """the modules of one execution"""

    def __init__(self, externals=None, repo=None, contracts=None):
        self.repo = repo or REPO
        self.mods = {}
        self.externals = externals or {}       # attribute name of the package -> callable (compiled kernels)
        self.contracts = contracts or {}       # 'module.function' -> callable standing for its contract
        self.functions = set()
        self.warned = []
        self.shared = []
        self.memos = set()
        self.defaults = []

    def path(self, name):
        p = os.path.join(self.repo, 'src', *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.path(name)
        if not os.path.exists(f):
            raise ModuleNotFoundError("No module named '%s'" % name)
        m = PyModule(name)
        self.mods[name] = m
        m.file = os.path.relpath(f, self.repo)
        if name == 'falwa':
            m.ns.update(self.externals)
            for x in ast.parse(open(f).read()).body:
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and all(isinstance(t, ast.Name) for t in x.targets):
                    m.ns.update({t.id: x.value.value for t in x.targets})
            return m
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(open(f).read())
        env = Env(None, m)
        env.vars = m.ns
        outer, self.defaults = self.defaults, []
        Runner(self, m).block(tree.body, env)
        self.remember(m)
        self.defaults = outer
        return m

    def memo(self, f=None, maxsize=128, typed=False):
        """functools.lru_cache: the function itself; that the table it keeps does not show is left open"""
        if not callable(f):
            return self.memo
        n = getattr(f, '__name__', 'function')

        def g(*a, **k):
            self.memos.add('functools.lru_cache of ' + n)
            return f(*a, **k)
        g.__name__ = n
        g.__wrapped__ = f
        g.cache_clear = lambda: None
        return g

    # ---- what outlives a call: module globals, class attributes, default arguments, and the containers they hold
    def remember(self, m):
        seen = set()

        def note(kind, o, name, depth=0):
            if id(o) in seen:
                return
            seen.add(id(o))
            if isinstance(o, Arr):
                self.shared.append((name, o, o.buf.cell))
                return
            kept = dict(vars(o)) if kind == 'attrs' else o.copy()
            self.shared.append((name, o, kept))
            for n, v in (kept.items() if isinstance(kept, dict) else enumerate(kept)):
                inner(v, '%s.%s' % (name, n) if isinstance(n, str) else name, depth + 1)

        def inner(v, name, depth):
            if depth > 4:
                return
            if isinstance(v, (dict, list, set, Arr)):
                note('items', v, name, depth)
            elif isinstance(v, type) and getattr(v, '__module__', None) == m.name or getattr(type(v), '__module__', None) == m.name:
                note('attrs', v, name, depth)
        note('items', m.ns, m.name)
        for v in self.defaults:
            inner(v, m.name + ' (default argument)', 1)

    def state(self, restore=False):
        """names of what differs from its state after import; puts it back if asked"""
        out = sorted(self.memos)
        for name, o, kept in self.shared:
            if isinstance(o, Arr):
                if o.buf.cell is not kept:
                    out.append(name)
                    if restore:
                        o.buf.cell = kept
                continue
            if isinstance(o, (dict, list, set)):
                now = o
            else:
                now = vars(o)
            same = len(now) == len(kept) and (
                all(k in now and now[k] is v for k, v in kept.items()) if isinstance(kept, dict) else
                all(x is y for x, y in zip(now, kept)) if isinstance(kept, list) else {id(x) for x in now} == {id(x) for x in kept})
            if same:
                continue
            diff = [str(k) for k in {**now, **kept} if k not in now or k not in kept or now[k] is not kept[k]] if isinstance(kept, dict) else []
            diff = [k for k in diff if k not in ('__abstractmethods__', '_abc_impl', '__doc__')]
            if isinstance(kept, dict) and not diff:
                continue
            out.append(name + (' ' + ', '.join(diff[:3]) if diff else ''))
            if restore:
                if isinstance(o, (dict, set)):
                    o.clear()
                    o.update(kept)
                elif isinstance(o, list):
                    o[:] = kept
                else:
                    for k in diff:
                        if k in kept:
                            setattr(o, k, kept[k])
                        else:
                            delattr(o, k)
        return out

    def module(self, name):
        """what `import name` binds"""
        if name in shim.MODULES:
            return shim.MODULES[name]
        if name.split('.')[0] == 'falwa':
            m = self.load(name)
            return ModProxy(self, m)
        if name == 'itertools':
            return ITERTOOLS
        if name == 'functools':
            return Mod('functools', **{**{k: v for k, v in vars(functools).items() if not k.startswith('_')}, 'lru_cache': self.memo, 'cache': self.memo})
        if name in ('typing', 'abc', 'collections', 'itertools', 'functools', 'dataclasses', 'enum', '__future__', 'copy', 'types', 'operator'):
            return __import__(name)
        if name == 'warnings':
            return Mod('warnings', warn=lambda *a, **k: self.warned.append(a), filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None)
        if name == 'logging':
            lg = types.SimpleNamespace(**{k: (lambda *a, **kw: None) for k in 'debug info warning error critical exception setLevel addHandler'.split()})
            return Mod('logging', getLogger=lambda *a: lg, **vars(lg))
        return Mod(name)

    def get(self, name):
        mod, attr = name.rsplit('.', 1)
        return self.load(mod).ns[attr]


class ModProxy(types.ModuleType):
    def __init__(self, world, m):
        super().__init__(m.name)
        self.__dict__['_w'], self.__dict__['_m'] = world, m

    def __getattr__(self, n):
        if n in self._m.ns:
            return self._m.ns[n]
        if n.startswith('__'):
            raise AttributeError(n)
        try:
            return self._w.module(self._m.name + '.' + n)
        except ModuleNotFoundError:
            raise AttributeError("module '%s' has no attribute '%s'" % (self._m.name, n))


CALL_DEPTH = [0]


def assigned_names(stmts):
    out = set()

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ListComp(self, n):
            self.visit(n.generators[0].iter)
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Lambda(self, n):
            pass
    w = W()
    for s in stmts:
        w.visit(s)
    return out


BINOPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.FloorDiv: lambda a, b: a // b,
          ast.Mod: lambda a, b: a % b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
          ast.MatMult: lambda a, b: a @ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}


def b_div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        t = term(b)
        if t.const == 0:
            raise ZeroDivisionError('division by zero')
        return Num(term(a) / t)
    return a / b


def b_pow(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return Num(power(term(a), term(b)))
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        return Num(power(P(a), P(b)))
    return a ** b


BINOPS[ast.Div] = b_div
BINOPS[ast.Pow] = b_pow


def internal(e):
    """an exception of the Python machinery that this model of numpy and xarray causes, not the program: an operation it lacks"""
    tb, msg = e.__traceback__, str(e)
    while tb.tb_next is not None:
        tb = tb.tb_next
    fr = tb.tb_frame
    if fr.f_code.co_name == 'call' or linecache.getline(fr.f_code.co_filename, tb.tb_lineno).strip().startswith('raise') or 'NoneType' in msg:
        return False                # arguments of a function of the program, or an exception the model raises on purpose
    named = re.findall(r"'(\w+)'", msg)
    if msg.startswith(('unsupported operand', "'<' not", "'>' not", "'<=' not", "'>=' not", 'bad operand')):
        return not any(n in ('str', 'dict') for n in named) and any(n in MODEL for n in named)
    return any(n in MODEL for n in named) or 'keyword argument' in msg or 'positional argument' in msg


class Runner:
    def __init__(self, world, mod):
        self.w, self.mod = world, mod

    # ---------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        k = type(s).__name__
        f = getattr(self, 's_' + k, None)
        if f is None:
            raise Unsupported('%s:%d: statement %s' % (self.mod.name, s.lineno, k))
        try:
            f(s, env)
        except (TypeError, AttributeError) as e:
            if not getattr(e, '_program', False):
                if internal(e):
                    raise Unsupported('%s:%d: %s' % (self.mod.name, s.lineno, e)) from e
                try:
                    e._program = True
                except AttributeError:
                    pass
            raise

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            m = self.w.module(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                env.vars[a.name.split('.')[0]] = self.w.module(a.name.split('.')[0])

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            base = self.mod.name.split('.')
            if not self.mod.file.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = None
        for a in s.names:
            if name == 'falwa' and a.name in self.w.externals:
                env.vars[a.asname or a.name] = self.w.externals[a.name]
                continue
            if m is None:
                try:
                    m = self.w.module(name)
                except ModuleNotFoundError:
                    if name.split('.')[-1] in self.w.externals:
                        env.vars[a.asname or a.name] = self.w.externals[name.split('.')[-1]]
                        continue
                    raise
            if a.name == '*':
                raise Unsupported('import *')
            try:
                v = getattr(m, a.name)
            except Unsupported:
                v = Missing('%s.%s' % (name, a.name))
            env.vars[a.asname or a.name] = v

    def s_FunctionDef(self, s, env):
        f = self.function(s, env)
        for d in reversed(s.decorator_list):
            f = self.ev(d, env)(f)
        q = '%s.%s' % (self.mod.name, s.name)
        if env.parent is None and env.vars is self.mod.ns and q in self.w.contracts:
            f = self.w.contracts[q]
        env.vars[s.name] = f

    def s_ClassDef(self, s, env):
        bases = tuple(self.ev(b, env) for b in s.bases)
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords}
        box = ClassBox()
        ce = Env(env if env.vars is not self.mod.ns else None, self.mod, cls=box)
        ns = {}
        ce.vars = ns
        # names of the class body are not visible in its functions: they get the enclosing environment
        ce2 = ClassEnv(ce, env, self.mod, box)
        self.block(s.body, ce2)
        ns = dict(ce2.vars)
        ns['__module__'] = self.mod.name
        c = types.new_class(s.name, bases, kw, lambda d: d.update(ns))
        box.cls = c
        for d in reversed(s.decorator_list):
            c = self.ev(d, env)(c)
        env.vars[s.name] = c

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = env.lookup(t.id)
            self.assign(t, self.aug(type(s.op), old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, self.aug(type(s.op), getattr(o, t.attr), self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            self.setitem(o, k, self.aug(type(s.op), o[k], self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, a, b):
        if isinstance(a, Arr):
            m = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__', ast.Div: '__itruediv__'}.get(op)
            if m is None:
                r = BINOPS[op](a, b)
                a.store(r)
                return a
            if a.comp:
                return BINOPS[op](a, b)
            r = getattr(a, m)(b)
            if r is NotImplemented:
                raise TypeError('unsupported operand')
            return r
        if isinstance(a, list):
            if S.inloop:
                raise Unsupported('list changed in a symbolic loop')
            a += b
            return a
        return BINOPS[op](a, b)

    def setattr(self, o, n, v):
        if S.inloop and not isinstance(getattr(type(o), n, None), object.__class__) and not hasattr(type(o), n):
            raise Unsupported('attribute %s set in a symbolic loop' % n)
        if isinstance(o, Arr):
            raise Unsupported('attribute of an array')
        setattr(o, n, v)

    def setitem(self, o, k, v):
        if S.inloop and not isinstance(o, Arr):
            raise Unsupported('container changed in a symbolic loop')
        if isinstance(o, (list,)) and isinstance(k, Num):
            k = int(k)
        o[k] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                self.mod.ns[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v)
            st = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]
                m = len(t.elts) - k - 1
                if len(vs) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                for x, y in zip(t.elts[:k], vs[:k]):
                    self.assign(x, y, env)
                self.assign(t.elts[k].value, vs[k:len(vs) - m], env)
                for x, y in zip(t.elts[k + 1:], vs[len(vs) - m:]):
                    self.assign(x, y, env)
                return
            if len(vs) != len(t.elts):
                raise ValueError('wrong number of values to unpack (expected %d, got %d)' % (len(t.elts), len(vs)))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        else:
            raise Unsupported('assignment target')

    def s_If(self, s, env):
        if self.test(s.test, env):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def test(self, e, env):
        v = self.ev(e, env)
        if isinstance(v, Bool):
            return truth(v.c)
        return bool(v)

    def s_Assert(self, s, env):
        if not self.test(s.test, env):
            raise AssertionError(self.ev(s.msg, env) if s.msg is not None else '')

    def s_Raise(self, s, env):
        if s.exc is None:
            raise env.lookup('__current_exception__')
        e = self.ev(s.exc, env)
        if isinstance(e, type):
            e = e()
        raise e

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Unsupported:
                raise
            except Exception as e:
                for h in s.handlers:
                    ts = self.ev(h.type, env) if h.type is not None else Exception
                    if isinstance(e, ts):
                        if h.name:
                            env.vars[h.name] = e
                        env.vars['__current_exception__'] = e
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        for it in s.items:
            m = self.ev(it.context_expr, env)
            raise Unsupported('with %s' % type(m).__name__)

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, env), t.attr)
            else:
                raise Unsupported('del')

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_While(self, s, env):
        n = 0
        while self.test(s.test, env):
            n += 1
            if n > 200:
                raise Unsupported('while loop')
            try:
                self.block(s.body, env)
            except _Continue:
                continue
            except _Break:
                return
        self.block(s.orelse, env)

    def generic(self, it):
        """the item of the arbitrary slice when `it` has one item per slice, else NOITEM"""
        sl = S.slices
        if sl is None:
            return NOITEM
        if isinstance(it, Seq):
            return it.elem
        if isinstance(it, Arr) and it.ndim > 1 and it._shape[0].const is None and P(it._shape[0]) == sl.n:
            return it[Num(sl.s)]
        if isinstance(it, Range):
            return Num(sl.s) if it.step == 1 and it.concrete() is None and P(it.lo) == P(0) and S.ctx.simp(it.hi) == S.ctx.simp(sl.n) else NOITEM
        if isinstance(it, SymProduct):
            if len(it.xs) == len(sl.dims) and all(isinstance(x, Arr) and x.ndim == 1 and P(x._shape[0]) == d for x, d in zip(it.xs, sl.dims)):
                return tuple(x[Num(a)] for x, a in zip(it.xs, sl.at))
            return NOITEM
        if isinstance(it, SymZip):
            r = [self.generic(x) for x in it.xs]
            return tuple(r) if all(x is not NOITEM for x in r) else NOITEM
        if isinstance(it, SymEnum):
            r = self.generic(it.x)
            return NOITEM if r is NOITEM else (Num(sl.s + term(it.start)), r)
        return NOITEM

    def holders(self, env):
        """the containers and objects a loop body can reach by name: [(get, set, value)]"""
        out, seen = [], set()

        def obj(o):
            if id(o) in seen or not hasattr(o, '__dict__') or isinstance(o, (type, types.FunctionType, types.ModuleType, Mod)):
                return
            seen.add(id(o))
            for n, v in list(vars(o).items()):
                out.append((o, n, v))
        e = env
        while e is not None and e.vars is not self.mod.ns:
            for n, v in list(e.vars.items()):
                out.append((e.vars, n, v))
                obj(v)
            e = e.parent
        return out

    def genericloop(self, s, item, env):
        """a loop over independent slices: the body is executed for an arbitrary one.  It may change the objects of that slice, fill lists with one
        item per slice and nothing else"""
        mod = self.mod
        slice_objects = {id(x) for x in (item if isinstance(item, tuple) else (item,))}
        before = [(h, n, v, len(v) if isinstance(v, (list, dict, set)) else None) for h, n, v in self.holders(env) if not (not isinstance(h, dict) and id(h) in slice_objects)]
        save, S.writes = S.writes, {}
        mark = next(V._bid)
        S.slices.generic += 1
        try:
            self.assign(s.target, item, env)
            try:
                self.block(s.body, env)
            except _Continue:
                raise Unsupported('continue in a loop over slices')
            except _Break:
                raise Unsupported('break in a loop over slices')
            if any(b.id < mark for b, _ in S.writes.values()):
                raise Unsupported('a loop over slices writes into an array')
        finally:
            S.slices.generic -= 1
            S.writes = save
        local, done = env.vars, {}
        for h, n, v, m in before:
            now = h.get(n) if isinstance(h, dict) else getattr(h, n, None)
            if now is not v:
                if h is local:
                    local[n] = POISON
                    continue
                raise Unsupported('a loop over slices rebinds %s' % n)
            if m is not None and len(v) != m:
                if not isinstance(v, list) or m != 0 or len(v) != 1:
                    if id(v) not in done:
                        raise Unsupported('a loop over slices fills %s' % n)
                q = done.setdefault(id(v), Seq(v[0]))
                if isinstance(h, dict):
                    h[n] = q
                else:
                    setattr(h, n, q)
        names = {n for _, n, _, _ in before}
        for n in list(local):
            if not any(h is local and n == m for h, m, _, _ in before):
                local[n] = POISON

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        item = self.generic(it)
        if item is not NOITEM:
            self.genericloop(s, item, env)
            return self.block(s.orelse, env)
        sym = self.symbolic(it)
        if sym is not None:
            if s.orelse:
                self.symloop(s, sym, env)
                self.block(s.orelse, env)
                return
            return self.symloop(s, sym, env)
        for x in it:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Continue:
                continue
            except _Break:
                return
        self.block(s.orelse, env)

    def symbolic(self, it):
        """(Range, item function) for an iterable of symbolic length"""
        if isinstance(it, Arr) and it.rng is not None:
            r = Range(*it.rng)
            if r.concrete() is None:
                return r, lambda v: Num(v)
            return None
        if isinstance(it, Range):
            return (it, lambda v: Num(v)) if it.concrete() is None else None
        if isinstance(it, Arr) and it._shape[0].const is None:
            return Range(0, it._shape[0]), lambda v: it[Num(v)]
        if isinstance(it, SymList):
            a = it.arr()
            return Range(0, a._shape[0]), lambda v: a[Num(v)]
        if isinstance(it, SymEnum):
            q = self.symbolic(it.x)
            if q is None:
                raise Unsupported('enumerate')
            r, g = q
            if r.step != 1:
                raise Unsupported('enumerate over a descending range')
            return r, lambda v: (Num(v - r.lo + term(it.start)), g(v))
        if isinstance(it, SymZip):
            qs = []
            for x in it.xs:
                q = self.symbolic(x)
                if q is None:
                    raise Unsupported('zip')
                qs.append(q)
            r0 = qs[0][0]
            for r, _ in qs[1:]:
                if r.step != 1 or r0.step != 1 or not truth(cmp_eq(r.hi - r.lo, r0.hi - r0.lo)):
                    raise Unsupported('zip of different lengths')
            return r0, lambda v: tuple(g(v - r0.lo + r.lo) for r, g in qs)
        return None

    # ---------------------------------------------------------------- symbolic loops
    def symloop(self, s, sym, env):
        rng, item = sym
        if rng.step not in (1, -1):
            raise Unsupported('loop step')
        lo = S.ctx.simp(rng.lo)
        hi = S.ctx.simp(rng.hi - rng.step)
        asc = rng.step > 0
        first, last = (lo, hi) if asc else (hi, lo)
        if not truth(cmp_le(first, last)):
            return
        iv = fresh('it')
        names = assigned_names(s.body) | assigned_names([ast.Assign([s.target], s.target)])
        tnames = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        pre = dict(env.vars)

        def run_once(ictx):
            """body once per path from the current state, which is restored; -> list of (path, ctx, (locals, buffers)), writes"""
            start = dict(env.vars)
            save, S.writes = S.writes, {}
            octx, S.ctx = S.ctx, ictx

            def restore():
                for b, c in S.writes.values():
                    b.cell = c

            def one():
                restore()
                env.vars.clear()
                env.vars.update(start)
                self.assign(s.target, item(iv), env)
                S.inloop += 1
                S.active.append(iv)
                try:
                    self.block(s.body, env)
                except _Continue:
                    pass
                except _Break:
                    raise Unsupported('break in a symbolic loop')
                except _Return:
                    raise Unsupported('return in a symbolic loop')
                finally:
                    S.active.pop()
                    S.inloop -= 1
                return dict(env.vars), {b: b.cell for b, _ in S.writes.values()}
            try:
                res = paths(one)
            finally:
                restore()
                wr = S.writes
                S.ctx = octx
                S.writes = save
                env.vars.clear()
                env.vars.update(start)
            return res, wr
        # ---- discovery of what the body changes
        maxid = next(V._bid)
        ictx = S.ctx.child(cmp_le(first, iv), cmp_le(iv, last))
        ncalls, ntouch = len(S.calls), len(S.touched)
        res, wr = run_once(ictx)
        del S.calls[ncalls:]
        del S.touched[ntouch:]
        watch = [b for b, _ in wr.values() if b.id < maxid]
        locs = {}
        for n in names - tnames:
            if n not in pre:
                continue
            v0 = pre[n]
            if any(r[2][0].get(n) is not v0 for r in res):
                locs[n] = v0
        init, back = {}, {}
        for b in watch:
            k = 'b%d' % b.id
            init[k] = b.cell
            back[k] = b
        lshape = {}
        for n, v0 in locs.items():
            k = 'l:' + n
            finals = [r[2][0].get(n) for r in res]
            if isnum(v0) and all(isnum(x) for x in finals):
                if isinstance(v0, (bool, Bool)) and all(isinstance(x, (bool, Bool)) for x in finals):
                    init[k] = Cell((), cond_of(v0), islog=True)
                else:
                    t = term(v0)
                    init[k] = Cell((), t, t.isint and all(term(x).isint for x in finals))
            elif isinstance(v0, Arr) and all(isinstance(x, Arr) and not x.comp for x in finals) and not v0.comp:
                if any(b.id == v0.buf.id for b in watch):
                    raise Unsupported('%s rebound and written in a loop' % n)
                c = lift(lambda x: x, v0).buf.cell if not v0.islog else None
                if c is None:
                    raise Unsupported('mask carried through a loop')
                init[k] = c
                lshape[k] = v0._shape
            elif all(x is not None and not isinstance(x, (str,)) for x in finals) or v0 is None:
                # a temporary: not available after the loop
                locs[n] = POISON
            else:
                raise Unsupported('%s changes in a symbolic loop' % n)

        def arr_of(cell, shape):
            return Arr(Buf(cell, shape), [('a', d, 1, ZERO) for d in range(len(shape))], shape)

        def put(cells):
            for k, c in cells.items():
                if k in back:
                    back[k].cell = c
                elif k in lshape:
                    env.vars[k[2:]] = arr_of(c, lshape[k])
                elif c.islog:
                    env.vars[k[2:]] = mkbool(c.term)
                else:
                    env.vars[k[2:]] = Num(c.term)

        def run_body(cells, ctx2):
            put(cells)
            for n in locs:
                if locs[n] is POISON:
                    env.vars[n] = POISON
            res, wr = run_once(ctx2)
            extra = [b for b, _ in wr.values() if b.id < maxid and b not in watch]
            if extra:
                raise Unsupported('loop writes an array not seen before')
            end = {}
            for k, c in cells.items():
                acc = None
                for pc, pctx, (lv, bv) in reversed(res):
                    if k in back:
                        x = bv.get(back[k], cells[k])
                    else:
                        v = lv[k[2:]]
                        if k in lshape:
                            if v.ndim != len(lshape[k]) or not all(same_extent(a, b) for a, b in zip(v._shape, lshape[k])):
                                raise Unsupported('array of changing shape in a loop')
                            x = lift(lambda y: y, v).buf.cell
                        elif c.islog:
                            x = Cell((), cond_of(v), islog=True)
                        else:
                            x = Cell((), term(v), c.isint)
                    if acc is None:
                        acc = x
                    elif c.islog and not c.params:
                        g = c_and(*pc)
                        acc = Cell((), c_or(c_and(g, x.term), c_and(c_not(g), acc.term)), islog=True)
                    elif x.term is not acc.term or x.params != acc.params:
                        ps = x.params
                        acc = Cell(ps, ite(c_and(*pc), x.term, acc.at([P(p) for p in ps]) if ps else acc.term), c.isint)
                end[k] = acc if acc is not None else c
            return end
        for k, c in init.items():
            if c.islog and c.params:
                raise Unsupported('mask array written in a loop')
        # calls in the body that raise would end the loop: the paths that raise surface here as exceptions
        try:
            fin = loops.summarise(S.ctx, iv, lo, hi, rng.step, init, run_body, tuple(S.active), list(init))
            S.calls.append(dict(name='loop', iv=iv, lo=lo, hi=hi, step=rng.step, init={back[k].id: c for k, c in init.items() if k in back}, ctx=S.ctx))
        finally:
            for k, b in back.items():
                b.cell = init[k]
        env.vars.clear()
        env.vars.update(pre)
        out = dict(init)
        out.update(fin)
        put(out)
        if S.writes is not None:
            for k in fin:
                if k in back:
                    S.writes.setdefault(back[k].id, (back[k], init[k]))
        for n in names:
            if 'l:' + n not in init:
                if n in pre and locs.get(n) is not POISON and n not in tnames:
                    continue
                env.vars[n] = POISON
        if isinstance(s.target, ast.Name):
            env.vars[s.target.id] = item(hi)

    # ---------------------------------------------------------------- functions
    def function(self, s, env):
        """a Python callable for a def or lambda"""
        a = s.args
        defaults = {}
        ns = {}
        names = []

        def dflt(e):
            k = '__d%d' % len(defaults)
            defaults[k] = self.ev(e, env)
            self.w.defaults.append(defaults[k])
            return ast.Name(k, ast.Load())
        strip = lambda x: ast.arg(x.arg, None)
        args = ast.arguments(posonlyargs=[strip(x) for x in a.posonlyargs], args=[strip(x) for x in a.args],
                             vararg=strip(a.vararg) if a.vararg else None, kwonlyargs=[strip(x) for x in a.kwonlyargs],
                             kw_defaults=[dflt(e) if e is not None else None for e in a.kw_defaults],
                             kwarg=strip(a.kwarg) if a.kwarg else None, defaults=[dflt(e) for e in a.defaults])
        name = getattr(s, 'name', '<lambda>')
        b = ast.Module([ast.FunctionDef(name='__bind', args=args, body=[ast.Return(ast.Call(ast.Name('locals', ast.Load()), [], []))], decorator_list=[], type_params=[])], [])
        ast.fix_missing_locations(b)
        ns = dict(defaults)
        exec(compile(b, '<bind %s>' % name, 'exec'), ns)
        bind = ns['__bind']
        bind.__name__ = name
        parent = env.closure() if isinstance(env, ClassEnv) else (env if env.vars is not self.mod.ns else None)
        box = env.box if isinstance(env, ClassEnv) else None
        first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
        isgen = not isinstance(s, ast.Lambda) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))

        def call(*p, **k):
            loc = bind(*p, **k)
            e = Env(parent, self.mod, cls=box, first=loc.get(first) if first else None)
            e.vars.update(loc)
            if isgen:
                e.vars[' yield'] = []
            CALL_DEPTH[0] += 1
            if CALL_DEPTH[0] > 60:
                CALL_DEPTH[0] = 0
                raise Unsupported('call depth')
            self.w.functions.add('%s:%s' % (self.mod.file, name))
            try:
                if isinstance(s, ast.Lambda):
                    return self.ev(s.body, e)
                self.block(s.body, e)
            except _Return as r:
                if not isgen:
                    return r.v
            finally:
                CALL_DEPTH[0] -= 1
            if isgen:               # run to its end at once: the bodies of the generators of this package do not depend on when they run
                y = e.vars[' yield']
                return iter(y) if isinstance(y, list) else y
            return None
        call.__name__ = name
        call.__qualname__ = name
        call.bind = bind
        call.__doc__ = ast.get_docstring(s) if not isinstance(s, ast.Lambda) else None
        return call

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return f(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Num(term(v))
        return v

    def e_Name(self, e, env):
        return env.lookup(e.id)

    def e_Tuple(self, e, env):
        return tuple(self.items(e.elts, env))

    def e_List(self, e, env):
        return self.items(e.elts, env)

    def e_Set(self, e, env):
        return set(self.items(e.elts, env))

    def items(self, els, env):
        out = []
        for x in els:
            if isinstance(x, ast.Starred):
                out += list(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_BinOp(self, e, env):
        return BINOPS[type(e.op)](self.ev(e.left, env), self.ev(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Bool):
                return mkbool(c_not(v.c))
            return not v
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, e, env):
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, env)
            if k == len(e.values) - 1:
                return v
            b = truth(v.c) if isinstance(v, Bool) else bool(v)
            if isinstance(e.op, ast.And) and not b:
                return False if isinstance(v, Bool) else v
            if isinstance(e.op, ast.Or) and b:
                return True if isinstance(v, Bool) else v
        return v

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(r, env)
            v = self.compare(op, l, r)
            if k == len(e.ops) - 1:
                return v if res is True else (res & v)
            if isinstance(v, Arr):
                raise ValueError('The truth value of an array with more than one element is ambiguous.')
            if not (truth(v.c) if isinstance(v, Bool) else v):
                return False
            l = r
        return res

    def compare(self, op, l, r):
        if isinstance(op, ast.Is):
            return l is r
        if isinstance(op, ast.IsNot):
            return l is not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(r, (Arr, SymList, Range)):
                raise Unsupported('membership in an array')
            v = False
            if isinstance(r, (dict, str, set)) or not isnum(l):
                v = l in r
            else:
                for x in r:
                    q = self.compare(ast.Eq(), l, x)
                    if q if not isinstance(q, Bool) else truth(q.c):
                        v = True
                        break
            return v if isinstance(op, ast.In) else not v
        f = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
             ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}[type(op)]
        if isinstance(l, tuple) and isinstance(r, tuple) and not isinstance(l, Shape) and isinstance(op, (ast.Eq, ast.NotEq)):
            l = Shape(l)
        elif isinstance(l, tuple) and isinstance(r, Shape):
            l = Shape(l)
        if isinstance(l, (int, float)) and isinstance(r, (Arr, Num)) and not isinstance(l, bool):
            l = Num(term(l)) if isinstance(r, Num) else l
        return f(l, r)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.test(e.test, env) else e.orelse, env)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return getattr(o, e.attr)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev(e.slice, env)
        if isinstance(o, (list, tuple, range, str)) and isinstance(k, Num):
            k = int(k)
        if isinstance(o, (list, tuple, range, str)) and isinstance(k, slice):
            f = lambda x: int(x) if isinstance(x, Num) else x
            k = slice(f(k.start), f(k.stop), f(k.step))
        return o[k]

    def e_Slice(self, e, env):
        f = lambda x: self.ev(x, env) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return super(env.find('cls').cls, env.find('first'))
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        if S.inloop and isinstance(e.func, ast.Attribute) and isinstance(getattr(f, '__self__', None), (list, dict, set)) \
                and e.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'update', 'clear', 'add', 'setdefault'):
            raise Unsupported('container changed in a symbolic loop')
        return f(*args, **kw)

    def e_Lambda(self, e, env):
        return self.function(e, env)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                out.append('<array>' if isinstance(x, Arr) else str(x))
        return ''.join(out)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Yield(self, e, env):
        en = env
        while ' yield' not in en.vars:
            en = en.parent
        en.vars[' yield'].append(self.ev(e.value, env) if e.value is not None else None)
        return None

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda en: self.ev(e.elt, en))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda en: self.ev(e.elt, en))

    def e_SetComp(self, e, env):
        return set(self.comp(e, env, lambda en: self.ev(e.elt, en)))

    def e_DictComp(self, e, env):
        return dict(self.comp(e, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en))))

    def comp(self, e, env, f):
        out = []

        def go(gs, en):
            if not gs:
                out.append(f(en))
                return None
            g, rest = gs[0], gs[1:]
            it = self.ev(g.iter, en)
            item = self.generic(it)
            if item is not NOITEM:
                if len(e.generators) != 1 or g.ifs:
                    raise Unsupported('nested comprehension over slices')
                e2 = Env(en, self.mod)
                S.slices.generic += 1
                try:
                    self.assign(g.target, item, e2)
                    return Seq(f(e2))
                finally:
                    S.slices.generic -= 1
            sym = self.symbolic(it)
            if sym is not None:
                if len(e.generators) != 1 or g.ifs:
                    raise Unsupported('nested comprehension over a symbolic range')
                return self.symcomp(sym, g, en, f)
            for x in it:
                e2 = Env(en, self.mod)
                self.assign(g.target, x, e2)
                if all(self.test(c, e2) for c in g.ifs):
                    go(rest, e2)
            return None
        r = go(e.generators, env)
        return r if r is not None else out

    def symcomp(self, sym, g, env, f):
        rng, item = sym
        n = rng.hi - rng.lo if rng.step == 1 else rng.lo - rng.hi
        if rng.step not in (1, -1):
            raise Unsupported('comprehension step')
        iv = fresh('lc')
        first, last = (rng.lo, rng.hi - 1) if rng.step > 0 else (rng.hi + 1, rng.lo)
        if not truth(cmp_le(first, last)):
            return []
        e2 = Env(env, self.mod)
        octx, S.ctx = S.ctx, S.ctx.child(cmp_le(first, iv), cmp_le(iv, last))
        save, S.writes = S.writes, {}

        def one():
            S.inloop += 1
            S.active.append(iv)
            try:
                self.assign(g.target, item(iv), e2)
                return f(e2)
            finally:
                S.active.pop()
                S.inloop -= 1
        mark = next(V._bid)
        try:
            res = paths(one)
            if any(b.id < mark for b, _ in S.writes.values()):
                raise Unsupported('comprehension with side effects')
        finally:
            S.ctx, S.writes = octx, save
        acc = None
        for pc, _, v in reversed(res):
            t = term(v)
            acc = t if acc is None else ite(c_and(*pc), t, acc)
        return SymList([], n, lambda q: subst(acc, {atom_of(iv): rng.lo + (q if rng.step > 0 else neg(q))}), acc.isint)


class Missing:
    """a name imported from something outside the subset"""

    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        raise Unsupported(self.n)

    def __getattr__(self, x):
        if x.startswith('__'):
            raise AttributeError(x)
        raise Unsupported(self.n + '.' + x)


class ClassEnv(Env):
    """environment of a class body"""
    __slots__ = ('box', 'outer')

    def __init__(self, ce, outer, mod, box):
        super().__init__(outer if outer.vars is not mod.ns else None, mod)
        self.box, self.outer = box, outer

    def closure(self):
        return self.outer if self.outer.vars is not self.mod.ns else None
