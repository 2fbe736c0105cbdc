"""AST interpreter over the real source: executes Python functions symbolically, one path at a time.

Functions whose source lies under one of ROOTS are never executed natively: their AST is taken from the file that
was imported and interpreted here, so the verified text is the text that runs.  Everything else (builtins, library
functions) is either an intrinsic below (symbolic arguments) or called natively (concrete arguments only).
"""
import ast
import builtins
import codecs
import binascii
import collections
import copy
import functools
import itertools
import logging
import math
import operator
import os
import string as _string
import types
import z3

from . import dom
from .dom import (Unsupported, PyExc, Infeasible, SInt, SBool, SRat, SStr, SHex, SBytes, SText, B, O, SYM, ctx, z,
                  simp, mk_int, mk_bool, lit, width, canon, split, intof)

REPO = os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/'
ROOTS = [REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/spec/']
LOOP_CAP = 20000


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Stub(object):
    """host-side model of a library object (assumed contract); subclasses override py_* hooks"""
    def py_getattr(self, ip, name):
        raise Unsupported('attribute %s of %s' % (name, type(self).__name__))

    def py_setattr(self, ip, name, v):
        raise Unsupported('setting attribute %s of %s' % (name, type(self).__name__))

    def py_hasattr(self, ip, name):
        try:
            self.py_getattr(ip, name)
            return True
        except PyExc:
            return False

    def py_truth(self, ip):
        raise Unsupported('truth of %s' % type(self).__name__)

    def py_len(self, ip):
        raise Unsupported('len of %s' % type(self).__name__)

    def py_iter(self, ip):
        raise Unsupported('iteration over %s' % type(self).__name__)

    def py_getitem(self, ip, k):
        raise Unsupported('indexing %s' % type(self).__name__)

    def py_setitem(self, ip, k, v):
        raise Unsupported('item assignment to %s' % type(self).__name__)

    def py_contains(self, ip, x):
        raise Unsupported('membership in %s' % type(self).__name__)

    def py_call(self, ip, args, kw):
        raise Unsupported('calling %s' % type(self).__name__)

    def py_isinstance(self, ip, cls):
        raise Unsupported('isinstance of %s' % type(self).__name__)

    def py_eq(self, ip, other):
        if self is other:
            return True
        raise Unsupported('== of %s' % type(self).__name__)

    def py_int(self, ip):
        raise Unsupported('int() of %s' % type(self).__name__)

    def py_type(self, ip):
        raise Unsupported('type() of %s' % type(self).__name__)

    def py_loop(self, ip, node, frame):
        """summarise a for loop over this object; return False to iterate normally"""
        return False


class Method(Stub):
    """host function bound as a contract: called with (ip, *args, **kw)"""
    def __init__(self, f, name=''):
        self.f = f
        self.name = name

    def py_call(self, ip, args, kw):
        return self.f(ip, *args, **kw)

    def py_getattr(self, ip, name):
        if name == '__name__':
            return self.name
        raise Unsupported('attribute %s of method' % name)


def is_sym(x, depth=4):
    if isinstance(x, SYM) or isinstance(x, Stub):
        return True
    if depth <= 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return any(is_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(is_sym(y, depth - 1) for y in x.values())
    if isinstance(x, slice):
        return is_sym((x.start, x.stop, x.step), depth - 1)
    return False


# ------------------------------------------------------------------ source access
_files = {}


def _mangle(n, cls):
    """private names inside a class, as Python resolves them"""
    for k in ast.iter_child_nodes(n):
        if isinstance(k, ast.ClassDef):
            _mangle(k, k.name.lstrip('_') or None)
            continue
        if cls:
            if isinstance(k, ast.Attribute) and k.attr.startswith('__') and not k.attr.endswith('__'):
                k.attr = '_%s%s' % (cls, k.attr)
            elif isinstance(k, ast.Name) and k.id.startswith('__') and not k.id.endswith('__'):
                k.id = '_%s%s' % (cls, k.id)
        _mangle(k, cls)


def _index(path):
    if path not in _files:
        tree = ast.parse(open(path).read(), path)
        _mangle(tree, None)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                line = n.lineno
                if getattr(n, 'decorator_list', None):
                    line = min([d.lineno for d in n.decorator_list] + [line])
                idx.setdefault((getattr(n, 'name', '<lambda>'), line), []).append(n)
        _files[path] = idx
    return _files[path]


def interpretable(f):
    code = getattr(f, '__code__', None)
    return isinstance(f, types.FunctionType) and any(code.co_filename.startswith(r) for r in ROOTS)


def node_of(f):
    code = f.__code__
    c = _index(code.co_filename).get((code.co_name, code.co_firstlineno), [])
    if len(c) != 1:
        raise Unsupported('cannot locate source of %s' % f.__qualname__)
    return c[0]


class Closure(object):
    def __init__(self, ip, node, frame, globs, qualname, defaults=(), kwdefaults=None, cls=None, host=None):
        self.ip, self.node, self.frame, self.globs = ip, node, frame, globs
        self.__name__ = getattr(node, 'name', '<lambda>')
        self.__qualname__ = qualname
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.cls = cls
        self.host = host
        self.attrs = {}

    def __get__(self, obj, typ=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __call__(self, *a, **k):
        return self.ip.call(self, list(a), k)


class Frame(object):
    __slots__ = ('vars', 'parent', 'globs', 'locals', 'globals_decl', 'nonlocals', 'fn', 'yields')

    def __init__(self, parent, globs, locals_, fn=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.locals = locals_
        self.globals_decl = set()
        self.nonlocals = set()
        self.fn = fn
        self.yields = None


def _stores(body):
    """names bound in a function body (not in nested scopes)"""
    out, gl, nl = set(), set(), set()

    def walk(n, top):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and not top:
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for m in ast.iter_child_nodes(n):
            walk(m, False)
    for n in body:
        walk(n, False)
    return out - gl - nl, gl, nl


def _has_yield(node):
    def walk(n):
        for m in ast.iter_child_nodes(n):
            if isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(m, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(m):
                return True
        return False
    return walk(node)


_stores_cache = {}
_yield_cache = {}
_MISSING = object()


class Interp(object):
    def __init__(self, contracts=None, hooks=None):
        self.contracts = contracts or {}        # qualname 'module:function' -> host contract f(ip, closure, args, kw)
        self.hooks = hooks or {}
        self.called = set()
        self.depth = 0
        self.steps = 0
        self.fuel = 3000000

    # -------------------------------------------------------------- exceptions
    def raise_(self, e):
        raise PyExc(e)

    # -------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Stub):
            return f.py_call(self, args, kw)
        if isinstance(f, types.MethodType):
            if isinstance(f.__self__, logging.Logger):
                return None
            return self.call(f.__func__, [f.__self__] + args, kw)
        if isinstance(f, Closure):
            return self.run(f, args, kw)
        if isinstance(f, types.FunctionType):
            if getattr(f, '__pyver_intrinsic__', False):
                return f(self, *args, **kw)
            if interpretable(f):
                return self.run(self.closure_of(f), args, kw)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, dict(f.keywords, **kw))
        try:
            intr = INTRINSICS.get(f) if isinstance(f, (type, types.BuiltinFunctionType, types.FunctionType)) or type(f).__hash__ is object.__hash__ else None
        except Exception:
            intr = None
        if intr is not None:
            return intr(self, *args, **kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType, types.BuiltinFunctionType, types.MethodDescriptorType)):
            r = self.builtin_method(f, args, kw)
            if r is not _MISSING:
                return r
        if self.is_logger_method(f):
            return None
        if isinstance(f, types.FunctionType) and f.__name__ == '<lambda>':
            return self.native(f, args, kw)
        if hasattr(type(f), '__call__') and not isinstance(f, (types.FunctionType, types.BuiltinFunctionType, type)):
            m = self.lookup_special(f, '__call__')
            if m is not None and interpretable(getattr(m, '__func__', None)):
                return self.call(m, args, kw)
        return self.native(f, args, kw)

    def is_logger_method(self, f):
        return isinstance(getattr(f, '__self__', None), logging.Logger)

    def native(self, f, args, kw):
        if is_sym(args) or is_sym(kw):
            args = [small(x) for x in args]
            kw = {k: small(x) for k, x in kw.items()}
        if is_sym(args) or is_sym(kw):
            raise Unsupported('native call of %r with symbolic arguments' % getattr(f, '__qualname__', f))
        try:
            return f(*args, **kw)
        except (Unsupported, PyExc, Infeasible, Return, Break, Continue):
            raise
        except Exception as e:
            raise PyExc(e)

    def closure_of(self, f):
        node = node_of(f)
        frame = None
        if f.__closure__:
            frame = Frame(None, f.__globals__, set())
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    frame.vars[n] = c.cell_contents
                except ValueError:
                    pass
        return Closure(self, node, frame, f.__globals__, f.__module__ + ':' + f.__qualname__,
                       f.__defaults__ or (), f.__kwdefaults__, host=f)

    def run(self, c, args, kw):
        q = c.__qualname__
        ct = self.contracts.get(q)
        if ct is not None:
            r = ct(self, c, args, kw)
            if r is not _MISSING:
                return r
        return self.run_body(c, args, kw)

    def run_body(self, c, args, kw):
        self.called.add(c.__qualname__)
        node = c.node
        key = id(node)
        if key not in _stores_cache:
            body = node.body if isinstance(node.body, list) else [node.body]
            _stores_cache[key] = _stores(body)
            _yield_cache[key] = isinstance(node, ast.FunctionDef) and _has_yield(node)
        st, gl, nl = _stores_cache[key]
        fr = Frame(c.frame, c.globs, st, c)
        fr.globals_decl, fr.nonlocals = gl, nl
        self.bind(c, fr, args, kw)
        self.depth += 1
        if self.depth > 180:
            self.depth -= 1
            raise Unsupported('recursion depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if _yield_cache[key]:
                fr.yields = []
                try:
                    self.block(node.body, fr)
                except Return:
                    pass
                return iter(fr.yields)
            try:
                self.block(node.body, fr)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, c, fr, args, kw):
        a = c.node.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        fr.locals = fr.locals | set(names) | {p.arg for p in a.kwonlyargs}
        args = list(args)
        kw = dict(kw)
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        if len(args) > len(names):
            self.raise_(TypeError('%s() takes %d positional arguments but %d were given' % (c.__name__, len(names), len(args))))
        for n, v in zip(names, args):
            if n in kw:
                self.raise_(TypeError('%s() got multiple values for argument %r' % (c.__name__, n)))
            fr.vars[n] = v
        nd = len(c.defaults)
        for i, n in enumerate(names):
            if n in fr.vars:
                continue
            if n in kw:
                fr.vars[n] = kw.pop(n)
            elif i >= len(names) - nd:
                fr.vars[n] = c.defaults[i - (len(names) - nd)]
            else:
                self.raise_(TypeError('%s() missing argument %r' % (c.__name__, n)))
        for p in a.kwonlyargs:
            if p.arg in kw:
                fr.vars[p.arg] = kw.pop(p.arg)
            elif p.arg in c.kwdefaults:
                fr.vars[p.arg] = c.kwdefaults[p.arg]
            else:
                self.raise_(TypeError('missing keyword argument %r' % p.arg))
        if a.kwarg:
            fr.vars[a.kwarg.arg] = kw
        elif kw:
            self.raise_(TypeError('%s() got an unexpected keyword argument %r' % (c.__name__, sorted(kw)[0])))

    def construct(self, cls, args, kw):
        hook = self.hooks.get('construct')
        if hook is not None:
            r = hook(self, cls, args, kw)
            if r is not _MISSING:
                return r
        if issubclass(cls, BaseException):
            if getattr(cls, '__module__', '') != 'builtins':
                init = self.mro_get(cls, '__init__')
                if interpretable(init):
                    e = cls.__new__(cls)
                    self.call(init, [e] + list(args), kw)
                    return e
            return cls(*[repr(x) if is_sym(x) else x for x in args])
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            new = cls.__dict__.get('__new__')
            try:
                return cls(*args, **kw)
            except TypeError as e:
                raise PyExc(e)
        mod = getattr(cls, '__module__', '')
        file_ok = self.class_in_roots(cls)
        if file_ok:
            if cls.__flags__ & (1 << 20):
                pass
            new = self.mro_get(cls, '__new__')
            if new is not object.__new__ and interpretable(getattr(new, '__func__', new)):
                o = self.call(getattr(new, '__func__', new), [cls] + list(args), kw)
            elif self.native_base(cls):
                if is_sym(args) or is_sym(kw):
                    raise Unsupported('construction of %s with symbolic arguments' % cls.__name__)
                return self.native(cls, args, kw)
            else:
                o = object.__new__(cls)
            init = self.mro_get(cls, '__init__')
            if init is not object.__init__ and init is not None:
                self.call(init, [o] + list(args), kw)
            elif args or kw:
                self.raise_(TypeError('%s() takes no arguments' % cls.__name__))
            return o
        return self.native(cls, args, kw)

    def native_base(self, cls):
        return any(b is not object and not self.class_in_roots(b) for b in cls.__mro__)

    def class_in_roots(self, cls):
        if cls.__dict__.get('__pyver__'):
            return True
        m = getattr(cls, '__module__', None)
        import sys
        mod = sys.modules.get(m)
        f = getattr(mod, '__file__', None) or ''
        return any(f.startswith(r) for r in ROOTS)

    def mro_get(self, cls, name):
        for b in cls.__mro__:
            if name in b.__dict__:
                return b.__dict__[name]
        return None

    def lookup_special(self, o, name):
        cls = type(o)
        m = self.mro_get(cls, name)
        if m is None:
            return None
        if isinstance(m, (types.FunctionType, Closure)):
            return types.MethodType(m, o)
        return None

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Stub):
            return o.py_getattr(self, name)
        if isinstance(o, (SStr, SText)):
            return Method(functools.partial(str_method, o, name), name) if not isinstance(o, SBytes) else \
                Method(functools.partial(bytes_method, o, name), name)
        if isinstance(o, SInt) or isinstance(o, SBool):
            if name == 'bit_length':
                return Method(lambda ip: ip_bit_length(ip, o))
            if name == 'to_bytes':
                return Method(lambda ip, n=1, order='big', **k: ip_to_bytes(ip, o, n, order, **k))
            if name in ('real', 'numerator'):
                return o
            if name == '__class__':
                return int if isinstance(o, SInt) else bool
            if name in ('__add__', '__sub__', '__mul__', '__floordiv__', '__mod__'):
                op = {'__add__': ast.Add, '__sub__': ast.Sub, '__mul__': ast.Mult, '__floordiv__': ast.FloorDiv, '__mod__': ast.Mod}[name]
                return Method(lambda ip, x: ip.binop(op(), o, x))
            raise Unsupported('attribute %s of int' % name)
        if isinstance(o, SuperProxy):
            return o.get(self, name)
        if isinstance(o, Closure):
            if name in ('__name__', '__qualname__'):
                return getattr(o, name)
            if name in o.attrs:
                return o.attrs[name]
        cls = type(o) if not isinstance(o, type) else None
        if cls is not None:
            d = self.mro_get(cls, name)
            if isinstance(d, property) and d.fget is not None and (interpretable(d.fget) or isinstance(d.fget, Closure)):
                return self.call(d.fget, [o], {})
        try:
            return getattr(o, name)
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            ga = self.mro_get(cls, '__getattr__') if cls is not None else None
            raise PyExc(e)

    def setattr(self, o, name, v):
        if isinstance(o, Stub):
            return o.py_setattr(self, name, v)
        if isinstance(o, Closure):
            o.attrs[name] = v
            return
        cls = type(o) if not isinstance(o, type) else None
        if cls is not None:
            d = self.mro_get(cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    self.raise_(AttributeError(name))
                if interpretable(d.fset) or isinstance(d.fset, Closure):
                    self.call(d.fset, [o, v], {})
                    return
        try:
            setattr(o, name, v)
        except Exception as e:
            raise PyExc(e)

    # -------------------------------------------------------------- truth, comparison
    def truth(self, v):
        c = self.truth_term(v)
        return ctx().branch(c)

    def truth_term(self, v):
        """bool or z3 condition"""
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            if v.strip:
                return True
            w = simp(width(v.p))
            return w != 0 if not isinstance(w, int) else w != 0
        if isinstance(v, SText):
            return True
        if isinstance(v, SRat):
            return z(v.n) != 0
        if isinstance(v, Stub):
            r = v.py_truth(self)
            return r.t if isinstance(r, SBool) else r
        if isinstance(v, list) and v and all(isinstance(x, Splice) for x in v):
            return z3.Or([x.nonempty() for x in v])
        for n in ('__bool__', '__len__'):
            m = self.lookup_special(v, n)
            if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
                return self.truth_term(self.call(m, []))
        try:
            return bool(v)
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    def eq(self, a, b):
        """bool or SBool"""
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, Stub):
            return a.py_eq(self, b)
        if isinstance(b, Stub):
            return b.py_eq(self, a)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int)):
                return mk_bool(z(a) == z(b))
            if isinstance(a, SRat) or isinstance(b, SRat):
                return self.cmp_rat(ast.Eq(), a, b)
            if isinstance(a, float) or isinstance(b, float):
                f = a if isinstance(a, float) else b
                if math.isinf(f) or math.isnan(f):
                    return False
                if f == int(f):
                    return mk_bool(z(a if f is b else b) == int(f))
                return False
            return False
        if isinstance(a, (SStr, SText)) or isinstance(b, (SStr, SText)):
            return str_eq(a, b)
        if isinstance(a, (list, tuple, collections.deque)) and type(a) == type(b) or (isinstance(a, tuple) and isinstance(b, tuple)):
            if is_sym(a) or is_sym(b):
                if len(a) != len(b):
                    return False
                r = True
                for x, y in zip(a, b):
                    e = self.eq(x, y)
                    r = and_(r, e)
                    if r is False:
                        return False
                return r
        if isinstance(a, dict) and isinstance(b, dict) and (is_sym(a) or is_sym(b)):
            if set(a) != set(b):
                return False
            r = True
            for k in a:
                r = and_(r, self.eq(a[k], b[k]))
            return r
        m = self.lookup_special(a, '__eq__')
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.call(m, [b])
        try:
            return a == b
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    def cmp_rat(self, op, a, b):
        an, ad = (z(a.n), a.d) if isinstance(a, SRat) else (z(a), 1)
        bn, bd = (z(b.n), b.d) if isinstance(b, SRat) else (z(b), 1)
        return self.cmp_terms(op, an * bd, bn * ad)

    def cmp_terms(self, op, x, y):
        c = ctx()
        t = type(op)
        # comparisons against 2**e are turned into bit-length comparisons (exact)
        r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y,
             ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y}[t]()
        if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            self.note_pow2(x, y)
        return mk_bool(r)

    def note_pow2(self, x, y):
        """make sure bl() terms exist for values compared with powers of two, so the axioms connect them"""
        c = ctx()
        for p, v in ((x, y), (y, x)):
            sp = simp(p)
            if isinstance(sp, int) or not c.p2s:
                continue
            if _mentions_pow2(sp):
                v = simp(v)
                if not isinstance(v, int):
                    c.bl(v)
                    c.bl(-v)
                    c.bl(-v - 1)

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            if isinstance(a, SBool) or isinstance(b, SBool):
                if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                    return self.eq(a, b)
                return False
            return a is b
        if t is ast.IsNot:
            r = self.compare(ast.Is(), a, b)
            return not_(r)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            if isinstance(a, Stub) and hasattr(a, 'py_ne'):
                return a.py_ne(self, b)
            m = self.lookup_special(a, '__ne__') if not is_sym(a) else None
            if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
                return self.call(m, [b])
            if not is_sym(a) and not is_sym(b):
                m = self.lookup_special(a, '__eq__')
                if m is None or not (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
                    try:
                        return a != b
                    except Exception as e:
                        raise PyExc(e)
            return not_(self.truthy_value(self.eq(a, b)))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not_(self.contains(b, a))
        if isinstance(a, Stub) and not isinstance(a, SYM):
            try:
                a = a.py_int(self)
            except Unsupported:
                raise Unsupported('ordering of %s' % type(a).__name__)
        if isinstance(b, Stub):
            b = b.py_int(self)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int)):
                return self.cmp_terms(op, z(a), z(b))
            if isinstance(a, SRat) or isinstance(b, SRat):
                return self.cmp_rat(op, a, b)
            if isinstance(a, float) or isinstance(b, float):
                f = a if isinstance(a, float) else b
                if math.isinf(f):
                    big = f > 0
                    if f is b:
                        return {ast.Lt: big, ast.LtE: big, ast.Gt: not big, ast.GtE: not big}[t]
                    return {ast.Lt: not big, ast.LtE: not big, ast.Gt: big, ast.GtE: big}[t]
                if f == int(f):
                    return self.cmp_terms(op, z(int(a)) if a is f else z(a), z(int(b)) if b is f else z(b))
                raise Unsupported('float comparison')
            self.raise_(TypeError("'<' not supported between instances of %r and %r" % (tname(a), tname(b))))
        if isinstance(a, SRat) or isinstance(b, SRat):
            return self.cmp_rat(op, a, b)
        if isinstance(a, (SStr, SText)) or isinstance(b, (SStr, SText)):
            raise Unsupported('string ordering')
        name = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[t]
        m = self.lookup_special(a, name)
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.call(m, [b])
        if isinstance(a, tuple) and isinstance(b, tuple) and (is_sym(a) or is_sym(b)):
            raise Unsupported('tuple ordering')
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t]
        try:
            return f(a, b)
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    def truthy_value(self, v):
        if isinstance(v, (bool, SBool)):
            return v
        return mk_bool(self.truth_term(v))

    def contains(self, c, x):
        if isinstance(c, Stub):
            return c.py_contains(self, x)
        if isinstance(c, SStr):
            return str_contains(c, x)
        if isinstance(c, (list, tuple, collections.deque, set, frozenset)) and (is_sym(c) or is_sym(x)):
            r = False
            for y in c:
                r = or_(r, self.truthy_value(self.eq(x, y)))
                if r is True:
                    return True
            return r
        if isinstance(c, range) and isinstance(x, SInt):
            if c.step == 1:
                return mk_bool(z3.And(x.t >= c.start, x.t < c.stop))
            raise Unsupported('in range')
        if isinstance(c, SRange):
            return mk_bool(z3.And(z(x) >= z(c.a), z(x) < z(c.b)))
        m = self.lookup_special(c, '__contains__')
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.truthy_value(self.call(m, [x]))
        if is_sym(x):
            if isinstance(c, (dict, set, frozenset)):
                r = False
                for y in c:
                    r = or_(r, self.truthy_value(self.eq(x, y)))
                return r
            raise Unsupported('membership test')
        try:
            return x in c
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    # -------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, SYM) or isinstance(b, SYM):
            return sym_binop(self, t, a, b)
        if isinstance(a, Stub) or isinstance(b, Stub):
            name = OPNAMES.get(t)
            f = getattr(a, 'py_binop', None)
            if f is not None:
                return f(self, t, b)
            if isinstance(a, Stub):
                try:
                    a2 = a.py_int(self)
                except Unsupported:
                    a2 = None
                if a2 is not None:
                    return self.binop(op, a2, b.py_int(self) if isinstance(b, Stub) else b)
            if isinstance(b, Stub):
                return self.binop(op, a, b.py_int(self))
            raise Unsupported('operator on %s' % type(a).__name__)
        name = OPNAMES[t]
        m = self.lookup_special(a, '__%s__' % name)
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.call(m, [b])
        m = self.lookup_special(b, '__r%s__' % name)
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.call(m, [a])
        if t is ast.Mod and isinstance(a, str) and is_sym(b):
            return percent_format(self, a, b)
        if t is ast.Mult and is_sym(b) and isinstance(a, (list, tuple)):
            raise Unsupported('list repetition')
        try:
            return OPS[t](a, b)
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    # -------------------------------------------------------------- iteration
    def iterate(self, v):
        """host iterator over v (concrete length)"""
        if isinstance(v, (list, tuple)) and any(isinstance(x, Splice) for x in v):
            raise Unsupported('iteration over an arbitrary field list')
        if isinstance(v, Stub):
            return iter(v.py_iter(self))
        if isinstance(v, SBytes):
            n = ctx().const(z(width(v.p)) / 8)
            if n is None:
                raise Unsupported('iteration over bytes of symbolic length')
            out, rest = [], list(v.p)
            for _ in range(n):
                l, rest = split(rest, 8)
                out.append(intof(l))
            return iter(out)
        if isinstance(v, SHex):
            raise Unsupported('iteration over hex digits')
        if isinstance(v, SStr):
            n = ctx().const(width(v.p))
            if n is None or v.strip:
                raise Unsupported('iteration over a string of symbolic length')
            out, rest = [], list(v.p)
            for _ in range(n):
                l, rest = split(rest, 1)
                out.append(str_norm(SStr(l)))
            return iter(out)
        if isinstance(v, SRange):
            a, b = ctx().const(z(v.a)), ctx().const(z(v.b))
            if a is None or b is None:
                raise Unsupported('range of symbolic length')
            return iter(range(a, b))
        if isinstance(v, SInt):
            self.raise_(TypeError("'int' object is not iterable"))
        m = self.lookup_special(v, '__iter__')
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.iterate(self.call(m, []))
        if m is None:
            g = self.lookup_special(v, '__getitem__')
            if g is not None and (interpretable(g.__func__) or isinstance(g.__func__, Closure)):
                def gen():
                    i = 0
                    while True:
                        try:
                            x = self.call(g, [i])
                        except PyExc as e:
                            if isinstance(e.e, (IndexError, StopIteration)):
                                return
                            raise
                        yield x
                        i += 1
                return gen()
        try:
            return iter(v)
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    # -------------------------------------------------------------- subscripts
    def getitem(self, o, k):
        if isinstance(o, Stub):
            return o.py_getitem(self, k)
        if isinstance(o, (SStr, SText)):
            return str_getitem(o, k)
        if isinstance(o, str) and is_sym(k):
            if set(o) <= set('01'):
                return str_getitem(SStr(lit(o)), k)
            raise Unsupported('slice of text')
        if isinstance(o, (list, tuple)) and isinstance(k, SInt):
            n = len(o)
            c = ctx()
            for i in range(n):
                if c.branch(k.t == i):
                    return o[i]
            if c.branch(z3.And(k.t < 0, k.t >= -n)):
                for i in range(1, n + 1):
                    if c.branch(k.t == -i):
                        return o[-i]
            self.raise_(IndexError('list index out of range'))
        if isinstance(o, (list, tuple, collections.deque)) and isinstance(k, slice) and is_sym(k):
            c = ctx()
            lo = 0 if k.start is None else c.const(z(k.start))
            hi = len(o) if k.stop is None else c.const(z(k.stop))
            if lo is None or hi is None or k.step is not None:
                raise Unsupported('symbolic list slice')
            return o[lo:hi]
        if isinstance(o, dict) and is_sym(k):
            for kk in o:
                if self.truth(self.eq(k, kk)):
                    return o[kk]
            self.raise_(KeyError('symbolic'))
        m = self.lookup_special(o, '__getitem__')
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.call(m, [k])
        try:
            return o[k]
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    def setitem(self, o, k, v):
        if isinstance(o, Stub):
            return o.py_setitem(self, k, v)
        if isinstance(k, SYM):
            raise Unsupported('assignment to symbolic index')
        m = self.lookup_special(o, '__setitem__')
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.call(m, [k, v])
        try:
            o[k] = v
        except (Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    # -------------------------------------------------------------- names
    def load(self, name, fr):
        f = fr
        if name in fr.globals_decl:
            f = None
        first = True
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            if name in f.locals and name not in f.nonlocals:
                self.raise_(UnboundLocalError(name))
            f = f.parent
        if name in fr.globs:
            return fr.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError(name))

    def store(self, name, v, fr):
        if name in fr.globals_decl:
            fr.globs[name] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.vars or name in f.locals:
                    f.vars[name] = v
                    return
                f = f.parent
            raise Unsupported('nonlocal')
        fr.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                n = len(t.elts) - 1
                if len(vs) < n:
                    self.raise_(ValueError('not enough values to unpack'))
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, vs[i:len(vs) - after], fr)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, fr)
                return
            if len(vs) != len(t.elts):
                self.raise_(ValueError('unpack: %d values for %d targets' % (len(vs), len(t.elts))))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    # -------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.st(s, fr)

    def st(self, s, fr):
        self.steps += 1
        if self.steps > self.fuel:
            raise Unsupported('step budget')
        getattr(self, 'st_' + type(s).__name__, self.st_unknown)(s, fr)

    def st_unknown(self, s, fr):
        raise Unsupported('statement %s' % type(s).__name__)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call) and self.is_log_call(s.value, fr):
            return
        self.ev(s.value, fr)

    PURE = (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.Compare, ast.BoolOp, ast.IfExp, ast.Load, ast.operator,
            ast.cmpop, ast.boolop, ast.unaryop, ast.UnaryOp, ast.Tuple, ast.Subscript, ast.Slice, ast.JoinedStr,
            ast.FormattedValue)

    def is_log_call(self, n, fr):
        """logging with arguments that cannot have side effects is skipped (assumption: logging does not raise)"""
        f = n.func
        if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name)):
            return False
        try:
            o = self.load(f.value.id, fr)
        except PyExc:
            return False
        if not isinstance(o, logging.Logger):
            return False
        for a in list(n.args) + [k.value for k in n.keywords]:
            for m in ast.walk(a):
                if not isinstance(m, self.PURE):
                    return False
        return True

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            a = self.load(t.id, fr)
            put = lambda v: self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            a = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        else:
            o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
            a = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        b = self.ev(s.value, fr)
        if isinstance(a, list) and isinstance(s.op, ast.Add):
            a.extend(self.iterate(b))
            put(a)
            return
        if isinstance(a, Stub) and hasattr(a, 'py_iadd') and isinstance(s.op, ast.Add):
            put(a.py_iadd(self, b))
            return
        m = self.lookup_special(a, '__i%s__' % OPNAMES[type(s.op)]) if not is_sym(a) else None
        if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            put(self.call(m, [b]))
            return
        put(self.binop(s.op, a, b))

    def st_Return(self, s, fr):
        raise Return(self.ev(s.value, fr) if s.value is not None else None)

    def st_If(self, s, fr):
        self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Break(self, s, fr):
        raise Break()

    def st_Continue(self, s, fr):
        raise Continue()

    def st_Global(self, s, fr):
        pass

    st_Nonlocal = st_Global

    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split('.')[0], importlib.import_module(a.name.split('.')[0]), fr)

    def st_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globs.get('__package__') or fr.globs.get('__name__', '').rpartition('.')[0]
        m = importlib.import_module('.' * s.level + (s.module or ''), pkg if s.level else None)
        for a in s.names:
            v = getattr(m, a.name) if hasattr(m, a.name) else importlib.import_module(m.__name__ + '.' + a.name)
            self.store(a.asname or a.name, v, fr)

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_(AssertionError())

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                if is_sym(k) or isinstance(o, Stub):
                    raise Unsupported('del')
                try:
                    del o[k]
                except Exception as e:
                    raise PyExc(e)
            else:
                o = self.ev(t.value, fr)
                try:
                    delattr(o, t.attr)
                except Exception as e:
                    raise PyExc(e)

    def st_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(self, 'handling', None)
            if e is None:
                self.raise_(RuntimeError('No active exception to reraise'))
            raise PyExc(e)
        e = self.ev(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.construct(e, [], {})
        if not isinstance(e, BaseException):
            self.raise_(TypeError('exceptions must derive from BaseException'))
        raise PyExc(e)

    def st_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as x:
                for h in s.handlers:
                    if h.type is None or self.exc_match(x.e, self.ev(h.type, fr)):
                        if h.name:
                            fr.vars[h.name] = x.e
                        old = getattr(self, 'handling', None)
                        self.handling = x.e
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (Unsupported, Infeasible):
            raise
        except BaseException:
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        return isinstance(e, t)

    def st_With(self, s, fr):
        for it in s.items:
            m = self.ev(it.context_expr, fr)
            if is_sym(m):
                raise Unsupported('with')
            v = self.call(self.getattr(m, '__enter__'), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)
        for it in reversed(s.items):
            self.call(self.getattr(m, '__exit__'), [None, None, None])

    def st_FunctionDef(self, s, fr):
        v = self.make_fn(s, fr)
        for d in reversed(s.decorator_list):
            dec = self.ev(d, fr)
            if dec in (staticmethod, classmethod, property):
                v = dec(v)
            else:
                v = self.call(dec, [v])
        self.store(s.name, v, fr)

    def make_fn(self, s, fr):
        defaults = tuple(self.ev(d, fr) for d in s.args.defaults)
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        base = fr.fn.__qualname__ + '.<locals>.' if fr.fn is not None else fr.globs.get('__name__', '') + ':'
        return Closure(self, s, fr, fr.globs, base + getattr(s, 'name', '<lambda>'), defaults, kwd)

    def st_ClassDef(self, s, fr):
        bases = tuple(self.ev(b, fr) for b in s.bases)
        if s.keywords:
            raise Unsupported('class keywords')
        cf = Frame(fr, fr.globs, _stores(s.body)[0], fr.fn)
        # class scope: names fall through to enclosing scope when unset
        cf.locals = set()
        self.block(s.body, cf)
        # methods must not see the class scope
        for v in cf.vars.values():
            g = v
            if isinstance(g, (staticmethod, classmethod)):
                g = g.__func__
            if isinstance(g, property):
                for q in (g.fget, g.fset):
                    if isinstance(q, Closure):
                        q.frame = fr
            if isinstance(g, Closure):
                g.frame = fr
        ns = dict(cf.vars)
        ns['__pyver__'] = True
        ns['__module__'] = fr.globs.get('__name__')
        cls = type(s.name, bases or (object,), ns)
        for v in cf.vars.values():
            if isinstance(v, Closure):
                v.cls = cls
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d, fr), [cls])
        self.store(s.name, cls, fr)

    # loops
    def st_For(self, s, fr):
        it = octets_of(self.ev(s.iter, fr))
        if isinstance(it, Stub):
            if it.py_loop(self, s, fr):
                return
        if isinstance(it, (list, tuple)) and any(isinstance(x, Splice) for x in it):
            return splice_loop(self, s, fr, it)
        n = 0
        for x in self.iterate(it):
            n += 1
            if n > LOOP_CAP:
                raise Unsupported('loop cap')
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, fr)

    def st_While(self, s, fr):
        if self.counting_loop(s, fr):
            return
        n = 0
        while self.truth(self.ev(s.test, fr)):
            n += 1
            if n > 600:
                raise Unsupported('loop cap')
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, fr)

    def counting_loop(self, s, fr):
        """Loop rule for search loops whose only state is counters advancing by constants: the exit iteration k is
        any k >= 0 such that iteration k exits and (k >= 1) iteration k-1 did not.  Complete for the exit
        iteration, over-approximate about earlier ones; no bound on k."""
        step = {}

        def scan(n):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)) \
                    and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
                k = n.value.value if isinstance(n.op, ast.Add) else -n.value.value
                if step.get(n.target.id, k) != k:
                    return False
                step[n.target.id] = k
                return True
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and isinstance(n.value.left, ast.Name) \
                    and n.value.left.id == n.targets[0].id and isinstance(n.value.right, ast.Constant):
                step[n.targets[0].id] = n.value.right.value
                return True
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.While, ast.Delete, ast.Try, ast.With,
                              ast.FunctionDef, ast.ClassDef, ast.NamedExpr, ast.Yield)):
                return False
            return all(scan(m) for m in ast.iter_child_nodes(n))
        if not all(scan(x) for x in [s.test] + s.body) or not step or s.orelse:
            return False
        start = {}
        for v in step:
            if v not in fr.vars or not isinstance(fr.vars[v], (int, SInt)):
                return False
            start[v] = fr.vars[v]
        names = {n.id for x in [s.test] + s.body for n in ast.walk(x) if isinstance(n, ast.Name)} - set(step)
        symbolic = any(is_sym(self.load(n, fr)) for n in names if self.defined(n, fr)) or any(isinstance(v, SInt) for v in start.values())
        if not symbolic:
            return False
        c = ctx()
        c.notes.append('counting-loop')
        k = c.fresh('k', True)
        order = sorted(step)

        def at(kk):
            for v in order:
                fr.vars[v] = mk_int(z(start[v]) + step[v] * kk)

        def one():
            """one iteration: True if it runs to its end (goes round), False/exception if it exits"""
            if not self.truth(self.ev(s.test, fr)):
                return False
            try:
                self.block(s.body, fr)
            except Break:
                return False
            except Continue:
                pass
            return True
        if c.branch(k >= 1):
            at(k - 1)
            try:
                if not one():
                    raise Infeasible()
            except (Return, PyExc):
                raise Infeasible()
            for v in order:
                if not c.entails(z(fr.vars[v]) == z(start[v]) + step[v] * k):
                    raise Unsupported('counter not advanced uniformly')
        else:
            c.assume(k == 0)
            k = 0
        at(k)
        if one():
            raise Infeasible()
        return True

    def defined(self, n, fr):
        try:
            self.load(n, fr)
            return True
        except PyExc:
            return False

    # -------------------------------------------------------------- expressions
    def ev(self, e, fr):
        self.steps += 1
        return getattr(self, 'ev_' + type(e).__name__, self.ev_unknown)(e, fr)

    def ev_unknown(self, e, fr):
        raise Unsupported('expression %s' % type(e).__name__)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.load(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev(e.slice, fr))

    def ev_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def ev_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def ev_List(self, e, fr):
        return self.elts(e.elts, fr)

    def ev_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, (SBool, SInt)):
                return not_(self.truthy_value(v))
            t = self.truth_term(v)
            return not_(mk_bool(t))
        if isinstance(v, Stub):
            v = v.py_int(self)
        if isinstance(v, (SInt, SBool)):
            if isinstance(e.op, ast.USub):
                return mk_int(-z(v))
            if isinstance(e.op, ast.UAdd):
                return mk_int(z(v))
            return mk_int(-z(v) - 1)
        if is_sym(v):
            raise Unsupported('unary operator')
        try:
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)
        except Exception as x:
            raise PyExc(x)

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    PUREB = (ast.Name, ast.Attribute, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Load, ast.cmpop, ast.boolop,
             ast.unaryop, ast.operator)

    def ev_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], fr)
        for nx in e.values[1:]:
            if isinstance(v, SBool) and all(isinstance(m, self.PUREB) for m in ast.walk(nx)):
                try:
                    w = self.ev(nx, fr)
                    if isinstance(w, (bool, SBool)):
                        v = and_(v, w) if is_and else or_(v, w)
                        continue
                except (PyExc, Unsupported):
                    pass
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, SBool) else False
            if not is_and and t:
                return v if not isinstance(v, SBool) else True
            v = self.ev(nx, fr)
        return v

    def ev_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        r = True
        for op, n in zip(e.ops, e.comparators):
            b = self.ev(n, fr)
            x = self.compare(op, a, b)
            if len(e.ops) == 1:
                return x
            x = self.truthy_value(x)
            r = and_(r, x)
            if r is False:
                return False
            a = b
        return r

    def ev_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not self.in_frames('super', fr):
            return self.make_super(e, fr)
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def in_frames(self, n, fr):
        while fr is not None:
            if n in fr.vars:
                return True
            fr = fr.parent
        return n in (fr.globs if fr else {})

    def make_super(self, e, fr):
        if e.args:
            cls = self.ev(e.args[0], fr)
            o = self.ev(e.args[1], fr)
        else:
            c = fr.fn
            first = c.node.args.args[0].arg
            o = fr.vars[first]
            cls = c.cls
            if cls is None and c.frame is not None and '__class__' in c.frame.vars:
                cls = c.frame.vars['__class__']
            if cls is None:
                raise Unsupported('super()')
        return SuperProxy(cls, o)

    def ev_Lambda(self, e, fr):
        return self.make_fn(e, fr)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        self.store(e.target.id, v, f)
        return v

    def ev_Yield(self, e, fr):
        fr.yields.append(self.ev(e.value, fr) if e.value is not None else None)
        return None

    def ev_YieldFrom(self, e, fr):
        fr.yields.extend(self.iterate(self.ev(e.value, fr)))
        return None

    def comp(self, e, fr, emit):
        st = set()
        for g in e.generators:
            for m in ast.walk(g.target):
                if isinstance(m, ast.Name):
                    st.add(m.id)
        cf = Frame(fr, fr.globs, st, fr.fn)
        cf.yields = None

        def go(i, f):
            if i == len(e.generators):
                emit(f)
                return
            g = e.generators[i]
            it = self.ev(g.iter, fr if i == 0 else f)
            if i == 0 and isinstance(it, Stub) and hasattr(it, 'py_comp'):
                it.py_comp(self, e, f, emit)
                return
            for x in self.iterate(it):
                self.assign(g.target, x, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    go(i + 1, f)
        go(0, cf)

    def ev_ListComp(self, e, fr):
        out = []
        first = e.generators[0]
        if len(e.generators) == 1 and not first.ifs:
            it = octets_of(self.ev(first.iter, fr))
            if isinstance(it, Stub) and hasattr(it, 'py_map'):
                cf = Frame(fr, fr.globs, {m.id for m in ast.walk(first.target) if isinstance(m, ast.Name)}, fr.fn)

                def body(x):
                    self.assign(first.target, x, cf)
                    return self.ev(e.elt, cf)
                r = it.py_map(self, body)
                if r is not None:
                    return r
        self.comp(e, fr, lambda f: out.append(self.ev(e.elt, f)))
        return out

    def ev_GeneratorExp(self, e, fr):
        r = self.ev_ListComp(e, fr)
        return iter(r) if isinstance(r, list) else r

    def ev_SetComp(self, e, fr):
        out = []
        self.comp(e, fr, lambda f: out.append(self.ev(e.elt, f)))
        return ip_set(set)(self, out)

    def ev_DictComp(self, e, fr):
        out = {}

        def emit(f):
            k = self.ev(e.key, f)
            out[k] = self.ev(e.value, f)
        self.comp(e, fr, emit)
        return out

    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                if isinstance(spec, list):
                    raise Unsupported('format spec')
                if v.conversion != -1 and is_sym(x):
                    return '<symbolic text>'
                if v.conversion == 114:
                    x = repr(x)
                elif v.conversion == 115:
                    x = str(x)
                parts.append(fmt_value(self, x, spec))
        return join_parts(parts)


class SuperProxy(object):
    def __init__(self, cls, o):
        self.cls, self.o = cls, o

    def get(self, ip, name):
        o = self.o
        if isinstance(o, Stub):
            f = getattr(o, 'py_super', None)
            if f is None:
                raise Unsupported('super of %s' % type(o).__name__)
            return f(ip, self.cls, name)
        t = o if isinstance(o, type) else type(o)
        mro = list(t.__mro__)
        for b in mro[mro.index(self.cls) + 1:]:
            if name in b.__dict__:
                d = b.__dict__[name]
                if isinstance(d, (types.FunctionType, Closure)):
                    return types.MethodType(d, o)
                if isinstance(d, property):
                    return ip.call(d.fget, [o])
                break
        try:
            return getattr(super(self.cls, o), name)
        except Exception as e:
            raise PyExc(e)


class SRange(Stub):
    """range(a, b) with a symbolic bound"""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def py_len(self, ip):
        return mk_int(z3.If(z(self.b) > z(self.a), z(self.b) - z(self.a), 0))

    def py_iter(self, ip):
        c = ctx()
        a, b = c.const(z(self.a)), c.const(z(self.b))
        if a is None or b is None:
            raise Unsupported('range of symbolic length')
        return range(a, b)

    def py_contains(self, ip, x):
        return mk_bool(z3.And(z(x) >= z(self.a), z(x) < z(self.b)))


OPNAMES = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
           ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitOr: 'or', ast.BitXor: 'xor',
           ast.BitAnd: 'and', ast.MatMult: 'matmul'}
OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
       ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.BitAnd: operator.and_,
       ast.MatMult: operator.matmul}


def tname(x):
    return {SInt: 'int', SBool: 'bool', SStr: 'str'}.get(type(x), type(x).__name__)


def _mentions_pow2(t):
    seen = [t]
    n = 0
    while seen and n < 200:
        x = seen.pop()
        n += 1
        if z3.is_app(x) and x.decl().name() == 'pow2':
            return True
        seen.extend(x.children())
    return False


def not_(v):
    if isinstance(v, bool):
        return not v
    return mk_bool(z3.Not(v.t))


def and_(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return mk_bool(z3.And(a.t, b.t))


def or_(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return mk_bool(z3.Or(a.t, b.t))


# ------------------------------------------------------------------ integers
def is_int(x):
    return isinstance(x, (int, SInt, SBool))


def sym_binop(ip, t, a, b):
    c = ctx()
    if isinstance(a, (SStr, SText)) or isinstance(b, (SStr, SText)):
        if t is ast.Add:
            return str_add(a, b)
        if t is ast.Mult:
            raise Unsupported('string repetition')
        if t is ast.Mod:
            return '<symbolic text>'
        raise PyExc(TypeError('unsupported operand'))
    if isinstance(a, str) or isinstance(b, str):
        if t is ast.Mult:
            s, n = (a, b) if isinstance(a, str) else (b, a)
            n = mk_int(z3.If(z(n) > 0, z(n), 0))
            if s == '':
                return ''
            if isinstance(n, int):
                return s * n
            if set(s) == {'0'}:
                return SStr((B(0, simp(n.t * len(s))),))
            if s == '1':
                return SStr((B(simp(z(c.pow2(n.t)) - 1), n.t),))
            raise Unsupported('repetition of %r' % s)
        if t is ast.Mod and isinstance(a, str):
            return percent_format(ip, a, b)
        if t is ast.Add:
            raise PyExc(TypeError('can only concatenate str'))
        raise Unsupported('operator on text')
    if isinstance(a, SRat) or isinstance(b, SRat):
        raise Unsupported('rational arithmetic')
    if isinstance(a, (list, tuple, bytes)) or isinstance(b, (list, tuple, bytes)):
        if t is ast.Add and type(a) == type(b):
            return a + b
        raise Unsupported('sequence operator with symbolic operand')
    if isinstance(a, Stub):
        a = a.py_int(ip)
    if isinstance(b, Stub):
        b = b.py_int(ip)
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported('float arithmetic')
    if not is_int(a) or not is_int(b):
        raise PyExc(TypeError('unsupported operand type(s) %s and %s' % (tname(a), tname(b))))
    x, y = z(a), z(b)
    ca = a if isinstance(a, int) else None
    cb = b if isinstance(b, int) else None
    if t is ast.Add:
        return mk_int(x + y)
    if t is ast.Sub:
        return mk_int(x - y)
    if t is ast.Mult:
        if ca is None and cb is None:
            ca = c.const(x)
            cb = c.const(y) if ca is None else None
            if ca is None and cb is None:
                raise Unsupported('nonlinear multiplication')
            return mk_int((ca if ca is not None else x) * (cb if cb is not None else y))
        return mk_int(x * y)
    if t in (ast.FloorDiv, ast.Mod, ast.Div):
        d = cb if cb is not None else c.const(y)
        if d is None:
            raise Unsupported('division by a symbolic value')
        if d == 0:
            raise PyExc(ZeroDivisionError('division by zero'))
        if d < 0:
            raise Unsupported('division by a negative value')
        if t is ast.Div:
            return SRat(mk_int(x), d)
        return mk_int(z(dom.div(x, d)) if t is ast.FloorDiv else x % d)
    if t is ast.Pow:
        if ca == 2:
            if not c.branch(y >= 0):
                raise Unsupported('negative power')
            return mk_int(z(c.pow2(y)))
        if cb is not None and 0 <= cb <= 2 and cb != 2:
            return mk_int(x if cb == 1 else 1)
        if ca in (256,):
            if not c.branch(y >= 0):
                raise Unsupported('negative power')
            return mk_int(z(c.pow2(8 * y)))
        raise Unsupported('power')
    if t is ast.LShift:
        if cb is None:
            cb = c.const(y)
        if cb is not None:
            if cb < 0:
                raise PyExc(ValueError('negative shift count'))
            return mk_int(x * (2 ** cb))
        if c.branch(y < 0):
            raise PyExc(ValueError('negative shift count'))
        p = c.pow2(y)
        ka = ca if ca is not None else c.const(x)
        if ka is None:
            raise Unsupported('shift of symbolic by symbolic')
        return mk_int(ka * z(p))
    if t is ast.RShift:
        if cb is None:
            cb = c.const(y)
        if cb is None:
            raise Unsupported('right shift by symbolic')
        if cb < 0:
            raise PyExc(ValueError('negative shift count'))
        return mk_int(z(dom.div(x, 2 ** cb)))
    if t is ast.BitAnd:
        return bit_and(a, b)
    if t is ast.BitXor:
        for m, v in ((y, x), (x, y)):
            # v ^ (2**w - 1) with 0 <= v <= m: complement
            if c.entails(z3.And(v >= 0, v <= m)) and is_mask(m):
                return mk_int(m - v)
        raise Unsupported('xor')
    if t is ast.BitOr:
        for m, v in ((a, b), (b, a)):
            if isinstance(m, int) and m > 0:
                low = (m & -m)
                if c.entails(z3.And(z(v) >= 0, z(v) < low)):
                    return mk_int(z(v) + m)
        raise Unsupported('or')
    raise Unsupported('operator %s' % t.__name__)


def is_mask(m):
    """m + 1 is a power of two"""
    c = ctx()
    s = simp(m + 1)
    if isinstance(s, int):
        return s > 0 and s & (s - 1) == 0
    if z3.is_app(s) and s.decl().name() == 'pow2':
        return True
    return any(c.entails(s == p) for _, p in c.p2s.values())


def bit_and(a, b):
    c = ctx()
    for m, v in ((b, a), (a, b)):
        if isinstance(m, int):
            if m >= 0 and (m + 1) & m == 0:
                return mk_int(z(v) % (m + 1))
            if m > 0 and m & (m - 1) == 0:
                return mk_int((z(v) / m) % 2 * m)
    # x & 2**k where 0 <= x < 2**(k+1): the top bit
    for m, v in ((b, a), (a, b)):
        mt = simp(z(m))
        if not isinstance(mt, int):
            for e, p in list(c.p2s.values()):
                if mt.eq(p) or c.entails(mt == p):
                    p1 = c.pow2(e + 1)
                    vt = z(v)
                    c.bl(vt)
                    if c.entails(z3.And(vt >= 0, vt < p1)):
                        return mk_int(z3.If(vt >= p, p, 0))
    # x & (2**k - 1) where -2**k <= x < 2**k: x modulo 2**k
    for m, v in ((b, a), (a, b)):
        mt = simp(z(m) + 1)
        if not isinstance(mt, int):
            for e, p in list(c.p2s.values()):
                if mt.eq(p) or c.entails(mt == p):
                    vt = z(v)
                    c.bl(z3.If(vt >= 0, vt, -vt - 1))
                    if c.entails(z3.And(vt >= -p, vt < p)):
                        return mk_int(z3.If(vt >= 0, vt, vt + p))
    raise Unsupported('bitwise and')


def ip_bit_length(ip, x):
    c = ctx()
    t = z(x)
    if c.entails(t >= 0):
        return mk_int(z(c.bl(t)))
    if c.branch(t >= 0):
        return mk_int(z(c.bl(t)))
    return mk_int(z(c.bl(-t)))


def ip_to_bytes(ip, x, n, order, signed=False):
    if order != 'big' or signed:
        raise Unsupported('to_bytes')
    c = ctx()
    if x.bits is not None and c.entails(z(width(x.bits)) == 8 * z(n)):
        return SBytes(x.bits)
    if not c.branch(c.fits(z(x), 8 * z(n))):
        raise PyExc(OverflowError('int too big to convert'))
    return SBytes((B(simp(z(x)), simp(8 * z(n))),))


# ------------------------------------------------------------------ strings
def as_digits(s, cls=SStr):
    if isinstance(s, str):
        if s == '':
            return cls(())
        if cls is SHex:
            try:
                return SHex((B(int(s, 16), 4 * len(s)),))
            except ValueError:
                raise Unsupported('text %r' % s)
        if not set(s) <= set('01'):
            raise Unsupported('text %r mixed with symbolic digits' % s)
        return SStr(lit(s))
    return s


def str_norm(s):
    """concrete text when all pieces are concrete"""
    if s.strip:
        return s
    p = canon(s.p)
    if not p:
        return '' if not isinstance(s, SBytes) else b''
    if len(p) == 1 and isinstance(p[0], B) and isinstance(p[0].val, int) and isinstance(p[0].w, int) and p[0].w < 4096:
        if isinstance(s, SHex):
            return format(p[0].val, '0%dx' % (p[0].w // 4))
        if isinstance(s, SBytes):
            return p[0].val.to_bytes(p[0].w // 8, 'big')
        return format(p[0].val, '0%db' % p[0].w)
    return type(s)(p)


def resolve_strip(s):
    """make a leading-zero-stripped digit string explicit"""
    if not s.strip:
        return s
    c = ctx()
    unit = 4 if isinstance(s, SHex) else 1
    p = canon(s.p)
    if not p:
        return type(s)((B(0, unit),))
    if len(p) == 1 and isinstance(p[0], B) and unit == 1:
        v = z(p[0].val)
        b = c.bl(v)
        if c.branch(v == 0):
            return type(s)((B(0, 1),))
        return type(s)((B(p[0].val, simp(z(b))),))
    if len(p) == 1 and isinstance(p[0], B):
        v = z(p[0].val)
        b = c.bl(v)
        if c.branch(v == 0):
            return type(s)((B(0, 4),))
        return type(s)((B(p[0].val, simp((z(b) + 3) / 4 * 4)),))
    raise Unsupported('leading zeros of an unknown string')


def str_len(s):
    if isinstance(s, SText):
        n = str_len(s.s)
        return mk_int(z(n) + len(s.prefix))
    s = resolve_strip(s)
    w = width(s.p)
    if isinstance(s, SHex):
        return mk_int(z(dom.div(z(w), 4)))
    if isinstance(s, SBytes):
        return mk_int(z(dom.div(z(w), 8)))
    return mk_int(z(w))


def str_add(a, b):
    if isinstance(a, SText) or isinstance(b, SText):
        raise Unsupported('text concatenation')
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        f = lambda x: x.p if isinstance(x, SBytes) else (B(int.from_bytes(x, 'big'), 8 * len(x)),) if x else ()
        return SBytes(tuple(f(a)) + tuple(f(b)))
    cls = SHex if isinstance(a, SHex) or isinstance(b, SHex) else SStr
    if cls is SHex:             # hexlify() gives digits as bytes
        a, b = (x.decode('latin-1') if isinstance(x, bytes) else x for x in (a, b))
    if isinstance(a, str) and not set(a) <= set('01') and cls is SStr:
        return SText(a, b) if not a.startswith('<') else a
    if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
        raise PyExc(TypeError('can only concatenate str'))
    try:
        x, y = resolve_strip(as_digits(a, cls)), resolve_strip(as_digits(b, cls))
    except Unsupported:
        return '<symbolic text>'
    return str_norm(cls(x.p + y.p))


def str_zfill(s, n):
    c = ctx()
    unit = 4 if isinstance(s, SHex) else 1
    if isinstance(s, str):
        if isinstance(n, int):
            return s.zfill(n)
        s = as_digits(s, SStr)
    want = simp(z(n) * unit)
    w = width(s.p)
    d = simp(z(want) - z(w))
    if not isinstance(d, int) and c.entails(d == 0):
        d = 0
    if isinstance(d, int) and d == 0 and not (s.strip and isinstance(w, int) and w == 0):
        return str_norm(type(s)(s.p))
    if s.strip and not s.p:
        s = type(s)((B(0, unit),))
        w = unit
        d = simp(z(want) - w)
    nonneg = d >= 0 if isinstance(d, int) else c.branch(d >= 0)
    if nonneg:
        if s.strip and not c.entails(z(w) >= unit) and c.branch(z3.And(z(want) < unit)):
            return type(s)((B(0, unit),))
        return str_norm(type(s)((B(0, d),) + tuple(s.p)))
    if not s.strip:
        return s
    # stripped digits of a longer string: keep max(n, significant digits)
    p = canon(s.p)
    if len(p) == 1 and isinstance(p[0], B) and unit == 1:
        v = z(p[0].val)
        if c.branch(c.fits(v, want)) and c.branch(z(want) >= 1):
            return SStr((B(p[0].val, want),))
        return resolve_strip(s)
    raise Unsupported('zfill of unknown stripped digits')


def str_getitem(s, k):
    c = ctx()
    if isinstance(s, SText):
        if isinstance(k, slice) and k.stop is None and k.step is None and isinstance(k.start, int):
            if k.start == len(s.prefix):
                return s.s
            if 0 <= k.start < len(s.prefix):
                return SText(s.prefix[k.start:], s.s)
        raise Unsupported('slice of text')
    s = resolve_strip(s)
    unit = 8 if isinstance(s, SBytes) else 4 if isinstance(s, SHex) else 1
    w = width(s.p)
    if isinstance(k, slice):
        if k.step not in (None, 1):
            raise Unsupported('slice step')
        lo = norm_index(0 if k.start is None else k.start, w, unit)
        l, r = split(s.p, lo) if not (isinstance(lo, int) and lo == 0) else ([], list(s.p))
        if k.stop is None:
            return str_norm(type(s)(r))
        hi = norm_index(k.stop, w, unit)
        n = simp(z(hi) - z(lo))
        if isinstance(n, int) and n <= 0 or (not isinstance(n, int) and c.branch(n <= 0)):
            return ''
        return str_norm(type(s)(split(r, n)[0]))
    i = k
    if isinstance(i, SBool):
        i = mk_int(z(i))
    t = z(i) * unit
    if isinstance(i, int):
        t = simp(z(w) + i * unit) if i < 0 else i * unit
    elif c.branch(t < 0):
        t = simp(t + z(w))
    if not c.branch(z3.And(z(t) >= 0, z(t) < z(w))):
        raise PyExc(IndexError('string index out of range'))
    l, r = split(s.p, t)
    l, r = split(r, unit)
    if isinstance(s, SBytes):
        return intof(l)
    return str_norm(type(s)(l))


def norm_index(i, w, unit):
    """slice bound in bits clamped to 0..w"""
    c = ctx()
    if i is None:
        return 0
    if isinstance(i, SBool) or isinstance(i, bool):
        i = mk_int(z(i))
    t = simp(z(i) * unit)
    if isinstance(t, int) and t == 0:
        return 0
    neg = t < 0 if isinstance(t, int) else c.branch(t < 0)
    if neg:
        t = simp(z(t) + z(w))
        if isinstance(t, int):
            return max(t, 0)
        if c.branch(t < 0):
            return 0
        return t
    d = simp(z(t) - z(w))
    if isinstance(d, int):
        return t if d <= 0 else w
    if c.branch(d <= 0):
        return t
    return w


def str_eq(a, b):
    c = ctx()
    if isinstance(a, SText) or isinstance(b, SText):
        raise Unsupported('comparison of text')
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SStr) and not isinstance(y, SStr):
            if isinstance(y, (bytes, bytearray)) != isinstance(x, SBytes):
                return False
            if isinstance(x, SBytes):
                y = SBytes((B(int.from_bytes(y, 'big'), 8 * len(y)),) if y else ())
            elif not isinstance(y, str):
                return False
            elif isinstance(x, SHex):
                try:
                    y = as_digits(y, SHex)
                except Unsupported:
                    return False
            elif not set(y) <= set('01'):
                return False
            else:
                y = as_digits(y)
            a, b = x, y
            break
    if type(a) is not type(b):
        raise Unsupported('comparison of different digit strings')
    a, b = resolve_strip(a), resolve_strip(b)
    wa, wb = width(a.p), width(b.p)
    if not c.branch(z(wa) == z(wb)):
        return False
    if c.entails(z(wa) == 0):
        return True
    pa, pb = canon(a.p), canon(b.p)
    if any(isinstance(x, O) for x in pa + pb):
        try:
            cs = dom.pieces_equal(pa, pb)
            if all(c.entails(x) for x in cs):
                return True
        except Unsupported:
            pass
        # unknown content: compare as integers (equal length)
        va, vb = intof(pa), intof(pb)
        return mk_bool(z(va) == z(vb))
    cs = dom.pieces_equal(pa, pb)
    return mk_bool(z3.And([x if not isinstance(x, bool) else z3.BoolVal(x) for x in cs]))


def str_contains(s, x):
    c = ctx()
    if isinstance(x, str) and x == '':
        return True
    if isinstance(x, str) and len(x) == 1 and not isinstance(s, (SHex, SBytes)):
        s = resolve_strip(s)
        if x not in '01':
            return False
        w = width(s.p)
        if not c.branch(z(w) > 0):
            return False
        v = intof(canon(s.p))
        if x == '1':
            return mk_bool(z(v) != 0)
        return mk_bool(z(v) != z(c.pow2(w)) - 1)
    raise Unsupported('substring test')


def join_parts(parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    r = ''
    for p in parts:
        if isinstance(p, str) and p == '':
            continue
        if isinstance(r, str) and r == '':
            r = p
        elif isinstance(r, str) and isinstance(p, str):
            r = r + p
        else:
            r = str_add(r, p)
    return r


def str_method(s, name, ip, *args, **kw):
    if name == 'zfill':
        if isinstance(s, SText):
            raise Unsupported('zfill of text')
        return str_zfill(s, args[0])
    if name == 'rjust' and len(args) == 2 and args[1] == '0':
        return str_zfill(s, args[0])
    if name in ('upper', 'lower'):
        return s
    if name == 'rstrip' and args == ('L',):
        return s
    if name == 'strip' and args == ('L',):
        return s
    if name == 'join':
        raise Unsupported('join with symbolic separator')
    if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], str):
        x = args[0]
        if isinstance(s, SText):
            if name == 'startswith' and len(x) <= len(s.prefix):
                return s.prefix.startswith(x)
            raise Unsupported(name)
        if not set(x) <= set('01'):
            return False
        n = str_len(s)
        if not ctx().branch(z(n) >= len(x)):
            return False
        part = str_getitem(s, slice(0, len(x)) if name == 'startswith' else slice(mk_int(z(n) - len(x)), None))
        return str_eq(part, x)
    if name == 'count' and args and args[0] in ('0', '1'):
        n = ctx().const(width(resolve_strip(s).p))
        if n is not None:
            bits = list(ip.iterate(s))
            return sum_ints([mk_int(z3.If(z(ip_int(ip, b)) == int(args[0]), 1, 0)) for b in bits])
        raise Unsupported('count')
    if name == 'isdigit':
        return ip.truthy_value(mk_bool(ip.truth_term(s)))
    if name == 'format':
        return s
    if name in ('encode', 'decode') and isinstance(s, SHex):      # hex digits as text or as bytes
        return s
    if name == 'encode':
        raise Unsupported('encode')
    if name == 'index' or name == 'find':
        if args and args[0] == '1' and len(args) == 1:
            raise Unsupported('index')
    if name == 'replace':
        raise Unsupported('replace')
    raise Unsupported('str.%s' % name)


def bytes_method(s, name, ip, *args, **kw):
    if name == 'hex' and not args:
        return SHex(s.p)
    if name == 'decode':
        raise Unsupported('bytes.decode')
    raise Unsupported('bytes.%s' % name)


def sum_ints(xs):
    t = 0
    for x in xs:
        t = z(t) + z(x)
    return mk_int(z(t))


def fmt_value(ip, v, spec):
    """format(v, spec); spec text or (prefix zero flag, width, type) when its width is symbolic"""
    if isinstance(v, Stub):
        try:
            v = v.py_int(ip)
        except Unsupported:
            return '<symbolic text>'
    if isinstance(spec, SpecW):
        return fmt_digits(ip, v, spec.w, spec.typ)
    if not is_sym(v):
        if is_sym(spec):
            raise Unsupported('format spec')
        try:
            return format(v, spec)
        except Exception as e:
            raise PyExc(e)
    if spec == '':
        return v if isinstance(v, SStr) else '<symbolic text>'
    import re
    m = re.match(r'^(0?)(>?)(\d*)([bxX]?)$', spec)
    if isinstance(v, SStr):
        m2 = re.match(r'^0>(\d+)s?$', spec)
        if m2:
            return str_zfill(v, int(m2.group(1)))
        raise Unsupported('format of string with %r' % spec)
    if not m or not m.group(4):
        return '<symbolic text>'
    w = int(m.group(3)) if m.group(3) else 0
    if w and not m.group(1):
        raise Unsupported('space padded digits')
    return fmt_digits(ip, v, w, m.group(4))


class SpecW(object):
    def __init__(self, w, typ):
        self.w, self.typ = w, typ


def fmt_digits(ip, v, w, typ):
    c = ctx()
    if typ not in ('b', 'x', 'X'):
        return '<symbolic text>'
    s = digits_of(v, SStr if typ == 'b' else SHex)
    return str_zfill(s, w)


def digits_of(v, cls):
    """text of a non-negative integer without prefix"""
    c = ctx()
    if isinstance(v, int):
        if v < 0:
            raise Unsupported('digits of a negative number')
        return as_digits(format(v, 'b' if cls is SStr else 'x'), cls)
    if isinstance(v, SInt) and v.bits is not None:
        p = v.bits
        if cls is SHex:
            w = width(p)
            if not c.entails(z(w) % 4 == 0):
                k = simp((-z(w)) % 4)
                p = (B(0, k),) + tuple(p)
        return cls(tuple(p), strip=True)
    t = z(v)
    if not c.branch(t >= 0):
        raise Unsupported('digits of a negative number')
    b = c.bl(t)
    if cls is SStr:
        return SStr((B(t, simp(z(b))),), strip=True)
    return SHex((B(t, simp((z(b) + 3) / 4 * 4)),), strip=True)


def str_format(ip, s, args, kw):
    """'...'.format(...)"""
    parts = []
    auto = [0]
    text = False

    def field(name):
        if name == '':
            name = str(auto[0])
            auto[0] += 1
        first, rest = _string._string.formatter_field_name_split(name) if hasattr(_string, '_string') else (name, [])
        if isinstance(first, int) or str(first).isdigit():
            try:
                v = args[int(first)]
            except IndexError as e:
                raise PyExc(e)
        else:
            if first not in kw:
                raise PyExc(KeyError(first))
            v = kw[first]
        for is_attr, x in rest:
            v = ip.getattr(v, x) if is_attr else ip.getitem(v, x)
        return v
    for literal, name, spec, conv in _string.Formatter().parse(s):
        parts.append(literal)
        if name is None:
            continue
        v = field(name)
        if conv and is_sym(v):
            return '<symbolic text>'
        if spec and '{' in spec:
            sub = []
            for l2, n2, s2, c2 in _string.Formatter().parse(spec):
                if l2:
                    sub.append(l2)
                if n2 is not None:
                    sub.append(field(n2))
            if is_sym(sub):
                if len(sub) == 3 and sub[0] == '0' and sub[2] in ('b', 'x', 'X') and is_int(sub[1]):
                    parts.append(fmt_value(ip, v, SpecW(sub[1], sub[2])))
                    continue
                if len(sub) == 2 and sub[0] in ('0>', '0') and isinstance(v, SStr):
                    parts.append(str_zfill(v, sub[1]))
                    continue
                raise Unsupported('format spec %r' % spec)
            spec = ''.join(str(x) for x in sub)
        if conv == 'r':
            v = repr(v)
        elif conv == 's':
            v = str(v)
        parts.append(fmt_value(ip, v, spec or ''))
    return join_parts(parts)


def percent_format(ip, s, b):
    if not isinstance(b, tuple):
        b = (b,)
    import re
    m = re.match(r'^%0(\d+)[dxX]$', s)
    if m and 'x' in s.lower() and len(b) == 1:
        return fmt_value(ip, b[0], '0%sx' % m.group(1))
    if s == '%s' and isinstance(b[0], SStr):
        return b[0]
    return '<symbolic text>'


# ------------------------------------------------------------------ intrinsics
def ip_len(ip, x):
    if isinstance(x, (SStr, SText)):
        return str_len(x)
    if isinstance(x, Stub):
        return x.py_len(ip)
    if isinstance(x, SYM):
        ip.raise_(TypeError('object has no len()'))
    m = ip.lookup_special(x, '__len__')
    if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
        return ip.call(m, [])
    try:
        return len(x)
    except (Unsupported, PyExc):
        raise
    except Exception as e:
        raise PyExc(e)


def ip_bin(ip, v):
    if isinstance(v, Stub):
        v = v.py_int(ip)
    if not is_sym(v):
        return ip.native(bin, [v], {})
    return SText('0b', digits_of(v, SStr))


def ip_hex(ip, v):
    if isinstance(v, Stub):
        v = v.py_int(ip)
    if not is_sym(v):
        return ip.native(hex, [v], {})
    return SText('0x', digits_of(v, SHex))


def ip_int(ip, v=0, base=None):
    c = ctx()
    if isinstance(v, Stub):
        return v.py_int(ip)
    if isinstance(v, SBool):
        return mk_int(z(v))
    if isinstance(v, SInt):
        return v
    if isinstance(v, SRat):
        n = z(v.n)
        if c.entails(n >= 0):
            return mk_int(z(dom.div(n, v.d)))
        if c.branch(n >= 0):
            return mk_int(z(dom.div(n, v.d)))
        return mk_int(-z(dom.div(-n, v.d)))
    if isinstance(v, SText):
        if base == 2 and v.prefix == '0b' or base == 16 and v.prefix == '0x':
            return intof(v.s.p)
        raise Unsupported('int of text')
    if isinstance(v, SHex):
        if base != 16:
            raise Unsupported('int(hex, %r)' % base)
        if not v.strip and not c.branch(z(width(v.p)) > 0):
            ip.raise_(ValueError('invalid literal for int()'))
        return intof(v.p)
    if isinstance(v, SBytes):
        raise Unsupported('int(bytes)')
    if isinstance(v, SStr):
        if not v.strip and not c.branch(z(width(v.p)) > 0):
            ip.raise_(ValueError("invalid literal for int() with base %s: ''" % base))
        if base == 2:
            return intof(v.p)
        if base in (None, 10) and c.entails(z(width(v.p)) == 1):
            return intof(v.p)
        if base in (None, 10, 16) and all(isinstance(x, B) and dom.is_zero(x.val) for x in v.p):
            return 0
        raise Unsupported('int(digits, %r)' % base)
    m = ip.lookup_special(v, '__int__')
    if m is not None and (interpretable(m.__func__) or isinstance(m.__func__, Closure)):
        return ip.call(m, [])
    return ip.native(int, [v] if base is None else [v, base], {})


def ip_bool(ip, v=False):
    return ip.truthy_value(v)


def ip_abs(ip, v):
    if isinstance(v, Stub):
        v = v.py_int(ip)
    if isinstance(v, (SInt, SBool)):
        c = ctx()
        t = z(v)
        if c.entails(t >= 0):
            return v
        if c.branch(t >= 0):
            return mk_int(t)
        return mk_int(-t)
    return ip.native(abs, [v], {})


def ip_minmax(f):
    def g(ip, *args, **kw):
        xs = list(ip.iterate(args[0])) if len(args) == 1 else list(args)
        if not is_sym(xs) and not is_sym(kw):
            return ip.native(f, [xs] if xs or not kw else [xs], kw)
        if kw:
            raise Unsupported('min/max with key')
        r = xs[0]
        for x in xs[1:]:
            if x is None or r is None:
                ip.raise_(TypeError('min/max of None'))
            if isinstance(x, float) or isinstance(r, float):
                less = ip.compare(ast.Lt(), x, r)
                less = ip.truth(less)
                r = x if less == (f is min) else r
                continue
            lt = z(x) < z(r)
            if f is max:
                lt = z(x) > z(r)
            r = mk_int(z3.If(lt, z(x), z(r)))
        return r
    return g


def ip_range(ip, *a):
    a = [x.py_int(ip) if isinstance(x, Stub) else x for x in a]
    if is_sym(a):
        if len(a) == 1:
            return SRange(0, a[0])
        if len(a) == 2:
            return SRange(a[0], a[1])
        raise Unsupported('range with step')
    return ip.native(range, a, {})


def ip_enumerate(ip, it, start=0):
    if isinstance(it, Stub) and hasattr(it, 'py_enumerate'):
        return it.py_enumerate(ip, start)
    return enumerate(ip.iterate(it), start)


def ip_zip(ip, *its):
    conc = []
    lens = []
    for it in its:
        if isinstance(it, (list, tuple, collections.deque, dict, str)):
            lens.append(len(it))
    out = []
    n = min(lens) if lens else None
    iters = []
    for it in its:
        if isinstance(it, SStr) and not isinstance(it, SHex) and n is not None:
            # take at most n digits of a (possibly longer, symbolic length) string
            s = resolve_strip(it)
            def gen(p=list(s.p), s=s):
                for _ in range(n):
                    if not ctx().branch(z(width(p)) >= 1):
                        return
                    l, p = split(p, 1)
                    yield str_norm(SStr(l))
            iters.append(gen())
        elif isinstance(it, Stub) and hasattr(it, 'py_zip'):
            return it.py_zip(ip, its)
        else:
            iters.append(ip.iterate(it))
    return zip(*iters)


def ip_isinstance(ip, o, t):
    if isinstance(t, tuple):
        return any(ip_isinstance(ip, o, x) for x in t)
    if isinstance(o, Stub):
        return o.py_isinstance(ip, t)
    if isinstance(o, SInt):
        return isinstance(t, type) and issubclass(int, t)
    if isinstance(o, SBool):
        return isinstance(t, type) and issubclass(bool, t)
    if isinstance(o, SBytes):
        return isinstance(t, type) and issubclass(bytes, t)
    if isinstance(o, (SStr, SText)):
        return isinstance(t, type) and issubclass(str, t)
    if isinstance(t, Stub):
        return t.py_instancecheck(ip, o)
    return ip.native(isinstance, [o, t], {})


def ip_type(ip, o, *a):
    if a:
        raise Unsupported('type() with three arguments')
    if isinstance(o, Stub):
        return o.py_type(ip)
    if isinstance(o, SInt):
        return int
    if isinstance(o, SBool):
        return bool
    if isinstance(o, SStr):
        return str
    return type(o)


def ip_hasattr(ip, o, n):
    if isinstance(o, Stub):
        return o.py_hasattr(ip, n)
    if isinstance(o, SYM):
        return hasattr({SInt: 0, SBool: True, SStr: ''}.get(type(o), ''), n)
    try:
        ip.getattr(o, n)
        return True
    except PyExc as e:
        if isinstance(e.e, AttributeError):
            return False
        raise


def ip_getattr(ip, o, n, *d):
    try:
        return ip.getattr(o, n)
    except PyExc as e:
        if d and isinstance(e.e, AttributeError):
            return d[0]
        raise


def ip_setattr(ip, o, n, v):
    ip.setattr(o, n, v)


def ip_list(ip, it=()):
    if isinstance(it, Stub) and hasattr(it, 'py_list'):
        return it.py_list(ip)
    return list(ip.iterate(it))


def ip_tuple(ip, it=()):
    if isinstance(it, Stub) and hasattr(it, 'py_list'):
        return it.py_list(ip)
    return tuple(ip.iterate(it))


def ip_deque(ip, it=(), *a):
    return collections.deque(ip.iterate(it), *a)


def ip_sorted(ip, it, **kw):
    if isinstance(it, Stub) and hasattr(it, 'py_sorted'):
        return it.py_sorted(ip, **kw)
    xs = list(ip.iterate(it))
    if is_sym(xs):
        raise Unsupported('sorting symbolic values')
    return ip.native(sorted, [xs], kw)


def ip_reversed(ip, it):
    if isinstance(it, SStr):
        return reversed(list(ip.iterate(it)))
    return ip.native(reversed, [it], {}) if not is_sym(it) else reversed(list(ip.iterate(it)))


def ip_sum(ip, it, start=0):
    if isinstance(it, Stub) and hasattr(it, 'py_sum'):
        return it.py_sum(ip, start)
    r = start
    for x in ip.iterate(it):
        r = ip.binop(ast.Add(), r, x)
    return r


def ip_any(ip, it):
    if isinstance(it, Stub) and hasattr(it, 'py_any'):
        return it.py_any(ip)
    for x in ip.iterate(it):
        if ip.truth(x):
            return True
    return False


def ip_all(ip, it):
    for x in ip.iterate(it):
        if not ip.truth(x):
            return False
    return True


OCTETS = None       # contracts.base.Numbers


def octets_of(v):
    """bytes of symbolic length as a sequence of octets that the map-fold rule accepts"""
    if OCTETS is not None and isinstance(v, SBytes) and ctx().const(z(width(v.p)) / 8) is None:
        return OCTETS(v.p)
    return v


def ip_map(ip, f, *its):
    its = [octets_of(x) for x in its]
    if len(its) == 1 and isinstance(its[0], Stub) and hasattr(its[0], 'py_map'):
        r = its[0].py_map(ip, lambda x: ip.call(f, [x]))
        if r is not None:
            return r
    return iter([ip.call(f, list(xs)) for xs in zip(*[ip.iterate(i) for i in its])])


def ip_filter(ip, f, it):
    return iter([x for x in ip.iterate(it) if ip.truth(x if f is None else ip.call(f, [x]))])


def ip_str(ip, v='', *a):
    if isinstance(v, SStr):
        return v
    if is_sym(v):
        return '<symbolic text>'
    return ip.native(str, [v] + list(a), {})


def ip_repr(ip, v):
    return '<symbolic text>' if is_sym(v) else ip.native(repr, [v], {})


def ip_format(ip, v, spec=''):
    return fmt_value(ip, v, spec)


def ip_next(ip, it, *d):
    if isinstance(it, Stub):
        raise Unsupported('next')
    try:
        return next(it)
    except StopIteration as e:
        if d:
            return d[0]
        raise PyExc(e)


def ip_iter(ip, it, *a):
    if a:
        raise Unsupported('iter')
    return ip.iterate(it)


def ip_divmod(ip, a, b):
    return (ip.binop(ast.FloorDiv(), a, b), ip.binop(ast.Mod(), a, b))


def ip_pow(ip, a, b, *m):
    if m:
        raise Unsupported('pow')
    return ip.binop(ast.Pow(), a, b)


def ip_hexlify(ip, s, *a):
    if isinstance(s, SBytes):
        return SHex(s.p)
    return ip.native(binascii.hexlify, [s] + list(a), {})


def ip_unhexlify(ip, s):
    if isinstance(s, SHex):
        s = resolve_strip(s)
        if not ctx().branch(z(width(s.p)) % 8 == 0):
            ip.raise_(binascii.Error('Odd-length string'))
        return SBytes(s.p)
    return ip.native(binascii.unhexlify, [s], {})


def ip_codecs_decode(ip, s, enc='utf-8', *a):
    if isinstance(s, SHex) and enc in ('hex_codec', 'hex'):
        return ip_unhexlify(ip, s)
    return ip.native(codecs.decode, [s, enc] + list(a), {})


def ip_codecs_encode(ip, s, enc='utf-8', *a):
    if isinstance(s, SBytes) and enc in ('hex_codec', 'hex'):
        return SHex(s.p)
    return ip.native(codecs.encode, [s, enc] + list(a), {})


def ip_bytes(ip, v=b'', *a):
    if isinstance(v, SBytes):
        return v
    if isinstance(v, Stub):
        f = getattr(v, 'py_bytes', None)
        if f is None:
            raise Unsupported('bytes()')
        return f(ip)
    if is_sym(v):
        raise Unsupported('bytes()')
    return ip.native(bytes, [v] + list(a), {})


def ip_from_bytes(ip, s, order='big', **k):
    if isinstance(s, SBytes):
        if order != 'big' or k.get('signed'):
            raise Unsupported('from_bytes')
        return intof(s.p)
    return ip.native(int.from_bytes, [s, order], k)


def ip_fromhex(cls):
    def f(ip, s):
        if isinstance(s, SHex):
            return ip_unhexlify(ip, s)
        return ip.native(cls.fromhex, [s], {})
    return f


def ip_deepcopy(ip, v, *a):
    if is_sym(v):
        raise Unsupported('deepcopy of symbolic object')
    return ip.native(copy.deepcopy, [v], {})


def ip_reduce(ip, f, it, *init):
    xs = list(ip.iterate(it))
    r = init[0] if init else xs.pop(0)
    for x in xs:
        r = ip.call(f, [r, x])
    return r


def ip_ceil(ip, v):
    if isinstance(v, SRat):
        return mk_int(-z(dom.div(-z(v.n), v.d)))
    if isinstance(v, (SInt,)):
        return v
    return ip.native(math.ceil, [v], {})


def ip_floor(ip, v):
    if isinstance(v, SRat):
        return mk_int(z(dom.div(z(v.n), v.d)))
    if isinstance(v, SInt):
        return v
    return ip.native(math.floor, [v], {})


def ip_defaultdict(ip, f=None, *a):
    return collections.defaultdict(f, *a)


def ip_chain_from(ip, it):
    return iter([y for x in ip.iterate(it) for y in ip.iterate(x)])


def ip_chain(ip, *its):
    return iter([y for x in its for y in ip.iterate(x)])


def ip_print(ip, *a, **k):
    return None


def ip_id(ip, o):
    return id(o)


def ip_callable(ip, o):
    return isinstance(o, (Closure, Method)) or (not isinstance(o, Stub) and callable(o))


def ip_hash(ip, o):
    if is_sym(o):
        return SInt(ctx().fresh('hash'))          # some number
    return ip.native(hash, [o], {})


class SSet(Stub):
    """a set with symbolic numbers in it: membership only"""
    def __init__(self, xs):
        self.xs = list(xs)

    def py_contains(self, ip, x):
        return ip.contains(self.xs, x)

    def py_truth(self, ip):
        return bool(self.xs)

    def py_getattr(self, ip, name):
        if name == 'add':
            return Method(lambda ip, x: self.xs.append(x))
        if name == 'update':
            return Method(lambda ip, *xs: [self.xs.extend(ip.iterate(x)) for x in xs] and None)
        if name == 'issuperset':
            def sup(ip, ys):
                r = True
                for y in ip.iterate(ys):
                    r = and_(r, self.py_contains(ip, y))
                return r
            return Method(sup)
        raise Unsupported('set.%s with symbolic elements' % name)

    def py_isinstance(self, ip, cls):
        return issubclass(set, cls)


def ip_set(kind):
    def f(ip, *a):
        if a:
            if isinstance(a[0], SSet):
                return SSet(a[0].xs)
            xs = list(ip.iterate(a[0]))
            if any(isinstance(x, SYM) for x in xs):
                return SSet(xs)
            return ip.native(kind, [tuple(xs)], {}) if not is_sym(xs) else kind(xs)
        return kind()
    return f


INTRINSICS = {
    hash: ip_hash, set: ip_set(set), frozenset: ip_set(frozenset),
    len: ip_len, bin: ip_bin, hex: ip_hex, int: ip_int, bool: ip_bool, abs: ip_abs, min: ip_minmax(min), max: ip_minmax(max),
    range: ip_range, enumerate: ip_enumerate, zip: ip_zip, isinstance: ip_isinstance, type: ip_type, hasattr: ip_hasattr,
    getattr: ip_getattr, setattr: ip_setattr, list: ip_list, tuple: ip_tuple, collections.deque: ip_deque, sorted: ip_sorted,
    reversed: ip_reversed, sum: ip_sum, any: ip_any, all: ip_all, map: ip_map, filter: ip_filter, str: ip_str, repr: ip_repr,
    format: ip_format, next: ip_next, iter: ip_iter, divmod: ip_divmod, pow: ip_pow, binascii.hexlify: ip_hexlify,
    binascii.b2a_hex: ip_hexlify, binascii.unhexlify: ip_unhexlify, binascii.a2b_hex: ip_unhexlify,
    codecs.decode: ip_codecs_decode, codecs.encode: ip_codecs_encode, bytes: ip_bytes, bytearray: ip_bytes,
    int.from_bytes: ip_from_bytes, bytes.fromhex: ip_fromhex(bytes), bytearray.fromhex: ip_fromhex(bytearray),
    copy.deepcopy: ip_deepcopy, functools.reduce: ip_reduce, math.ceil: ip_ceil, math.floor: ip_floor,
    collections.defaultdict: ip_defaultdict, itertools.chain: ip_chain, itertools.chain.from_iterable: ip_chain_from,
    print: ip_print, id: ip_id, callable: ip_callable,
}


def list_index(ip, xs, x):
    for i, y in enumerate(xs):
        if ip.truth(ip.eq(y, x)):
            return i
    ip.raise_(ValueError('%r is not in list' % (x,)))


def builtin_method(self, f, args, kw):
    """methods of concrete builtin containers with symbolic arguments"""
    o = getattr(f, '__self__', None)
    n = f.__name__
    if isinstance(o, str):
        if n == 'format':
            if is_sym(args) or is_sym(kw):
                return str_format(self, o, args, kw)
            return self.native(f, args, kw)
        if n == 'join':
            it = args[0]
            if isinstance(it, Stub) and hasattr(it, 'py_join'):
                return it.py_join(self, o)
            xs = list(self.iterate(it))
            if is_sym(xs):
                if o != '':
                    return '<symbolic text>'
                return join_parts(xs)
            return self.native(f, [xs], kw)
        if n == 'zfill' and is_sym(args):
            return str_zfill(o, args[0])
        if n in ('rjust', 'ljust') and is_sym(args) and len(args) == 2 and args[1] == '0':
            if n == 'rjust' or o == '':
                return str_zfill(o, args[0])
        if is_sym(args):
            raise Unsupported('str.%s' % n)
        return _MISSING
    if isinstance(o, set) and n in ('add', 'discard', 'remove', 'update') and is_sym(args) and not any(isinstance(x, SYM) for x in args):
        if n != 'update':
            return f(*args)                          # stubs are compared by identity
        xs = [list(self.iterate(x)) for x in args]
        if not any(isinstance(y, SYM) for x in xs for y in x):
            return f(*xs)
    if isinstance(o, list):
        if n in ('append', 'insert', 'pop', 'clear', 'copy', 'reverse'):
            if n == 'pop' and is_sym(args) or n == 'insert' and is_sym(args[:1]):
                raise Unsupported('list.%s at symbolic index' % n)
            try:
                return f(*args, **kw)
            except Exception as e:
                raise PyExc(e)
        if n == 'extend':
            it = args[0]
            if isinstance(it, Stub) and hasattr(it, 'py_extend_into'):
                return it.py_extend_into(self, o)
            o.extend(list(it) if isinstance(it, (list, tuple)) else list(self.iterate(it)))
            return None
        if n == 'index':
            if is_sym(o) or is_sym(args):
                return list_index(self, o, args[0])
        if n == 'remove' and (is_sym(o) or is_sym(args)):
            del o[list_index(self, o, args[0])]
            return None
        if n == 'count' and (is_sym(o) or is_sym(args)):
            return sum_ints([mk_int(z3.If(z3.BoolVal(e) if isinstance(e, bool) else e.t, 1, 0))
                             for e in (self.truthy_value(self.eq(x, args[0])) for x in o)])
        if n == 'sort' and is_sym(o):
            raise Unsupported('sort')
        return _MISSING
    if isinstance(o, tuple) and n in ('index', 'count') and (is_sym(o) or is_sym(args)):
        if n == 'index':
            return list_index(self, o, args[0])
    if isinstance(o, tuple) and n in ('_replace',):
        try:
            return f(*args, **kw)
        except Exception as e:
            raise PyExc(e)
    if isinstance(o, collections.deque):
        if n in ('append', 'appendleft', 'popleft', 'pop', 'clear', 'extend'):
            try:
                return f(*[list(self.iterate(a)) if n == 'extend' else a for a in args], **kw)
            except Exception as e:
                raise PyExc(e)
    if isinstance(o, dict):
        if n in ('get', 'setdefault', 'pop', 'update', 'items', 'keys', 'values', 'copy', 'clear', '__getitem__', '__setitem__'):
            if n in ('get', 'setdefault', 'pop') and is_sym(args[:1]):
                raise Unsupported('dict.%s with symbolic key' % n)
            try:
                return f(*args, **kw)
            except Exception as e:
                raise PyExc(e)
    if isinstance(o, set) and n in ('add', 'discard', 'clear', 'update') and not is_sym(args):
        return f(*args)
    return _MISSING


Interp.builtin_method = builtin_method


# ------------------------------------------------------------------ path exploration
def small(x):
    """a number the path determines, or (by case split) one of few"""
    if not isinstance(x, SInt):
        return x
    c = ctx()
    k = c.const(x.t)
    if k is not None:
        return k
    if not c.entails(z3.And(x.t >= 0, x.t < 520)):
        return x
    for k in range(520):
        if c.branch(x.t == k):
            return k
    raise Infeasible()


class Splice(Stub):
    """an arbitrary (possibly empty) list of fields spliced into a field list.  Its layout at bit position P depends on
    P mod 8 only: O(key, 0, width(P mod 8), tag = P mod 8)."""
    def __init__(self, key):
        self.key = key

    def name(self):
        return str(self.key).replace(' ', '')

    def nonempty(self):
        return z3.Bool('nonempty_%s' % self.name())

    def width(self, tag):
        c = ctx()
        f = z3.Function('w_%s' % self.name(), z3.IntSort(), z3.IntSort())
        w = f(z(tag))
        c.add(z3.And(w >= 0, z3.Implies(z3.Not(self.nonempty()), w == 0)))
        return w

    def piece(self, pos):
        tag = simp(z(pos) % 8)
        return O(self.key, 0, self.width(tag), tag)


LEMMAS = {}


class LoopFail(Exception):
    """an inductive step that does not hold: the property's failure is likely but must be shown on a real input"""


def nested(fn):
    """run fn(ctx) on all paths of a fresh context, restoring the current one; list of (ctx, result)"""
    old = dom.Ctx.cur
    out = []
    try:
        for c, r in explore(fn, old.stats, 400, None, 8000, old.n + 100000):
            out.append(r)
            if r[0] != 'ok':
                break
    finally:
        dom.Ctx.cur = old
    return out


def splice_loop(ip, s, fr, items):
    """Fold rule.  A for loop over a field list containing arbitrary field lists: the loop body is shown, for an arbitrary
    accumulated string and an arbitrary field, to append exactly what X.691's layout step appends; by induction an
    arbitrary list of fields appends its layout."""
    assigned = {m.id for b in s.body for m in ast.walk(b) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
    called = {m.func.value.id for b in s.body for m in ast.walk(b) if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute)
              and isinstance(m.func.value, ast.Name) and m.func.attr in ('append', 'extend')}
    for b in s.body:
        for m in ast.walk(b):
            if isinstance(m, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)):
                raise Unsupported('fold over an arbitrary field list')
    state = {}
    for n in sorted(assigned | called):
        if n in fr.vars:
            v = fr.vars[n]
            k = 'str' if isinstance(v, (str, SStr)) and not isinstance(v, (SHex, SBytes)) else 'list' if isinstance(v, list) else \
                'int' if isinstance(v, (int, SInt)) and not isinstance(v, bool) else None
            if k is None:
                raise Unsupported('fold state %s' % n)
            state[n] = (k, list(v) if k == 'list' else v)
    base = [n for n in state if state[n][0] == 'str'] or [n for n in state if state[n][0] == 'list']
    if not base:
        raise Unsupported('fold without accumulator')

    def position():
        v = fr.vars[base[0]]
        if state[base[0]][0] == 'str':
            return z(ip_len(ip, v))
        t = z3.IntVal(0)
        for x in v:
            t = t + z(ip_len(ip, x))
        return t

    def body():
        try:
            ip.block(s.body, fr)
        except Continue:
            pass
    key = (id(s), tuple((n, k, repr(v)) for n, (k, v) in sorted(state.items())))
    ints = [n for n in state if state[n][0] == 'int']

    def lemma(rels):
        saved = dict(fr.vars)

        def rel(n, a):
            v0 = z(state[n][1])
            return mk_int({'len': v0 + a, 'mod': (v0 + a) % 8, 'const': v0}[rels[n]])

        def run(c):
            c.witness = {}
            fr.vars.clear()
            fr.vars.update({n: v for n, v in saved.items() if n not in assigned})
            A = c.fresh('A', True)
            app = O('app', 0, A)
            for n, (k, v) in state.items():
                if k == 'str':
                    fr.vars[n] = str_add(v, SStr((app,))) if not (isinstance(v, str) and v == '') else SStr((app,))
                elif k == 'list':
                    fr.vars[n] = list(v) + [SStr((app,))]
                else:
                    fr.vars[n] = rel(n, A)
            P = position()
            al = z3.Bool('align!0')
            fw = c.fresh('fw', True)
            fv = O('fv', 0, fw)
            ip.assign(s.target, field_maker(SBool(al), SStr((fv,))), fr)
            body()
            pad = ()
            if c.branch(z3.And(al, fw > 0)):
                pad = (B(0, simp((-P) % 8)),)
            want = (app,) + pad + (fv,)
            conds = []
            for n, (k, v) in state.items():
                got = fr.vars.get(n)
                if k == 'str':
                    full = tuple(as_digits(v).p if not isinstance(v, str) else dom.lit(v)) + want
                    if not isinstance(got, (str, SStr)):
                        raise Unsupported('fold state')
                    conds += dom.pieces_equal(resolve_strip(as_digits(got)).p, full)
                elif k == 'list':
                    if not isinstance(got, list) or len(got) < len(v) + 1:
                        raise Unsupported('fold state')
                    tail = join_parts(got[len(v):])
                    conds += dom.pieces_equal(resolve_strip(as_digits(tail)).p, want)
                else:
                    conds.append(z(got) == z(rel(n, z(dom.width(want)))))
            return all(c.entails(x) for x in conds)
        try:
            rs = nested(run)
        finally:
            fr.vars.clear()
            fr.vars.update(saved)
        if any(r[0] == 'unsup' for r in rs):
            raise Unsupported('fold: %s' % [r[1] for r in rs if r[0] == 'unsup'][0])
        return bool(rs) and all(r == ('ok', True) for r in rs), len(rs)
    if key not in LEMMAS:
        import itertools
        res = None
        for combo in itertools.product(*[('len', 'mod', 'const')] * len(ints)):
            ok, n = lemma(dict(zip(ints, combo)))
            if ok:
                res = (dict(zip(ints, combo)), n)
                break
        LEMMAS[key] = res
    res = LEMMAS[key]
    if res is None:
        raise LoopFail('one step of laying out a field list is not the X.691 step')
    rels = res[0]
    ctx().lemmas = getattr(ctx(), 'lemmas', 0) + res[1]
    for x in items:
        if isinstance(x, Splice):
            piece = x.piece(position())
            for n, (k, v) in state.items():
                if k == 'str':
                    cur = fr.vars[n]
                    fr.vars[n] = SStr((piece,)) if isinstance(cur, str) and cur == '' else str_add(cur, SStr((piece,)))
                elif k == 'list':
                    fr.vars[n].append(SStr((piece,)))
                elif rels[n] == 'len':
                    fr.vars[n] = mk_int(z(fr.vars[n]) + z(piece.w))
                elif rels[n] == 'mod':
                    fr.vars[n] = mk_int((z(fr.vars[n]) + z(piece.w)) % 8)
            for n in assigned:
                if n not in state:
                    fr.vars.pop(n, None)
        else:
            ip.assign(s.target, x, fr)
            body()
    ip.block(s.orelse, fr)


def field_maker(align, value):
    from asn1PERser.codec.per import encoder
    return encoder.bit_field(octet_align=align, value=value)


def explore(fn, stats=None, max_paths=4000, deadline=None, timeout=5000, n0=0):
    """run fn(ctx) on every feasible path; yields (ctx, result) with result ('ok', v) / ('exc', e) / ('unsup', msg)"""
    import time
    prefix, opens = [], []
    n = 0
    while True:
        c = dom.Ctx(prefix, stats, timeout)
        c.n = n0
        try:
            r = ('ok', fn(c))
        except Infeasible:
            r = None
        except PyExc as e:
            r = ('exc', e.e)
        except Unsupported as e:
            r = ('unsup', str(e))
        except RecursionError:
            r = ('unsup', 'host recursion')
        except z3.Z3Exception as e:
            r = ('unsup', 'z3: %s' % e)
        if r is not None:
            n += 1
            yield c, r
        # next path: flip the deepest decision whose other side is unexplored
        trace = c.trace
        opens = [opens[i] if i < len(prefix) else trace[i][1] for i in range(len(trace))]
        i = len(trace) - 1
        while i >= 0 and not opens[i]:
            i -= 1
        if i < 0:
            return
        if n >= max_paths:
            yield c, ('unsup', 'path limit')
            return
        if deadline is not None and time.time() > deadline:
            yield c, ('unsup', 'time limit')
            return
        prefix = [t[0] for t in trace[:i]] + [not trace[i][0]]
        opens = opens[:i] + [False]
