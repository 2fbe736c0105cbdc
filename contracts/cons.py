"""C15: the constraint classes of asn1PERser/classes/types/constraint.py (and, below them, pyasn1.type.constraint and the value
constructors of pyasn1, whose installed source is interpreted here, not assumed).

Simple constraints: bounds, value and length arbitrary.  Combined constraints: each part is known by its contract only (it refuses with
ValueConstraintError exactly what it does not admit -- an arbitrary predicate of the value --, and carries bounds that are the least
and greatest admitted value); by induction over the nesting the contract holds for every constraint.
"""
import os

from .base import *
from . import leaf
from .leaf import sym
import pyasn1.type.base as pbase
from pyasn1.type import constraint as pcons, univ, error as perror
from asn1PERser.classes.types import constraint as K
from asn1PERser.classes.data import builtin
from pyver.engine import Stub

PY = os.path.dirname(pbase.__file__) + '/'
if PY not in engine.ROOTS:
    engine.ROOTS.append(PY)


def contracts(mode=None):
    return None


class Part(Stub):
    """a constraint known by its contract"""
    def __init__(self, i, lo, hi, admits, exc=perror.ValueConstraintError):
        self.i, self.lo, self.hi, self.admits, self.exc = i, lo, hi, admits, exc

    def py_getattr(self, ip, name):
        if name == 'lowerEndpoint':
            return self.lo
        if name == 'upperEndpoint':
            return self.hi
        if name == 'extensionMarker':
            return False
        if name == 'getValueMap':
            return engine.Method(lambda ip: set())
        raise Unsupported('attribute %s of a constraint' % name)

    def py_setattr(self, ip, name, v):
        raise Unsupported('assignment to a part of a constraint')

    def py_truth(self, ip):
        return True

    def py_call(self, ip, args, kw):
        if len(args) + len(kw) not in (1, 2) or not args:
            raise Unsupported('call of a constraint')
        if ip.truth(mk_bool(self.admits(args[0]))):
            return None
        raise PyExc(self.exc('refused'))

    def __repr__(self):
        return 'Part%d' % self.i


def refuses(ip, f, args):
    """does the call refuse?  (any exception, as a user sees it)"""
    try:
        ip.call(f, args)
        return False
    except PyExc as e:
        if isinstance(e.e, perror.PyAsn1Error):
            return True
        raise


def bounds_posts(ip, o, lo, hi, ext, what=''):
    """the bounds used by the codec"""
    def same(got, want):
        if want is None:
            return got is None
        if not isinstance(got, (int, SInt)) or isinstance(got, bool):
            return False
        return z(got) == z(want)
    e = ip.getattr(o, 'extensionMarker')
    return [(what + 'lower bound', same(ip.getattr(o, 'lowerEndpoint'), lo)), (what + 'upper bound', same(ip.getattr(o, 'upperEndpoint'), hi)),
            (what + 'extension marker', e is ext or isinstance(e, bool) and e == ext)]


def admit_posts(ip, o, v, ok, what=''):
    """refused exactly when not admitted"""
    r = refuses(ip, o, [v])
    return [(what + ('an admitted value is not refused' if r else 'a value that is not admitted is refused'), z3.Not(ok) if r else ok)]


def in_range(v, lo, hi):
    return z3.And(*([z(v) >= z(lo)] if lo is not None else []) + ([z(v) <= z(hi)] if hi is not None else []) + [z3.BoolVal(True)])


def endpoints(c, hl, hu, nonneg=False):
    lo = sym(c, 'lb', nonneg) if hl else None
    hi = sym(c, 'ub', nonneg) if hu else None
    if hl and hu:
        c.assume(z(lo) <= z(hi))
    return lo, hi


class Sized(Stub):
    """a value with a length"""
    def __init__(self, n):
        self.n = n

    def py_len(self, ip):
        return self.n

    def __repr__(self):
        return 'Sized'


def range_class(shape, mode=None):
    ext, hl, hu = shape

    def f(ip, c):
        lo, hi = endpoints(c, hl, hu)
        v = sym(c, 'v')
        c.witness['shape'] = ('con', 'range', ext, hl, hu)
        o = ip.call(K.ValueRange, [K.MIN if lo is None else lo, K.MAX if hi is None else hi] + ([True] if ext else []))
        return bounds_posts(ip, o, lo, hi, ext) + admit_posts(ip, o, v, z3.BoolVal(True) if ext else in_range(v, lo, hi))
    return f


def size_class(shape, mode=None):
    ext, hl, hu = shape

    def f(ip, c):
        lo, hi = endpoints(c, hl, hu, True)
        n = sym(c, 'n', True)
        c.witness['shape'] = ('con', 'size', ext, hl, hu)
        o = ip.call(K.ValueSize, [K.MIN if lo is None else lo, K.MAX if hi is None else hi] + ([True] if ext else []))
        return bounds_posts(ip, o, 0 if lo is None else lo, hi, ext) + \
            admit_posts(ip, o, Sized(n), z3.BoolVal(True) if ext else in_range(n, lo, hi))
    return f


def seqof_size_class(shape, mode=None):
    ext, hl, hu = shape

    def f(ip, c):
        lo, hi = endpoints(c, hl, hu, True)
        n = sym(c, 'n', True)
        c.witness['shape'] = ('con', 'seqofsize', ext, hl, hu)
        o = ip.call(K.SequenceOfValueSize, [K.MIN if lo is None else lo, K.MAX if hi is None else hi] + ([True] if ext else []))
        return bounds_posts(ip, o, 0 if lo is None else lo, hi, ext) + \
            [('elements are not constrained by the size', not refuses(ip, o, [Sized(n)]))]
    return f


def single_class(ext, k, mode=None):
    def f(ip, c):
        vs = [sym(c, 'v%d' % i) for i in range(k)]
        v = sym(c, 'v')
        c.witness['shape'] = ('con', 'single', ext, k)
        o = ip.call(K.SingleValue, [ext] + vs)
        lo, hi = c.fresh('lo'), c.fresh('hi')
        c.assume(z3.And(z3.And(*[lo <= z(x) for x in vs]), z3.Or(*[lo == z(x) for x in vs])))
        c.assume(z3.And(z3.And(*[hi >= z(x) for x in vs]), z3.Or(*[hi == z(x) for x in vs])))
        return bounds_posts(ip, o, SInt(lo), SInt(hi), ext) + \
            admit_posts(ip, o, v, z3.BoolVal(True) if ext else z3.Or(*[z(v) == z(x) for x in vs]))
    return f


def none_class(mode=None):
    def f(ip, c):
        v = sym(c, 'v')
        c.witness['shape'] = ('con', 'none')
        o = ip.call(K.NoConstraint, [])
        p = bounds_posts(ip, o, None, None, False, 'NoConstraint ') + [('NoConstraint admits all', not refuses(ip, o, [v]))]
        for e in (False, True):
            o = ip.call(K.ExtensionMarker, [e])
            p += bounds_posts(ip, o, None, None, e, 'ExtensionMarker ') + [('ExtensionMarker admits all', not refuses(ip, o, [v]))]
        return p
    return f


def combined(which, ext, parts, mode=None):
    """parts: per part (has lower bound, has upper bound)"""
    def f(ip, c):
        v = sym(c, 'v')
        ps, A = [], []
        for i, (hl, hu) in enumerate(parts):
            lo = sym(c, 'l%d' % i) if hl else None
            hi = sym(c, 'u%d' % i) if hu else None
            if hl and hu:
                c.assume(z(lo) <= z(hi))
            a = z3.Bool('admits%d' % i)
            c.assume(z3.Implies(a, in_range(v, lo, hi)))           # what it admits lies within its bounds
            A.append(a)
            ps.append(Part(i, lo, hi, lambda x, a=a, v=v: a if x is v else _other()))
        c.witness['shape'] = ('con', which, ext, parts)
        o = ip.call({'or': K.ConstraintOr, 'and': K.ConstraintAnd}[which], [ext] + ps)
        lo, hi = [p.lo for p in ps], [p.hi for p in ps]

        def extreme(xs, least):
            b = c.fresh('e')
            c.assume(z3.And(z3.And(*[(b <= z(x)) if least else (b >= z(x)) for x in xs]), z3.Or(*[b == z(x) for x in xs])))
            return SInt(b)
        if which == 'or':
            # union: the least lower bound and greatest upper bound are attained because those of the parts are
            wl = None if any(x is None for x in lo) else extreme(lo, True)
            wh = None if any(x is None for x in hi) else extreme(hi, False)
            ok = z3.Or(*A)
        else:
            l2, h2 = [x for x in lo if x is not None], [x for x in hi if x is not None]
            wl = extreme(l2, False) if l2 else None
            wh = extreme(h2, True) if h2 else None
            ok = z3.And(*A)
        return bounds_posts(ip, o, wl, wh, ext) + admit_posts(ip, o, v, z3.BoolVal(True) if ext else ok)
    return f


def _other():
    raise Unsupported('a part is asked about another value')


# ------------------------------------------------------------------ values
def value_int(shape, mode=None):
    """IntegerType with a range: construction refuses exactly what the constraint does not admit"""
    ext, hl, hu = shape

    def f(ip, c):
        lo, hi = endpoints(c, hl, hu)
        v = sym(c, 'v')
        c.witness['shape'] = ('con', 'range', ext, hl, hu)
        o = ip.call(K.ValueRange, [K.MIN if lo is None else lo, K.MAX if hi is None else hi] + ([True] if ext else []))
        T = type('T', (builtin.IntegerType,), {'subtypeSpec': o, '__pyver__': True})
        ok = z3.BoolVal(True) if ext else in_range(v, lo, hi)
        try:
            x = ip.call(T, [v])
        except PyExc as e:
            return [('an admitted value is not refused', z3.Not(ok))]
        got = ip.getattr(x, '_value')
        return [('a value that is not admitted is refused', ok), ('the value is the one given', z(got) == z(v) if isinstance(got, (int, SInt)) else False)]
    return f


def value_part(kind, mode=None):
    """construction of a value under an arbitrary constraint"""
    def f(ip, c):
        a = z3.Bool('admits')
        c.witness['shape'] = ('con', 'value', kind)
        if kind == 'int':
            v = sym(c, 'v')
            base_, raw_, kw = builtin.IntegerType, v, {}
        elif kind == 'oct':
            w = c.fresh('w', True)
            v = SBytes((O('data', 0, 8 * w),))
            base_, raw_, kw = builtin.OctetStringType, v, {}
        else:
            raise Unsupported(kind)
        p = Part(0, None, None, lambda x: a if x is v else _other())
        T = type('T', (base_,), {'subtypeSpec': p, '__pyver__': True})
        try:
            x = ip.call(T, [raw_])
        except PyExc as e:
            return [('an admitted value is not refused', z3.Not(a))]
        got = ip.getattr(x, '_value')
        return [('a value that is not admitted is refused', a), ('the value is the one given', got is v)]
    return f


def multi(fn, many, mode=None):
    def f(ip, c):
        i = c.choice(len(many))
        return globals()[fn](*many[i], mode=mode)(ip, c)
    return f
