"""C13 (frame conditions: encoding, decoding and dictionary conversion assign nothing) and C14 (dictionary conversion).

C13: for every type, every call leaves the raw object graph of the value, of the schema object and of the type objects exactly as it
was (normal end or exception), and the proof driver checks on every path that module globals, class attributes and default
arguments of the repository are as before.  Then every history of calls is the same as each call alone.  When the raw graph does
change, the calls that can follow are run on the changed objects: a wrong result is a failed obligation; if all are right the
obligation is undecided (a change of representation is not a violation).
C14: components answer to_dict by contract with a token of their value.
"""
import collections

from .base import *
from . import composite, leaf, seqof, hostile
from .composite import (Schema, ChoiceSchema, PRESENT, DEFAULT, encode_check, decode_check, seq_result, witness, value_of, C, make_value,
                        comp_class, intrinsic, same_value, ReadFail)
from .leaf import sym
from pyasn1.type.base import noValue
from pyasn1.type import base as pbase


def contracts(mode=None):
    return composite.contracts(mode)


ATOM = (type(None), bool, int, float, str, bytes, complex, type, types.FunctionType, types.BuiltinFunctionType, types.MethodType)


def raw(roots):
    """canonical description of the object graph reachable from roots"""
    num, out, keep = {}, [], []

    def go(o):
        if isinstance(o, ATOM):
            return ('a', type(o).__name__, o)
        if o is noValue:
            return ('novalue',)
        if id(o) in num:
            return ('ref', num[id(o)])
        num[id(o)] = len(num)
        keep.append(o)
        if isinstance(o, (list, tuple, collections.deque)):
            return (type(o).__name__,) + tuple(go(x) for x in o)
        if isinstance(o, dict):
            return (type(o).__name__,) + tuple((go(k), go(v)) for k, v in o.items())
        if isinstance(o, (set, frozenset)):
            return (type(o).__name__,) + tuple(sorted(repr(x) for x in o))
        d = getattr(o, '__dict__', None)
        if d is None:
            return ('opaque', type(o))
        return ('o', type(o)) + tuple((k, go(d[k])) for k in sorted(d))
    return go(list(roots)), keep


def type_roots(cls):
    return [getattr(cls, n, None) for n in ('rootComponent', 'extensionAddition', 'extensionAdditionGroups', 'componentType', 'subtypeSpec')]


def frame(ip, c, roots, posts_of, again):
    """posts of the call, plus: nothing reachable from roots changed"""
    before = raw(roots)[0]
    posts = posts_of()
    if raw(roots)[0] == before:
        return posts + [('value, schema and types are not changed', True)]
    extra = []
    for label, g in again:
        try:
            r = g()
        except Infeasible:
            raise
        except PyExc as e:
            r = [('no exception (%s)' % type(e.e).__name__, False)]
        extra += [('afterwards: %s: %s' % (label, n), k) for n, k in r]
    out = posts + extra
    for n, k in out:
        if isinstance(k, SBool):
            k = k.t
        if not (k if isinstance(k, bool) else c.entails(k)):
            return out
    raise Unsupported('objects are changed by the call, but no later call shows it')


# ------------------------------------------------------------------ SEQUENCE
class Tok(object):
    """dictionary form of a component"""
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'Tok%r' % (self.key,)


@intrinsic
def _to_dict(ip, self, is_root=True):
    v = value_of(self)
    if v is None:
        if isinstance(self, builtin.SequenceType):
            return collections.OrderedDict() if ip.truth(is_root) else noValue
        raise PyExc(PyAsn1Error('component without value'))
    return Tok((type(self)._comp, v))


def with_dict(classes):
    for k in classes:
        k.to_dict = _to_dict


def seq_setup(args):
    s = Schema.get(*args)
    with_dict([k.cls for k in s.all()])
    return s


def dict_call(ip, o):
    return ip.call(ip.getattr(o, 'to_dict'), [])


def dict_posts(want, got):
    if not isinstance(got, dict):
        return [('a dictionary', False)]
    posts = [('exactly the set components in schema order', list(got) == [n for n, _ in want])]
    for n, k in want:
        x = got.get(n)
        posts.append(('component %s has its dictionary form' % n, isinstance(x, Tok) and x.key == k))
    return posts


def seq_dict_want(s):
    out = []
    for k in s.all():
        if k.value is not None:
            out.append((k.name, (k.name, k.value)))
        elif k.kind == 'D':
            out.append((k.name, (k.name, DEFAULT)))
    return out


def seq_ops(ip, c, s, v, sch):
    def E():
        return encode_check(ip, c, v, s.spec_fields(ip), s.refused())

    def D(o=None):
        fields = s.spec_fields(ip)
        if fields is None or s.refused():
            return []
        return decode_check(ip, c, sch if o is None else o, fields, lambda x: seq_result(s, x) + aliases(x, roots))

    def T():
        return dict_posts(seq_dict_want(s), dict_call(ip, v))

    def same():
        posts = []
        for k in s.all():
            x = v.getComponentByName(k.name, default=None, instantiate=False)
            if k.value is None:
                ok = x is None or k.kind == 'D' and same_value(x, DEFAULT)
            else:
                ok = x is not None and same_value(x, k.value)
            posts.append(('component %s of the value is as it was set' % k.name, ok))
        try:
            posts.append(('the value equals an equal one', bool(v == s.value()) and bool(s.value() == v)))
        except PyAsn1Error:
            posts.append(('the value equals an equal one', s.ill))
        return posts
    roots = [v, sch] + type_roots(s.cls)
    if not hasattr(s, 'ill'):
        try:
            s.ill = not (s.value() == s.value())
        except PyAsn1Error:
            s.ill = True
    return {'encode': E, 'decode': D, 'decode-into': lambda: D(v), 'dict': T, 'same': same}, roots


def aliases(x, roots):
    """the structured components of a result are new objects"""
    known = {id(o) for o in raw(roots)[1]}
    try:
        parts = [k for k in (x._componentValues or []) if k is not noValue]
    except Exception:
        return []
    return [('the result shares no structured object with schema or value', not any(
        id(k) in known and isinstance(k, pbase.ConstructedAsn1Type) for k in parts) and id(x) not in known)]


def seq_pure(op, ext, root, adds=(), groups=(), mode='contract'):
    def f(ip, c):
        s = seq_setup((ext, root, adds, groups))
        witness(c, 'history', ext, root, adds, groups, op)
        c.places = []
        v, sch = s.value(), s.cls()
        ops, roots = seq_ops(ip, c, s, v, sch)
        again = [(k, g) for k, g in ops.items()]
        if op == 'bad':
            return frame(ip, c, roots, lambda: bad(ip, c, sch, ext), again)
        if op == 'bad-into':
            return frame(ip, c, roots, lambda: bad(ip, c, v, ext), again)
        return frame(ip, c, roots, ops[op], again)
    return f


def bad(ip, c, schema, ext):
    c.hostile = True
    try:
        p = sym(c, 'p', True)
        w = c.fresh('more', True)
        data = (O('data', 0, w),)
        if ext:
            data = (B(0, 1),) + data
        c.assume((z(p) + z(width(data))) % 8 == 0)
        hostile.run(ip, schema, PB(data, p))
    except PyExc:
        pass
    finally:
        c.hostile = False
    return [('ended', True)]


def seq_dict(ext, root, adds=(), groups=(), mode='contract'):
    def f(ip, c):
        s = seq_setup((ext, root, adds, groups))
        witness(c, 'dict', ext, root, adds, groups)
        c.places = []
        try:
            return dict_posts(seq_dict_want(s), dict_call(ip, s.value()))
        except PyExc as e:
            return [('no exception (%s: %s)' % (type(e.e).__name__, str(e.e)[:60]), False)]
    return f


# ------------------------------------------------------------------ CHOICE
def choice_setup(a):
    s = ChoiceSchema.get(*a)
    with_dict([k for _, k in s.all])
    return s


def choice_ops(ip, c, s, v, sch):
    n, k = s.all[s.at]
    roots = [v, sch] + type_roots(s.cls)

    def result(x):
        try:
            ok = x.getName() == n and isinstance(x.getComponent(), k) and same_value(x.getComponent(), PRESENT)
        except Exception:
            ok = False
        return [('the same alternative with the same value', ok)]

    def D(o=None):
        fields = s.spec_fields(ip)
        if fields is None:
            return []
        return decode_check(ip, c, sch if o is None else o, fields, lambda x: result(x) + aliases(x, roots))
    return {'encode': lambda: encode_check(ip, c, v, s.spec_fields(ip)), 'decode': D, 'decode-into': lambda: D(v),
            'dict': lambda: dict_posts([(n, (n, PRESENT))], dict_call(ip, v)), 'same': lambda: result(v)}, roots


def choice_pure(op, ext, n_root, n_adds, groups, at, shape, mode='contract'):
    def f(ip, c):
        s = choice_setup((ext, n_root, n_adds, groups, at, shape))
        witness(c, 'history-choice', ext, n_root, n_adds, groups, at, shape, op)
        c.places = []
        v, sch = s.value(), s.cls()
        ops, roots = choice_ops(ip, c, s, v, sch)
        again = list(ops.items())
        if op == 'bad':
            return frame(ip, c, roots, lambda: bad(ip, c, sch, ext), again)
        if op == 'bad-into':
            return frame(ip, c, roots, lambda: bad(ip, c, v, ext), again)
        return frame(ip, c, roots, ops[op], again)
    return f


def choice_dict(ext, n_root, n_adds, groups, at, shape, mode='contract'):
    def f(ip, c):
        s = choice_setup((ext, n_root, n_adds, groups, at, shape))
        witness(c, 'dict-choice', ext, n_root, n_adds, groups, at, shape)
        n, k = s.all[at]
        return dict_posts([(n, (n, PRESENT))], dict_call(ip, s.value()))
    return f


# ------------------------------------------------------------------ SEQUENCE OF (concrete lists of arbitrary components)
_SEQOF = {}


def seqof_class(shape):
    if shape not in _SEQOF:
        k = comp_class('e', shape)
        with_dict([k])
        _SEQOF[shape] = (k, type('L', (builtin.SequenceOfType,), {'componentType': k()}))
    return _SEQOF[shape]


def seqof_value(shape, n):
    k, L = seqof_class(shape)
    o = L()
    o.clear()
    if n:
        o.extend([make_value(k, PRESENT + i) for i in range(n)])
    return o


def seqof_dict_posts(n, got):
    if not isinstance(got, list):
        return [('a list', False)]
    return [('one entry per element', len(got) == n)] + \
           [('entry %d is that of element %d' % (i, i), isinstance(x, Tok) and x.key == ('e', PRESENT + i)) for i, x in enumerate(got)]


def seqof_dict(shape, n, mode='contract'):
    def f(ip, c):
        witness(c, 'dict-seqof', shape, n)
        return seqof_dict_posts(n, dict_call(ip, seqof_value(shape, n)))
    return f


def seqof_pure(op, shape, n, mode='contract'):
    def f(ip, c):
        witness(c, 'history-seqof', shape, n, op)
        c.places = []
        k, L = seqof_class(shape)
        v, sch = seqof_value(shape, n), L()
        roots = [v, sch] + type_roots(L)
        from pyver.engine import Splice

        def fields():
            return list(spec_call(ip, x691.sequence_of_header, n, False, 0, None)) + [Splice(('e', PRESENT + i)) for i in range(n)]

        def result(x):
            return [('the same components', isinstance(x, L) and len(x) == n and all(same_value(x[i], PRESENT + i) for i in range(n)))]

        def D(o=None):
            return decode_check(ip, c, sch if o is None else o, fields(), lambda x: result(x) + aliases(x, roots))
        ops = {'encode': lambda: encode_check(ip, c, v, fields()), 'decode': D, 'decode-into': lambda: D(v),
               'dict': lambda: seqof_dict_posts(n, dict_call(ip, v)), 'same': lambda: result(v)}
        return frame(ip, c, roots, ops[op], list(ops.items()))
    return f


# ------------------------------------------------------------------ simple types
def leaf_value(c, kind, shape):
    if kind == 'int':
        cons, ext, lb, ub, v, _ = leaf.int_setup(c, shape, 0)
        return IntObj(cons, v)
    if kind in ('bits', 'oct'):
        cons, ext, lb, ub, n, content, _ = leaf.str_setup(c, kind, shape, 0)
        return (BitsObj if kind == 'bits' else OctObj)(cons, content)
    if kind == 'enum':
        cons, ext, nr, na, k, i, _ = leaf.enum_setup(c, shape, 0)
        return EnumObj(cons, nr, na, EVal(k, i))
    c.witness['b'] = z3.Bool('b')
    c.witness['shape'] = ('bool',)
    return BoolObj(Cons(False, None, None), SBool(z3.Bool('b')))


def leaf_dict(kind, shape, mode='contract'):
    """to_dict of an arbitrary value"""
    def f(ip, c):
        o = leaf_value(c, kind, shape)
        c.witness['shape'] = ('dict',) + tuple(c.witness.get('shape', (kind,)))
        try:
            got = dict_call(ip, o)
        except PyExc as e:
            return [('no exception (%s: %s)' % (type(e.e).__name__, str(e.e)[:60]), False)]
        if kind == 'bool':
            return [('the truth value', z(got) == z(o.v) if isinstance(got, (bool, SBool)) else False)]
        if kind == 'int':
            return [('the number', z(got) == z(o.v) if isinstance(got, (int, SInt)) and not isinstance(got, bool) else False)]
        if kind == 'bits':
            if isinstance(got, SInt) and got.bits is not None and o.bits is not None:
                return [('the bits as a number', k) for k in pieces_equal(got.bits, o.bits)] or [('the bits as a number', True)]
            return [('the bits as a number', z(got) == z(intof(o.bits)) if isinstance(got, (int, SInt)) else False)]
        if kind == 'oct':
            if not isinstance(got, (str, SHex)):
                return [('hexadecimal digits', False)]
            p = as_pieces(engine.as_digits(got, SHex))
            return [('the octets in hexadecimal', k) for k in pieces_equal(p, o.bits)] or [('the octets in hexadecimal', True)]
        return [('the name of the item', isinstance(got, EItem) and got.of is o.v)]
    return f


def multi(fn, many, mode='contract'):
    def f(ip, c):
        i = c.choice(len(many))
        return globals()[fn](*many[i], mode=mode)(ip, c)
    return f
