"""Contracts on the library objects the codec works with (pyasn1 simple types), the proof driver, and helpers.

A stub stands for an *arbitrary* object of the real class: its class in /repo decides every attribute and method
defined in /repo (those are interpreted from source), the stub supplies only what pyasn1 supplies (assumed
contracts, validated against pyasn1 by contracts/assumed.py on every run).
"""
import sys
import time
import types
import z3

from spec import model, x691
from pyver import dom, engine
from pyver.dom import (Unsupported, PyExc, Infeasible, SInt, SBool, SStr, SHex, SBytes, SText, B, O, ctx, z, simp, mk_int,
                       mk_bool, lit, width, canon, split, intof, pieces_equal)
from pyver.engine import Interp, Stub, Method, Closure, interpretable, _MISSING, Splice, LoopFail
import asn1PERser
from asn1PERser.codec.per import encoder, decoder
from asn1PERser.classes.data import builtin
from pyasn1.error import PyAsn1Error
from pyasn1.type.error import ValueConstraintError

CODEC = ('asn1PERser.codec.per.encoder', 'asn1PERser.codec.per.decoder')


class Cons(Stub):
    """a constraint object: extension marker and effective bounds (None = no bound).  That the repository's constraint
    classes carry these values is C15's obligation."""
    def __init__(self, ext, lb, ub, real=None):
        self.a = {'extensionMarker': ext, 'lowerEndpoint': lb, 'upperEndpoint': ub}
        self.real = real

    def py_getattr(self, ip, name):
        if name in self.a:
            return self.a[name]
        if self.real is not None:
            r = class_attr(ip, self.real, name, self)
            if r is not _MISSING:
                return r
        if name.startswith('_') or self.real is not None and hasattr(self.real, name):
            raise Unsupported('constraint attribute %s' % name)
        raise PyExc(AttributeError(name))

    def py_truth(self, ip):
        raise Unsupported('truth of a constraint')

    def py_isinstance(self, ip, cls):
        if self.real is not None and isinstance(cls, type):
            return issubclass(self.real, cls)
        raise Unsupported('isinstance of a constraint')


def class_attr(ip, cls, name, o):
    """attribute `name` defined by a class of /repo for instance o, or _MISSING"""
    for b in cls.__mro__:
        if name in b.__dict__:
            if not ip.class_in_roots(b):
                return _MISSING
            d = b.__dict__[name]
            if isinstance(d, (types.FunctionType, Closure)):
                return types.MethodType(d, o)
            if isinstance(d, property):
                return ip.call(d.fget, [o])
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return types.MethodType(d.__func__, o.py_type(ip))
            return d
    return _MISSING


class Cls(Stub):
    """the (arbitrary) user class of a simple type: callable, checks its constraint like pyasn1 does"""
    def __init__(self, tmpl):
        self.tmpl = tmpl

    def py_getattr(self, ip, name):
        if name in ('__name__', '__qualname__'):
            return 'T'
        r = self.tmpl.cls_attr(ip, name)
        if r is not _MISSING:
            return r
        for b in self.tmpl.real.__mro__:
            if name in b.__dict__:
                d = b.__dict__[name]
                if ip.class_in_roots(b):
                    if isinstance(d, staticmethod):
                        return d.__func__
                    if isinstance(d, classmethod):
                        return types.MethodType(d.__func__, self)
                    return d
                raise Unsupported('class attribute %s' % name)
        raise PyExc(AttributeError(name))

    def py_call(self, ip, args, kw):
        return self.tmpl.construct(ip, args, kw)

    def py_isinstance(self, ip, t):
        return t is type or t is object

    def py_instancecheck(self, ip, o):
        return isinstance(o, type(self.tmpl)) and o.cons is self.tmpl.cons

    def py_eq(self, ip, o):
        return isinstance(o, Cls) and o.tmpl.cons is self.tmpl.cons


class Simple(Stub):
    real = None
    has_value = True
    bases = ()

    def __init__(self, cons):
        self.cons = cons

    # -- pyasn1 side
    def own(self, ip, name):
        return _MISSING

    def cls_attr(self, ip, name):
        if name == 'subtypeSpec':
            return self.cons
        return _MISSING

    def py_getattr(self, ip, name):
        if name == '__class__':
            return Cls(self)
        if name == 'subtypeSpec':
            return self.cons
        if name == 'isValue':
            return self.has_value
        if name == 'hasValue':
            return Method(lambda ip: self.has_value)
        if name == 'isSameTypeWith':
            raise Unsupported(name)
        if name == 'clone':
            return Method(lambda ip, *a, **k: self.construct(ip, a, k) if (a or k) else self)
        if name in ('_componentValues', '_componentValuesSet'):
            raise PyExc(AttributeError(name))
        r = self.own(ip, name)
        if r is not _MISSING:
            if not self.has_value and name.startswith('_value'):
                raise Unsupported('value of a schema object')
            return r
        r = class_attr(ip, self.real, name, self)
        if r is not _MISSING:
            return r
        if any(name in b.__dict__ for b in self.real.__mro__):
            raise Unsupported('pyasn1 attribute %s' % name)
        raise PyExc(AttributeError(name))

    def py_type(self, ip):
        return Cls(self)

    def py_isinstance(self, ip, cls):
        if isinstance(cls, Cls):
            return cls.tmpl.cons is self.cons
        return isinstance(cls, type) and issubclass(self.real, cls)

    def size_ok(self, n):
        """constraint check at construction (pyasn1 + the repository's constraint classes, C15)"""
        c = self.cons.a
        if c['extensionMarker']:
            return True
        lb, ub = c['lowerEndpoint'], c['upperEndpoint']
        conds = []
        if lb is not None:
            conds.append(z(n) >= z(lb))
        if ub is not None:
            conds.append(z(n) <= z(ub))
        return z3.And(conds) if conds else True

    def check(self, n):
        if not ctx().branch(self.size_ok(n)):
            raise PyExc(ValueConstraintError('constraint'))


class IntObj(Simple):
    real = builtin.IntegerType

    def __init__(self, cons, v=None):
        Simple.__init__(self, cons)
        self.v = v
        self.has_value = v is not None

    def own(self, ip, name):
        if name == '_value':
            return self.v
        return _MISSING

    def py_int(self, ip):
        if self.v is None:
            raise PyExc(PyAsn1Error('no value'))
        return self.v

    def py_truth(self, ip):
        return mk_bool(z(self.v) != 0)

    def py_eq(self, ip, o):
        if isinstance(o, IntObj):
            return mk_bool(z(self.v) == z(o.v))
        return mk_bool(z(self.v) == z(o)) if isinstance(o, (int, SInt)) else False

    def construct(self, ip, a, k):
        v = a[0] if a else k.get('value')
        if isinstance(v, IntObj):
            v = v.v
        if isinstance(v, (bool, SBool)):
            v = mk_int(z(v))
        if v is None and not a:
            return IntObj(self.cons)
        if not isinstance(v, (int, SInt)):
            raise Unsupported('INTEGER from %r' % type(v).__name__)
        self.check(v)
        return IntObj(self.cons, v)


class BoolObj(Simple):
    real = builtin.BooleanType

    def __init__(self, cons, v=None):
        Simple.__init__(self, cons)
        self.v = v
        self.has_value = v is not None

    def own(self, ip, name):
        if name == '_value':
            return mk_int(z(self.v))
        return _MISSING

    def py_int(self, ip):
        return mk_int(z(self.v))

    def py_truth(self, ip):
        return self.v if isinstance(self.v, SBool) else bool(self.v)

    def py_eq(self, ip, o):
        return ip.eq(self.v, o.v if isinstance(o, BoolObj) else o)

    def construct(self, ip, a, k):
        v = a[0] if a else k.get('value')
        if isinstance(v, (bool, SBool)):
            return BoolObj(self.cons, v)
        if isinstance(v, (int, SInt)):
            # pyasn1: BOOLEAN accepts exactly 0 and 1
            if not ctx().branch(z3.Or(z(v) == 0, z(v) == 1)):
                raise PyExc(ValueConstraintError('boolean'))
            return BoolObj(self.cons, mk_bool(z(v) == 1))
        raise Unsupported('BOOLEAN from %r' % type(v).__name__)


class EVal(Stub):
    """value number of an enumeration item, known by its position: kind 'root' (index in ascending order of numbers)
    or 'add' (index in textual order)"""
    def __init__(self, kind, idx):
        self.kind, self.idx = kind, idx

    def py_eq(self, ip, o):
        if isinstance(o, EVal):
            return o.kind == self.kind and ip.eq(self.idx, o.idx)
        raise Unsupported('enumeration number compared with a constant')

    def py_isinstance(self, ip, t):
        return isinstance(t, type) and issubclass(int, t)

    def py_int(self, ip):
        return self               # still the number of an item: nothing is known about it but its position


class EItem(Stub):
    """name of an enumeration item"""
    def __init__(self, of):
        self.of = of

    def py_str(self, ip):
        return self


class EVals(Stub):
    """list of value numbers of a NamedValues (order: 'asc' = ascending numbers, 'text' = textual, 'any')"""
    def __init__(self, owner, kind, order):
        self.owner, self.kind, self.order = owner, kind, order

    def n(self):
        o = self.owner
        return {'root': o.n_root, 'add': o.n_add, 'all': mk_int(z(o.n_root) + z(o.n_add))}[self.kind]

    def py_len(self, ip):
        return self.n()

    def py_truth(self, ip):
        return mk_bool(z(self.n()) > 0)

    def py_list(self, ip):
        return self

    def py_sorted(self, ip, **kw):
        if kw:
            raise Unsupported('sorted with key')
        if self.kind == 'all' and not ctx().entails(z(self.owner.n_add) == 0):
            raise Unsupported('sorted over root and additions')
        # sorting additions: X.680 requires ascending numbers in additions, so textual order is ascending order
        return EVals(self.owner, self.kind, 'asc')

    def py_contains(self, ip, x):
        if not isinstance(x, EVal):
            raise Unsupported('membership')
        if self.kind == 'all':
            return True
        return x.kind == self.kind

    def pos_ok(self):
        """positions in this list are the indices of EVal"""
        if self.kind == 'add':
            return True
        if self.kind == 'all' and not ctx().entails(z(self.owner.n_add) == 0):
            return False
        return self.order == 'asc'

    def py_getattr(self, ip, name):
        if name == 'index':
            return Method(self.index)
        if name == 'sort':
            def srt(ip, **kw):
                if kw:
                    raise Unsupported('sort with key')
                self.order = 'asc'
            return Method(srt)
        raise Unsupported('list.%s' % name)

    def index(self, ip, x):
        if not isinstance(x, EVal):
            raise Unsupported('index')
        if not self.py_contains(ip, x):
            raise PyExc(ValueError('not in list'))
        if not self.pos_ok():
            return self.owner.perm(self, x)
        return x.idx

    def py_getitem(self, ip, k):
        if isinstance(k, slice):
            raise Unsupported('slice')
        c = ctx()
        n = self.n()
        if not c.branch(z3.And(z(k) >= -z(n), z(k) < z(n))):
            raise PyExc(IndexError('list index out of range'))
        if c.branch(z(k) < 0):
            k = mk_int(z(k) + z(n))
        if not self.pos_ok():
            return self.owner.unperm(self, k)
        kind = 'root' if self.kind == 'all' else self.kind
        return EVal(kind, k)

    def py_iter(self, ip):
        raise Unsupported('iteration over enumeration items')


class EName(Stub):
    """NamedValues"""
    def __init__(self, owner, kind):
        self.owner, self.kind = owner, kind

    def py_getattr(self, ip, name):
        if name == 'values':
            return Method(lambda ip: EVals(self.owner, self.kind, 'text'))
        if name in ('keys', 'items'):
            raise Unsupported('NamedValues.%s' % name)
        raise Unsupported('NamedValues.%s' % name)

    def py_len(self, ip):
        return EVals(self.owner, self.kind, 'text').n()

    def py_truth(self, ip):
        return mk_bool(z(self.py_len(ip)) > 0)

    def py_list(self, ip):
        return EVals(self.owner, self.kind, 'text')       # names; only their number is used

    def py_getitem(self, ip, k):
        if not isinstance(k, EVal):
            raise Unsupported('NamedValues index')
        if self.kind not in ('all', k.kind):
            raise PyExc(KeyError('item'))
        return EItem(k)           # number -> name

    def py_contains(self, ip, x):
        if isinstance(x, EVal):
            return self.kind in ('all', x.kind)
        raise Unsupported('membership in NamedValues')

    def py_iter(self, ip):
        raise Unsupported('iteration over NamedValues')

    def py_binop(self, ip, t, o):
        import ast
        if t is ast.Add and isinstance(o, EName) and self.kind == 'root' and o.kind == 'add':
            return EName(self.owner, 'all')
        raise Unsupported('NamedValues operator')


class EnumObj(Simple):
    """ENUMERATED with n_root root items and n_add additions (both arbitrary); value = an item"""
    real = builtin.EnumeratedType

    def __init__(self, cons, n_root, n_add, v=None):
        Simple.__init__(self, cons)
        self.n_root, self.n_add, self.v = n_root, n_add, v
        self.has_value = v is not None
        self.perms = {}

    def own(self, ip, name):
        if name == '_value':
            return self.v
        return self.cls_attr(ip, name)

    def py_int(self, ip):
        if self.v is None:
            raise PyExc(PyAsn1Error('no value'))
        return self.v

    def cls_attr(self, ip, name):
        if name == 'subtypeSpec':
            return self.cons
        if name == 'namedValues':
            return EName(self, 'all')
        if name == 'enumerationRoot':
            return EName(self, 'root')
        if name == 'extensionAddition':
            if ctx().branch(z(self.n_add) == 0):
                return None
            return EName(self, 'add')
        return _MISSING

    def perm(self, lst, x):
        """textual position of the item with ascending index x.idx: an arbitrary number in range"""
        c = ctx()
        key = ('t', lst.kind, str(simp(z(x.idx))), x.kind)
        if key not in self.perms:
            v = c.fresh('textpos', True)
            c.assume(v < z(lst.n()))
            self.perms[key] = v
        c.notes.append('enum-textual-order')
        return SInt(self.perms[key])

    def unperm(self, lst, k):
        c = ctx()
        c.notes.append('enum-textual-order')
        if lst.kind == 'all':
            root = c.fresh('isroot', True)
            v = c.fresh('ascidx', True)
            if c.branch(root == 0):
                c.assume(v < z(self.n_root))
                return EVal('root', SInt(v))
            c.assume(v < z(self.n_add))
            return EVal('add', SInt(v))
        v = c.fresh('ascidx', True)
        c.assume(v < z(self.n_root))
        return EVal('root', SInt(v))

    def construct(self, ip, a, k):
        if not a and not k:
            return EnumObj(self.cons, self.n_root, self.n_add)
        v = a[0] if a else k.get('value')
        if isinstance(v, EnumObj):
            v = v.v
        if not isinstance(v, EVal):
            raise Unsupported('ENUMERATED from a number')
        return EnumObj(self.cons, self.n_root, self.n_add, v)


class BitsObj(Simple):
    real = builtin.BitStringType

    def __init__(self, cons, bits=None):
        Simple.__init__(self, cons)
        self.bits = bits                     # tuple of pieces
        self.has_value = bits is not None

    def n(self):
        return mk_int(z(width(self.bits)))

    def own(self, ip, name):
        if name == 'asBinary':
            return Method(self.as_binary)
        if name == '_value':
            return BitVal(self)
        if name == 'asInteger':
            return Method(lambda ip: intof(self.bits))
        if name == 'namedValues':
            return {}
        if name in ('__len__',):
            return Method(lambda ip: self.n())
        return _MISSING

    def cls_attr(self, ip, name):
        if name == 'subtypeSpec':
            return self.cons
        if name == 'namedValues':
            return {}
        if name == 'fromBinaryString':
            return Method(lambda ip, s, *a, **k: BitVal(self.construct(ip, [s], {})))
        return _MISSING

    def as_binary(self, ip):
        # pyasn1: bin(value)[2:] left-padded to the length; '0' for the empty string
        if ctx().branch(z(self.n()) == 0):
            return '0'
        return engine.str_norm(SStr(self.bits))

    def py_len(self, ip):
        return self.n()

    def py_truth(self, ip):
        return mk_bool(z(self.n()) != 0)

    def py_getitem(self, ip, k):
        s = engine.str_getitem(SStr(self.bits), k)
        if isinstance(k, slice):
            return BitsObj(self.cons, SStr(self.bits).p) if False else self.sub(s)
        return engine.ip_int(ip, s, 2)

    def sub(self, s):
        raise Unsupported('slice of BIT STRING')

    def py_iter(self, ip):
        return (engine.ip_int(ip, x, 2) for x in ip.iterate(SStr(self.bits)))

    def py_int(self, ip):
        return intof(self.bits)

    def py_join(self, ip, sep):
        raise Unsupported('join')

    def construct(self, ip, a, k):
        if not a and not k:
            return BitsObj(self.cons)
        if a and isinstance(a[0], (SStr, str)) and not isinstance(a[0], (SHex, SBytes)):
            # pyasn1: a text of binary digits denotes those bits
            s = a[0]
        elif not a and set(k) == {'binValue'}:
            s = k['binValue']
        elif a and isinstance(a[0], BitVal):
            s = SStr(a[0].o.bits)
        elif a and isinstance(a[0], BitsObj):
            s = SStr(a[0].bits)
        elif not a and set(k) == {'hexValue'} and isinstance(k['hexValue'], SHex):
            s = SStr(k['hexValue'].p)
        else:
            raise Unsupported('BIT STRING from %r' % (type(a[0]).__name__ if a else list(k),))
        if isinstance(s, str):
            if not set(s) <= {'0', '1'}:
                raise Unsupported('BIT STRING from text %r' % s)
            p = lit(s)
        else:
            s = engine.resolve_strip(s) if s.strip else s
            p = s.p
        p = tuple(p)
        self.check(mk_int(z(width(p))))
        return BitsObj(self.cons, p)


class BitVal(Stub):
    """pyasn1's SizedInteger"""
    def __init__(self, o):
        self.o = o

    def py_len(self, ip):
        return self.o.n()

    def py_int(self, ip):
        return intof(self.o.bits)

    def py_truth(self, ip):
        return mk_bool(z(intof(self.o.bits)) != 0)


class OctObj(Simple):
    real = builtin.OctetStringType

    def __init__(self, cons, bits=None):
        Simple.__init__(self, cons)
        self.bits = bits
        self.has_value = bits is not None

    def n(self):
        return mk_int(z(dom.div(z(width(self.bits)), 8)))

    def own(self, ip, name):
        if name == 'asNumbers':
            return Method(lambda ip: Numbers(self.bits))
        if name == 'asOctets':
            return Method(lambda ip: SBytes(self.bits))
        if name == '_value':
            return SBytes(self.bits)
        if name == '__len__':
            return Method(lambda ip: self.n())
        if name in ('fromHexString', 'fromBinaryString'):
            return self.cls_attr(ip, name)
        return _MISSING

    def cls_attr(self, ip, name):
        if name == 'subtypeSpec':
            return self.cons
        if name == 'fromHexString':
            def f(ip, s):
                if isinstance(s, str):
                    try:
                        if len(s) % 2:
                            s += '0'
                        b = bytes.fromhex(s)
                    except ValueError as e:
                        raise PyExc(e)
                    return b
                if isinstance(s, SHex):
                    s = engine.resolve_strip(s)
                    # pyasn1 pads an odd number of digits on the right
                    if not ctx().branch(z(width(s.p)) % 8 == 0):
                        return SBytes(tuple(s.p) + (B(0, 4),))
                    return SBytes(s.p)
                raise Unsupported('fromHexString(%s)' % type(s).__name__)
            return Method(f)
        if name == 'fromBinaryString':
            def g(ip, s):
                s = engine.as_digits(s)
                s = engine.resolve_strip(s)
                if not ctx().branch(z(width(s.p)) % 8 == 0):
                    raise Unsupported('fromBinaryString padding')
                return SBytes(s.p)
            return Method(g)
        return _MISSING

    def py_len(self, ip):
        return self.n()

    def py_truth(self, ip):
        return mk_bool(z(self.n()) != 0)

    def py_bytes(self, ip):
        return SBytes(self.bits)

    def py_iter(self, ip):
        return ip.iterate(SBytes(self.bits))

    def py_loop(self, ip, node, fr):
        return Numbers(self.bits).py_loop(ip, node, fr)

    def py_getitem(self, ip, k):
        return engine.str_getitem(SBytes(self.bits), k)

    def construct(self, ip, a, k):
        if not a and not k:
            return OctObj(self.cons)
        v = a[0] if a else None
        if v is None and set(k) == {'hexValue'}:
            v = self.cls_attr(ip, 'fromHexString').f(ip, k['hexValue'])
        elif v is None and set(k) == {'binValue'}:
            v = self.cls_attr(ip, 'fromBinaryString').f(ip, k['binValue'])
        if isinstance(v, OctObj):
            v = SBytes(v.bits)
        if isinstance(v, str) and v == '':
            v = b''
        if isinstance(v, bytes):
            p = (B(int.from_bytes(v, 'big'), 8 * len(v)),) if v else ()
        elif isinstance(v, SBytes):
            p = tuple(v.p)
        else:
            raise Unsupported('OCTET STRING from %r' % type(v).__name__)
        self.check(mk_int(z(dom.div(z(width(p)), 8))))
        return OctObj(self.cons, p)


class Numbers(Stub):
    """tuple of the octets of a string of arbitrary length.  Iterating over it is handled by the map-fold rule: a loop
    (or join/comprehension) that appends the same function of each octet is summarised when that function's text is
    the 8 digits (or 2 hex digits) of the octet, which is proved for an arbitrary octet."""
    def __init__(self, bits):
        self.bits = bits

    def py_len(self, ip):
        return mk_int(z(dom.div(z(width(self.bits)), 8)))

    def py_truth(self, ip):
        return mk_bool(z(width(self.bits)) > 0)

    def py_iter(self, ip):
        return ip.iterate(SBytes(self.bits))

    def py_getitem(self, ip, k):
        return engine.str_getitem(SBytes(self.bits), k)

    def py_isinstance(self, ip, t):
        return isinstance(t, type) and issubclass(tuple, t)

    def py_list(self, ip):
        return self

    def py_map(self, ip, body):
        """[body(x) for x in self] as the digits of every octet"""
        x = octet()
        r = body(x)
        k = digit_kind(ip, r, x)
        return MappedOctets(self.bits, k)

    def py_loop(self, ip, node, fr):
        import ast
        # find the accumulator: exactly one name is updated from its old value, everything else is set before used
        assigned = sorted({m.id for s in node.body for m in ast.walk(s) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
        if node.orelse or not assigned:
            return False
        for s in node.body:
            for m in ast.walk(s):
                if isinstance(m, (ast.Break, ast.Return, ast.Yield)):
                    return False
        acc = [n for n in assigned if n in fr.vars and isinstance(fr.vars[n], (str, SStr))]
        lists = sorted({m.func.value.id for s in node.body for m in ast.walk(s) if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute)
                        and isinstance(m.func.value, ast.Name) and m.func.attr == 'append'})
        c = ctx()
        if len(lists) == 1 and not [a for a in acc] and isinstance(fr.vars.get(lists[0]), list) and fr.vars[lists[0]] == []:
            probe = []
            old = fr.vars[lists[0]]
            fr.vars[lists[0]] = probe
            x = octet()
            ip.assign(node.target, x, fr)
            ip.block(node.body, fr)
            if len(probe) != 1:
                raise Unsupported('loop over octets')
            k = digit_kind(ip, probe[0], x)
            fr.vars[lists[0]] = MappedOctets(self.bits, k)
            return True
        if len(acc) != 1 or lists:
            return False
        a = acc[0]
        before = fr.vars[a]
        # one arbitrary iteration from an arbitrary accumulator: acc' = acc + g(octet)
        m = O('acc!%d' % c.n, 0, c.fresh('accw', True))
        fr.vars[a] = SStr((m,))
        x = octet()
        ip.assign(node.target, x, fr)
        from pyver.engine import Continue
        try:
            ip.block(node.body, fr)
        except Continue:
            pass
        after = fr.vars[a]
        if not isinstance(after, SStr) or not after.p or not isinstance(after.p[0], O) or after.p[0].id != m.id or \
                not (after.p[0].w is m.w or c.entails(z(after.p[0].w) == z(m.w))):
            raise Unsupported('accumulator loop over octets')
        rest = after.p[1:]
        k = digit_kind(ip, type(after)(rest), x)
        if k == 8:
            fr.vars[a] = engine.str_add(before, SStr(self.bits)) if not (isinstance(before, str) and before == '') else SStr(self.bits)
        else:
            fr.vars[a] = SHex(self.bits)
        for n in assigned:
            if n != a:
                fr.vars.pop(n, None)
        return True


def octet():
    c = ctx()
    x = c.fresh('octet', True)
    c.assume(x < 256)
    c.octets = getattr(c, 'octets', []) + [x]
    return SInt(x)


def digit_kind(ip, r, x):
    """8 if r is the 8 binary digits of octet x, 2 if its 2 hex digits; a definite difference is a failed obligation"""
    c = ctx()
    if isinstance(r, SHex):
        r = engine.resolve_strip(r)
        if c.entails(z3.And(z(width(r.p)) == 8, z(intof(r.p)) == x.t)):
            return 2
        raise LoopFail('the hex digits appended for one octet are not its two digits')
    if isinstance(r, (SStr,)) and not isinstance(r, SBytes):
        r = engine.resolve_strip(r)
        if c.entails(z(width(r.p)) == 8):
            if c.entails(z(intof(r.p)) == x.t):
                return 8
        raise LoopFail('the digits appended for one octet are not its eight bits')
    raise Unsupported('function of an octet')


engine.OCTETS = Numbers


class MappedOctets(Stub):
    def __init__(self, bits, kind):
        self.bits, self.kind = bits, kind

    def py_join(self, ip, sep):
        if sep != '':
            raise Unsupported('join with separator')
        return engine.str_norm((SStr if self.kind == 8 else SHex)(self.bits))

    def py_list(self, ip):
        return self

    def py_len(self, ip):
        return mk_int(z(dom.div(z(width(self.bits)), 8)))

    def py_iter(self, ip):
        raise Unsupported('iteration over mapped octets')


# ------------------------------------------------------------------ harness objects
class HarnessEnc(Stub):
    """asn1Spec given to encode(): p arbitrary bits, then the object under proof"""
    def __init__(self, p, o):
        self.p, self.o = p, o

    def py_getattr(self, ip, name):
        if name == 'fill_field_list':
            return Method(self.fill)
        if name == '__class__':
            return Cls(self)
        raise Unsupported('attribute %s of the top-level value' % name)

    real = object

    def cls_attr(self, ip, name):
        return _MISSING

    def fill(self, ip, field_list):
        f = ip.call(encoder.bit_field, [], {'octet_align': False, 'value': engine.str_norm(SStr((O('pre', 0, self.p),)))})
        ip.call(ip.getattr(field_list, 'append'), [f])
        return ip.call(ip.getattr(self.o, 'fill_field_list'), [field_list])


class HarnessDec(Stub):
    """asn1Spec given to decode(): skips p bits, decodes the object, then takes q more bits"""
    real = object

    def __init__(self, p, o, q=None):
        self.p, self.o, self.q = p, o, q

    def cls_attr(self, ip, name):
        return _MISSING

    def py_getattr(self, ip, name):
        if name == 'create_field_list':
            return Method(self.create)
        if name == '__class__':
            return Cls(self)
        raise Unsupported('attribute %s of the top-level schema' % name)

    def take(self, ip, pb, n, octets=0):
        size = ip.call(encoder.bit_field_size, [], {'octets': octets, 'bits': mk_int(z(n))})
        return ip.call(ip.getattr(pb, 'next'), [size])

    def create(self, ip, pb):
        a, r = self.p
        self.take(ip, pb, r, a)
        r = ip.call(ip.getattr(self.o, 'create_field_list'), [pb])
        rest = self.take(ip, pb, self.q) if self.q is not None else None
        return (r, rest)


class Beyond(Unsupported):
    """the code uses PerBytes in a way its contract does not cover: the job is repeated with the source of PerBytes"""
    def __init__(self, what):
        Unsupported.__init__(self, 'PerBytes contract: ' + what)


class PB(Stub):
    """PerBytes by its contract (proved from its source by the cursor lemmas, contracts/framing.py): the state is a bit
    position; next(size, octet_align) moves to the next octet boundary when asked, returns exactly the bits of the
    given size from there as a number (0 for size 0) and moves behind them, and raises when they are not all there."""
    real = decoder.PerBytes if hasattr(decoder, 'PerBytes') else None

    def __init__(self, stream, pos):
        import inspect
        try:
            sig = [(q.name, q.default) for q in inspect.signature(self.real.next).parameters.values()]
        except Exception:
            raise Beyond('PerBytes.next')
        if [n for n, _ in sig] != ['self', 'size', 'octet_align'] or sig[1][1] != (1, 0) or sig[2][1] is not False:
            raise Beyond('PerBytes.next has another signature')
        self.rest, self.pos = tuple(stream), simp(z(pos))

    def py_getattr(self, ip, name):
        if name == 'next':
            return Method(self.next)
        raise Beyond('attribute %s of PerBytes' % name)

    def py_truth(self, ip):
        raise Beyond('truth of PerBytes')

    def py_len(self, ip):
        raise Beyond('len of PerBytes')

    def py_getitem(self, ip, k):
        raise Beyond('item of PerBytes')

    def py_isinstance(self, ip, cls):
        return isinstance(cls, type) and issubclass(self.real, cls)

    def next(self, ip, size=(1, 0), octet_align=False):
        c = ctx()
        try:
            o, b = size[0], size[1]
        except Exception:
            raise Beyond('size %r' % (size,))
        for x in (o, b):
            if not isinstance(x, (int, SInt)):
                raise Beyond('size')
            if not c.entails(z(x) >= 0):
                raise Beyond('size may be negative')
        if ip.truth(octet_align):
            self.move(simp((-z(self.pos)) % 8))
        w = simp(8 * z(o) + z(b))
        if isinstance(w, int) and w == 0:
            return 0
        if not isinstance(w, int) and c.entails(w == 0):
            return 0
        have = simp(z(width(self.rest)))
        if not c.branch(z(w) <= z(have)):
            raise PyExc(getattr(decoder, 'PerDecodingException', ValueError)('bits missing'))
        got, rest = split(self.rest, w)
        if any(isinstance(x, O) and isinstance(x.id, tuple) and x.id[0] == 'open' for x in got):
            raise Beyond('an open type is read in another way than by its functions')
        self.rest, self.pos = tuple(rest), simp(z(self.pos) + z(w))
        return intof(canon(tuple(got)))

    def move(self, n):
        if isinstance(n, int) and n == 0:
            return
        c = ctx()
        if not c.branch(z(n) <= z(width(self.rest))):
            self.rest = ()
        else:
            self.rest = tuple(split(self.rest, n)[1])
        self.pos = simp(z(self.pos) + z(n))


def spec_call(ip, f, *args):
    """value of a spec function, or None when the spec says the value must be refused"""
    try:
        return ip.call(f, list(args))
    except PyExc as e:
        if isinstance(e.e, x691.Unsupported):
            return None
        raise Unsupported('spec raised %r' % e.e)


def as_pieces(s):
    if isinstance(s, str):
        return lit(s)
    if isinstance(s, bytes):
        return (B(int.from_bytes(s, 'big'), 8 * len(s)),) if s else ()
    if isinstance(s, SStr):
        return engine.resolve_strip(s).p
    raise Unsupported('not a digit string: %s' % type(s).__name__)


# ------------------------------------------------------------------ proof driver
class Result(object):
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.paths = 0
        self.failures = []       # dicts: label, model, witness
        self.undecided = []      # text
        self.stats = {}
        self.functions = set()
        self.notes = set()
        self.wall = 0.0

    def add(self, o):
        self.obligations += o.obligations
        self.discharged += o.discharged
        self.paths += o.paths
        self.failures += o.failures
        self.undecided += o.undecided
        self.functions |= o.functions
        self.notes |= o.notes
        self.wall += o.wall
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v

    @property
    def proved(self):
        return self.obligations > 0 and self.obligations == self.discharged and not self.undecided


_guard = []


def guard():
    from pyver.frame import Guard
    if not _guard:
        _guard.append(Guard(engine.REPO))
    return _guard[0]


def prove(name, fn, contracts=None, max_paths=3000, budget=120.0, timeout=8000, max_fail=6):
    """fn(ip, c) -> list of (label, condition); every path of the real code gives one obligation per condition"""
    res = Result(name)
    t0 = time.time()
    ipbox = []
    g = guard()
    g.changed()

    def run(c):
        c.witness = {}
        ip = Interp(contracts=contracts)
        ipbox[:] = [ip]
        try:
            return fn(ip, c)
        except LoopFail as e:
            return [('loop: %s' % e, None)]
    for c, r in engine.explore(run, res.stats, max_paths, t0 + budget, timeout):
        res.paths += 1
        if ipbox:
            res.functions |= {q for q in ipbox[0].called if q.startswith('asn1PERser')}
        res.notes |= set(c.notes)
        ch = g.changed()
        if ch and not any('persistent state' in u for u in res.undecided):
            res.undecided.append('the call changes persistent state: %s' % ', '.join(ch)[:200])
        if r[0] == 'unsup':
            res.undecided.append(r[1])
            if len(res.undecided) > 20:
                break
            continue
        if r[0] == 'exc':
            conds = [('no exception (%s: %s)' % (type(r[1]).__name__, str(r[1])[:80]), False)]
        else:
            conds = r[1]
        for label, cond in conds:
            res.obligations += 1
            if cond is None:
                res.undecided.append(label)
                res.failures.append({'label': label, 'model': None, 'witness': c.witness, 'soft': True})
                continue
            if isinstance(cond, SBool):
                cond = cond.t
            if isinstance(cond, bool):
                if cond:
                    res.discharged += 1
                    continue
                k = c._chk()
            else:
                k = c._chk(z3.Not(cond))
                if k == z3.unsat:
                    res.discharged += 1
                    continue
            if k == z3.unsat:
                res.discharged += 1
            elif k == z3.sat:
                m = c.last
                w = {}
                for n, t in c.witness.items():
                    w[n] = concretise(m, t)
                res.failures.append({'label': label, 'witness': w, 'model': str(m)[:1500], 'soft': bool(c.notes)})
            else:
                res.undecided.append('solver: unknown for %s' % label)
        if len(res.failures) >= max_fail:
            res.undecided.append('stopped after %d failures' % len(res.failures)) if False else None
            break
    res.wall = time.time() - t0
    return res


def concretise(m, t):
    if isinstance(t, (SInt, SBool)):
        t = t.t
    if not z3.is_expr(t):
        return t
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
