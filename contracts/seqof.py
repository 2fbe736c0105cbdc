"""C09: SEQUENCE OF with an arbitrary number of arbitrary elements.

An element is known by its contract only (composite.py).  The element loops are handled by induction: the loop body is
executed once for an arbitrary element from an arbitrary state reached so far and must add exactly that element; then the
loop as a whole adds all n elements, for any n.
"""
import ast

from .base import *
from .leaf import sym
from .composite import encode_check, CONTRACTS, contracts, place
from pyver.engine import Splice, _MISSING, Continue, SRange


class Token(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


ALL = Token('elements')


class Elem(Stub):
    """an arbitrary element value"""
    def __init__(self, key):
        self.key = key

    def py_getattr(self, ip, name):
        if name == 'fill_field_list':
            return Method(lambda ip, fl: ip.call(ip.getattr(fl, 'append'), [Splice(self.key)]))
        if name == 'isValue':
            return True
        if name == '__class__':
            return ElemCls()
        raise Unsupported('attribute %s of an element' % name)


class ElemCls(Stub):
    def py_getattr(self, ip, name):
        if name in ('__name__', '__qualname__'):
            return 'E'
        raise Unsupported('attribute %s of the element class' % name)


class ElemType(Stub):
    """the element type: create_field_list reads exactly the element that stands at the cursor"""
    def py_getattr(self, ip, name):
        if name == 'create_field_list':
            return Method(self.create)
        if name == '__class__':
            return ElemCls()
        raise Unsupported('attribute %s of the element type' % name)

    def create(self, ip, pb):
        c = ctx()
        if not isinstance(pb, PB):
            raise Unsupported('element read outside the loop rule')
        if not pb.rest or not isinstance(pb.rest[0], O) or pb.rest[0].id != ('E', 'i'):
            raise ReadFail('an element is read at a wrong position')
        x = pb.rest[0]
        if getattr(c, 'truncated', False):
            raise PyExc(decoder.PerDecodingException('element not complete'))
        if not c.entails(z(x.off) == 0):
            raise ReadFail('an element is read at a wrong position')
        pb.rest, pb.pos = pb.rest[1:], simp(z(pb.pos) + z(x.w))
        return Elem(('E', 'i'))


class ReadFail(Exception):
    pass


class SeqOfCls(Stub):
    def __init__(self, o):
        self.o = o

    def py_getattr(self, ip, name):
        if name in ('__name__', '__qualname__'):
            return 'T'
        if name == 'subtypeSpec':
            return self.o.cons
        if name == 'componentType':
            return ElemType()
        raise Unsupported('class attribute %s of SEQUENCE OF' % name)

    def py_call(self, ip, args, kw):
        if args or kw:
            raise Unsupported('constructing SEQUENCE OF with arguments')
        return SeqOfObj(self.o.cons, [], None)


class SeqOfObj(Stub):
    """contract of pyasn1's SEQUENCE OF: a list of elements"""
    real = builtin.SequenceOfType

    def __init__(self, cons, items, n):
        self.cons, self.items, self.n = cons, items, n
        self.cleared = False
        c = ctx()
        c.seqofs = getattr(c, 'seqofs', []) + [self]

    def py_getattr(self, ip, name):
        if name == '__class__':
            return SeqOfCls(self)
        if name == 'subtypeSpec':
            return self.cons
        if name == 'componentType':
            return ElemType()
        if name == 'getComponentType':
            return Method(lambda ip: ElemType())
        if name == 'clear':
            return Method(self.clear)
        if name in ('extend', 'append'):
            return Method(getattr(self, name))
        if name == 'isValue':
            return self.n is not None
        r = class_attr(ip, self.real, name, self)
        if r is not _MISSING:
            return r
        if any(name in b.__dict__ for b in self.real.__mro__):
            raise Unsupported('pyasn1 attribute %s' % name)
        raise PyExc(AttributeError(name))

    def clear(self, ip):
        self.items = []
        self.cleared = True
        return self

    def append(self, ip, x):
        self.items = self.items + [x]
        self.cleared = True

    def extend(self, ip, xs):
        self.cleared = True
        if isinstance(xs, (list, tuple)):
            self.items = self.items + list(xs)
            return
        raise Unsupported('extend with %s' % type(xs).__name__)

    def py_isinstance(self, ip, cls):
        return isinstance(cls, type) and issubclass(self.real, cls)

    def py_type(self, ip):
        return SeqOfCls(self)

    def py_len(self, ip):
        if self.n is None:
            raise Unsupported('length of a SEQUENCE OF under construction')
        return self.n

    def py_truth(self, ip):
        return mk_bool(z(self.py_len(ip)) > 0)

    def py_loop(self, ip, node, fr):
        if self.n is None:
            return False
        element_loop(ip, node, fr, Elem(('E', 'i')), self.n, Splice(('elements', 1)), Splice(('E', 'i')))
        return True


def same_item(a, b):
    if isinstance(a, Splice) and isinstance(b, Splice):
        return a.key == b.key
    if isinstance(a, Elem) and isinstance(b, Elem):
        return a.key == b.key
    return a is b


def element_loop(ip, node, fr, item, n, token, one, pb=None):
    """one arbitrary iteration must append `one` to exactly one accumulator; then the loop appends `token`"""
    c = ctx()
    if node.orelse:
        raise Unsupported('loop with else')
    for b in node.body:
        for m in ast.walk(b):
            if isinstance(m, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)):
                raise Unsupported('element loop with an exit')
    assigned = {m.id for b in node.body for m in ast.walk(b) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
    assigned |= {m.id for m in ast.walk(node.target) if isinstance(m, ast.Name)}
    before = dict(fr.vars)
    lists = {k: list(v) for k, v in before.items() if isinstance(v, list)}
    objs = [(o, list(o.items)) for o in getattr(c, 'seqofs', [])]
    ints = {k: before[k] for k in assigned if k in before}
    for k, v in ints.items():
        if not isinstance(v, (int, SInt)) or isinstance(v, bool):
            if any(isinstance(m, ast.Name) and m.id == k for m in ast.walk(node.target)):
                continue
            raise Unsupported('element loop changes %s' % k)
        fr.vars[k] = SInt(c.fresh('i_' + k))
    start = {k: fr.vars[k] for k in ints}
    ip.assign(node.target, item, fr)
    try:
        ip.block(node.body, fr)
    except Continue:
        pass
    changed = 0
    for k, old in lists.items():
        v = fr.vars.get(k)
        if v is not before[k]:
            raise Unsupported('element loop rebinds %s' % k)
        if len(v) == len(old):
            continue
        if len(v) != len(old) + 1 or not same_item(v[-1], one):
            raise ReadFail('the loop body does not add exactly its element')
        v[-1:] = [token]
        changed += 1
    for o, old in objs:
        if len(o.items) == len(old):
            continue
        if len(o.items) != len(old) + 1 or not same_item(o.items[-1], one):
            raise ReadFail('the loop body does not add exactly its element')
        o.items = old + [token]
        changed += 1
    if changed != 1:
        raise ReadFail('the loop body does not add exactly its element')
    for k in ints:
        d = simp(z(fr.vars[k]) - z(start[k]))
        if not isinstance(d, int):
            raise Unsupported('element loop counter %s' % k)
        fr.vars[k] = mk_int(z(ints[k]) + d * z(n))
    for k in assigned:
        if k not in ints:
            fr.vars.pop(k, None)


def range_loop(ip, rng, node, fr):
    """decode loop: for _ in range(n)"""
    c = ctx()
    pb = getattr(c, 'pb', None)
    if pb is None:
        return False
    if not any(isinstance(m, ast.Attribute) and m.attr == 'create_field_list' for b in node.body for m in ast.walk(b)):
        return False
    if getattr(c, 'truncated', False):
        # the first element that is not complete: the loop must end with its exception
        pb.rest = (Splice(('E', 'i')).piece(c.fresh('P', True)),)
        ip.assign(node.target, SInt(c.fresh('i', True)), fr)
        try:
            ip.block(node.body, fr)
        except Continue:
            pass
        raise ReadFail('an element that is not complete is accepted')
    count = simp(z3.If(z(rng.b) > z(rng.a), z(rng.b) - z(rng.a), 0))
    n = c.n_elems
    if not c.branch(z(count) == z(n)):
        raise ReadFail('the number of elements read is not the number encoded')
    if not pb.rest or not isinstance(pb.rest[0], O) or pb.rest[0].id != ('elements', 1) or not c.entails(z(pb.rest[0].off) == 0):
        if c.entails(z(n) == 0):
            return True
        raise ReadFail('the elements are not read right behind the count')
    rest, pos = pb.rest, pb.pos
    P = c.fresh('P', True)
    e = Splice(('E', 'i')).piece(P)
    after = O('after', 0, c.fresh('after', True))
    pb.rest, pb.pos = (e, after), P
    i = c.fresh('i', True)
    c.assume(z3.And(i >= z(rng.a), i < z(rng.b)))
    element_loop(ip, node, fr, SInt(i), n, ALL, Elem(('E', 'i')), pb)
    if len(pb.rest) != 1 or pb.rest[0] is not after or not c.entails(z(pb.pos) == P + z(e.w)):
        raise ReadFail('the loop body does not read exactly one element')
    pb.rest, pb.pos = rest[1:], simp(z(pos) + z(rest[0].w))
    return True


SRange.py_loop = lambda self, ip, node, fr: range_loop(ip, self, node, fr)


# ------------------------------------------------------------------ obligations
SHAPES = [(e, u) for e in (False, True) for u in (False, True)]


def setup(c, shape, inside=True):
    ext, hu = shape
    lb = sym(c, 'lb', True)
    ub = sym(c, 'ub', True) if hu else None
    n = sym(c, 'n', True)
    if hu:
        c.assume(z(lb) <= z(ub))
    c.witness['shape'] = ('seqof', ext, hu)
    ok = z3.And(z(n) >= z(lb), z(n) <= z(ub) if hu else True)
    if not ext:
        c.assume(ok if inside else z3.Not(ok))
    return Cons(ext, lb, ub, model.SequenceOfValueSize), lb, ub, n


def elements(c, n):
    e = Splice(('elements', 1))
    c.add(z3.Implies(z(n) == 0, z3.Not(e.nonempty())))
    return e


def encode_ok(shape):
    def f(ip, c):
        cons, lb, ub, n = setup(c, shape)
        e = elements(c, n)
        h = spec_call(ip, x691.sequence_of_header, n, shape[0], lb, ub)
        fields = None if h is None else list(h) + [e]
        try:
            return encode_check(ip, c, SeqOfObj(cons, [ALL], n), fields)
        except ReadFail as x:
            return [(str(x), False)]
    return f


def encode_outside(shape):
    def f(ip, c):
        cons, lb, ub, n = setup(c, shape, False)
        try:
            return encode_check(ip, c, SeqOfObj(cons, [ALL], n), None)
        except ReadFail as x:
            return [('refused', False)]
    return f


def decode_ok(shape, mode='contract'):
    def f(ip, c):
        if mode != 'contract':
            raise Unsupported('elements with the source of the cursor')
        cons, lb, ub, n = setup(c, shape)
        e = elements(c, n)
        h = spec_call(ip, x691.sequence_of_header, n, shape[0], lb, ub)
        if h is None:
            raise Infeasible()
        p = sym(c, 'p', True)
        body = as_pieces(spec_call(ip, x691.layout, list(h) + [e], p))
        q = c.fresh('q', True)
        stream = tuple(body) + (O('post', 0, q),)
        c.assume((z(p) + z(width(stream))) % 8 == 0)
        pb = PB(stream, z(p))
        c.pb, c.n_elems = pb, n
        try:
            v = ip.call(ip.getattr(SeqOfObj(cons, [], None), 'create_field_list'), [pb])
        except ReadFail as x:
            return [(str(x), False)]
        if not isinstance(v, SeqOfObj) or v.cons is not cons:
            return [('decodes to a SEQUENCE OF of the type', False)]
        posts = [('cursor stands right behind the value', z(pb.pos) == z(p) + z(width(body)))]
        if v.items == [ALL]:
            posts.append(('all elements in order', True))
        elif not v.items:
            posts.append(('no element', z(n) == 0))
        else:
            posts.append(('all elements in order', False))
        if not v.cleared:
            posts.append(('the decoded list is a value', False))
        return posts
    return f


def decode_outside(shape, mode='contract'):
    """a coded count outside SIZE: the octets carry any count the form can express"""
    def f(ip, c):
        if mode != 'contract':
            raise Unsupported('elements with the source of the cursor')
        cons, lb, ub, n = setup(c, shape, False)
        if shape[1]:
            c.assume(z(ub) < 65536)
            c.assume(z(lb) < z(ub))
            c.assume(z(n) > z(ub))
            # the count as the header of a wider range with the same width of field
            top = c.fresh('top', True)
            c.assume(z3.And(top >= z(n), top < 65536))
            h = spec_call(ip, x691.sequence_of_header, n, False, lb, SInt(top))
            h0 = spec_call(ip, x691.sequence_of_header, lb, False, lb, ub)
            c.assume(z(width(as_pieces(h[0][1]))) == z(width(as_pieces(h0[0][1]))))
            if h[0][0] is not h0[0][0]:
                raise Infeasible()
        else:
            h = spec_call(ip, x691.sequence_of_header, n, False, 0, None)
        if h is None:
            raise Infeasible()
        p = sym(c, 'p', True)
        e = elements(c, n)
        body = as_pieces(spec_call(ip, x691.layout, list(h) + [e], p))
        q = c.fresh('q', True)
        stream = tuple(body) + (O('post', 0, q),)
        c.assume((z(p) + z(width(stream))) % 8 == 0)
        pb = PB(stream, z(p))
        c.pb, c.n_elems = pb, n
        try:
            ip.call(ip.getattr(SeqOfObj(cons, [], None), 'create_field_list'), [pb])
        except PyExc:
            return [('refused', True)]
        except ReadFail as x:
            return [('a count outside SIZE is refused', False)]
        return [('a count outside SIZE is refused', False)]
    return f
