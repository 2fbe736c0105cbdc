"""C01-C05: contracts of the simple types.  For each shape of constraint (extensible or not, each bound present or not)
the bounds, the value, the bit position p at which the encoding starts and what precedes / follows it are arbitrary."""
from .base import *


def sym(c, name, nonneg=False):
    v = z3.Int(name)
    if nonneg:
        c.assume(v >= 0)
    c.witness[name] = v
    return SInt(v)


def position(c, r):
    """an arbitrary bit position congruent to r mod 8 (r = 0..7 is a complete case split)"""
    a = sym(c, 'a', True)
    c.witness['r'] = r
    return (a, r)


def bits(p):
    return simp(8 * z(p[0]) + p[1])


def encode_post(ip, c, obj, fields, p):
    """encode(prefix, obj) == X.691 complete encoding of the same"""
    pre = SStr((O('pre', 0, bits(p)),))
    if fields is not None:
        want = spec_call(ip, x691.complete, [(False, pre)] + fields)
    try:
        got = ip.call(encoder.encode, [HarnessEnc(bits(p), obj)])
    except PyExc as e:
        if fields is None:
            return [('refused', True)]
        return [('encode does not raise (%s: %s)' % (type(e.e).__name__, str(e.e)[:60]), False)]
    if fields is None:
        return [('a value that needs fragmentation is refused', False)]
    if not isinstance(got, (bytes, SBytes)):
        return [('encode returns octets', False)]
    return [('encoding equals X.691 octets', x) for x in pieces_equal(as_pieces(got), as_pieces(want))] or [('empty', True)]


def decode_setup(ip, c, fields, p):
    pre = (O('pre', 0, bits(p)),)
    body = as_pieces(spec_call(ip, x691.layout, fields, mk_int(z(bits(p)))))
    q = c.fresh('q', True)
    post = (O('post', 0, q),)
    stream = tuple(pre) + tuple(body) + post
    c.assume(z(width(stream)) % 8 == 0)
    c.assume(z(width(stream)) > 0)
    return SBytes(stream), q


def decode_run(ip, c, schema, fields, p):
    stream, q = decode_setup(ip, c, fields, p)
    val, rest = ip.call(decoder.decode, [stream, HarnessDec(p, schema, q)])
    posts = []
    want = intof((O('post', 0, q),))
    if isinstance(rest, (int, SInt)):
        posts.append(('cursor stands right behind the value', z3.Or(q == 0, z(rest) == z(want))))
    else:
        posts.append(('cursor', False))
    return val, posts


SHAPES = [(e, l, u) for e in (False, True) for l in (False, True) for u in (False, True)]


def int_setup(c, shape, r):
    ext, hl, hu = shape
    lb = sym(c, 'lb') if hl else None
    ub = sym(c, 'ub') if hu else None
    v = sym(c, 'v')
    p = position(c, r)
    if hl and hu:
        c.assume(z(lb) <= z(ub))
        c.assume(z(c.bl(z(ub) - z(lb))) <= 8 * 65535)       # domain: ranges of less than 2**524280 values
    c.witness['shape'] = ('int', ext, hl, hu)
    cons = Cons(ext, lb, ub, model.ValueRange)
    if not ext:
        if hl:
            c.assume(z(v) >= z(lb))
        if hu:
            c.assume(z(v) <= z(ub))
    return cons, ext, lb, ub, v, p


def int_encode(shape, r):
    def f(ip, c):
        cons, ext, lb, ub, v, p = int_setup(c, shape, r)
        fields = spec_call(ip, x691.integer, v, ext, lb, ub)
        return encode_post(ip, c, IntObj(cons, v), fields, p)
    return f


def int_decode(shape, r):
    def f(ip, c):
        cons, ext, lb, ub, v, p = int_setup(c, shape, r)
        fields = spec_call(ip, x691.integer, v, ext, lb, ub)
        if fields is None:
            raise Infeasible()
        x, posts = decode_run(ip, c, IntObj(cons), fields, p)
        if not isinstance(x, IntObj) or x.cons is not cons:
            return [('decodes to an INTEGER of the type', False)]
        return posts + [('decoded value', z(x.v) == z(v))]
    return f


# ------------------------------------------------------------------ BOOLEAN
def bool_encode(shape, r):
    def f(ip, c):
        b = z3.Bool('b')
        c.witness['b'] = b
        c.witness['shape'] = ('bool',)
        p = position(c, r)
        v = SBool(b)
        return encode_post(ip, c, BoolObj(Cons(False, None, None), v), spec_call(ip, x691.boolean, v), p)
    return f


def bool_decode(shape, r):
    def f(ip, c):
        b = z3.Bool('b')
        c.witness['b'] = b
        c.witness['shape'] = ('bool',)
        p = position(c, r)
        cons = Cons(False, None, None)
        x, posts = decode_run(ip, c, BoolObj(cons), spec_call(ip, x691.boolean, SBool(b)), p)
        if not isinstance(x, BoolObj) or x.v is None:
            return [('decodes to a BOOLEAN', False)]
        t = x.v.t if isinstance(x.v, SBool) else z3.BoolVal(x.v)
        return posts + [('decoded value', t == b)]
    return f


# ------------------------------------------------------------------ BIT STRING / OCTET STRING
SIZE_SHAPES = [(False, False, False), (False, True, False), (False, True, True), (True, True, False), (True, True, True)]


def str_setup(c, kind, shape, r):
    ext, hl, hu = shape
    lb = sym(c, 'lb', True) if hl else None
    ub = sym(c, 'ub', True) if hu else None
    n = sym(c, 'n', True)
    p = position(c, r)
    if hl and hu:
        c.assume(z(lb) <= z(ub))
    if not ext:
        if hl:
            c.assume(z(n) >= z(lb))
        if hu:
            c.assume(z(n) <= z(ub))
    c.witness['shape'] = (kind, ext, hl, hu)
    unit = 8 if kind == 'oct' else 1
    content = (O('content', 0, simp(z(n) * unit)),)
    return Cons(ext, lb, ub, model.ValueSize), ext, lb, ub, n, content, p


def str_encode(kind):
    def mk(shape, r):
        def f(ip, c):
            cons, ext, lb, ub, n, content, p = str_setup(c, kind, shape, r)
            o = (BitsObj if kind == 'bits' else OctObj)(cons, content)
            fields = spec_call(ip, x691.string, SStr(content), n, 16 if kind == 'bits' else 2, ext, lb, ub)
            return encode_post(ip, c, o, fields, p)
        return f
    return mk


def str_decode(kind):
    def mk(shape, r):
        def f(ip, c):
            cons, ext, lb, ub, n, content, p = str_setup(c, kind, shape, r)
            K = BitsObj if kind == 'bits' else OctObj
            fields = spec_call(ip, x691.string, SStr(content), n, 16 if kind == 'bits' else 2, ext, lb, ub)
            if fields is None:
                raise Infeasible()
            x, posts = decode_run(ip, c, K(cons), fields, p)
            if not isinstance(x, K) or x.cons is not cons or x.bits is None:
                return [('decodes to a string of the type', False)]
            posts.append(('decoded length', z(width(x.bits)) == z(width(content))))
            return posts + [('decoded content', q) for q in pieces_equal(x.bits, content)]
        return f
    return mk


bits_encode, bits_decode = str_encode('bits'), str_decode('bits')
oct_encode, oct_decode = str_encode('oct'), str_decode('oct')


# ------------------------------------------------------------------ ENUMERATED
ENUM_SHAPES = ['plain', 'ext-root', 'ext-add']


def enum_setup(c, shape, r):
    ext = shape != 'plain'
    nr = sym(c, 'n_root', True)
    c.assume(z(nr) >= 1)
    c.assume(z(nr) <= 65536)                 # domain: at most 64K root items (larger needs an indefinite-length index)
    na = sym(c, 'n_add', True) if ext else 0
    i = sym(c, 'i', True)
    p = position(c, r)
    kind = 'add' if shape == 'ext-add' else 'root'
    c.assume(z(i) < z(na if kind == 'add' else nr))
    c.witness['shape'] = ('enum', ext, kind)
    return Cons(ext, None, None, model.ExtensionMarker if ext else model.NoConstraint), ext, nr, na, kind, i, p


def enum_encode(shape, r):
    def f(ip, c):
        cons, ext, nr, na, kind, i, p = enum_setup(c, shape, r)
        fields = spec_call(ip, x691.enumerated, kind == 'root', i, nr, ext)
        return encode_post(ip, c, EnumObj(cons, nr, na, EVal(kind, i)), fields, p)
    return f


def enum_decode(shape, r):
    def f(ip, c):
        cons, ext, nr, na, kind, i, p = enum_setup(c, shape, r)
        fields = spec_call(ip, x691.enumerated, kind == 'root', i, nr, ext)
        if fields is None:
            raise Infeasible()
        x, posts = decode_run(ip, c, EnumObj(cons, nr, na), fields, p)
        if not isinstance(x, EnumObj) or not isinstance(x.v, EVal):
            return [('decodes to an ENUMERATED', False)]
        if x.v.kind != kind:
            return [('decodes to an item of the same part', False)]
        return posts + [('decoded item', z(x.v.idx) == z(i))]
    return f
