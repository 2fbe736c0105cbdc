"""C05: layout of fields, final padding, the read cursor (PerBytes), BOOLEAN.

Cursor lemmas.  canonical(p) is the cursor after reading p bits and then no bits.  With p, the sizes x and y, the octets
and both alignments arbitrary:
  A   next(x) from canonical(p) returns exactly the contract's bits (see base.PB), or raises if they are not there;
  B   canonical(p); next(x); next(y) gives the same result and the same state (compared as a whole object graph) as
      canonical(p'); next(y), where p' is the position behind x.
By induction over the reads every history of reads behaves as the contract says, which is what the other properties use.
"""
from .base import *
from .leaf import sym, bits
from .composite import encode_check, native_layout, CONTRACTS, contracts
from pyver.engine import Splice, _MISSING


# ------------------------------------------------------------------ layout
class FieldList(Stub):
    """a value whose fields are given"""
    real = object

    def __init__(self, fields):
        self.fields = fields

    def cls_attr(self, ip, name):
        return _MISSING

    def py_getattr(self, ip, name):
        if name == 'fill_field_list':
            return Method(self.fill)
        raise Unsupported('attribute %s of a field list' % name)

    def fill(self, ip, field_list):
        for f in self.fields:
            if not isinstance(f, Splice):
                f = ip.call(encoder.bit_field, [], {'octet_align': f[0], 'value': f[1]})
            ip.call(ip.getattr(field_list, 'append'), [f])


def layout_any(n):
    """encode() of a value with an arbitrary field list (n arbitrary lists in a row)"""
    def f(ip, c):
        fs = [Splice(('F%d' % i, 1)) for i in range(n)]
        c.witness['shape'] = ('layout',)
        c.places = []
        want = spec_call(ip, x691.complete, fs)
        got = ip.call(encoder.encode, [FieldList(fs)])
        if not isinstance(got, (bytes, SBytes)):
            return [('encode returns octets', False)]
        return [('encoding is the padded layout of the fields', x) for x in pieces_equal(as_pieces(got), as_pieces(want))] or [('empty', True)]
    return f


def layout_few(aligns):
    """the same for a given number of fields with arbitrary bits (no fold rule involved)"""
    def f(ip, c):
        fs = []
        for i, a in enumerate(aligns):
            w = sym(c, 'w%d' % i, True)
            fs.append((a, engine.str_norm(SStr((O('f%d' % i, 0, z(w)),)))))
        c.witness['shape'] = ('fields', aligns)
        want = spec_call(ip, x691.complete, fs)
        got = ip.call(encoder.encode, [FieldList(fs)])
        if not isinstance(got, (bytes, SBytes)):
            return [('encode returns octets', False)]
        return [('encoding is the padded layout of the fields', x) for x in pieces_equal(as_pieces(got), as_pieces(want))] or [('empty', True)]
    return f


# ------------------------------------------------------------------ cursor
class Script(Stub):
    """asn1Spec given to decode(): runs a function on the cursor"""
    real = object

    def __init__(self, f):
        self.f = f

    def cls_attr(self, ip, name):
        return _MISSING

    def py_getattr(self, ip, name):
        if name == 'create_field_list':
            return Method(lambda ip, pb: self.f(ip, pb))
        raise Unsupported('attribute %s of the top-level schema' % name)


def read(ip, pb, octets, bits, align=False):
    size = ip.call(encoder.bit_field_size, [], {'octets': octets, 'bits': bits})
    return ip.call(ip.getattr(pb, 'next'), [], {'size': size, 'octet_align': align})


def octets_stream(c):
    n = sym(c, 'n', True)
    c.assume(z(n) > 0)
    return SBytes((O('data', 0, simp(8 * z(n))),)), n


def graph(o, seen=None):
    """nested tuple of the state reachable from o, for comparison"""
    seen = {} if seen is None else seen
    if o is None or isinstance(o, (bool, int, str, bytes, float, type)):
        return ('v', o)
    if isinstance(o, (SInt, SBool, SStr)):
        return ('s', o)
    if isinstance(o, (tuple, list)):
        if id(o) in seen:
            return ('ref', seen[id(o)])
        if isinstance(o, list):
            seen[id(o)] = len(seen)
        return (type(o).__name__,) + tuple(graph(x, seen) for x in o)
    if isinstance(o, dict):
        if id(o) in seen:
            return ('ref', seen[id(o)])
        seen[id(o)] = len(seen)
        return ('dict',) + tuple((k, graph(v, seen)) for k, v in o.items())
    if id(o) in seen:
        return ('ref', seen[id(o)])
    seen[id(o)] = len(seen)
    d = getattr(o, '__dict__', None)
    if d is not None and type(o).__module__.startswith('asn1PERser'):
        return ('o', type(o)) + tuple((k, graph(d[k], seen)) for k in sorted(d))
    raise Unsupported('state of type %s' % type(o).__name__)


def same_number(label, x, y):
    if not isinstance(x, (int, SInt)) or not isinstance(y, (int, SInt)):
        return [(label, False)]
    c = ctx()
    k = simp(z(x) == z(y))
    if isinstance(k, bool) and k or not isinstance(k, bool) and c.entails(k):
        return [(label, True)]
    if isinstance(x, SInt) and isinstance(y, SInt) and x.bits is not None and y.bits is not None:
        if c.entails(z(width(x.bits)) == z(width(y.bits))):
            return [(label, k) for k in pieces_equal(x.bits, y.bits)] or [(label, True)]
    return [(label, z(x) == z(y))]


def graph_equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ('v', 's') and b[0] in ('v', 's'):
        x, y = a[1], b[1]
        if isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)) and not isinstance(x, bool) and not isinstance(y, bool):
            return [z(x) == z(y)]
        if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
            return [z(x) == z(y)]
        if isinstance(x, (str, bytes, SStr)) and isinstance(y, (str, bytes, SStr)):
            if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
                return [x == y]
            try:
                return pieces_equal(as_pieces(x), as_pieces(y))
            except dom.Mismatch:
                return [False]
        return [type(x) is type(y) and x == y]
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return [False]
        return [c for x, y in zip(a, b) for c in graph_equal(x, y)]
    return [a == b]


def spec_next(c, stream, p, w, align):
    """(value or None when it must raise, new position) by the contract; stream pieces, positions as terms"""
    s = simp(z(p) + ((-z(p)) % 8 if align else 0))
    q = simp(z(s) + z(w))
    if c.branch(z(w) == 0):
        return 0, q
    if not c.branch(z(q) <= z(width(stream))):
        return None, q
    left, right = split(stream, s)
    got, _ = split(right, w)
    return intof(canon(tuple(got))), q


def sizes(c, tag, r, form):
    """an arbitrary size: form 'o' octets only, 'b' bits only (both arbitrary), 'ob' both"""
    o = sym(c, 'o' + tag, True) if 'o' in form else 0
    b = sym(c, 'b' + tag, True) if 'b' in form else 0
    return o, b, simp(8 * z(o) + z(b))


def canonical(ip, pb, a, r):
    read(ip, pb, a, r)
    read(ip, pb, 0, 0)


def cursor_a(r, form, align):
    def f(ip, c):
        stream, n = octets_stream(c)
        a = sym(c, 'a', True)
        o, b, w = sizes(c, 'x', r, form)
        c.witness['shape'] = ('read', form, align)
        c.witness['r'] = r
        p = simp(8 * z(a) + r)
        c.assume(z(p) <= 8 * z(n))
        want, q = spec_next(c, stream.p, p, w, align)
        box = []

        def script(ip, pb):
            canonical(ip, pb, a, r)
            box.append(read(ip, pb, o, b, align))
        try:
            ip.call(decoder.decode, [stream, Script(script)])
        except PyExc as e:
            if want is None:
                return [('bits that are not there are refused', True)]
            return [('reading does not raise (%s: %s)' % (type(e.e).__name__, str(e.e)[:60]), False)]
        if want is None:
            return [('bits that are not there are refused', False)]
        got = box[0]
        if not isinstance(got, (int, SInt)):
            return [('reading gives a number', False)]
        return same_number('exactly the bits at the position', got, want)
    return f


def cursor_b(r, form, align, form2, align2):
    def f(ip, c):
        stream, n = octets_stream(c)
        a = sym(c, 'a', True)
        o, b, w = sizes(c, 'x', r, form)
        o2, b2, w2 = sizes(c, 'y', r, form2)
        c.witness['shape'] = ('read2', form, align, form2, align2)
        c.witness['r'] = r
        p = simp(8 * z(a) + r)
        c.assume(z(p) <= 8 * z(n))
        q = simp(z(p) + ((-z(p)) % 8 if align else 0) + z(w))
        c.assume(z(q) <= 8 * z(n))
        qa, qr = c.fresh('qa', True), c.fresh('qr', True)
        c.assume(z3.And(qr < 8, z(q) == 8 * qa + qr))
        res = []
        for script in ((lambda ip, pb: (canonical(ip, pb, a, r), read(ip, pb, o, b, align))),
                       (lambda ip, pb: canonical(ip, pb, SInt(qa), SInt(qr)))):
            def run(ip, pb, script=script):
                script(ip, pb)
                return ('ok', read(ip, pb, o2, b2, align2), graph(pb))
            try:
                res.append(ip.call(decoder.decode, [stream, Script(run)]))
            except PyExc as e:
                res.append(('raised',))
        x, y = res
        if x[0] != y[0]:
            return [('the next read depends only on the position', False)]
        if x[0] == 'raised':
            return [('both refuse', True)]
        posts = same_number('the next read depends only on the position', x[1], y[1])
        return posts + [('the cursor state depends only on the position', k) for k in graph_equal(x[2], y[2])]
    return f


def cursor_start(form, align):
    """the initial state behaves as canonical(0)"""
    def f(ip, c):
        stream, n = octets_stream(c)
        o, b, w = sizes(c, 'x', 0, form)
        c.witness['shape'] = ('read', form, align)
        c.witness['r'] = 0
        res = []
        for can in (False, True):
            def run(ip, pb, can=can):
                if can:
                    canonical(ip, pb, 0, 0)
                return ('ok', read(ip, pb, o, b, align), graph(pb))
            try:
                res.append(ip.call(decoder.decode, [stream, Script(run)]))
            except PyExc as e:
                res.append(('raised',))
        x, y = res
        if x[0] != y[0]:
            return [('the first read starts at bit 0', False)]
        if x[0] == 'raised':
            return [('both refuse', True)]
        return same_number('the first read starts at bit 0', x[1], y[1]) + [('initial state', k) for k in graph_equal(x[2], y[2])]
    return f


CURSOR_JOBS = ([('cursor_start', (f, al)) for f in ('ob',) for al in (False, True)] +
               [('cursor_a', (r, 'ob', al)) for r in range(8) for al in (False, True)] +
               [('cursor_b', (r, 'ob', al, 'ob', al2)) for r in range(8) for al in (False, True) for al2 in (False, True)])
