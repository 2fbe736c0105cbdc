"""C11 (decoding side) and C12: what cannot be represented is refused, and malformed or truncated octets are refused or give a value.

PerBytes is used by its contract (framing.py).  Three kinds of obligation, for every type and every bit position p:
  frag_*        the length forms of fragmentation (first two bits 11) and of more than 64 additions raise, whatever follows;
  truncated_*   the oracle's bits of any value cut at any octet boundary before their end raise;
  arbitrary_*   on arbitrary bits, decoding raises or returns a value the type admits.
Components are known by their contract: on bits that are not theirs or not complete they raise or return some value of the type.
"""
from .base import *
from . import leaf, seqof, composite
from .leaf import sym
from .composite import Schema, ChoiceSchema, ReadFail, native_layout, witness
from pyasn1.type.base import noValue
from pyver.engine import _MISSING


def contracts(mode=None):
    return composite.contracts(mode)


def at(c):
    return sym(c, 'p', True)


def run(ip, schema, pb):
    return ip.call(ip.getattr(schema, 'create_field_list'), [pb])


def must_raise(ip, schema, pb, what):
    try:
        run(ip, schema, pb)
    except PyExc:
        return [('refused', True)]
    except (ReadFail, seqof.ReadFail) as e:
        return [('%s (%s)' % (what, e), False)]
    return [(what, False)]


# ------------------------------------------------------------------ simple types
def schema_of(c, kind, shape):
    """(schema object, cons, lb, ub) with arbitrary bounds"""
    if kind == 'enum':
        cons, ext, nr, na, k, i, p = leaf.enum_setup(c, shape, 0)
        return EnumObj(cons, nr, na), cons, nr, na
    ext, hl, hu = shape if len(shape) == 3 else (shape[0], True, shape[1])
    nn = kind != 'int'
    lb = sym(c, 'lb', nn) if hl else None
    ub = sym(c, 'ub', nn) if hu else None
    if hl and hu:
        c.assume(z(lb) <= z(ub))
        if kind == 'int':
            c.assume(z(c.bl(z(ub) - z(lb))) <= 8 * 65535)
    real = {'int': model.ValueRange, 'seqof': model.SequenceOfValueSize}.get(kind, model.ValueSize)
    cons = Cons(ext, lb, ub, real)
    if kind == 'seqof':
        return seqof.SeqOfObj(cons, [], None), cons, lb, ub
    return {'int': IntObj, 'bits': BitsObj, 'oct': OctObj}[kind](cons), cons, lb, ub


def frag(kind, shape, extbit, mode='contract'):
    """the length determinant starts with 11: a fragmented value"""
    def f(ip, c):
        s, cons, lb, ub = schema_of(c, kind, shape)
        ext = shape[0]
        c.witness['shape'] = ('frag', kind, shape)
        p = at(c)
        head = ()
        if ext:
            head = (B(extbit, 1),)
        if kind == 'int':
            if extbit == 0 and lb is not None and ub is not None:
                raise Infeasible()
        elif extbit == 0 and ub is not None:
            c.assume(z(ub) >= 65536)
        c.n_elems, c.pb = SInt(c.fresh('n', True)), None
        pos = simp(z(p) + (1 if ext else 0))
        w = c.fresh('more', True)
        pad = simp((-pos) % 8)
        stream = head + (B(0, pad), B(3, 2), O('data', 0, w))
        c.assume((z(p) + z(width(stream))) % 8 == 0)
        return must_raise(ip, s, PB(stream, p), 'a fragmented length is refused')
    return f


def leaf_fields(ip, c, kind, shape):
    if kind == 'int':
        cons, ext, lb, ub, v, _ = leaf.int_setup(c, shape, 0)
        return IntObj(cons), spec_call(ip, x691.integer, v, ext, lb, ub), cons
    if kind in ('bits', 'oct'):
        cons, ext, lb, ub, n, content, _ = leaf.str_setup(c, kind, shape, 0)
        return (BitsObj if kind == 'bits' else OctObj)(cons), spec_call(ip, x691.string, SStr(content), n, 16 if kind == 'bits' else 2, ext, lb, ub), cons
    if kind == 'enum':
        cons, ext, nr, na, k, i, _ = leaf.enum_setup(c, shape, 0)
        return EnumObj(cons, nr, na), spec_call(ip, x691.enumerated, k == 'root', i, nr, ext), cons
    cons = Cons(False, None, None)
    return BoolObj(cons), spec_call(ip, x691.boolean, SBool(z3.Bool('b'))), cons


def cut_stream(c, p, body):
    """the body cut at an arbitrary octet boundary before its end"""
    t = c.fresh('t', True)
    c.witness['t'] = t
    c.assume(z3.And(t < z(width(body)), (z(p) + t) % 8 == 0))
    out = []
    parts = []
    for x in body:
        if isinstance(x, B) and not isinstance(simp(z(x.w)), int):
            for k in (1, 2, 6, 7, 8, 14, 15, 16, 24, 32):           # zero bits of padding in front of a number of known width
                if c.entails(z3.And(z(x.w) >= k, z(x.val) < 2 ** k)):
                    parts.append(B(0, simp(z(x.w) - k)))
                    x = B(x.val, k)
                    break
        parts.append(x)
    for x in parts:
        if c.branch(z(t) >= z(x.w)):
            out.append(x)
            t = simp(z(t) - z(x.w))
            continue
        if isinstance(x, O):
            out.append(O(x.id, x.off, t, x.tag))
        elif isinstance(simp(z(x.w)), int) and x.w <= 200:
            for k in range(x.w):
                if k == x.w - 1 or c.branch(z(t) == k):
                    break
            out.extend(split((x,), k)[0])
        else:
            out.append(O('cut', 0, t))           # any bits: more than the cut number could be
        return tuple(out)
    raise Infeasible()


def truncated(kind, shape, mode='contract'):
    def f(ip, c):
        s, fields, cons = leaf_fields(ip, c, kind, shape)
        if fields is None:
            raise Infeasible()
        c.witness['shape'] = ('trunc',) + tuple(c.witness.get('shape', (kind,)))
        p = at(c)
        body = as_pieces(spec_call(ip, x691.layout, fields, p))
        return must_raise(ip, s, PB(cut_stream(c, p, body), p), 'a truncated encoding is refused')
    return f


def arbitrary(kind, shape, mode='contract'):
    def f(ip, c):
        if kind == 'bool':
            cons = Cons(False, None, None)
            s, lb, ub = BoolObj(cons), None, None
        else:
            s, cons, lb, ub = schema_of(c, kind, shape)
        c.witness['shape'] = ('octets', kind, shape)
        p = at(c)
        w = c.fresh('more', True)
        c.assume((z(p) + w) % 8 == 0)
        pb = PB((O('data', 0, w),), p)
        try:
            v = run(ip, s, pb)
        except PyExc:
            return [('refused', True)]
        if type(v) is not type(s) or v.cons is not cons:
            return [('a value of the type', False)]
        if kind == 'bool':
            return [('a value', v.v is not None)]
        if kind == 'enum':
            if not isinstance(v.v, EVal):
                return [('an item of the type', False)]
            return [('an item of the type', z3.And(z(v.v.idx) >= 0, z(v.v.idx) < z(lb if v.v.kind == 'root' else ub)))]
        n = v.v if kind == 'int' else None
        if kind != 'int':
            if v.bits is None:
                return [('a value', False)]
            n = mk_int(z(width(v.bits)) if kind == 'bits' else dom.div(z(width(v.bits)), 8))
        if n is None:
            return [('a value', False)]
        posts = [('a value', True)]
        if not shape[0]:
            if lb is not None:
                posts.append(('not below the lower bound', z(n) >= z(lb)))
            if ub is not None:
                posts.append(('not above the upper bound', z(n) <= z(ub)))
        return posts
    return f


# ------------------------------------------------------------------ SEQUENCE OF
def seqof_truncated(shape, mode='contract'):
    def f(ip, c):
        cons, lb, ub, n = seqof.setup(c, shape)
        e = seqof.elements(c, n)
        h = spec_call(ip, x691.sequence_of_header, n, shape[0], lb, ub)
        if h is None:
            raise Infeasible()
        c.witness['shape'] = ('trunc',) + tuple(c.witness['shape'])
        p = at(c)
        body = as_pieces(spec_call(ip, x691.layout, list(h) + [e], p))
        c.truncated = True
        pb = PB(cut_stream(c, p, body), p)
        c.pb, c.n_elems = pb, n
        return must_raise(ip, seqof.SeqOfObj(cons, [], None), pb, 'a truncated encoding is refused')
    return f


# ------------------------------------------------------------------ SEQUENCE and CHOICE
def seq_truncated(ext, root, adds=(), groups=(), mode='contract'):
    def f(ip, c):
        s = Schema.get(ext, root, adds, groups)
        witness(c, 'trunc', ext, root, adds, groups)
        c.places = []
        fields = s.spec_fields(ip)
        if fields is None:
            raise Infeasible()
        p = at(c)
        body = as_pieces(spec_call(ip, x691.layout, fields, p))
        return must_raise(ip, s.cls(), PB(cut_stream(c, p, body), p), 'a truncated encoding is refused')
    return f


def choice_truncated(ext, n_root, n_adds, groups, k, shape, mode='contract'):
    def f(ip, c):
        s = ChoiceSchema.get(ext, n_root, n_adds, groups, k, shape)
        witness(c, 'trunc-choice', ext, n_root, n_adds, groups, k, shape)
        c.places = []
        fields = s.spec_fields(ip)
        if fields is None:
            raise Infeasible()
        p = at(c)
        body = as_pieces(spec_call(ip, x691.layout, fields, p))
        return must_raise(ip, s.cls(), PB(cut_stream(c, p, body), p), 'a truncated encoding is refused')
    return f


def seq_arbitrary(ext, root, adds=(), groups=(), bitmap=None, mode='contract'):
    """arbitrary bits (with bitmap: extension bit 1 and an additions bitmap of that many arbitrary bits)"""
    def f(ip, c):
        s = Schema.get(ext, root, adds, groups)
        witness(c, 'octets', ext, root, adds, groups)
        c.hostile = True
        c.places = []
        p = at(c)
        w = c.fresh('more', True)
        data = (O('data', 0, w),)
        if bitmap is not None:
            if root:
                raise Unsupported('bitmap behind root components')
            data = (B(1, 1), B(bitmap - 1, 7), O('bitmap', 0, bitmap)) + data
        elif ext:
            data = (B(0, 1),) + data
        c.assume((z(p) + z(width(data))) % 8 == 0)
        try:
            v = run(ip, s.cls(), PB(data, p))
        except PyExc:
            return [('refused', True)]
        if not isinstance(v, s.cls):
            return [('a value of the type', False)]
        posts = [('a value of the type', True)]
        for k in s.root:
            x = v.getComponentByName(k.name, default=None, instantiate=False)
            have = x is not None and x is not noValue and composite.value_of(x) is not None
            if k.kind == 'M':
                posts.append(('mandatory component %s is there' % k.name, have))
        for k in s.all():
            x = v.getComponentByName(k.name, default=None, instantiate=False)
            if x is not None and x is not noValue:
                posts.append(('component %s is of its type' % k.name, isinstance(x, k.cls)))
        return posts
    return f


def choice_arbitrary(ext, n_root, n_adds, groups, bit=None, mode='contract'):
    def f(ip, c):
        s = ChoiceSchema.get(ext, n_root, n_adds, groups, 0, 's')
        witness(c, 'octets-choice', ext, n_root, n_adds, groups)
        c.hostile = True
        c.places = []
        p = at(c)
        w = c.fresh('more', True)
        data = (O('data', 0, w),)
        if ext:
            data = (B(bit, 1),) + data
        c.assume((z(p) + z(width(data))) % 8 == 0)
        try:
            v = run(ip, s.cls(), PB(data, p))
        except PyExc:
            return [('refused', True)]
        if not isinstance(v, s.cls):
            return [('a value of the type', False)]
        try:
            n, x = v.getName(), v.getComponent()
            ok = composite.value_of(x) is not None
        except Exception:
            return [('an alternative is chosen', False)]
        names = [a for a, _ in (s.root if bit in (None, 0) else s.all[len(s.root):])]
        return [('an alternative is chosen', ok), ('one of the alternatives the extension bit allows', n in names)]
    return f


def adds_frag(n_adds, mode='contract'):
    """additions bitmap length in its large form (first bit 1): more than 64 additions"""
    def f(ip, c):
        s = Schema.get(True, (), ('Os0',) * n_adds, ())
        c.hostile = True
        c.places = []
        witness(c, 'adds-frag', n_adds)
        p = at(c)
        w = c.fresh('more', True)
        data = (B(3, 2), O('data', 0, w))
        c.assume((z(p) + z(width(data))) % 8 == 0)
        return must_raise(ip, s.cls(), PB(data, p), 'more than 64 additions are refused')
    return f


def open_frag(what, mode='contract'):
    """an open type with a fragmented length"""
    def f(ip, c):
        c.hostile = True
        c.places = []
        witness(c, 'open-frag', what)
        p = at(c)
        w = c.fresh('more', True)
        if what == 'choice':
            s = ChoiceSchema.get(True, 1, 1, (), 0, 's')
            head = (B(1, 1), B(0, 7))
            pos = simp(z(p) + 8)
        else:
            s = Schema.get(True, (), ('Os0',) if what != 'group' and what != 'unknown' else (), (('Os0',),) if what == 'group' else ())
            head = (B(1, 1), B(0, 7), B(1, 1))
            pos = simp(z(p) + 9)
        data = head + (B(0, simp((-pos) % 8)), B(3, 2), O('data', 0, w))
        c.assume((z(p) + z(width(data))) % 8 == 0)
        return must_raise(ip, s.cls(), PB(data, p), 'a fragmented open type is refused')
    return f


def multi(fn, many, mode='contract'):
    def f(ip, c):
        i = c.choice(len(many))
        return globals()[fn](*many[i], mode=mode)(ip, c)
    return f
