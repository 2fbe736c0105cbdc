"""Contracts of the structured types over arbitrary components.

A component is an object of a real class derived from the repository's classes whose encode/decode methods are
replaced by their contract:
  fill_field_list  appends an arbitrary (possibly empty) list of fields F, nothing else;
  create_field_list, called with the cursor at the layout of F, consumes exactly those bits and returns the value.
That every type of the repository meets this contract is C01-C05 for the simple types and, by induction over the nesting
of types, these very obligations for the structured ones.  All pyasn1 code for structured types runs natively.
"""
import itertools

from .base import *
from .leaf import sym, bits
from pyver.engine import Splice, _MISSING
from pyasn1.type.namedtype import NamedType, OptionalNamedType, DefaultedNamedType
from asn1PERser.classes.types.type import AdditiveNamedTypes
from asn1PERser.classes.types.constraint import ExtensionMarker, NoConstraint
from pyasn1.type.base import noValue

PRESENT, DEFAULT = 7, 3


def intrinsic(f):
    f.__pyver_intrinsic__ = True
    return f


class ReadFail(Exception):
    pass


@intrinsic
def _fill(ip, self, field_list):
    k = comp_key(self)
    if k is None:
        raise PyExc(PyAsn1Error('component without value'))
    if k[0] == 'refuse':
        raise PyExc(encoder.PerEncodingException('refused'))
    ip.call(ip.getattr(field_list, 'append'), [Splice(k)])


@intrinsic
def _create(ip, self, pb):
    c = ctx()
    name = type(self)._comp
    if getattr(c, 'hostile', False):
        # arbitrary bits: the component raises or gives some value of its type
        if c.branch(z3.Bool('refuses_%s_%d' % (name, len(c.trace)))):
            raise PyExc(decoder.PerDecodingException('refused'))
        if isinstance(pb, PB):
            k = c.fresh('taken', True)
            c.assume(k <= z(width(pb.rest)))
            pb.rest, pb.pos = tuple(split(pb.rest, k)[1]), simp(z(pb.pos) + k)
        return make_value(type(self), PRESENT)
    places = [(k, t, w) for k, t, w in c.places if k[0] == name]
    if not places:
        raise ReadFail('component %s is decoded although it is not in the encoding' % name)
    k, tag, w = places[0]
    if len(places) > 1:
        c.places.remove(places[0])           # several components of one class: in order
    got = ip.call(ip.getattr(pb, 'next'), [], {'size': ip.call(encoder.bit_field_size, [], {'octets': 0, 'bits': mk_int(z(w))})})
    want = (O(k, 0, w, tag),)
    if isinstance(got, SInt) and got.bits is not None:
        p = got.bits
    elif isinstance(got, int):
        p = ()
        if got != 0:
            raise ReadFail('component %s read something else' % name)
        if not c.entails(z(w) == 0):
            raise ReadFail('component %s read something else' % name)
        p = want
    else:
        raise Unsupported('read result')
    for x in pieces_equal(p, want):
        if not c.entails(z3.Or(z(w) == 0, x)):
            raise ReadFail('component %s is read at a wrong position' % name)
    return make_value(type(self), k[1])


def comp_key(o):
    cls = type(o)
    v = value_of(o)
    if v is None:
        return None
    if getattr(cls, '_refuse', False):
        return ('refuse', v)
    return (cls._comp, v)


def value_of(o):
    """the number carried by a component object, or None"""
    if isinstance(o, builtin.IntegerType):
        return int(o) if o.isValue else None
    if isinstance(o, builtin.SequenceOfType):
        if o._componentValues is noValue or not o.isValue:
            return None
        return int(o[0]) if len(o) else 'empty'
    if isinstance(o, builtin.ChoiceType):
        try:
            return int(o.getComponent())
        except Exception:
            return None
    if isinstance(o, builtin.SequenceType):
        x = o.getComponentByName('x', default=None, instantiate=False) if o._componentValues is not noValue else None
        return int(x) if x is not None and x.isValue else None
    raise TypeError(type(o))


class XInt(builtin.IntegerType):
    pass


def comp_class(name, shape, refuse=False):
    """shape: s simple, q SEQUENCE OF, c SEQUENCE, h CHOICE"""
    ns = {'fill_field_list': _fill, 'create_field_list': _create, '_comp': name, '_refuse': refuse}
    if shape == 's':
        return type('K', (builtin.IntegerType,), ns)
    if shape == 'q':
        return type('K', (builtin.SequenceOfType,), dict(ns, componentType=XInt()))
    nt = AdditiveNamedTypes(NamedType('x', XInt()))
    if shape == 'c':
        return type('K', (builtin.SequenceType,), dict(ns, rootComponent=nt, componentType=nt))
    return type('K', (builtin.ChoiceType,), dict(ns, rootComponent=nt, componentType=nt))


def make_value(cls, v):
    if issubclass(cls, builtin.IntegerType):
        return cls(v)
    o = cls()
    if issubclass(cls, builtin.SequenceOfType):
        o.clear()
        if v != 'empty':
            o.extend([XInt(v)])
        return o
    o['x'] = XInt(v)
    return o


# ------------------------------------------------------------------ component lists
class C(object):
    """kind M/O/D, shape s/q/c/h, state 1 present, 0 not set, e set equal to the default / empty SEQUENCE OF, r refuses"""
    def __init__(self, name, prof):
        self.name, self.prof = name, prof
        self.kind, self.shape, self.state = prof[0], prof[1], prof[2]
        self.cls = comp_class(name, self.shape, self.state == 'r')
        self.default = make_value(self.cls, DEFAULT) if self.kind == 'D' else None

    def named(self):
        if self.kind == 'M':
            return NamedType(self.name, self.cls())
        if self.kind == 'O':
            return OptionalNamedType(self.name, self.cls())
        return DefaultedNamedType(self.name, self.default)

    @property
    def value(self):
        """the value set by the user, None when not set"""
        if self.state in ('1', 'r'):
            return PRESENT
        if self.state == 'e':
            return DEFAULT if self.kind == 'D' else 'empty'
        return None

    @property
    def present(self):
        return self.value is not None and not (self.kind == 'D' and self.value == DEFAULT)

    @property
    def specfields(self):
        return [Splice((self.name, self.value))] if self.present else []

    def spec(self):
        return ({'M': 'mandatory', 'O': 'optional', 'D': 'default'}[self.kind], self.present, self.specfields)


PROFILES = ['Ms1', 'Mc1', 'Mq1', 'Os1', 'Oq1', 'Oc1', 'Oh1', 'Oqe', 'Os0', 'Oq0', 'Oc0', 'Oh0', 'Ds1', 'Ds0', 'Dse', 'Dq1', 'Dqe', 'Dq0']


class Schema(object):
    """a SEQUENCE with the given component profiles; kept per process"""
    _cache = {}

    def __init__(self, ext, root, adds=(), groups=()):
        n = itertools.count()
        mk = lambda ps: [C('c%d' % next(n), p) for p in ps]
        self.ext = ext
        self.root, self.adds, self.groups = mk(root), mk(adds), [mk(g) for g in groups]
        ns = {'rootComponent': AdditiveNamedTypes(*[c.named() for c in self.root])}
        ct = ns['rootComponent']
        if ext:
            ns['subtypeSpec'] = ExtensionMarker(True)
        if self.adds:
            ns['extensionAddition'] = AdditiveNamedTypes(*[c.named() for c in self.adds])
            ct = ct + ns['extensionAddition']
        if self.groups:
            ns['extensionAdditionGroups'] = [AdditiveNamedTypes(*[c.named() for c in g]) for g in self.groups]
            ct = ct + ns['extensionAdditionGroups']
        ns['componentType'] = ct
        self.cls = type('S', (builtin.SequenceType,), ns)

    @classmethod
    def get(cls, *a):
        if a not in cls._cache:
            cls._cache[a] = cls(*a)
        return cls._cache[a]

    def all(self):
        return self.root + self.adds + [c for g in self.groups for c in g]

    def value(self):
        o = self.cls()
        for c in self.all():
            if c.value is not None:
                o[c.name] = make_value(c.cls, c.value)
        return o

    def spec_fields(self, ip):
        adds = [(c.present, c.specfields) for c in self.adds]
        for g in self.groups:
            if any(c.present for c in g):
                adds.append((True, spec_call(ip, x691.sequence_root, [c.spec() for c in g])))
            else:
                adds.append((False, []))
        return spec_call(ip, x691.sequence, self.ext, [c.spec() for c in self.root], adds)

    def refused(self):
        return any(c.state == 'r' and c.present for c in self.all())


def native_layout(ip, closure, args, kw):
    """contract of the oracle's layout() over field lists containing arbitrary parts"""
    fields, pos = args
    if not any(isinstance(f, Splice) for f in fields):
        return _MISSING
    c = ctx()
    out = []
    p = z(pos)
    for f in fields:
        if isinstance(f, Splice):
            x = f.piece(simp(p))
            note_place(x)
            out.append(x)
            p = p + z(x.w)
            continue
        aligned, b = f
        pc = as_pieces(b)
        w = width(pc)
        if ip.truth(aligned) and c.branch(z(w) > 0 if not isinstance(w, int) else w > 0):
            pad = simp((-p) % 8)
            out.append(B(0, pad))
            p = p + z(pad)
        out.extend(pc)
        p = p + z(w)
    return SStr(out) if out else ''


def note_place(x):
    c = ctx()
    if not hasattr(c, 'places'):
        c.places = []
    c.places.append((x.id, x.tag, x.w))


# ------------------------------------------------------------------ open types by contract
# encode_open_type_field, decode_open_type_field and skip_open_type_field are used by their contract once it has been proved
# from their source in the same run (jobs open_encode, open_decode, open_skip below); the oracle's open_type is summarised the
# same way.  An open type is then one aligned field of W > 0 bits, W a multiple of 8, standing for length and octets.
def open_key(ip, fields):
    """canonical description of a field list, or None when it has symbolic parts"""
    out = []
    for f in fields:
        if isinstance(f, Splice):
            out.append(('S',) + tuple(f.key))
            continue
        al, b = f
        if isinstance(b, SStr):
            b = engine.str_norm(b)
        if isinstance(al, SBool):
            return None
        if isinstance(b, SStr):
            if len(b.p) == 1 and isinstance(b.p[0], O) and isinstance(b.p[0].id, tuple) and b.p[0].id[0] == 'open' and b.p[0].off == 0:
                out.append(('O', b.p[0].id[1]))
                continue
            return None
        if b == '':
            continue
        if out and out[-1][0] == 'F' and not al:
            out[-1] = ('F', out[-1][1], out[-1][2] + b)
        else:
            out.append(('F', bool(al), b))
    if out and all(k[0] == 'S' for k in out) and not ctx().branch(z3.Or(*[Splice(k[1:]).nonempty() for k in out])):
        ctx().empty_parts = getattr(ctx(), 'empty_parts', []) + [k for k in out]
        out = []
    return tuple(out)


def open_fields(key):
    out = []
    for k in key or getattr(ctx(), 'empty_parts', []):
        if k[0] == 'S':
            out.append(Splice(k[1:]))
        elif k[0] == 'O':
            out.append(open_field(k[1]))
        else:
            out.append((k[1], k[2]))
    return out


def open_field(key):
    c = ctx()
    w = z3.Int('W_%s' % (key,))
    c.add(z3.And(w > 0, w % 8 == 0))
    return (True, SStr((O(('open', key), 0, w),)))


def open_fits(key):
    return z3.Bool('fits_%s' % (key,))


def c_encode_open(ip, closure, args, kw):
    t = args[0] if args else list(kw.values())[0]
    if len(args) + len(kw) != 1:
        return _MISSING
    fl = []
    ip.call(ip.getattr(t, 'fill_field_list'), [fl])
    k = open_key(ip, fl)
    if k is None:
        raise Beyond('symbolic fields in an open type')
    if not ctx().branch(open_fits(k)):
        raise PyExc(encoder.PerEncodingException('open type too long'))
    al, b = open_field(k)
    return [ip.call(encoder.bit_field, [], {'octet_align': al, 'value': b})]


def c_spec_open(ip, closure, args, kw):
    k = open_key(ip, args[0])
    if k is None:
        raise Beyond('symbolic fields in an open type')
    if not ctx().branch(open_fits(k)):
        raise PyExc(x691.Unsupported('length 16384 or more'))
    return [open_field(k)]


def take_open(ip, pb):
    """the key of the open type at the cursor; the cursor moves behind it"""
    c = ctx()
    pb.move(simp((-z(pb.pos)) % 8))
    while pb.rest and c.entails(z(pb.rest[0].w) == 0):
        pb.rest = pb.rest[1:]
    x = pb.rest[0] if pb.rest else None
    if x is None:
        raise PyExc(decoder.PerDecodingException('octets missing'))
    if not isinstance(x, O) or not isinstance(x.id, tuple) or x.id[0] != 'open' or not c.entails(z(x.off) == 0):
        raise ReadFail('an open type is read at a wrong position')
    full = open_field(x.id[1])[1].p[0]
    if not c.entails(z(x.w) == z(full.w)):
        if c.branch(z(x.w) < z(full.w)):
            raise PyExc(decoder.PerDecodingException('octets missing'))
    pb.rest, pb.pos = pb.rest[1:], simp(z(pb.pos) + z(x.w))
    return x.id[1]


def c_decode_open(ip, closure, args, kw):
    kw = dict(zip(('type', 'per_bytes'), args), **kw)
    if set(kw) != {'type', 'per_bytes'} or not isinstance(kw['per_bytes'], PB):
        return _MISSING
    k = take_open(ip, kw['per_bytes'])
    octets = as_pieces(spec_call(ip, x691.complete, open_fields(k)))
    return ip.call(ip.getattr(kw['type'], 'create_field_list'), [PB(octets, 0)])


def c_skip_open(ip, closure, args, kw):
    if len(args) != 1 or kw or not isinstance(args[0], PB):
        return _MISSING
    take_open(ip, args[0])


CONTRACTS = {'spec.x691:layout': native_layout}
OPEN_CONTRACTS = dict(CONTRACTS, **{'spec.x691:open_type': c_spec_open,
                                    'asn1PERser.codec.per.encoder:encode_open_type_field': c_encode_open,
                                    'asn1PERser.codec.per.decoder:decode_open_type_field': c_decode_open,
                                    'asn1PERser.codec.per.decoder:skip_open_type_field': c_skip_open})


def contracts(mode=None):
    return OPEN_CONTRACTS if mode == 'open' else CONTRACTS


class OpenHolder(Stub):
    """a value that consists of one open type"""
    real = object

    def __init__(self, t):
        self.t = t

    def cls_attr(self, ip, name):
        return _MISSING

    def py_getattr(self, ip, name):
        if name == 'fill_field_list':
            return Method(self.fill)
        raise Unsupported('attribute %s' % name)

    def fill(self, ip, field_list):
        r = ip.call(encoder.encode_open_type_field, [self.t])
        ip.call(ip.getattr(field_list, 'extend'), [r])


class OpenBody(Stub):
    """an arbitrary type: its fields are F; decoding records the cursor it is given"""
    def __init__(self):
        self.cursor, self.calls = None, 0

    def py_getattr(self, ip, name):
        if name == 'fill_field_list':
            return Method(self.fill)
        if name == 'create_field_list':
            return Method(self.create)
        raise Unsupported('attribute %s of the type inside an open type' % name)

    def fill(self, ip, field_list):
        self.calls += 1
        ip.call(ip.getattr(field_list, 'append'), [Splice(('F', 1))])

    def create(self, ip, pb):
        self.calls += 1
        self.cursor = pb
        return RESULT


class Marker(object):
    def __init__(self, name):
        self.name = name


RESULT = Marker('decoded value')


def open_encode():
    def f(ip, c):
        c.places = []
        c.witness['shape'] = ('open',)
        b = OpenBody()
        posts = encode_check(ip, c, OpenHolder(b), spec_call(ip, x691.open_type, [Splice(('F', 1))]))
        return posts + [('the type inside is asked for its fields once', b.calls == 1)]
    return f


def open_decode(mode='contract'):
    """outer cursor behind the open type; the type inside gets a new cursor over exactly its octets; its result is the result"""
    def f(ip, c):
        from .framing import graph, graph_equal, Script
        c.places = []
        c.witness['shape'] = ('open',)
        fs = [Splice(('F', 1))]
        want = spec_call(ip, x691.open_type, fs)
        if want is None:
            raise Infeasible()
        octets = spec_call(ip, x691.complete, fs)
        b = OpenBody()

        class T(Stub):
            def py_getattr(self, ip, name):
                return Method(lambda ip, pb: ip.call(decoder.decode_open_type_field, [b, pb]))
        posts = decode_check(ip, c, T(), want, lambda v: [('the result is the decoded value', v is RESULT and b.calls == 1)], mode)
        if b.cursor is None:
            return posts
        box = []
        ip.call(decoder.decode, [SBytes(as_pieces(octets)), Script(lambda ip, pb: box.append(graph(pb)))])
        return posts + [('the type inside reads exactly its octets', k) for k in graph_equal(graph(b.cursor), box[0])]
    return f


def open_skip(mode='contract'):
    def f(ip, c):
        c.places = []
        c.witness['shape'] = ('open',)
        want = spec_call(ip, x691.open_type, [Splice(('F', 1))])
        if want is None:
            raise Infeasible()

        class T(Stub):
            def py_getattr(self, ip, name):
                return Method(lambda ip, pb: ip.call(decoder.skip_open_type_field, [pb]))
        return decode_check(ip, c, T(), want, lambda v: [], mode)
    return f


OPEN_JOBS = [('open_encode', ()), ('open_decode', ()), ('open_skip', ())]


def place(c):
    p = sym(c, 'p', True)
    return p


def encode_check(ip, c, obj, fields, refused=False, post=None):
    """encode(prefix of p bits, obj) equals the oracle's complete encoding; obj is not changed"""
    p = place(c)
    pre = SStr((O('pre', 0, z(p)),))
    want = spec_call(ip, x691.complete, [(False, pre)] + fields) if fields is not None else None
    try:
        got = ip.call(encoder.encode, [HarnessEnc(z(p), obj)])
    except PyExc as e:
        if fields is None or refused:
            return [('refused', True)]
        return [('encode does not raise (%s: %s)' % (type(e.e).__name__, str(e.e)[:60]), False)]
    if fields is None or refused:
        return [('a value that cannot be encoded is refused', False)]
    if not isinstance(got, (bytes, SBytes)):
        return [('encode returns octets', False)]
    return [('encoding equals X.691 octets', x) for x in pieces_equal(as_pieces(got), as_pieces(want))] or [('empty', True)]


def decode_check(ip, c, schema, fields, check, mode='contract'):
    """decoding the oracle's bits at position p gives the value back and stands right behind them"""
    if mode in ('contract', 'open'):
        p = sym(c, 'p', True)
    else:
        a = sym(c, 'a', True)
        c.witness['r'] = mode
        p = mk_int(simp(8 * z(a) + mode))
    body = as_pieces(spec_call(ip, x691.layout, fields, p))
    q = c.fresh('q', True)
    stream = (O('pre', 0, z(p)),) + tuple(body) + (O('post', 0, q),)
    c.assume(z(width(stream)) % 8 == 0)
    c.assume(z(width(stream)) > 0)
    try:
        if mode in ('contract', 'open'):
            pb = PB(stream[1:], z(p))
            val = ip.call(ip.getattr(schema, 'create_field_list'), [pb])
            posts = [('cursor stands right behind the value', z(pb.pos) == z(p) + z(width(body))),
                     ('cursor stands right behind the value', z(width(pb.rest)) == q)]
        else:
            val, rest = ip.call(decoder.decode, [SBytes(stream), HarnessDec((a, mode), schema, q)])
            want = intof((O('post', 0, q),))
            posts = [('cursor stands right behind the value', z3.Or(q == 0, z(rest) == z(want)))]
    except ReadFail as e:
        return [(str(e), False)]
    return posts + check(val)


def same_value(o, v):
    try:
        return value_of(o) == v
    except Exception:
        return False


def seq_result(s, val):
    posts = []
    if not isinstance(val, s.cls):
        return [('decodes to a SEQUENCE of the type', False)]
    for c in s.all():
        x = val.getComponentByName(c.name, default=None, instantiate=False)
        if c.value is None or not c.present:
            if c.kind == 'D':
                ok = x is None or same_value(x, DEFAULT)
            else:
                ok = x is None or x is noValue or value_of(x) is None
            posts.append(('absent component %s stays absent' % c.name, ok))
        else:
            posts.append(('component %s has its value' % c.name, x is not None and isinstance(x, c.cls) and same_value(x, c.value)))
    return posts


def witness(c, *a):
    c.witness['shape'] = ('composite',) + a


def seq_encode(ext, root, adds=(), groups=(), mode=None):
    def f(ip, c):
        s = Schema.get(ext, root, adds, groups)
        witness(c, 'seq', ext, root, adds, groups)
        c.places = []
        return encode_check(ip, c, s.value(), s.spec_fields(ip), s.refused())
    return f


def seq_decode(ext, root, adds=(), groups=(), mode='contract'):
    def f(ip, c):
        s = Schema.get(ext, root, adds, groups)
        witness(c, 'seq', ext, root, adds, groups)
        c.places = []
        fields = s.spec_fields(ip)
        if fields is None:
            raise Infeasible()
        return decode_check(ip, c, s.cls(), fields, lambda v: seq_result(s, v), mode)
    return f


def skew_decode(root, wadds, wgroups, radds, rgroups, mode='contract'):
    """a message of schema W (root, wadds, wgroups) read with schema R: one is the other with additions cut off at the end"""
    def f(ip, c):
        w = Schema.get(True, root, wadds, wgroups)
        r = Schema.get(True, root, radds, rgroups)
        witness(c, 'skew', root, wadds, wgroups, radds, rgroups)
        c.places = []
        fields = w.spec_fields(ip)
        if fields is None:
            raise Infeasible()
        sent = {x.name: x for x in w.all()}

        def check(val):
            posts = []
            if not isinstance(val, r.cls):
                return [('decodes to a SEQUENCE of the type', False)]
            for k in r.all():
                x = val.getComponentByName(k.name, default=None, instantiate=False)
                s = sent.get(k.name)
                if s is not None and s.present:
                    posts.append(('known component %s has its value' % k.name, x is not None and isinstance(x, k.cls) and same_value(x, s.value)))
                elif k.kind == 'D':
                    posts.append(('component %s that was not sent is absent' % k.name, x is None or same_value(x, DEFAULT)))
                else:
                    posts.append(('component %s that was not sent is absent' % k.name, x is None or x is noValue or value_of(x) is None))
            return posts
        return decode_check(ip, c, r.cls(), fields, check, mode)
    return f


# ------------------------------------------------------------------ CHOICE
class ChoiceSchema(object):
    _cache = {}

    def __init__(self, ext, n_root, n_adds, groups, at, shape):
        cnt = itertools.count()

        def mk(n):
            out = []
            for _ in range(n):
                i = next(cnt)
                out.append(('c%d' % i, comp_class('c%d' % i, shape if i == at else 's')))
            return out
        self.root, self.adds, self.groups = mk(n_root), mk(n_adds), [mk(g) for g in groups]
        nt = lambda cs: AdditiveNamedTypes(*[NamedType(n, k()) for n, k in cs])
        ns = {'rootComponent': nt(self.root)}
        ct = ns['rootComponent']
        if ext:
            ns['subtypeSpec'] = ExtensionMarker(True)
        if self.adds:
            ns['extensionAddition'] = nt(self.adds)
            ct = ct + ns['extensionAddition']
        if self.groups:
            ns['extensionAdditionGroups'] = [nt(g) for g in self.groups]
            ct = ct + ns['extensionAdditionGroups']
        ns['componentType'] = ct
        self.ext, self.at = ext, at
        self.cls = type('H', (builtin.ChoiceType,), ns)
        self.all = self.root + self.adds + [x for g in self.groups for x in g]

    @classmethod
    def get(cls, *a):
        if a not in cls._cache:
            if len(cls._cache) > 50:
                cls._cache.clear()
            cls._cache[a] = cls(*a)
        return cls._cache[a]

    def value(self):
        o = self.cls()
        n, k = self.all[self.at]
        o[n] = make_value(k, PRESENT)
        return o

    def spec_fields(self, ip):
        n = self.all[self.at][0]
        body = [Splice((n, PRESENT))]
        add = self.at >= len(self.root)
        h = spec_call(ip, x691.choice_header, self.ext, add, self.at - len(self.root) if add else self.at, len(self.root))
        if add:
            body = spec_call(ip, x691.open_type, body)
        return None if body is None else list(h) + list(body)


def choice_encode(ext, n_root, n_adds, groups, at, shape, mode=None):
    def f(ip, c):
        s = ChoiceSchema.get(ext, n_root, n_adds, groups, at, shape)
        witness(c, 'choice', ext, n_root, n_adds, groups, at, shape)
        c.places = []
        return encode_check(ip, c, s.value(), s.spec_fields(ip))
    return f


def choice_decode(ext, n_root, n_adds, groups, at, shape, mode='contract'):
    def f(ip, c):
        s = ChoiceSchema.get(ext, n_root, n_adds, groups, at, shape)
        witness(c, 'choice', ext, n_root, n_adds, groups, at, shape)
        c.places = []
        fields = s.spec_fields(ip)
        if fields is None:
            raise Infeasible()
        n, k = s.all[at]

        def check(val):
            if not isinstance(val, s.cls):
                return [('decodes to a CHOICE of the type', False)]
            try:
                x = val.getComponent()
                ok = val.getName() == n and isinstance(x, k) and same_value(x, PRESENT)
            except Exception:
                ok = False
            return [('the same alternative with the same value', ok)]
        return decode_check(ip, c, s.cls(), fields, check, mode)
    return f


def multi(fn, many, mode='contract'):
    """several schemas in one proof job: the first decision of a path picks one"""
    def f(ip, c):
        i = c.choice(len(many))
        return globals()[fn](*many[i], mode=mode)(ip, c)
    return f
