"""Concrete ASN.1 schema model: type descriptors -> real asn1PERser classes, plain values <-> real objects, and
the X.691 oracle on plain values.  Used for replaying counterexamples, searching failing inputs and validating the
assumed contracts on pyasn1; never the deciding step of a proof.

Type descriptors (tuples):
  ('bool',) ('int', ext, lb, ub) ('bits', ext, lb, ub) ('oct', ext, lb, ub)
  ('enum', ext, (name,...), (addition,...)) optionally with a 5th item: the numbers of root + additions
  ('seq', ext, ((name, kind, type, default), ...), additions (same), groups ((same,...), ...))
  ('seqof', ext, lb, ub, type)
  ('choice', ext, ((name, type), ...), additions, groups)
Plain values: bool, int, '0101', bytes, name, dict, list, (name, value).
"""
import itertools
import os
import random
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')        # development only: the registered checks use /repo

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
for _p in ('/opt/venv/lib/python3.12/site-packages', REPO):
    if _p not in sys.path:
        sys.path.insert(0, _p)

from pyver import actions
actions.install()                      # parse actions can be interpreted (contracts.compiler)
from spec import x691
from pyasn1.type.namedtype import NamedType, OptionalNamedType, DefaultedNamedType
from pyasn1.type.namedval import NamedValues
import asn1PERser
from asn1PERser import encode, decode
from asn1PERser.classes.data.builtin import *
from asn1PERser.classes.types.type import AdditiveNamedTypes
from asn1PERser.classes.types.constraint import (MIN, MAX, NoConstraint, ExtensionMarker, SequenceOfValueSize,
                                                 ValueRange, SingleValue, ValueSize, ConstraintOr, ConstraintAnd)
import logging
logging.disable(logging.CRITICAL)

_cache = {}


def build(t):
    """the asn1PERser class for a descriptor"""
    k = repr(t)
    if k not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        _cache[k] = _build(t)
    return _cache[k]


def _lo(b):
    return MIN if b is None else b


def _hi(b):
    return MAX if b is None else b


def _build(t):
    k = t[0]
    if k == 'bool':
        return type('TBool', (BooleanType,), {})
    if k in ('int', 'bits', 'oct'):
        base = {'int': IntegerType, 'bits': BitStringType, 'oct': OctetStringType}[k]
        ns = {}
        _, ext, lb, ub = t
        if ext or lb is not None or ub is not None:
            C = ValueRange if k == 'int' else ValueSize
            ns['subtypeSpec'] = C(_lo(lb), _hi(ub), extensionMarker=True) if ext else C(_lo(lb), _hi(ub))
        return type('T' + k, (base,), ns)
    if k == 'enum':
        ext, root, adds = t[1:4]
        nums = t[4] if len(t) > 4 else tuple(range(len(root) + len(adds)))
        ns = {'enumerationRoot': NamedValues(*zip(root, nums))}
        if ext:
            ns['subtypeSpec'] = ExtensionMarker(True)
        if adds:
            ns['extensionAddition'] = NamedValues(*zip(adds, nums[len(root):]))
            ns['namedValues'] = ns['enumerationRoot'] + ns['extensionAddition']
        else:
            ns['namedValues'] = ns['enumerationRoot']
        return type('TEnum', (EnumeratedType,), ns)
    if k == 'seqof':
        _, ext, lb, ub, ct = t
        ns = {'componentType': build(ct)()}
        if ext or lb is not None or ub is not None:
            ns['subtypeSpec'] = (SequenceOfValueSize(_lo(lb), _hi(ub), extensionMarker=True) if ext
                                 else SequenceOfValueSize(_lo(lb), _hi(ub)))
        return type('TSeqOf', (SequenceOfType,), ns)
    if k in ('seq', 'choice'):
        _, ext, root, adds, groups = t
        mk = _named if k == 'seq' else (lambda c: NamedType(c[0], build(c[1])()))
        ns = {'rootComponent': AdditiveNamedTypes(*[mk(c) for c in root])}
        ct = ns['rootComponent']
        if ext:
            ns['subtypeSpec'] = ExtensionMarker(True)
        if adds:
            ns['extensionAddition'] = AdditiveNamedTypes(*[mk(c) for c in adds])
            ct = ct + ns['extensionAddition']
        if groups:
            ns['extensionAdditionGroups'] = [AdditiveNamedTypes(*[mk(c) for c in g]) for g in groups]
            ct = ct + ns['extensionAdditionGroups']
        ns['componentType'] = ct
        return type('TSeq' if k == 'seq' else 'TChoice', (SequenceType if k == 'seq' else ChoiceType,), ns)
    raise ValueError(k)


def _named(c):
    name, kind, t, d = c
    if kind == 'optional':
        return OptionalNamedType(name, build(t)())
    if kind == 'default':
        return DefaultedNamedType(name, obj(t, d))
    return NamedType(name, build(t)())


def obj(t, v):
    """real value object for plain value v of type t"""
    C = build(t)
    k = t[0]
    if k in ('bool', 'int', 'enum'):
        return C(v)
    if k == 'bits':
        return C(binValue=v)
    if k == 'oct':
        return C(v)
    if k == 'seqof':
        o = C()
        o.clear()
        o.extend([obj(t[4], x) for x in v])
        return o
    if k == 'choice':
        o = C()
        o[v[0]] = obj(choice_type(t, v[0]), v[1])
        return o
    if k == 'seq':
        o = C()
        for c in all_components(t):
            if c[0] in v:
                o[c[0]] = obj(c[2], v[c[0]])
        return o
    raise ValueError(k)


def all_components(t):
    return tuple(t[2]) + tuple(t[3]) + tuple(itertools.chain.from_iterable(t[4]))


def choice_type(t, name):
    for c in all_components(t):
        if c[0] == name:
            return c[1]
    raise KeyError(name)


def plain(t, o):
    """plain value of a real object (inverse of obj); absent defaults read as the default value"""
    k = t[0]
    if not isinstance(o, {'bool': BooleanType, 'int': IntegerType, 'enum': EnumeratedType, 'bits': BitStringType,
                          'oct': OctetStringType, 'seqof': SequenceOfType, 'seq': SequenceType,
                          'choice': ChoiceType}[k]):
        raise TypeError('wrong object kind %r for %s' % (type(o).__name__, k))
    if k == 'bool':
        return bool(o)
    if k == 'int':
        return int(o)
    if k == 'enum':
        return str(o.namedValues[int(o)])
    if k == 'bits':
        return ''.join(str(b) for b in o)
    if k == 'oct':
        return bytes(o)
    if k == 'seqof':
        return [plain(t[4], x) for x in o]
    if k == 'choice':
        return (o.getName(), plain(choice_type(t, o.getName()), o.getComponent()))
    out = {}
    for c in all_components(t):
        x = o.getComponentByName(c[0], default=None, instantiate=False)
        if x is None or not present(x):
            if c[1] == 'default':
                out[c[0]] = c[3]
            continue
        out[c[0]] = plain(c[2], x)
    return out


def present(x):
    from pyasn1.type.base import noValue
    if x is noValue or not x.isValue:
        return False
    return True


def fields(t, v):
    """X.691 fields of plain value v"""
    k = t[0]
    if k == 'bool':
        return x691.boolean(v)
    if k == 'int':
        return x691.integer(v, t[1], t[2], t[3])
    if k == 'bits':
        return x691.string(v, len(v), 16, t[1], t[2], t[3])
    if k == 'oct':
        return x691.string(''.join(format(b, '08b') for b in v), len(v), 2, t[1], t[2], t[3])
    if k == 'enum':
        root, adds = list(t[2]), list(t[3])
        if v in root:
            if len(t) > 4:
                nums = dict(zip(root, t[4]))
                root.sort(key=lambda n: nums[n])
            return x691.enumerated(True, root.index(v), len(root), t[1])
        return x691.enumerated(False, adds.index(v), len(root), t[1])
    if k == 'seqof':
        out = x691.sequence_of_header(len(v), t[1], t[2], t[3])
        for x in v:
            out = out + fields(t[4], x)
        return out
    if k == 'choice':
        name, x = v
        ct = choice_type(t, name)
        rn = [c[0] for c in t[2]]
        if name in rn:
            return x691.choice_header(t[1], False, rn.index(name), len(rn)) + fields(ct, x)
        an = [c[0] for c in tuple(t[3]) + tuple(itertools.chain.from_iterable(t[4]))]
        return x691.choice_header(t[1], True, an.index(name), len(rn)) + x691.open_type(fields(ct, x))
    if k == 'seq':
        comps = [_comp(c, v) for c in t[2]]
        adds = [_comp(c, v)[1:] for c in t[3]]
        for g in t[4]:
            cs = [_comp(c, v) for c in g]
            if any(p for _, p, _ in cs):
                adds.append((True, x691.sequence_root(cs)))
            else:
                adds.append((False, []))
        return x691.sequence(t[1], comps, adds)
    raise ValueError(k)


def _comp(c, v):
    name, kind, ct, d = c
    if kind == 'default':
        p = name in v and v[name] != d
    else:
        p = name in v
    return (kind, p, fields(ct, v[name]) if p else [])


def to_bytes(bits):
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def oracle(t, v):
    return to_bytes(x691.complete(fields(t, v)))


def normal(t, v):
    """value with defaulted components filled in (what decoding must give back)"""
    k = t[0]
    if k == 'seqof':
        return [normal(t[4], x) for x in v]
    if k == 'choice':
        return (v[0], normal(choice_type(t, v[0]), v[1]))
    if k == 'seq':
        out = {}
        for c in all_components(t):
            if c[0] in v:
                out[c[0]] = normal(c[2], v[c[0]])
            elif c[1] == 'default':
                out[c[0]] = c[3]
        return out
    return v


def strip(t, v):
    """a SEQUENCE component none of whose components is set (or differs from its default) cannot be told from one that
    is not set (DESIGN.md, domain): dropped for comparisons"""
    k = t[0]
    if k == 'seqof':
        return [strip(t[4], x) for x in v]
    if k == 'choice':
        return (v[0], strip(choice_type(t, v[0]), v[1]))
    if k == 'seq':
        out = {}
        for c in all_components(t):
            if c[0] in v:
                x = strip(c[2], v[c[0]])
                if c[2][0] == 'seq' and all(d[1] == 'default' and x[d[0]] == d[3] for d in all_components(c[2]) if d[0] in x):
                    continue
                out[c[0]] = x
        return out
    return v


def domain(t, v, top=True):
    """no SEQUENCE value with nothing set (or nothing different from its default) inside another value, except as a
    mandatory component of the outermost ones"""
    k = t[0]
    if k == 'seqof':
        return all(domain(t[4], x, False) for x in v)
    if k == 'choice':
        return domain(choice_type(t, v[0]), v[1], False)
    if k == 'seq':
        if not top and not any(c[0] in v and not (c[1] == 'default' and v[c[0]] == c[3]) for c in all_components(t)):
            return False
        root = {c[0] for c in t[2]}
        for c in all_components(t):
            if c[0] in v and not domain(c[2], v[c[0]], top and c[1] == 'mandatory' and c[0] in root):
                return False
            if c[1] == 'default' and not domain(c[2], c[3], False):
                return False
    return True


def valid(t, v):
    """does v satisfy t's constraints (an extensible constraint admits everything)"""
    k = t[0]
    if k == 'int':
        return t[1] or x691.in_root(v, t[2], t[3])
    if k in ('bits', 'oct'):
        return t[1] or x691.in_root(len(v), t[2], t[3])
    if k == 'enum':
        return v in t[2] or v in t[3]
    if k == 'seqof':
        return (t[1] or x691.in_root(len(v), t[2], t[3])) and all(valid(t[4], x) for x in v)
    if k == 'choice':
        return valid(choice_type(t, v[0]), v[1])
    if k == 'seq':
        return all(valid(c[2], v[c[0]]) for c in all_components(t) if c[0] in v)
    return True


# ---------------------------------------------------------------- random types and values
EDGE = [0, 1, 2, 3, 15, 16, 17, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 16383, 32767, 32768,
        65534, 65535, 65536, 65537, 2 ** 24 - 1, 2 ** 24, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64]


def gen_int_type(r):
    ext = r.random() < 0.3
    m = r.random()
    lb = r.choice([0, 0, 1, -1, -128, 5, 1000, -2 ** 31, r.choice(EDGE), -r.choice(EDGE)])
    if m < 0.15:
        return ('int', False, None, None)
    if m < 0.25:
        return ('int', ext, lb, None)
    if m < 0.32:
        return ('int', ext, None, lb)
    return ('int', ext, lb, lb + r.choice(EDGE + [4, 7, 8, 9, 31, 33]))


def near(r, x):
    return x + r.choice([-1, 0, 1, r.randint(-3, 3)])


def gen_int(r, t):
    _, ext, lb, ub = t
    for _ in range(50):
        base = r.choice([b for b in (lb, ub, 0, r.choice(EDGE), -r.choice(EDGE), 127, -128, 2 ** r.randint(0, 80),
                                     -2 ** r.randint(0, 80)) if b is not None])
        v = near(r, base)
        if lb is not None and ub is not None and r.random() < .5:
            v = r.randint(lb, ub)
            if r.random() < .5:
                v = min(max(lb + near(r, r.choice(EDGE)), lb), ub)
        if ext or x691.in_root(v, lb, ub):
            return v
    return lb if lb is not None else ub


def gen_size(r, big=False):
    ext = r.random() < 0.3
    m = r.random()
    if m < 0.15:
        return (False, None, None)
    lb = r.choice([0, 0, 1, 2, 3, 5, 8, 16, 17, 20])
    if m < 0.3:
        return (ext, lb, lb)
    if m < 0.4:
        return (ext, lb, None)
    return (ext, lb, lb + r.choice([1, 2, 3, 5, 14, 16, 100, 254, 255, 256, 300, 65534 - lb, 65535 - lb, 65536 - lb, 70000]))


def gen_n(r, s, cap=40):
    ext, lb, ub = s
    lo = lb if lb is not None else 0
    c = [lo, lo + 1, lo + 2, r.randint(0, cap), 0, 1, 16, 17, 3, 2]
    if ub is not None and ub < cap * 8:
        c += [ub, ub - 1, ub + 1, ub + 2]
    if r.random() < 0.05:
        c += [127, 128, 129, 200, 300]
    c = [n for n in c if n >= 0 and (ext or x691.in_root(n, lb, ub))]
    return r.choice(c)


def gen_type(r, depth=2, nested=False):
    k = r.choice(['bool', 'int', 'int', 'enum', 'bits', 'oct'] + (['seq', 'seq', 'seqof', 'choice'] * 2 if depth else []))
    if k == 'bool':
        return ('bool',)
    if k == 'int':
        return gen_int_type(r)
    if k in ('bits', 'oct'):
        return (k,) + gen_size(r)
    if k == 'enum':
        ext = r.random() < .4
        n = r.choice([1, 2, 3, 4, 5, 17])
        a = r.choice([0, 1, 3, 70]) if ext else 0
        t = ('enum', ext, tuple('r%d' % i for i in range(n)), tuple('a%d' % i for i in range(a)))
        if r.random() < .2:
            nums = r.sample(range(0, 3 * n + 5), n)
            base = max(nums) + 1
            t = t + (tuple(nums) + tuple(base + 2 * i for i in range(a)),)
        return t
    if k == 'seqof':
        s = gen_size(r)
        return ('seqof',) + s + (gen_type(r, depth - 1),)
    if k == 'choice':
        ext = r.random() < .5
        cnt = itertools.count()
        mk = lambda n: tuple(('c%d' % next(cnt), gen_type(r, depth - 1)) for _ in range(n))
        root = mk(r.choice([1, 2, 3, 5]))
        adds = mk(r.choice([0, 1, 2])) if ext else ()
        groups = tuple(mk(r.choice([1, 2])) for _ in range(r.choice([0, 0, 1, 2]))) if ext else ()
        return ('choice', ext, root, adds, groups)
    ext = r.random() < .5
    cnt = itertools.count()

    def mk(n, dflt=True):
        out = []
        for _ in range(n):
            ct = gen_type(r, depth - 1, True)
            kind = r.choice(['mandatory', 'optional', 'optional', 'default'])
            if nested and not out and first[0]:
                kind, first[0] = 'mandatory', False
            d = None
            if kind == 'default':
                if not dflt or ct[0] in ('seq', 'seqof', 'choice'):
                    kind = 'optional'
                else:
                    d = gen_value(r, ct)
            out.append(('c%d' % next(cnt), kind, ct, d))
        return tuple(out)
    # a SEQUENCE component without any component set cannot be told from an absent one in pyasn1 (DESIGN.md,
    # domain): SEQUENCEs inside SEQUENCEs have a mandatory component
    first = [True]
    root = mk(r.choice([1, 2, 3, 4] if nested else [0, 1, 2, 3, 4]))
    adds = mk(r.choice([0, 1, 2, 3])) if ext else ()
    groups = tuple(mk(r.choice([1, 2, 3]), True) for _ in range(r.choice([0, 0, 1, 2]))) if ext else ()
    return ('seq', ext, root, adds, groups)


def gen_value(r, t):
    k = t[0]
    if k == 'bool':
        return r.random() < .5
    if k == 'int':
        return gen_int(r, t)
    if k == 'bits':
        n = gen_n(r, t[1:4])
        return ''.join(r.choice(['0', '1'] if r.random() < .9 else ['0']) for _ in range(n)) if r.random() < .8 else '0' * n
    if k == 'oct':
        n = gen_n(r, t[1:4])
        return bytes(r.choice([0, 0, 1, 15, 16, 127, 128, 255, r.randint(0, 255)]) for _ in range(n))
    if k == 'enum':
        return r.choice(t[2] + t[3])
    if k == 'seqof':
        n = gen_n(r, t[1:4], cap=6)
        if n > 60 and t[4][0] in ('seq', 'seqof', 'choice'):
            n = t[2] if t[2] is not None else 0
        return [gen_value(r, t[4]) for _ in range(n)]
    if k == 'choice':
        c = r.choice(all_components(t))
        return (c[0], gen_value(r, c[1]))
    v = {}
    for c in t[2]:
        _gen_comp(r, v, c)
    live = True
    for c in t[3]:
        if live and r.random() < .6:
            v[c[0]] = gen_value(r, c[2])
        elif c[1] == 'mandatory':
            live = False
    for g in t[4]:
        if live and r.random() < .6:
            for c in g:
                _gen_comp(r, v, c)
        elif any(c[1] == 'mandatory' for c in g):
            live = False
    return v


def _gen_comp(r, v, c):
    name, kind, ct, d = c
    if kind == 'mandatory' or r.random() < .55:
        if kind == 'default' and r.random() < .4:
            v[name] = d
        else:
            v[name] = gen_value(r, ct)


def check(t, v):
    """None if encode conforms to the oracle and decode gives the value back; else a description"""
    if not domain(t, v):
        return None
    try:
        want = oracle(t, v)
    except x691.Unsupported:
        try:
            got = encode(obj(t, v))
        except Exception:
            return None
        return 'value needing fragmentation was encoded as %s instead of being refused' % short(got)
    try:
        o = obj(t, v)
        got = encode(o)
    except Exception as e:
        return 'encode raised %s: %s (expected %s)' % (type(e).__name__, e, short(want))
    if got != want:
        return 'encoded %s, X.691 says %s' % (short(got), short(want))
    return check_decode(t, want, normal(t, v))


def check_decode(t, data, want):
    try:
        d = decode(data, build(t)())
    except Exception as e:
        return 'decode(%s) raised %s: %s' % (short(data), type(e).__name__, e)
    try:
        p = plain(t, d)
    except Exception as e:
        return 'decode(%s) gave an unusable value (%s: %s)' % (short(data), type(e).__name__, e)
    if strip(t, p) != strip(t, want):
        return 'decode(%s) gave %s, expected %s' % (short(data), repr(p)[:300], repr(want)[:300])
    return None


# ---------------------------------------------------------------- shrinking of failing (type, value) pairs
def _shrinks(t, v):
    k = t[0]
    if k != 'bool':
        yield ('bool',), True
    if k == 'seq':
        root, adds, groups = t[2], t[3], t[4]
        for c in all_components(t):
            if c[0] in v:
                yield c[2], v[c[0]]
            drop = lambda cs: tuple(x for x in cs if x[0] != c[0])
            g2 = tuple(g for g in (drop(g) for g in groups) if g)
            yield ('seq', t[1], drop(root), drop(adds), g2), {n: x for n, x in v.items() if n != c[0]}
        for c in all_components(t):
            def sub(cs, nt, nd):
                return tuple((x[0], x[1], nt, nd) if x[0] == c[0] else x for x in cs)
            if c[0] in v and c[1] != 'default':
                for nt, nv in _shrinks(c[2], v[c[0]]):
                    yield (('seq', t[1], sub(root, nt, None), sub(adds, nt, None), tuple(sub(g, nt, None) for g in groups)),
                           dict(v, **{c[0]: nv}))
            elif c[0] not in v and c[1] != 'default' and c[2] != ('bool',):
                nt = ('bool',)
                yield (('seq', t[1], sub(root, nt, None), sub(adds, nt, None), tuple(sub(g, nt, None) for g in groups)), v)
            if c[1] == 'default' and c[0] in v:
                yield t, {n: x for n, x in v.items() if n != c[0]}
    elif k == 'choice':
        yield choice_type(t, v[0]), v[1]
        for c in all_components(t):
            if c[0] != v[0]:
                drop = lambda cs: tuple(x for x in cs if x[0] != c[0])
                if drop(t[2]):
                    yield ('choice', t[1], drop(t[2]), drop(t[3]), tuple(g for g in (drop(g) for g in t[4]) if g)), v
        for nt, nv in _shrinks(choice_type(t, v[0]), v[1]):
            sub = lambda cs: tuple((x[0], nt) if x[0] == v[0] else x for x in cs)
            yield ('choice', t[1], sub(t[2]), sub(t[3]), tuple(sub(g) for g in t[4])), (v[0], nv)
    elif k == 'seqof':
        for i in range(len(v)):
            yield t, v[:i] + v[i + 1:]
            yield t[4], v[i]
        if t[4] != ('bool',):
            yield t[:4] + (('bool',),), [True for _ in v]
    elif k in ('bits', 'oct'):
        if len(v) > 1:
            yield t, v[:len(v) // 2]
            yield t, v[:-1]
        if t[1]:
            yield (k, False) + t[2:], v
        if t[2] is not None or t[3] is not None:
            yield (k, False, None, None), v
    elif k == 'int':
        if t[1]:
            yield ('int', False) + t[2:], v
        if v not in (0, 1):
            yield t, 0
            yield t, v // 2
        if t[2:] != (None, None):
            yield ('int', False, None, None), v
    elif k == 'enum' and len(t) > 4:
        yield t[:4], v


def shrink(t, v, pred, budget=400):
    """smallest (t, v) reachable for which pred(t, v) still holds"""
    progress = True
    while progress and budget > 0:
        progress = False
        for nt, nv in _shrinks(t, v):
            budget -= 1
            if budget <= 0:
                break
            try:
                ok = (nt, nv) != (t, v) and valid(nt, nv) and pred(nt, nv)
            except Exception:
                ok = False
            if ok:
                t, v = nt, nv
                progress = True
                break
    return t, v


# ---------------------------------------------------------------- one simple value at an arbitrary bit position
def check_at(t, v, r=0, suffix='1'):
    """like check, but the value starts at bit position r and is followed by `suffix`: inside a SEQUENCE whose other
    components are fixed-size bit strings of at most 16 bits (which are just their bits)"""
    root, val = [], {}
    pre = ('10110011' * (r // 8 + 1))[:r]
    for i in range(0, len(pre), 16):
        x = pre[i:i + 16]
        root.append(('p%d' % i, 'mandatory', ('bits', False, len(x), len(x)), None))
        val['p%d' % i] = x
    root.append(('v', 'mandatory', t, None))
    val['v'] = v
    for i in range(0, len(suffix), 16):
        x = suffix[i:i + 16]
        root.append(('s%d' % i, 'mandatory', ('bits', False, len(x), len(x)), None))
        val['s%d' % i] = x
    d = check(('seq', False, tuple(root), (), ()), val)
    return None if d is None else 'at bit %d: %s' % (r, d)


def short(b):
    h = b.hex()
    return h if len(h) <= 120 else '%s...(%d octets)' % (h[:100], len(b))
