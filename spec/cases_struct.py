"""Concrete cases for the structured types, version skew, refusal, malformed input, histories, dictionaries, constraints."""
import itertools
import random

from spec import model, x691
from spec.cases import kind, KINDS, SIZES, run, gen_bool
from spec.model import (build, obj, plain, normal, oracle, valid, fields, to_bytes, gen_type, gen_value, gen_size, gen_n,
                        all_components, choice_type, strip, domain, _gen_comp)
from asn1PERser import encode, decode


# ------------------------------------------------------------------ structured round trips
def wrap_at(t, r, k):
    """SEQUENCE { r bits, t, k bits }: t at bit position r, followed by k bits (no bits of its own)"""
    root = []
    i = 0
    while r > 0:
        n = min(r, 16)
        root.append(('p%d' % i, 'mandatory', ('bits', False, n, n), None))
        r -= n
        i += 1
    root.append(('v', 'mandatory', t, None))
    if k:
        root.append(('s', 'mandatory', ('bits', False, k, k), None))
    return ('seq', False, tuple(root), (), ())


def wrap_value(w, v, rng):
    out = {}
    for name, _, t, _ in w[2]:
        out[name] = v if name == 'v' else ''.join(rng.choice('01') for _ in range(t[2]))
    return out


def placed(t, v, rng):
    """the type by itself, or inside something that moves it to another bit position and continues behind it"""
    if rng.random() < .5:
        return ('rt', t, v)
    w = wrap_at(t, rng.randint(0, 9), rng.choice([1, 3, 8, 13]))
    return ('rt', w, wrap_value(w, v, rng))


SIMPLE = [('bool',), ('int', False, 0, 7), ('int', False, 0, 255), ('int', False, 0, 256), ('int', False, None, None), ('int', False, 0, 70000),
          ('int', True, 1, 4), ('bits', False, 0, 20), ('bits', False, 3, 3), ('bits', False, None, None), ('oct', False, None, None),
          ('oct', False, 2, 2), ('oct', False, 0, 300), ('oct', False, 0, 3), ('bits', False, 24, 24), ('enum', False, ('r0', 'r1', 'r2'), ()), ('bits', False, 0, 0)]


def comp_type(rng, depth):
    if rng.random() < .5 or depth == 0:
        return rng.choice(SIMPLE)
    return gen_type(rng, depth, True)


def components(rng, n, cnt, depth=1, kinds=('mandatory', 'optional', 'optional', 'default')):
    out = []
    for _ in range(n):
        t = comp_type(rng, depth)
        k = rng.choice(kinds)
        d = None
        if k == 'default':
            if t[0] in ('seq', 'choice') or t[0] == 'seqof' and t[4][0] in ('seq', 'choice', 'seqof'):
                k = 'optional'
            else:
                d = gen_value(rng, t)
        out.append(('c%d' % next(cnt), k, t, d))
    return tuple(out)


def gen_seq_root(rng):
    cnt = itertools.count()
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 20]) if rng.random() < .3 else rng.choice([1, 2, 3, 4])
    t = ('seq', rng.random() < .2, components(rng, n, cnt, 2 if n < 5 else 0), (), ())
    return placed(t, gen_value(rng, t), rng)


def gen_seq_ext(rng):
    cnt = itertools.count()
    big = rng.random() < .15
    root = components(rng, rng.choice([0, 1, 2, 3]), cnt)
    adds = components(rng, rng.choice([0, 1, 2, 3, 4, 7, 8, 9] + ([60, 62, 63, 64] if big else [])), cnt, 0 if big else 1)
    groups = tuple(components(rng, rng.choice([1, 2, 3]), cnt, 0 if big else 1) for _ in range(rng.choice([0, 0, 1, 2, 3])))
    if len(adds) + len(groups) > 64:
        groups = ()
    t = ('seq', True, root, adds, groups)
    return placed(t, gen_value(rng, t), rng)


def gen_seqof(rng):
    s = gen_size(rng)
    if rng.random() < .3:
        lb = rng.choice(SIZES[:20])
        s = (rng.random() < .3, lb, lb + rng.choice([0, 0, 1, 2, 3, 4, 100, 254, 255, 256, 300]))
    ct = comp_type(rng, 1)
    if rng.random() < .4:
        ct = rng.choice(SIMPLE)
    t = ('seqof',) + s + (ct,)
    n = gen_n(rng, s, 8)
    if rng.random() < .15:
        ct = rng.choice([('bool',), ('int', False, 0, 300), ('bits', False, 5, 5)])
        t = ('seqof',) + s + (ct,)
        n = rng.choice([126, 127, 128, 129, 200, 255, 256, 257, 1000] + ([16383, 16384, 16385] if rng.random() < .2 else []))
        if not s[0] and not x691.in_root(n, s[1], s[2]):
            n = gen_n(rng, s, 8)
    elif n > 400:
        n = s[1] or 0
    return placed(t, [gen_value(rng, ct) for _ in range(n)], rng)


def gen_seqof_bad(rng):
    """counts outside SIZE must be refused"""
    lb = rng.choice([0, 1, 2, 3, 5, 8])
    ub = rng.choice([lb, lb + 1, lb + 2, lb + 3, lb + 5, None])
    ct = rng.choice([('bool',), ('int', False, 0, 255), ('oct', False, None, None)])
    n = rng.choice([lb - 1, lb - 2, 0] + ([ub + 1, ub + 2, ub + 10] if ub is not None else []))
    if n < 0 or x691.in_root(n, lb, ub):
        return None
    return ('encode-refused', ('seqof', False, lb, ub, ct), [gen_value(rng, ct) for _ in range(n)])


def gen_seqof_bad_decode(rng):
    """a coded count outside SIZE must be refused when decoding"""
    ct = rng.choice([('bool',), ('int', False, 0, 255), ('bits', False, 2, 2)])
    if rng.random() < .5:
        lb = rng.choice([0, 1, 2, 3])
        span = rng.choice([2, 4, 5, 6, 8, 9, 12])
        n = span + rng.choice([1, 2, 3])
        w = span.bit_length()
        if n >= 2 ** w:
            return None
        t = ('seqof', False, lb, lb + span, ct)
        bits = format(n, '0%db' % w)
    else:
        lb = rng.choice([1, 2, 3, 5])
        n = rng.randint(0, lb - 1)
        t = ('seqof', False, lb, None, ct)
        bits = format(n, '08b')
    bits += ''.join(rng.choice('01') for _ in range(8 * 40))
    bits += '0' * (-len(bits) % 8)
    return ('decode-refused', t, to_bytes(bits))


def gen_choice(rng):
    cnt = itertools.count()
    ext = rng.random() < .6
    big = rng.random() < .2
    mk = lambda n, d: tuple(('c%d' % next(cnt), comp_type(rng, d)) for _ in range(n))
    d = 0 if big else 1
    root = mk(rng.choice([1, 1, 2, 3, 4, 5, 8, 9] + ([16, 17, 64, 65, 255, 256, 257] if big else [])), d)
    adds = mk(rng.choice([0, 1, 2, 3] + ([63, 64, 65, 70, 127, 130, 256, 257] if big else [])), d) if ext else ()
    groups = tuple(mk(rng.choice([1, 2]), d) for _ in range(rng.choice([0, 0, 1, 2]))) if ext else ()
    t = ('choice', ext, root, adds, groups)
    cs = all_components(t)
    c = rng.choice(cs)
    if big and rng.random() < .5:
        c = cs[min(len(cs) - 1, max(0, len(root) + rng.choice([-1, 0, 62, 63, 64, 65, -2])))]
    return placed(t, (c[0], gen_value(rng, c[1])), rng)


# ------------------------------------------------------------------ version skew
@kind('skew')
def run_skew(tw, tr, v, prefix, suffix):
    """encode with schema tw, decode with schema tr (the versions differ in trailing additions), something following"""
    if not domain(tw, v):
        return None
    w, r = wrap_at(tw, len(prefix), len(suffix)), wrap_at(tr, len(prefix), len(suffix))
    val = {'v': v}
    i = 0
    for name, _, t, _ in w[2]:
        if name.startswith('p'):
            val[name] = prefix[i:i + t[2]]
            i += t[2]
    if suffix:
        val['s'] = suffix
    try:
        data = to_bytes(x691.complete(fields(w, val)))
    except x691.Unsupported:
        return None
    known = {c[0] for c in all_components(tr)}
    want = normal(r, dict(val, v={n: x for n, x in v.items() if n in known}))
    d = model.check_decode(r, data, want)
    if d is None:
        return None
    return 'message of the other version: ' + d


def gen_skew(rng):
    cnt = itertools.count()
    root = components(rng, rng.choice([0, 1, 2]), cnt, 0) or (('c%d' % next(cnt), 'mandatory', ('bool',), None),)
    root = (('m', 'mandatory', ('bool',), None),) + root
    adds = components(rng, rng.choice([0, 1, 2, 3, 4, 8, 9]), cnt, 1)
    groups = tuple(components(rng, rng.choice([1, 2]), cnt, 1) for _ in range(rng.choice([0, 0, 1, 2])))
    if not adds and not groups:
        return None
    new = ('seq', True, root, adds, groups)
    g = rng.randint(0, len(groups))
    old = ('seq', True, root, adds, groups[:g])
    if g == 0 and rng.random() < .6:
        old = ('seq', True, root, adds[:rng.randint(0, len(adds))], ())
    pre, suf = '1' * rng.choice([0, 0, 1, 3, 7, 8]), ''.join(rng.choice('01') for _ in range(rng.choice([1, 5, 8, 13])))
    if rng.random() < .7:
        return ('skew', new, old, gen_value(rng, new), pre, suf)
    return ('skew', old, new, gen_value(rng, old), pre, suf)


# ------------------------------------------------------------------ refusal
@kind('encode-refused')
def run_encode_refused(t, v):
    try:
        o = obj(t, v)
        got = encode(o)
    except Exception:
        return None
    return 'encoded as %s instead of being refused' % model.short(got)


@kind('decode-refused')
def run_decode_refused(t, data):
    try:
        d = decode(data, build(t)())
    except Exception:
        return None
    try:
        p = repr(plain(t, d))[:200]
    except Exception as e:
        p = 'an unusable value'
    return 'decode(%s) gave %s instead of raising' % (model.short(data), p)


def nest(t, v, rng):
    """t somewhere inside a structured type"""
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.choice(['seq', 'opt', 'ext', 'group', 'seqof', 'choice', 'choiceext'])
        m = ('m', 'mandatory', ('bool',), None)
        if k == 'seq':
            t, v = ('seq', False, (m, ('x', 'mandatory', t, None)), (), ()), {'m': True, 'x': v}
        elif k == 'opt':
            t, v = ('seq', False, (m, ('x', 'optional', t, None)), (), ()), {'m': True, 'x': v}
        elif k == 'ext':
            t, v = ('seq', True, (m,), (('x', rng.choice(['mandatory', 'optional']), t, None),), ()), {'m': True, 'x': v}
        elif k == 'group':
            t, v = ('seq', True, (m,), (), ((('x', 'mandatory', t, None),),)), {'m': True, 'x': v}
        elif k == 'seqof':
            t, v = ('seqof', False, None, None, t), [v]
        elif k == 'choice':
            t, v = ('choice', False, (('x', t), ('y', ('bool',))), (), ()), ('x', v)
        else:
            t, v = ('choice', True, (('y', ('bool',)),), (('x', t),), ()), ('x', v)
    return t, v


def gen_refuse(rng):
    """at and beyond the representable limits, in any position: the oracle decides whether it must be refused"""
    n = rng.choice([16383, 16384, 16384, 16385, 20000, 32768, 65535, 65536, 65537, 70000])
    k = rng.choice(['oct', 'bits', 'oct', 'bits', 'semi', 'adds', 'adds', 'open', 'open', 'enum'])
    if rng.random() < .08:
        k = rng.choice(['int', 'upper', 'seqof', 'seqof'])
    s = rng.choice([(False, None, None), (False, 0, None), (False, 3, None), (True, 0, 10), (False, 0, 65536), (False, 1, 70000), (False, 0, 65535), (True, 0, 65535),
                    (True, 1, None), (False, n, n), (True, n, n), (False, n, None)])
    if k in ('oct', 'bits', 'seqof') and not s[0] and not x691.in_root(n, s[1], s[2]):
        s = (False, None, None)
    if k == 'oct':
        t, v = ('oct',) + s, bytes([1, 2]) * (n // 2) + bytes(n % 2)
    elif k == 'bits':
        t, v = ('bits',) + s, '1' * n
    elif k == 'seqof':
        t, v = ('seqof',) + s + (('bool',),), [True] * n
    elif k == 'int':
        t = rng.choice([('int', False, None, None), ('int', True, 0, 5), ('int', False, None, 5)])
        e = 8 * rng.choice([16382, 16383, 16384, 16385]) - 1
        v = rng.choice([2 ** e, 2 ** e - 1, -2 ** e, -2 ** e - 1, 2 ** (e + 5)])
        if t[3] == 5 and not t[1]:
            v = -abs(v)
    elif k == 'semi':
        t, v = rng.choice([('int', False, 0, None), ('int', True, 0, None)]), 2 ** (8 * rng.choice([16383, 16384])) - rng.choice([0, 1])
    elif k == 'upper':
        t, v = ('int', False, None, 7), -2 ** (8 * 16384)
    elif k == 'adds':
        a = rng.choice([63, 64, 64, 65, 66, 70, 100])
        g = rng.choice([0, 0, 1, 2])
        adds = tuple(('a%d' % i, 'optional', ('bool',), None) for i in range(a - g))
        groups = tuple((('g%d' % i, 'optional', ('bool',), None),) for i in range(g))
        t = ('seq', True, (('m', 'mandatory', ('bool',), None),), adds, groups)
        names = [c[0] for c in all_components(t)[1:]]
        v = {x: True for x in rng.sample(names, rng.choice([0, 1, 1, 2, 5]))}
        v['m'] = True
    elif k == 'open':
        t = rng.choice([('choice', True, (('y', ('bool',)),), (('x', ('oct', False, 0, 65535)),), ()),
                        ('seq', True, (('m', 'mandatory', ('bool',), None),), (('x', 'optional', ('oct', False, 0, 65535), None),), ()),
                        ('seq', True, (('m', 'mandatory', ('bool',), None),), (), ((('x', 'optional', ('oct', False, 0, 65535), None),),))])
        b = bytes(rng.choice([16379, 16380, 16381, 16382, 16383, 16384, 20000]))
        v = ('x', b) if t[0] == 'choice' else {'m': False, 'x': b}
    else:
        a = rng.choice([64, 65, 70])
        t = ('enum', True, ('r0', 'r1'), tuple('a%d' % i for i in range(a)))
        v = 'a%d' % (a - 1)
    t, v = nest(t, v, rng)
    return ('rt', t, v)


def gen_refuse_decode(rng):
    """the coded forms of fragmentation (11 in the first two bits of a length) and of more than 64 additions"""
    k = rng.choice(['oct', 'bits', 'seqof', 'int', 'open', 'choice', 'adds'])
    tail = bytes(rng.choice([0, 1, 255, rng.randint(0, 255)]) for _ in range(rng.choice([0, 1, 5, 40])))
    frag = bytes([rng.choice([0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xFF, 0xD0, 0xE0])])
    if rng.random() < .3:
        tail = bytes(16384 * 2 + 40)
    if k == 'oct':
        t, d = rng.choice([('oct', False, None, None), ('oct', False, 3, None), ('oct', False, 0, 65536)]), frag + tail
        if rng.random() < .3:
            t, d = ('oct', True, 0, 3), b'\x80' + frag + tail
    elif k == 'bits':
        t, d = rng.choice([('bits', False, None, None), ('bits', False, 0, 65536)]), frag + tail
        if rng.random() < .3:
            t, d = ('bits', True, 0, 3), b'\x80' + frag + tail
    elif k == 'seqof':
        t, d = ('seqof', False, None, None, rng.choice([('bool',), ('int', False, 0, 255)])), frag + tail
        if rng.random() < .3:
            t, d = ('seqof', True, 0, 3, ('bool',)), b'\x80' + frag + tail
    elif k == 'int':
        t, d = rng.choice([('int', False, None, None), ('int', False, 0, None)]), frag + tail
    elif k == 'open':
        t, d = ('seq', True, (), (('x', 'optional', ('oct', False, None, None), None),), ()), bytes([0x80, 0x80]) + frag + tail
    elif k == 'choice':
        t, d = ('choice', True, (('y', ('bool',)),), (('x', ('oct', False, None, None)),), ()), bytes([0x80]) + frag + tail
    else:
        a = rng.choice([1, 3, 65])
        t = ('seq', True, (), tuple(('a%d' % i, 'optional', ('bool',), None) for i in range(a)), ())
        d = bytes([0xC0, rng.choice([65, 0, 1, 3, 200]), 0xff]) + tail
    return ('decode-refused', t, d)


# ------------------------------------------------------------------ malformed and truncated octets
def missing_mandatory(t, p):
    k = t[0]
    if k == 'seqof':
        return any(missing_mandatory(t[4], x) for x in p)
    if k == 'choice':
        return missing_mandatory(choice_type(t, p[0]), p[1])
    if k == 'seq':
        for c in t[2]:
            if c[1] == 'mandatory' and c[0] not in p and c[2][0] != 'seq':
                return True
        return any(missing_mandatory(c[2], p[c[0]]) for c in all_components(t) if c[0] in p)
    return False


@kind('octets')
def run_octets(t, data):
    try:
        d = decode(data, build(t)())
    except Exception:
        return None
    try:
        p = plain(t, d)
    except Exception as e:
        return 'decode(%s) gave an unusable value (%s: %s)' % (model.short(data), type(e).__name__, e)
    if not valid(t, p):
        return 'decode(%s) gave %s, which the type does not admit' % (model.short(data), repr(p)[:200])
    if missing_mandatory(t, p):
        return 'decode(%s) gave %s, without a mandatory component' % (model.short(data), repr(p)[:200])
    return None


@kind('prefix')
def run_prefix(t, v, n):
    data = oracle(t, v)[:n]
    try:
        d = decode(data, build(t)())
    except Exception:
        return None
    try:
        p = repr(plain(t, d))[:200]
    except Exception:
        p = 'an unusable value'
    return 'the first %d octets of %s decode to %s instead of being refused' % (n, model.short(oracle(t, v)), p)


def small_type(rng):
    r = rng.random()
    if r < .35:
        return gen_type(rng, 0)
    if r < .5:
        return rng.choice([('int', rng.random() < .3, 0, rng.choice([2, 4, 5, 10, 100, 200, 257, 1000, 40000, 70000, 2 ** 24, 2 ** 33])),
                           ('enum', rng.random() < .5, tuple('r%d' % i for i in range(rng.choice([3, 5, 6, 9, 17]))), ()),
                           ('oct', False, 2, rng.choice([4, 6, 9, 300])), ('bits', False, 1, rng.choice([3, 6, 12, 300])),
                           ('seqof', False, 1, rng.choice([3, 5, 6, 12]), ('bool',)),
                           ('choice', rng.random() < .5, tuple(('c%d' % i, ('bool',)) for i in range(rng.choice([3, 5, 6, 9]))), (), ())])
    return gen_type(rng, 2)


def gen_octets(rng):
    t = small_type(rng)
    m = rng.random()
    if m < .45:
        data = bytes(rng.choice([0, 1, 0x40, 0x80, 0xC0, 0xff, rng.randint(0, 255)]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 8, 20])))
    else:
        try:
            data = bytearray(oracle(t, gen_value(rng, t)))
        except x691.Unsupported:
            return None
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(len(data))
            data[i] = rng.choice([data[i] ^ (1 << rng.randint(0, 7)), 0, 255, data[i] | 0xC0])
        if rng.random() < .2:
            data = data[:rng.randint(0, len(data))]
        data = bytes(data)
    return ('octets', t, data)


def gen_prefix(rng):
    t = small_type(rng)
    v = gen_value(rng, t)
    try:
        f = x691.layout(fields(t, v), 0)
    except x691.Unsupported:
        return None
    n = (len(f) + 7) // 8
    if n == 0:
        return None
    return ('prefix', t, v, rng.choice([n - 1, n - 1, rng.randrange(n)]))


# ------------------------------------------------------------------ histories
def outcome(f):
    try:
        return ('ok', f())
    except Exception as e:
        return ('raised',)


@kind('history')
def run_history(items, ops):
    """shared schema objects, types and values; every call must behave as the oracle says, whatever came before"""
    if not all(domain(t, v) for t, v in items):
        return None
    vals, schemas = [], []
    for t, v in items:
        vals.append(obj(t, v))
        schemas.append(build(t)())
    for j, op in enumerate(ops):
        what, i = op[0], op[1]
        t, v = items[i]
        if what == 'encode':
            try:
                want = ('ok', oracle(t, v))
            except x691.Unsupported:
                want = ('raised',)
            got = outcome(lambda: encode(vals[i]))
        elif what in ('decode', 'decode-into'):      # 'decode-into': the value object itself is passed as the schema
            spec = schemas[i] if what == 'decode' else vals[i]
            if op[2] is None:
                try:
                    data = oracle(t, v)
                except x691.Unsupported:
                    continue
                want = ('ok', strip(t, normal(t, v)))
                got = outcome(lambda: strip(t, plain(t, decode(data, spec))))
            else:                                   # malformed: same as with a fresh schema object
                want = outcome(lambda: plain(t, decode(op[2], build(t)())))
                got = outcome(lambda: plain(t, decode(op[2], spec)))
        elif what == 'dict':
            if strip(t, normal(t, v)) != normal(t, v):
                continue
            want, got = ('ok', as_dict(t, v)), outcome(lambda: vals[i].to_dict())
            if got[0] == 'ok' and not same_dict(got[1], want[1]):
                return 'call %d (%s of value %d): dictionary %r, expected %r' % (j, what, i, got[1], want[1])
            continue
        if got != want:
            return 'call %d (%s of value %d) after %d others gave %s, alone %s' % (j, what, i, j, repr(got)[:300], repr(want)[:300])
    for i, (t, v) in enumerate(items):
        fresh = obj(t, v)
        if outcome(lambda: fresh == obj(t, v)) == ('ok', True):
            got = outcome(lambda: (vals[i] == fresh, fresh == vals[i]))
            if got != ('ok', (True, True)):
                return 'value %d compared with an equal one after the calls: %s' % (i, repr(got)[:200])
        shows = lambda o: outcome(lambda: (o.isValue, o.prettyPrint()))
        if shows(vals[i]) != shows(fresh):
            return 'value %d shows as %s after the calls instead of %s' % (i, repr(shows(vals[i]))[:200], repr(shows(fresh))[:200])
        if shows(schemas[i]) != shows(build(t)()):
            return 'schema object %d shows as %s after the calls' % (i, repr(shows(schemas[i]))[:200])
        try:
            p = plain(t, vals[i])
        except Exception as e:
            return 'value %d was made unusable by the calls (%s: %s)' % (i, type(e).__name__, e)
        if strip(t, p) != strip(t, normal(t, v)):
            return 'value %d was changed by the calls: %r instead of %r' % (i, p, normal(t, v))
    return None


def gen_history(rng):
    items = []
    n = rng.choice([1, 1, 2, 3])
    base = gen_type(rng, 2)
    for i in range(n):
        t = base if rng.random() < .6 else gen_type(rng, rng.choice([0, 1, 2]))
        if t[0] == 'seq' and rng.random() < .5:
            t, v = gen_seq_ext(rng)[1:]
        else:
            v = gen_value(rng, t)
        items.append((t, v))
    ops = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        i = rng.randrange(n)
        k = rng.choice(['encode', 'encode', 'decode', 'decode', 'dict', 'bad'])
        if k == 'bad':
            ops.append((rng.choice(['decode', 'decode-into']), i, bytes(rng.choice([0, 0x80, 0xff, rng.randint(0, 255)]) for _ in range(rng.choice([1, 2, 3, 6])))))
        elif k == 'decode':
            ops.append((rng.choice(['decode', 'decode-into']), i, None))
        else:
            ops.append((k, i))
    return ('history', tuple(items), tuple(ops))


# ------------------------------------------------------------------ dictionaries
def as_dict(t, v):
    k = t[0]
    if k in ('bool', 'int', 'enum'):
        return v
    if k == 'bits':
        return int(v, 2) if v else 0
    if k == 'oct':
        return v.hex()
    if k == 'seqof':
        return [as_dict(t[4], x) for x in v]
    if k == 'choice':
        return {v[0]: as_dict(choice_type(t, v[0]), v[1])}
    out = {}
    for c in all_components(t):
        if c[0] in v:
            out[c[0]] = as_dict(c[2], v[c[0]])
        elif c[1] == 'default':
            out[c[0]] = as_dict(c[2], c[3])
    return out


def same_dict(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same_dict(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same_dict(x, y) for x, y in zip(a, b))
    if isinstance(b, bool):
        return type(a) is bool and a == b
    if isinstance(b, int):
        return type(a) is int and a == b
    return isinstance(a, str) and str(a) == b


@kind('dict')
def run_dict(t, v):
    if not domain(t, v) or strip(t, normal(t, v)) != normal(t, v):
        return None                                  # outside the domain: a SEQUENCE component with nothing set
    want = as_dict(t, v)
    o = obj(t, v)
    try:
        got = o.to_dict()
    except Exception as e:
        return 'to_dict raised %s: %s' % (type(e).__name__, e)
    if not same_dict(got, want):
        return 'to_dict gave %s, expected %s' % (repr(got)[:400], repr(want)[:400])
    try:
        d = decode(oracle(t, v), build(t)())
    except Exception:
        return None
    try:
        got = d.to_dict()
    except Exception as e:
        return 'to_dict of the decoded value raised %s: %s' % (type(e).__name__, e)
    if not same_dict(got, want):
        return 'to_dict of the decoded value gave %s, expected %s' % (repr(got)[:400], repr(want)[:400])
    return None


def gen_dict(rng):
    t = gen_type(rng, rng.choice([0, 1, 2, 3]))
    if rng.random() < .3:
        return ('dict',) + gen_seq_ext(rng)[1:]
    return ('dict', t, gen_value(rng, t))


# ------------------------------------------------------------------ constraints
def con_build(s):
    C = model
    k, ext = s[0], s[1]
    if k == 'range':
        a = (C._lo(s[2]), C._hi(s[3]))
        return C.ValueRange(*a, extensionMarker=True) if ext else C.ValueRange(*a)
    if k == 'size':
        a = (C._lo(s[2]), C._hi(s[3]))
        return C.ValueSize(*a, extensionMarker=True) if ext else C.ValueSize(*a)
    if k == 'single':
        return C.SingleValue(ext, *s[2])
    return (C.ConstraintOr if k == 'or' else C.ConstraintAnd)(ext, *[con_build(x) for x in s[2]])


def con_admits(s, v):
    k = s[0]
    if s[1]:
        return True
    if k in ('range', 'size'):
        return x691.in_root(v, s[2], s[3])
    if k == 'single':
        return v in s[2]
    return (any if k == 'or' else all)(con_admits(x, v) for x in s[2])


def con_bounds(s):
    """least and greatest admitted value of the root (None: unbounded)"""
    k = s[0]
    if k == 'range':
        return s[2], s[3]
    if k == 'size':
        return (0 if s[2] is None else s[2]), s[3]
    if k == 'single':
        return min(s[2]), max(s[2])
    bs = [con_bounds(x) for x in s[2]]
    lo, hi = [b[0] for b in bs], [b[1] for b in bs]
    if k == 'or':
        return (None if None in lo else min(lo)), (None if None in hi else max(hi))
    lo, hi = [x for x in lo if x is not None], [x for x in hi if x is not None]
    lo, hi = (max(lo) if lo else None), (min(hi) if hi else None)
    root = (k, False, s[2])
    if lo is not None and hi is not None and hi - lo < 10000:         # exact: holes of single values
        vs = [v for v in range(lo, hi + 1) if con_admits(root, v)]
        if vs:
            return vs[0], vs[-1]
    return lo, hi


@kind('constraint')
def run_constraint(base, s, v):
    cls = {'int': model.IntegerType, 'oct': model.OctetStringType, 'bits': model.BitStringType}[base]
    try:
        T = type('T', (cls,), {'subtypeSpec': con_build(s)})
    except Exception as e:
        return 'the constraint cannot be made: %s: %s' % (type(e).__name__, e)
    raw = v if base == 'int' else bytes(v) if base == 'oct' else '1' * v
    ok = con_admits(s, v)
    try:
        o = T(binValue=raw) if base == 'bits' else T(raw)
        if not ok:
            return 'value (or length) %r is accepted although the constraint does not admit it' % v
    except Exception as e:
        if not ok:
            return None
        return 'admitted value (or length) %r is refused: %s: %s' % (v, type(e).__name__, str(e)[:100])
    lo, hi = con_bounds(s)
    f = {'int': lambda: x691.integer(v, s[1], lo, hi), 'oct': lambda: x691.string('0' * 8 * v, v, 2, s[1], lo, hi),
         'bits': lambda: x691.string('1' * v, v, 16, s[1], lo, hi)}[base]
    try:
        want = to_bytes(x691.complete(f()))
    except x691.Unsupported:
        return None
    try:
        got = encode(o)
    except Exception as e:
        return 'encode raised %s: %s' % (type(e).__name__, e)
    if got != want:
        return 'value %r is encoded as %s, with the bounds of the constraint (%s..%s) it is %s' % (v, model.short(got), lo, hi, model.short(want))
    return None


def gen_con(rng, size, depth=1):
    k = rng.choice(['range', 'range', 'single'] + (['or', 'or', 'and'] if depth else []))
    ext = rng.random() < .25 if depth else False
    n = lambda: rng.choice([0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 100, 255, 256, 257, 1000] if size else
                           [-5, -1, 0, 0, 1, 2, 3, 7, 8, 10, 100, 127, 128, 255, 256, 65535, 65536, 70000, -128, -129, -70000, 2 ** 24])
    if k == 'single' and not size:
        return ('single', ext, tuple(n() for _ in range(rng.choice([1, 2, 3, 5]))))
    if k in ('range', 'single'):
        lo = n()
        hi = lo + rng.choice([0, 0, 1, 2, 3, 6, 7, 8, 100, 254, 255, 256, 65534, 65535, 65536])
        if rng.random() < .3:
            lo, hi = rng.choice([(None, hi), (lo, None), (None, None)])
        return ('size' if size else 'range', ext, lo, hi)
    parts = tuple(gen_con(rng, size, 0) for _ in range(rng.choice([1, 2, 2, 3])))
    if k == 'and':
        parts = tuple(p for p in parts if p[0] != 'single') or (('size' if size else 'range', False, 0, 10),)
        lo = max([b for b in (con_bounds(p)[0] for p in parts) if b is not None] or [-10 ** 9])
        hi = min([b for b in (con_bounds(p)[1] for p in parts) if b is not None] or [10 ** 9])
        if lo > hi:
            return gen_con(rng, size, depth)
    return (k, ext, parts)


def gen_constraint(rng):
    base = rng.choice(['int', 'int', 'oct', 'bits'])
    s = gen_con(rng, base != 'int')

    def numbers(s):
        if s[0] in ('range', 'size'):
            return [x for x in s[2:4] if x is not None]
        if s[0] == 'single':
            return list(s[2])
        return [x for p in s[2] for x in numbers(p)]
    ns = numbers(s) or [0]
    v = rng.choice(ns) + rng.choice([0, 0, 1, -1, 1, -1, 2, -2, 10, -10])
    if rng.random() < .3:
        v = rng.randint(min(ns) - 3, max(ns) + 3)
    if base != 'int' and not 0 <= v <= 2000:
        return None
    if base != 'int' and s[0] == 'and' and False:
        return None
    return ('constraint', base, s, v)


# ------------------------------------------------------------------ inputs suggested by a solver model
def _profile(rng, name, prof):
    """component and value (or None) for a profile of contracts/composite.py"""
    kind_, shape, state = prof[0], prof[1], prof[2]
    it = rng.choice([('int', False, 0, 255), ('bool',), ('int', False, None, None)])
    if shape == 's':
        t = rng.choice(SIMPLE)
    elif shape == 'q':
        t = ('seqof', False, None, None, it)
    elif shape == 'c':
        t = ('seq', False, (('x', 'mandatory', it, None),), (), ())
    else:
        t = ('choice', False, (('x', it),), (), ())
    if state == 'r':
        t = ('oct', False, None, None)
        return (name, {'M': 'mandatory', 'O': 'optional', 'D': 'default'}[kind_], t, b'\x01' if kind_ == 'D' else None), bytes(16384)
    d = gen_value(rng, t) if kind_ == 'D' else None
    v = None
    if state == '1':
        for _ in range(20):
            v = gen_value(rng, t)
            if kind_ != 'D' or v != d:
                break
        if shape == 'q' and v == [] and kind_ != 'D':
            v = [gen_value(rng, it)]
    elif state == 'e':
        v = d if kind_ == 'D' else []
    return (name, {'M': 'mandatory', 'O': 'optional', 'D': 'default'}[kind_], t, d), v


def _schema(rng, ext, root, adds, groups):
    cnt = itertools.count()
    val = {}

    def part(ps):
        out = []
        for p in ps:
            c, v = _profile(rng, 'c%d' % next(cnt), p)
            if v is not None:
                val[c[0]] = v
            out.append(c)
        return tuple(out)
    t = ('seq', bool(ext), part(root), part(adds), tuple(part(g) for g in groups))
    return t, val


def _con_witness(w, sh, rng):
    num = lambda k, d=0: w.get(k) if isinstance(w.get(k), int) else d
    k = sh[1]
    v = num('v')
    if k == 'range':
        s = ('range', sh[2], num('lb') if sh[3] else None, num('ub') if sh[4] else None)
    elif k in ('size', 'seqofsize'):
        s = ('size', sh[2], num('lb') if sh[3] else None, num('ub') if sh[4] else None)
        v = num('n')
    elif k == 'single':
        s = ('single', sh[2], tuple(num('v%d' % i) for i in range(sh[3])))
    elif k in ('or', 'and'):
        s = (k, sh[2], tuple(('range', False, num('l%d' % i) if hl else None, num('u%d' % i) if hu else None) for i, (hl, hu) in enumerate(sh[3])))
    else:
        return
    bs = [x for x in con_bounds(s) if x is not None]
    for x in [v] + [b + d for b in bs for d in (-1, 0, 1)]:
        if s[0] == 'size':
            if 0 <= x <= 5000:
                yield ('constraint', 'oct', s, x)
                yield ('constraint', 'bits', s, x)
        else:
            yield ('constraint', 'int', s, x)


def _choice(rng, ext, nr, na, groups, at, shape):
    cnt = itertools.count()
    mk = lambda k: tuple(('c%d' % i, _profile(rng, 'x', 'M' + (shape if i == at else 's') + '1')[0][2]) for i in itertools.islice(cnt, k))
    t = ('choice', ext, mk(nr), mk(na), tuple(mk(g) for g in groups))
    c = all_components(t)[at]
    return t, (c[0], gen_value(rng, c[1]))


def _pure_witness(what, a, rng):
    op = None
    if what.startswith('history'):
        a, op = a[:-1], a[-1]
    if what in ('history', 'dict'):
        t, v = _schema(rng, *a)
    elif what.endswith('choice'):
        t, v = _choice(rng, *a)
    else:
        t = ('seqof', False, None, None, _profile(rng, 'x', 'M' + a[0] + '1')[0][2])
        v = [gen_value(rng, t[4]) for _ in range(a[1])]
    if op is None:
        yield ('dict', t, v)
        return
    if op.startswith('bad'):
        data = bytes(rng.choice([0, 0x40, 0x80, 0xff, rng.randint(0, 255)]) for _ in range(rng.choice([1, 2, 3, 6])))
        first = ('decode-into' if op == 'bad-into' else 'decode', 0, data)
    elif op.startswith('decode'):
        first = (op, 0, None)
    else:
        first = (op, 0)
    for later in (('encode', 0), ('decode', 0, None), ('decode-into', 0, None), ('dict', 0)):
        yield ('history', ((t, v),), (first, later))
    yield ('history', ((t, v),), (first, first))


def from_witness(w, rng):
    sh = w.get('shape')
    if not sh:
        return
    n = 30
    if sh[0] == 'composite' and sh[1] == 'seq':
        for _ in range(n):
            t, v = _schema(rng, *sh[2:6])
            yield ('rt', t, v)
            yield placed(t, v, rng)
    elif sh[0] == 'composite' and sh[1] == 'skew':
        root, wa, wg, ra, rg = sh[2:7]
        for _ in range(n):
            longer = len(wa) + len(wg) >= len(ra) + len(rg)
            st = rng.getstate()
            tw, vw = _schema(rng, True, root, wa, wg)
            rng.setstate(st)
            tr, vr = _schema(rng, True, root, ra, rg)
            for suf in ('1', '10110', '0' * 9):
                yield ('skew', tw, tr, vw, '', suf)
                yield ('skew', tw, tr, vw, '1' * rng.randint(1, 9), suf)
    elif sh[0] == 'composite' and sh[1] == 'choice':
        ext, nr, na, groups, at, shape = sh[2:8]
        for _ in range(n):
            cnt = itertools.count()
            mk = lambda k: tuple(('c%d' % i, _profile(rng, 'x', 'M' + (shape if i == at else 's') + '1')[0][2]) for i in itertools.islice(cnt, k))
            t = ('choice', ext, mk(nr), mk(na), tuple(mk(g) for g in groups))
            c = all_components(t)[at]
            v = (c[0], gen_value(rng, c[1]))
            yield ('rt', t, v)
            yield placed(t, v, rng)
    elif sh[0] == 'composite' and sh[1] in ('history', 'dict', 'history-choice', 'dict-choice', 'history-seqof', 'dict-seqof'):
        for _ in range(n):
            for c in _pure_witness(sh[1], sh[2:], rng):
                yield c
    elif sh[0] == 'con':
        for c in _con_witness(w, sh, rng):
            yield c
    elif sh[0] == 'dict':
        from spec import cases
        for c in cases.from_witness(dict(w, shape=sh[1:]), rng):
            if c[0] == 'at':
                yield ('dict', c[1], c[2])
    elif sh[0] == 'seqof':
        k = w.get('n', 0) or 0
        for m in sorted({k, k + 1, max(0, k - 1), 0, 1}):
            s = (sh[1], w.get('lb'), w.get('ub') if sh[2] else None)
            for ct in [('bool',), ('int', False, 0, 300), ('oct', False, None, None)] if m < 3000 else [('bool',)]:
                if m > 70000:
                    continue
                t = ('seqof',) + s + (ct,)
                v = [gen_value(rng, ct) for _ in range(m)]
                if s[0] or x691.in_root(m, s[1], s[2]):
                    yield placed(t, v, rng)
                else:
                    yield ('encode-refused', t, v)
    elif sh[0] == 'read':
        for al in (0, 1):
            big = [k + d for k in (w.get('bx'), w.get('ox'), 8 * (w.get('ox') or 0)) if isinstance(k, int) and 40 <= k < 60000 for d in (-1, 0, 1)]
            for x in list(range(0, 40)) + big:
                yield ('at', ('bits', False, x, x), ('10' * x)[:x] if al else '1' * x, w.get('r', 0) or 0, '1')
                yield ('at', ('bits', False, 0, max(300, x)), '1' * x, w.get('r', 0) or 0, '1')
                if x < 40 or x * 8 < 65536:
                    yield ('at', ('oct', False, 0, max(300, x)), b'\x5a' * x, w.get('r', 0) or 0, '1')
    elif sh[0] == 'open':
        for k in list(range(0, 6)) + [126, 127, 128, 129, 200, 16381, 16382, 16383, 16384]:
            t = ('seq', True, (('m', 'mandatory', ('bool',), None),), (('x', 'optional', ('oct', False, k, k), None), ('y', 'optional', ('bits', False, k, k), None)), ())
            yield ('rt', t, {'m': True, 'x': bytes([k % 256]) * k})
            yield ('rt', t, {'m': True, 'x': bytes([k % 256]) * k, 'y': '01' * (k // 2) + '1' * (k % 2)})
            yield ('skew', t, t[:3] + ((), ()), {'m': True, 'x': bytes([k % 256]) * k}, '', '101')
    elif sh[0] in ('int', 'bits', 'oct', 'enum', 'bool'):
        from spec import cases
        for c in cases.from_witness(w, rng):
            yield c
