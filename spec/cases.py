"""Concrete cases: replayable inputs for the real code, judged by the oracle.  A case is a literal tuple (kind, ...).
run(case) returns None when the property holds on it, else a description of what went wrong.  Used to replay
counterexamples, to search for failing inputs when an obligation is not discharged, and as a bounded cross-check."""
import ast
import random
import signal
import sys

from spec import model, x691

KINDS = {}
sys.set_int_max_str_digits(0)


class Hang(BaseException):
    pass


def kind(name):
    def d(f):
        KINDS[name] = f
        return f
    return d


def run(case, limit=20):
    def alarm(*a):
        raise Hang()
    try:
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(limit)
    except ValueError:
        old = None
    try:
        return KINDS[case[0]](*case[1:])
    except Hang:
        return 'did not finish within %d s' % limit
    except RecursionError:
        return 'recursion without end'
    finally:
        if old is not None:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)


def load(text):
    return ast.literal_eval(text)


# ------------------------------------------------------------------ simple value at a bit position
@kind('at')
def run_at(t, v, r, suffix):
    return model.check_at(t, v, r, suffix)


@kind('rt')
def run_rt(t, v):
    return model.check(t, v)


SIZES = [0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 20, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 255, 256, 257, 258, 300, 1000]
BIGS = [16382, 16383, 16384, 16385, 20000, 65534, 65535, 65536, 65537, 70000]


def _powers(rng):
    k = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 47, 48, 55, 56, 63, 64, 65, 72, 80, 127, 128])
    if rng.random() < .03:
        k = rng.choice([1015, 1016, 1017, 1023, 1024, 2040, 2048, 8 * 16383 - 1, 8 * 16383, 8 * 16384])
    if rng.random() < .3:
        k = rng.randint(0, 90)
    return 2 ** k + rng.choice([-2, -1, -1, 0, 0, 1, 2])


def gen_int(rng):
    ext = rng.random() < .35
    m = rng.random()
    lb = rng.choice([0, 0, 0, 1, -1, 5, 100, -128, -129, 255, rng.randint(-300, 300), _powers(rng), -_powers(rng)])
    if m < .12:
        t = ('int', ext and rng.random() < .5, None, None)
    elif m < .25:
        t = ('int', ext, lb, None)
    elif m < .35:
        t = ('int', ext, None, lb)
    else:
        span = rng.choice([0, 1, 2, 3, 4, 6, 7, 8, 14, 15, 16, 31, 63, 64, 127, 128, 253, 254, 255, 256, 257, 1000, 65534, 65535, 65536,
                           65537, 2 ** 24 - 1, 2 ** 24, rng.randint(0, 300), max(0, _powers(rng))])
        if span.bit_length() > 60000:
            span = 2 ** 24
        t = ('int', ext, lb, lb + span)
    lo, hi = t[2], t[3]
    for _ in range(60):
        base = rng.choice([b for b in (lo, hi, 0, lo) if b is not None])
        v = base + rng.choice([0, 0, 1, -1, 2, _powers(rng), -_powers(rng), rng.choice(SIZES), 65535, 65536, rng.randint(-70000, 70000)])
        if lo is not None and hi is not None and rng.random() < .4:
            v = rng.randint(lo, hi)
        if t[1] or x691.in_root(v, lo, hi):
            break
    else:
        v = lo if lo is not None else hi
    return ('at', t, v, rng.randint(0, 7), rng.choice(['', '1', '0', '10110', '1' * 17]))


def gen_str(k):
    def g(rng):
        ext = rng.random() < .35
        m = rng.random()
        big = rng.random() < .04
        size = lambda: rng.choice(BIGS if big and rng.random() < .7 else SIZES)
        lb = size()
        if m < .15:
            s = (False, None, None)
        elif m < .35:
            s = (ext, lb, lb)
        elif m < .5:
            s = (ext, lb, None)
        else:
            s = (ext, lb, lb + rng.choice(SIZES + (BIGS if big else [])))
        lo, hi = s[1] or 0, s[2]
        for _ in range(40):
            n = rng.choice([lo, lo + 1, lo + 2, hi if hi is not None else lo, (hi or lo) + 1, (hi or lo) - 1, max(lo - 1, 0), size(), rng.randint(0, 40), 0, 1, 2, 3, 16, 17])
            if n >= 0 and (s[0] or x691.in_root(n, s[1], s[2])):
                break
        else:
            n = lo
        if k == 'bits':
            z = rng.choice([0, 0, 1, 7, 8, 9, n])
            v = ('0' * min(z, n) + bin((1 << max(n - z, 0)) | rng.getrandbits(max(n - z, 0) or 1))[3:])[:n].ljust(n, rng.choice('01'))
        else:
            z = min(rng.choice([0, 0, 0, 1, 2, n]), n)
            v = bytes(z) + bytes(rng.choice([0, 1, 15, 16, 127, 128, 255, rng.randint(0, 255)]) for _ in range(min(n - z, 400))) + bytes(max(n - z - 400, 0))
        return ('at', (k,) + s, v, rng.randint(0, 7), rng.choice(['', '1', '0', '10110']))
    return g


gen_bits, gen_oct = gen_str('bits'), gen_str('oct')


def gen_bool(rng):
    return ('at', ('bool',), rng.random() < .5, rng.randint(0, 40), rng.choice(['', '1', '0', '10110']))


def enum_type(ext, n, a, rng=None):
    t = ('enum', ext, tuple('r%d' % i for i in range(n)), tuple('a%d' % i for i in range(a)))
    if rng is not None and rng.random() < .5:
        hi = rng.choice([n, n + 1, 2 * n + 3, 300 + n, 70000 + n])
        nums = rng.sample(range(-3 if rng.random() < .3 else 0, hi + 3), n)
        base = max(nums) + 1
        t = t + (tuple(nums) + tuple(base + rng.choice([0, 1]) + 2 * i for i in range(a)),)
    return t


def gen_enum(rng):
    ext = rng.random() < .6
    n = rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129] + ([255, 256, 257, 258, 300] if rng.random() < .3 else []))
    a = rng.choice([0, 1, 2, 3, 62, 63, 64, 65, 66, 70, 127, 130] + ([300] if rng.random() < .1 else [])) if ext else 0
    t = enum_type(ext, n, a, rng)
    v = rng.choice(t[2] + t[3])
    if rng.random() < .3:
        v = rng.choice([t[2][0], t[2][-1]] + ([t[3][0], t[3][-1]] if t[3] else []))
    if a > 62 and rng.random() < .4:
        v = t[3][min(rng.choice([62, 63, 64, 65]), a - 1)]
    return ('at', t, v, rng.randint(0, 7), rng.choice(['', '1', '0', '10110']))


# ------------------------------------------------------------------ inputs suggested by a solver model
def from_witness(w, rng):
    """concrete cases near a counterexample of a leaf obligation"""
    sh = w.get('shape')
    if not sh:
        return
    r = w.get('r', 0) or 0
    k = sh[0]
    if k == 'bool':
        yield ('at', ('bool',), bool(w.get('b')), r, '1')
        yield ('at', ('bool',), not w.get('b'), r, '1')
    elif k == 'int':
        lb, ub, v = w.get('lb'), w.get('ub'), w.get('v', 0)
        t = ('int', sh[1], lb if sh[2] else None, ub if sh[3] else None)
        for dv in (0, 1, -1, 2, -2, 255, 256, 65536):
            if t[1] or x691.in_root(v + dv, t[2], t[3]):
                for s in ('1', ''):
                    yield ('at', t, v + dv, r, s)
        for b in (t[2], t[3]):
            if b is not None:
                yield ('at', t, b, r, '1')
        if None not in (t[2], t[3]):
            for _ in range(200):
                x = rng.randint(t[2], t[3])
                yield ('at', t, x, r, '1')
                yield ('at', t, min(t[3], max(t[2], t[2] + _powers(rng))), r, '1')
    elif k in ('bits', 'oct'):
        n = w.get('n', 0)
        t = (k, sh[1], w.get('lb') if sh[2] else None, w.get('ub') if sh[3] else None)
        for m in (n, n + 1, n - 1, 0, 1):
            if 0 <= m <= 200000 and (t[1] or x691.in_root(m, t[2], t[3])):
                for pat in (0, 1, 2):
                    if k == 'bits':
                        v = ['0' * m, ('01' * m)[:m], ('1' * m)][pat]
                    else:
                        v = [bytes(m), (b'\x00\x0f\xf1\x80' * (m // 4 + 1))[:m], (b'\xff\x01\x00' * (m // 3 + 1))[:m]][pat]
                    for s in ('1', ''):
                        yield ('at', t, v, r, s)
    elif k == 'enum':
        n, a, i = w.get('n_root', 1), w.get('n_add', 0), w.get('i', 0)
        if n > 3000 or a > 3000:
            n, a = min(n, 300), min(a, 300)
        for j in (i, 0, 1, 63, 64, n - 1, a - 1):
            for rr in (None, rng, rng, rng):
                t = enum_type(sh[1], n, a if sh[1] else 0, rr)
                names = t[3] if sh[2] == 'add' else t[2]
                if 0 <= j < len(names):
                    yield ('at', t, names[j], r, '1')


def shrink(case, budget=300):
    """smaller failing case where possible"""
    if case[0] in ('schema', 'layout', 'compile_history'):
        from spec import cases_schema
        return cases_schema.shrink_case(case, run)
    if case[0] == 'at':
        t, v = model.shrink(case[1], case[2], lambda a, b: a[0] == case[1][0] and run(('at', a, b) + tuple(case[3:])) is not None, budget)
        return ('at', t, v) + tuple(case[3:])
    if case[0] == 'rt':
        t, v = model.shrink(case[1], case[2], lambda a, b: run(('rt', a, b)) is not None, budget)
        return ('rt', t, v)
    return case
