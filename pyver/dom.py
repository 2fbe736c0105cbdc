"""Symbolic domain of the verifier: path context (z3), mathematical integers, and bit strings as piece lists.

Integers are mathematical (Python ints are unbounded, so this is exact).  `bl` (bit length) and `pow2` are
uninterpreted functions constrained by ground instances of their defining facts (axioms below); everything else is
linear integer arithmetic.  A '0'/'1' string is a list of pieces: B(val, w) = val written in w binary digits
(0 <= val < 2**w is established when the piece is made), O(id, off, len) = digits [off, off+len) of an arbitrary
unknown string `id`.
"""
import time
import z3


class Unsupported(Exception):
    """the engine cannot represent this step (never reported as a violation)"""


class PyExc(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, e):
        Exception.__init__(self, repr(e))
        self.e = e


class Infeasible(Exception):
    pass


class Mismatch(Exception):
    """definite difference found while comparing two strings; .cond is a satisfiable witness condition"""
    def __init__(self, what, cond):
        Exception.__init__(self, what)
        self.cond = cond


I = z3.IntVal
_bl = z3.Function('bl', z3.IntSort(), z3.IntSort())
_p2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
KS = list(range(0, 18)) + [23, 24, 25, 31, 32, 33]


def z(x):
    if isinstance(x, bool):
        return I(1 if x else 0)
    if isinstance(x, int):
        return I(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, I(1), I(0))
    return x


def simp(t):
    if isinstance(t, int):
        return int(t)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def div(x, d):
    """x // d for a positive constant d, pulling out the addends that are multiples of d"""
    x = simp(x)
    if isinstance(x, int):
        return x // d
    adds = x.children() if z3.is_add(x) else [x]
    out, rest, const = [], [], 0
    for t in adds:
        if z3.is_int_value(t):
            const += t.as_long()
            continue
        k = 1
        u = t
        if z3.is_mul(t) and len(t.children()) == 2 and z3.is_int_value(t.arg(0)):
            k, u = t.arg(0).as_long(), t.arg(1)
        q, r = divmod(k, d)
        if q:
            out.append(u * q if q != 1 else u)
        if r:
            rest.append(u * r if r != 1 else u)
    q, const = divmod(const, d)
    e = I(q)
    for t in out:
        e = e + t
    if rest:
        y = z3.Sum(rest + [I(const)]) if const else (z3.Sum(rest) if len(rest) > 1 else rest[0])
        e = e + y / d
    return simp(e)


class SInt(object):
    __slots__ = ('t', 'bits')

    def __init__(self, t, bits=None):
        self.t = t
        self.bits = bits

    def __repr__(self):
        return 'SInt(%s)' % (self.t,)

    def __bool__(self):
        raise Unsupported('host truth test of a symbolic integer')

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('host comparison of a symbolic integer')

    def __index__(self):
        raise Unsupported('host use of a symbolic integer')


class SBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % (self.t,)

    def __bool__(self):
        raise Unsupported('host truth test of a symbolic boolean')

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('host comparison of a symbolic boolean')


def mk_int(t, bits=None):
    t = simp(t)
    if isinstance(t, int) and bits is None:
        return t
    return SInt(z(t), bits)


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


class SRat(object):
    """exact quotient n / d, d a positive constant (float division of lengths; rounding is an assumption)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d


class B(object):
    __slots__ = ('val', 'w')

    def __init__(self, val, w):
        self.val, self.w = val, w

    def __repr__(self):
        return 'B(%s:%s)' % (self.val, self.w)


class O(object):
    __slots__ = ('id', 'off', 'w', 'tag')

    def __init__(self, id, off, w, tag=None):
        self.id, self.off, self.w, self.tag = id, off, w, tag

    def __repr__(self):
        return 'O(%s[%s]%s)' % (self.id, self.w, '' if self.tag is None else '@%s' % self.tag)


class SStr(object):
    """text made of binary digits; strip: leading zeros removed (at least one digit kept)"""
    __slots__ = ('p', 'strip')

    def __init__(self, p, strip=False):
        self.p, self.strip = tuple(p), strip

    def __repr__(self):
        return 'SStr(%s%s)' % (list(self.p), ',strip' if self.strip else '')

    def __bool__(self):
        raise Unsupported('host truth test of a symbolic string')

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('host comparison of a symbolic string')


class SHex(SStr):
    """text made of hexadecimal digits of the bit pieces (length a multiple of 4)"""
    __slots__ = ()


class SBytes(SStr):
    __slots__ = ()


class SText(object):
    """concrete prefix followed by symbolic digits, e.g. '0b' + digits"""
    __slots__ = ('prefix', 's')

    def __init__(self, prefix, s):
        self.prefix, self.s = prefix, s


SYM = (SInt, SBool, SRat, SStr, SText)


def lit(s):
    """pieces of a concrete '0'/'1' string"""
    return (B(int(s, 2), len(s)),) if s else ()


class Ctx(object):
    """one execution path"""
    cur = None

    def __init__(self, prefix=(), stats=None, timeout=5000):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []          # (chosen, other_feasible)
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.n = 0
        self.bls = {}
        self.ints = {}
        self.p2s = {}
        self.stats = stats if stats is not None else {}
        self.assumed_unknown = False
        self.model = None
        self.notes = []
        Ctx.cur = self

    # --- solver
    def add(self, c):
        self.s.add(c)
        m = self.model
        if m is not None and not z3.is_true(m.eval(c, model_completion=True)):
            self.model = None

    def _chk(self, *cs):
        """satisfiability of the path condition with cs (a model at hand answers without the solver)"""
        m = self.model
        if m is not None and all(z3.is_true(m.eval(c, model_completion=True)) for c in cs):
            self.last = m
            return z3.sat
        t0 = time.time()
        self.s.push()
        for c in cs:
            self.s.add(c)
        r = self.s.check()
        self.last = None
        if r == z3.sat:
            self.last = self.s.model()
            self.model = self.last
        self.s.pop()
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t0
        return r

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        if isinstance(c, SBool):
            c = c.t
        self.add(c)

    def entails(self, c):
        c = c.t if isinstance(c, SBool) else c
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._chk(z3.Not(c)) == z3.unsat

    def feasible(self, c=True):
        if isinstance(c, bool):
            return c and self._chk() != z3.unsat
        return self._chk(c) != z3.unsat

    def branch(self, c):
        """decide a symbolic condition, forking the path"""
        c = c.t if isinstance(c, SBool) else c
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.trace.append((v, None))
            self.pos += 1
            self.add(c if v else z3.Not(c))
            return v
        self.pos += 1
        t = self._chk(c)
        f = self._chk(z3.Not(c))
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        if z3.unknown in (t, f):
            self.assumed_unknown = True
        if t == z3.unsat:
            self.trace.append((False, False))
            self.add(z3.Not(c))
            return False
        if f == z3.unsat:
            self.trace.append((True, False))
            self.add(c)
            return True
        self.trace.append((True, True))
        self.add(c)
        return True

    def choice(self, n):
        """nondeterministic choice of 0..n-1 (a fork that is not a condition)"""
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.trace.append((v, None))
                self.pos += 1
            else:
                v = True
                self.pos += 1
                self.trace.append((True, True))
            if v:
                return i
        return n - 1

    # --- terms
    def fresh(self, name, nonneg=False):
        self.n += 1
        v = z3.Int('%s!%d' % (name, self.n))
        if nonneg:
            self.add(v >= 0)
        return v

    def bl(self, x):
        """bit length of x >= 0"""
        x = simp(x)
        if isinstance(x, int):
            return x.bit_length()
        k = x.get_id()
        if k in self.bls:
            return self.bls[k][1]
        b = _bl(x)
        cs = [b >= 0]
        for e in KS:
            cs.append((x < 2 ** e) == (b <= e))
        for y, by in self.bls.values():
            cs.append(z3.Implies(z3.And(y >= 0, x <= y), b <= by))
            cs.append(z3.Implies(z3.And(y >= 0, y <= x), by <= b))
            cs.append(z3.Implies(z3.And(y >= 0, b < by), x < y))
            cs.append(z3.Implies(z3.And(y >= 0, by < b), y < x))
        for e, p in self.p2s.values():
            cs.append(z3.Implies(e >= 0, (x < p) == (b <= e)))
        self.add(z3.Implies(x >= 0, z3.And(cs)))
        self.bls[k] = (x, b)
        return b

    def pow2(self, e):
        e = simp(e)
        if isinstance(e, int):
            return 2 ** e
        k = e.get_id()
        if k in self.p2s:
            return self.p2s[k][1]
        p = _p2(e)
        cs = [p >= 1]
        for c in KS:
            cs.append((e <= c) == (p <= 2 ** c))
            cs.append((e >= c) == (p >= 2 ** c))
        for e2, p2 in self.p2s.values():
            g = [(e <= e2) == (p <= p2), (e < e2) == (p < p2), z3.Implies(e == e2 + 1, p == 2 * p2),
                 z3.Implies(e2 == e + 1, p2 == 2 * p)]
            cs.append(z3.Implies(e2 >= 0, z3.And(g)))
        self.add(z3.Implies(e >= 0, z3.And(cs)))
        for x, b in self.bls.values():
            self.add(z3.Implies(z3.And(e >= 0, x >= 0), (x < p) == (b <= e)))
        self.p2s[k] = (e, p)
        return p

    def fits(self, x, w):
        """condition: 0 <= x < 2**w (w >= 0)"""
        x, w = simp(x), simp(w)
        if isinstance(w, int):
            return z3.And(z(x) >= 0, z(x) < 2 ** w) if not isinstance(x, int) else (0 <= x < 2 ** w)
        if isinstance(x, int):
            return z(w) >= x.bit_length() if x >= 0 else False
        return z3.And(x >= 0, self.bl(x) <= w)

    def const(self, t):
        """concrete value of t if the path determines it, else None"""
        t = simp(t)
        if isinstance(t, int):
            return t
        if self._chk() != z3.sat:
            return None
        v = self.last.eval(t, model_completion=True)
        if not z3.is_int_value(v):
            return None
        v = v.as_long()
        return v if self.entails(t == v) else None


def ctx():
    return Ctx.cur


# ------------------------------------------------------------------ piece lists
def width(p):
    t = 0
    for x in p:
        t = t + x.w if not (isinstance(t, int) and t == 0) else x.w
    return simp(t) if not isinstance(t, int) else t


def is_zero(v):
    v = simp(v)
    return isinstance(v, int) and v == 0


def canon(p):
    """merge adjacent B pieces where the result is linear"""
    out = []
    c = ctx()
    for x in p:
        w = simp(x.w)
        if isinstance(w, int) and w == 0:
            continue
        if isinstance(x, O):
            if out and isinstance(out[-1], O) and out[-1].id == x.id and out[-1].tag is x.tag:
                a = out[-1]
                e = simp(a.off + a.w - x.off)
                if isinstance(e, int) and e == 0:
                    out[-1] = O(a.id, a.off, simp(a.w + w), a.tag)
                    continue
            out.append(O(x.id, x.off, w, x.tag))
            continue
        if out and isinstance(out[-1], B):
            a = out[-1]
            if is_zero(a.val):
                out[-1] = B(x.val, simp(z(a.w) + z(w)))
                continue
            if isinstance(w, int):
                out[-1] = B(simp(z(a.val) * (2 ** w) + z(x.val)), simp(z(a.w) + w))
                continue
        out.append(B(simp(x.val) if not isinstance(x.val, int) else x.val, w))
    return out


def cut(x, r):
    """split piece x after its first r digits (0 < r < width)"""
    c = ctx()
    r = simp(r)
    if isinstance(x, O):
        return O(x.id, x.off, r, x.tag), O(x.id, simp(z(x.off) + z(r)), simp(z(x.w) - z(r)), x.tag)
    if is_zero(x.val):
        return B(0, r), B(0, simp(z(x.w) - z(r)))
    lo_w = simp(z(x.w) - z(r))
    k = lo_w if isinstance(lo_w, int) else c.const(lo_w)
    if k is not None:
        v = z(x.val)
        return B(simp(v / (2 ** k)), r), B(simp(v % (2 ** k)), k)
    rk = r if isinstance(r, int) else c.const(r)
    if rk is not None and rk <= 2:
        hi, lo = c.fresh('hi', True), c.fresh('lo', True)
        p = c.pow2(lo_w)
        v = z(x.val)
        c.assume(z3.And(hi < 2 ** rk, c.fits(lo, lo_w), z3.Or([z3.And(hi == j, v == lo + j * p) for j in range(2 ** rk)])))
        return B(hi, rk), B(lo, lo_w)
    # leading zeros only?
    if c.entails(c.fits(x.val, lo_w)):
        return B(0, r), B(x.val, lo_w)
    raise Unsupported('cut of a symbolic-width number')


def split(p, at):
    """(p[:at], p[at:]) for 0 <= at <= width(p)"""
    c = ctx()
    left, right = [], list(p)
    at = simp(z(at))
    r = at
    while right:
        r = simp(r)
        if isinstance(r, int):
            if r <= 0:
                break
        elif c.entails(r <= 0):
            break
        x = right[0]
        d = simp(z(r) - z(x.w))
        if isinstance(d, int):
            whole = d >= 0
        else:
            whole = c.branch(d >= 0)
        if whole:
            left.append(right.pop(0))
            r = d
            continue
        if not isinstance(r, int):
            if c.branch(z(r) <= 0):
                break
        a, b = cut(x, r)
        left.append(a)
        right[0] = b
        break
    return left, right


def intof(p):
    """SInt value of the digits (empty is the caller's concern)"""
    c = ctx()
    q = canon(p)
    if len(q) > 1:
        q = canon([x for x in q if isinstance(simp(z(x.w)), int) or not c.entails(z(x.w) == 0)])
    if not q:
        return 0
    if len(q) == 1 and isinstance(q[0], B):
        if isinstance(q[0].val, int) and isinstance(q[0].w, int):
            return q[0].val
        return SInt(z(q[0].val), tuple(q))
    key = repr(q)
    v = c.ints.get(key)
    if v is None:
        v = c.fresh('int', True)
        c.ints[key] = v
        c.assume(c.fits(v, width(q)))
        if isinstance(q[0], B) and is_zero(q[0].val):
            c.assume(c.fits(v, width(q[1:])))
    return SInt(v, tuple(q))


def pieces_equal(p, q):
    """list of (condition) that must all hold for equality; raises Mismatch / Unsupported"""
    c = ctx()
    a, b = canon(p), canon(q)
    conds = []
    while a or b:
        if not a or not b:
            rest = a or b
            w = width(rest)
            conds.append(z(w) == 0)
            break
        x, y = a[0], b[0]
        d = simp(z(x.w) - z(y.w))
        if not (isinstance(d, int) and d == 0) and not c.entails(z(x.w) == z(y.w)):
            # try to drop empty pieces, then to align by splitting
            if c.entails(z(x.w) == 0):
                a.pop(0)
                continue
            if c.entails(z(y.w) == 0):
                b.pop(0)
                continue
            if isinstance(x, B) and isinstance(y, B):
                # merge followers when widths are determined
                if _merge_next(a) or _merge_next(b):
                    continue
            if c.entails(z(x.w) > z(y.w)):
                a[0:1] = list(cut(x, y.w))
                continue
            if c.entails(z(x.w) < z(y.w)):
                b[0:1] = list(cut(y, x.w))
                continue
            # undetermined: fork
            if c.branch(z(x.w) == z(y.w)):
                continue
            if c.branch(z(x.w) > z(y.w)):
                if c.branch(z(y.w) <= 0):
                    b.pop(0)
                    continue
                a[0:1] = list(cut(x, y.w))
            else:
                if c.branch(z(x.w) <= 0):
                    a.pop(0)
                    continue
                b[0:1] = list(cut(y, x.w))
            continue
        a.pop(0)
        b.pop(0)
        if isinstance(x, B) and isinstance(y, B):
            conds.append(z(x.val) == z(y.val))
        elif isinstance(x, O) and isinstance(y, O):
            if x.id != y.id:
                conds.append(z(x.w) == 0)
            else:
                same = z(x.off) == z(y.off)
                if x.tag is not None or y.tag is not None:
                    if x.tag is None or y.tag is None:
                        raise Unsupported('tag')
                    same = z3.And(same, z(x.tag) == z(y.tag))
                conds.append(z3.Or(z(x.w) == 0, same))
        else:
            conds.append(z(x.w) == 0)
    return conds


def _merge_next(a):
    """merge a[0] and a[1] when a[1]'s width is determined by the path"""
    c = ctx()
    if len(a) > 1 and isinstance(a[0], B) and isinstance(a[1], B):
        k = c.const(a[1].w)
        if k is not None:
            a[0:2] = [B(simp(z(a[0].val) * (2 ** k) + z(a[1].val)), simp(z(a[0].w) + k))]
            return True
    return False
