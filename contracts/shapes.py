"""Shapes of modules for the compiler obligations: lists of (generic module, names that may be Python keywords).  Names and numbers are
atoms (arbitrary); what is enumerated here is only the shape."""
import itertools


def low(i):
    return 'zq%02d-xqz' % i


def up(i):
    return 'Zq%02d-xqz' % i


class N:
    """fresh names and numbers of one module"""
    def __init__(self):
        self.i, self.k, self.h = 0, 0, 0
        self.extra = []

    def t(self):
        self.i += 1
        return up(self.i)

    def v(self):
        self.i += 1
        return low(self.i)

    def n(self, neg=False):
        self.k += 1
        return ('-' if neg else '') + '77%06d77' % self.k

    def hex(self):
        self.h += 1
        return 'ABCDEF%02dFEDCBA' % self.h

    def ref(self, alias=False, neg=False):
        """a value reference, its definition added to the module"""
        v = self.v()
        T = ('int', None)
        if alias:
            t = self.t()
            self.extra.append(('type', t, ('int', None)))
            T = ('ref', t)
        self.extra.append(('value', v, T, ('n', self.n(neg))))
        return v

    def type(self, T):
        t = self.t()
        self.extra.append(('type', t, T))
        return ('ref', t)


ENDS = ('none', 'num', 'neg', 'ref', 'aref')


def end(x, k):
    return None if k == 'none' else x.n() if k == 'num' else x.n(True) if k == 'neg' else x.ref(k == 'aref')


def constraint(x, lo, hi, fl):
    if 's' in fl:
        return (end(x, lo), None, fl)
    return (end(x, lo), end(x, hi), fl)


def constraint_specs(size, refs=('ref', 'aref')):
    """(lo, hi, flags)"""
    ends = ('none', 'num') + (() if size else ('neg',)) + refs
    exts = ('', 'e', 'ea', 'eo') if size else ('', 'e', 'ea')
    out = []
    for lo in ends:
        for e in exts:
            if lo != 'none':
                out.append((lo, 'none', 's' + e))
            for hi in ends:
                for op in ('', '<', '>', '<>'):
                    if '<' in op and lo == 'none' or '>' in op and hi == 'none':
                        continue
                    if lo == 'none' and hi == 'none' and size:
                        continue
                    out.append((lo, hi, op + e))
    return out


HOSTS = ('int', 'bits', 'oct', 'seqof')
CONTEXTS = ('comp', 'opt', 'alt', 'add', 'group', 'elem', 'alias', 'nested', 'inchoice')


def place(x, T, ctx):
    """a module with T in a context; returns assignments (in order)"""
    if ctx == 'top':
        return [('type', x.t(), T)]
    if ctx == 'alias':
        r = x.type(T)
        return [('type', x.t(), ('seq', ((x.v(), 'mandatory', r, None), (x.v(), 'optional', r, None))))]
    if ctx == 'elem':
        return [('type', x.t(), ('seqof', None, T))]
    if ctx in ('comp', 'opt'):
        return [('type', x.t(), ('seq', ((x.v(), 'mandatory' if ctx == 'comp' else 'optional', T, None),)))]
    if ctx == 'alt':
        return [('type', x.t(), ('choice', ((x.v(), 'mandatory', T, None), (x.v(), 'mandatory', ('bool',), None))))]
    if ctx == 'add':
        return [('type', x.t(), ('seq', ((x.v(), 'mandatory', ('bool',), None), '...', (x.v(), 'optional', T, None))))]
    if ctx == 'group':
        return [('type', x.t(), ('seq', ('...', ('[[', None, ((x.v(), 'mandatory', T, None),)))))]
    if ctx == 'nested':
        return [('type', x.t(), ('seq', ((x.v(), 'mandatory', ('seq', ((x.v(), 'mandatory', T, None),)), None),)))]
    if ctx == 'inchoice':
        return [('type', x.t(), ('choice', ((x.v(), 'mandatory', ('choice', ((x.v(), 'mandatory', T, None),)), None),)))]
    raise ValueError(ctx)


def host(x, h, c, sub=None):
    if h == 'seqof':
        return ('seqof', c, sub or ('bool',))
    return (h, c)


def c16(thorough):
    out = []
    for h in HOSTS:
        for lo, hi, fl in constraint_specs(h != 'int'):
            x = N()
            T = host(x, h, constraint(x, lo, hi, fl))
            m = place(x, T, 'top')
            out.append((tuple(m + x.extra), ()))
    few = [('num', 'num', ''), ('num', 'none', ''), ('num', 'num', 'e'), ('ref', 'num', ''), ('num', 'ref', 'ea'), ('num', 'none', 's'), ('ref', 'none', 'se'),
           ('num', 'num', '<'), ('num', 'ref', '>'), ('aref', 'aref', '')]
    for h in HOSTS:
        for ctx in CONTEXTS:
            specs = [(None,)] + (constraint_specs(h != 'int', ('ref',)) if thorough else few + ([('neg', 'neg', ''), ('none', 'neg', 'e')] if h == 'int' else []))
            for sp in specs:
                x = N()
                c = None if sp[0] is None else constraint(x, *sp)
                m = place(x, host(x, h, c), ctx)
                out.append((tuple(x.extra + m), ()))
    # constraints at two levels, and two constrained types side by side
    for a, b in itertools.product(HOSTS, HOSTS):
        x = N()
        A, B = host(x, a, constraint(x, 'num', 'num', '')), host(x, b, constraint(x, 'num', 'none', 'e'))
        out.append((tuple([('type', x.t(), ('seqof', constraint(x, 'num', 'ref', ''), A)), ('type', x.t(), B)] + x.extra), ()))
        x = N()
        A, B = host(x, a, constraint(x, 'num', 'num', 'e')), host(x, b, None)
        out.append((tuple([('type', x.t(), ('seq', ((x.v(), 'mandatory', A, None), (x.v(), 'mandatory', B, None), (x.v(), 'optional', A, None))))] + x.extra), ()))
    return out


# ------------------------------------------------------------------ structure
ETYPES = ('bool', 'int', 'intC', 'bits', 'bitsC', 'oct', 'octC', 'enum', 'enumX', 'seq', 'seq2', 'choice', 'seqof', 'seqofC', 'seqofseq', 'ref', 'refC', 'refseq',
          'refenum', 'refseqof', 'refref', 'seq0')


def etype(x, k):
    if k == 'bool':
        return ('bool',)
    if k in ('int', 'bits', 'oct'):
        return (k, None)
    if k in ('intC', 'bitsC', 'octC'):
        return (k[:-1], (x.n(), x.n(), ''))
    if k == 'enum':
        return ('enum', ((x.v(), None), (x.v(), None)), None)
    if k == 'enumX':
        return ('enum', ((x.v(), None), (x.v(), None)), ((x.v(), None),))
    if k == 'seq':
        return ('seq', ((x.v(), 'mandatory', ('int', None), None),))
    if k == 'seq0':
        return ('seq', ('...',))
    if k == 'seq2':
        return ('seq', ((x.v(), 'mandatory', ('bool',), None), (x.v(), 'optional', ('int', (x.n(), x.n(), '')), None), '...'))
    if k == 'choice':
        return ('choice', ((x.v(), 'mandatory', ('bool',), None), (x.v(), 'mandatory', ('oct', None), None)))
    if k == 'seqof':
        return ('seqof', None, ('int', None))
    if k == 'seqofC':
        return ('seqof', (x.n(), x.n(), 'e'), ('int', (x.n(), x.n(), '')))
    if k == 'seqofseq':
        return ('seqof', None, etype(x, 'seq'))
    if k.startswith('ref'):
        T = {'': 'int', 'C': 'intC', 'seq': 'seq', 'enum': 'enum', 'seqof': 'seqof', 'ref': 'ref'}[k[3:]]
        return x.type(etype(x, T))
    raise ValueError(k)


def base(x, T):
    while T[0] == 'ref':
        T = [a[2] for a in x.extra if a[1] == T[1]][0]
    return T


def values(x, T):
    """value notations of a type (thunks)"""
    b = base(x, T)
    k = b[0]
    if k == 'bool':
        return [lambda: ('b', True), lambda: ('b', False)]
    if k == 'int':
        return [lambda: ('n', x.n()), lambda: ('n', x.n(True)), lambda: ('n', 0), lambda: ref(x, T)]
    if k in ('bits', 'oct'):
        return [lambda: ('H', x.hex()), lambda: ('H', ''), lambda: ('B', ''), lambda: ('B', '0110100111000011'), lambda: ref(x, T)]
    if k == 'enum':
        return [lambda: ('item', b[1][0][0]), lambda: ('item', (b[2] or b[1])[-1][0])]
    if k == 'seqof':
        return [lambda: ('empty',)]
    return []


def ref(x, T):
    b = base(x, T)
    v = x.v()
    x.extra.append(('value', v, T if T[0] == 'ref' else (b[0], None), ('n', x.n()) if b[0] == 'int' else ('H', x.hex())))
    return ('ref', v)


def c17(thorough):
    out = []

    def add(build, kw=False):
        x = N()
        m = build(x)
        if m is not None:
            for order in ((0, 1) if thorough else (0,)):
                mm = tuple(x.extra + m) if order == 0 else tuple(m + x.extra[::-1])
                out.append((mm, ()))
    # every element type in every place, every kind
    for k in ETYPES:
        for kind in ('mandatory', 'optional', 'default'):
            nv = 1
            if kind == 'default':
                x = N()
                nv = len(values(x, etype(x, k)))
            for j in range(nv):
                for where in ('root', 'add', 'group', 'root2', 'elem'):
                    def b(x):
                        T = etype(x, k)
                        c = (x.v(), kind, T, values(x, T)[j]() if kind == 'default' else None)
                        o = (x.v(), 'mandatory', ('bool',), None)
                        els = {'root': (c, o), 'add': (o, '...', c), 'group': (o, '...', ('[[', None, (c,))), 'root2': (o, '...', '...', c),
                               'elem': (c,)}[where]
                        S = ('seq', els)
                        return [('type', x.t(), ('seqof', None, S) if where == 'elem' else S)]
                    add(b)
        for where in ('root', 'add', 'group', 'after', 'elem', 'top'):
            def b(x):
                T = etype(x, k)
                c, o, p = ((x.v(), 'mandatory', t, None) for t in (T, ('bool',), ('int', None)))
                if where == 'elem':
                    return [('type', x.t(), ('seqof', None, T))]
                if where == 'top':
                    return [('type', x.t(), T)]
                els = {'root': (c, o), 'add': (o, '...', p, c), 'group': (o, '...', ('[[', 2, (p, c))), 'after': (o, '...', ('[[', None, (p,)), c)}[where]
                return [('type', x.t(), ('choice', els))]
            add(b)
        # values
        x = N()
        for j in range(len(values(x, etype(x, k)))):
            if k in ('enum', 'enumX', 'seqof', 'seqofC', 'seqofseq', 'refseqof', 'bitsC', 'octC', 'intC'):
                continue
            def b(x):
                T = etype(x, k)
                return [('value', x.v(), T, values(x, T)[j]())]
            add(b)
    # layouts: root, additions, groups, second root
    kinds = itertools.cycle(['mandatory', 'optional', 'default', 'optional', 'mandatory'])

    def comps(x, n, choice):
        cs = []
        for _ in range(n):
            kd = 'mandatory' if choice else next(kinds)
            T = ('int', None)
            cs.append((x.v(), kd, T, ('n', x.n()) if kd == 'default' else None))
        return tuple(cs)
    top = 4 if thorough else 3
    for choice in (False, True):
        for r in range(0 if not choice else 1, top):
            for ext in (0, 1, 2):
                for a in range(0, top) if ext else (0,):
                    for gs in ((), (1,), (2,), (1, 2), (3, 1, 1)) if ext else ((),):
                        for t in (0, 1, 2) if ext == 2 and not choice else (0,):
                            def b(x):
                                els = comps(x, r, choice)
                                if ext:
                                    els += ('...',) + comps(x, a, choice)
                                    for g in gs:
                                        els += (('[[', None if a != 1 else 3, comps(x, g, choice)),)
                                    if ext == 2:
                                        els += ('...',) + comps(x, t, choice)
                                if not els:
                                    return None
                                return [('type', x.t(), ('choice' if choice else 'seq', els))]
                            add(b)
    # interleaved additions and groups of a CHOICE
    for word in itertools.product('ag', repeat=4 if thorough else 3):
        def b(x):
            els = comps(x, 1, True) + ('...',)
            for w in word:
                els += comps(x, 1, True) if w == 'a' else (('[[', None, comps(x, 2, True)),)
            return [('type', x.t(), ('choice', els))]
        add(b)
    # items of ENUMERATED: numbers given or not, additions
    for n in range(1, 5 if thorough else 4):
        for given in itertools.product((0, 1), repeat=n):
            for adds in (None, (), (0,), (1,), (0, 0), (1, 0), (0, 1)):
                if n == 4 and adds is not None and len(adds) == 2 or sum(given) + sum(adds or ()) > 3:
                    continue
                def b(x):
                    it = lambda g: tuple((x.v(), x.n() if e else None) for e in g)
                    return [('type', x.t(), ('enum', it(given), None if adds is None else it(adds)))]
                add(b)
    # nesting
    for p in itertools.product(('seq', 'choice', 'seqof'), repeat=4 if thorough else 3):
        def b(x):
            T = ('int', (x.n(), x.n(), ''))
            for k in p:
                if k == 'seqof':
                    T = ('seqof', (x.n(), None, ''), T)
                elif k == 'seq':
                    T = ('seq', ((x.v(), 'optional', T, None), (x.v(), 'mandatory', ('bool',), None)))
                else:
                    T = ('choice', ((x.v(), 'mandatory', T, None), '...', (x.v(), 'mandatory', ('bool',), None)))
            return [('type', x.t(), T)]
        add(b)
    return out


# ------------------------------------------------------------------ order of definitions
DEPS = ('alias', 'comp', 'opt', 'alt', 'elem', 'elemseq', 'incomp', 'inalt', 'add', 'group', 'deep')
VDEPS = ('low', 'high', 'size', 'sizeof', 'compsize', 'default', 'defaultadd', 'elemrange', 'deepsize')


def dep(x, how, r):
    """a type that refers to type r"""
    one = lambda T, k='mandatory': (x.v(), k, T, None)
    R = ('ref', r)
    return {'alias': lambda: R, 'comp': lambda: ('seq', (one(R),)), 'opt': lambda: ('seq', (one(('bool',)), one(R, 'optional'))),
            'alt': lambda: ('choice', (one(('bool',)), one(R))), 'elem': lambda: ('seqof', None, R),
            'elemseq': lambda: ('seqof', None, ('seq', (one(R),))), 'incomp': lambda: ('seq', (one(('seq', (one(R),))),)),
            'inalt': lambda: ('choice', (one(('choice', (one(R),))),)), 'add': lambda: ('seq', (one(('bool',)), '...', one(R, 'optional'))),
            'group': lambda: ('seq', ('...', ('[[', None, (one(R),)))), 'deep': lambda: ('seq', (one(('seqof', None, ('choice', (one(R),)))),))}[how]()


def vdep(x, how, v):
    """a type that refers to value v"""
    one = lambda T, k='mandatory', d=None: (x.v(), k, T, d)
    return {'low': lambda: ('int', (v, x.n(), '')), 'high': lambda: ('int', (x.n(), v, '>')), 'size': lambda: ('oct', (v, None, 's')),
            'sizeof': lambda: ('seqof', (x.n(), v, ''), ('bool',)), 'compsize': lambda: ('seq', (one(('bits', (v, None, 's'))),)),
            'default': lambda: ('seq', (one(('bool',)), one(('int', None), 'default', ('ref', v)))),
            'defaultadd': lambda: ('seq', (one(('bool',)), '...', one(('int', None), 'default', ('ref', v)))),
            'elemrange': lambda: ('seqof', None, ('int', (x.n(), v, 'e'))),
            'deepsize': lambda: ('seq', (one(('seqof', None, ('choice', (one(('oct', (x.n(), v, ''))),)))),))}[how]()


BASES = ('int', 'enum', 'seq', 'choice', 'seqof')


def c18(thorough):
    out = []

    def orders(defs, kw=()):
        ps = list(itertools.permutations(defs))
        for p in ps:
            out.append((tuple(p), kw))

    def start(x, b):
        t = x.t()
        return t, ('type', t, etype(x, b))
    for b in BASES:
        for h in DEPS:
            x = N()
            t, d = start(x, b)
            orders([d, ('type', x.t(), dep(x, h, t))])
    for b in ('int', 'seq') if not thorough else BASES:
        for h, g in itertools.product(DEPS, DEPS):
            x = N()
            t, d = start(x, b)
            u = x.t()
            e = ('type', u, dep(x, h, t))
            ps = [d, e, ('type', x.t(), dep(x, g, u))]
            if thorough:
                orders(ps)
            else:
                out.append(((ps[2], ps[1], ps[0]), ()))
                out.append(((ps[1], ps[2], ps[0]), ()))
                out.append(((ps[2], ps[0], ps[1]), ()))
    # chains through four and five definitions, all of them before their use
    for hs in itertools.product(('alias', 'comp', 'elem', 'alt'), repeat=4 if thorough else 3):
        x = N()
        t, d = start(x, 'int')
        defs = [d]
        for h in hs:
            u = x.t()
            defs.append(('type', u, dep(x, h, t)))
            t = u
        out.append((tuple(defs[::-1]), ()))
        out.append((tuple(defs[1::2] + defs[::2]), ()))
    # values: bounds, sizes, defaults; values of named types; values by reference
    for h in VDEPS:
        x = N()
        v = x.v()
        orders([('value', v, ('int', None), ('n', x.n())), ('type', x.t(), vdep(x, h, v))])
        x = N()
        v, t = x.v(), x.t()
        orders([('type', t, ('int', None)), ('value', v, ('ref', t), ('n', x.n())), ('type', x.t(), vdep(x, h, v))])
        x = N()
        v, w = x.v(), x.v()
        orders([('value', v, ('int', None), ('n', x.n())), ('value', w, ('int', None), ('ref', v)), ('type', x.t(), vdep(x, h, w))])
        for g in ('alias', 'comp', 'elem', 'alt') + (DEPS if thorough else ()):
            x = N()
            v, t = x.v(), x.t()
            ds = [('value', v, ('int', None), ('n', x.n())), ('type', t, vdep(x, h, v)), ('type', x.t(), dep(x, g, t))]
            orders(ds)
        x = N()
        v, t, u = x.v(), x.t(), x.t()
        ds = [('type', t, ('int', None)), ('type', u, ('ref', t)), ('value', v, ('ref', u), ('n', x.n())), ('type', x.t(), vdep(x, h, v))]
        if thorough:
            orders(ds)
        else:
            out.append((tuple(ds[::-1]), ()))
            out.append(((ds[3], ds[1], ds[2], ds[0]), ()))
            out.append(((ds[2], ds[3], ds[1], ds[0]), ()))
    # a value whose type has a bound given by another value
    for k in ('int', 'oct'):
        x = N()
        v, t, w = x.v(), x.t(), x.v()
        orders([('value', v, ('int', None), ('n', x.n())), ('type', t, (k, (0, v, '') if k == 'int' else (v, None, 's'))),
                ('value', w, ('ref', t), ('n', x.n()) if k == 'int' else ('H', x.hex()))])
    # a default of a named type, its value of that type
    for pos in ('root', 'add'):
        x = N()
        t, v = x.t(), x.v()
        c = (x.v(), 'default', ('ref', t), ('ref', v))
        o = (x.v(), 'mandatory', ('bool',), None)
        orders([('type', t, ('int', None)), ('value', v, ('ref', t), ('n', x.n())), ('type', x.t(), ('seq', (o, c) if pos == 'root' else (o, '...', c)))])
    # several definitions that refer to the same one
    for b in ('int', 'seq') if not thorough else BASES:
        for h, g in itertools.combinations_with_replacement(('alias', 'comp', 'elem', 'alt', 'incomp', 'group') if not thorough else DEPS, 2):
            x = N()
            t, d = start(x, b)
            orders([d, ('type', x.t(), dep(x, h, t)), ('type', x.t(), dep(x, g, t))])
    for b in BASES:
        x = N()
        t, d = start(x, b)
        u, w = x.t(), x.t()
        ds = [d, ('type', u, dep(x, 'alias', t)), ('type', w, dep(x, 'alias', t)), ('type', x.t(), dep(x, 'alias', t if b != 'choice' else u))]
        e = ('type', x.t(), ('seq', ((x.v(), 'mandatory', ('ref', w), None), (x.v(), 'optional', ('ref', u), None))))
        out.append((tuple(ds), ()))
        out.append((tuple(ds[::-1]), ()))
        out.append(((e,) + tuple(ds[::-1]), ()))
        out.append(((ds[1], e, ds[3], ds[0], ds[2]), ()))
    # several structures, each with names of its own
    for b, c in itertools.product(('seq', 'choice', 'seqof'), repeat=2):
        x = N()
        t, d = start(x, b)
        u, e = start(x, c)
        ds = [('type', x.t(), dep(x, 'alias', t)), ('type', x.t(), dep(x, 'alias', u)), d, e, ('type', x.t(), dep(x, 'alias', t))]
        out.append((tuple(ds), ()))
        out.append((tuple(ds[::-1]), ()))
        out.append(((ds[3], ds[0], ds[4], ds[2], ds[1]), ()))
    # diamonds
    for a, b in itertools.product(('comp', 'elem', 'alt', 'alias'), repeat=2):
        x = N()
        t, u, w = x.t(), x.t(), x.t()
        ds = [('type', t, ('int', (x.n(), x.n(), ''))), ('type', u, dep(x, a, t)), ('type', w, dep(x, b, t)),
              ('type', x.t(), ('seq', ((x.v(), 'mandatory', ('ref', w), None), (x.v(), 'optional', ('ref', u), None))))]
        if thorough:
            orders(ds)
        else:
            out.append((tuple(ds[::-1]), ()))
            out.append(((ds[3], ds[1], ds[2], ds[0]), ()))
    # names that are Python keywords
    for ds in keyword_modules():
        out.append(ds)
    return out


def keyword_modules():
    """lower-case names of the schema may be keywords of Python: values, components, alternatives, items"""
    out = []
    for f in range(8):
        x = N()
        if f == 0:
            v = x.v()
            m, kw = (('value', v, ('int', None), ('n', x.n())), ('type', x.t(), ('int', (v, None, '')))), (v,)
        elif f == 1:
            a = x.v()
            m, kw = (('type', x.t(), ('seq', ((a, 'mandatory', ('int', (x.n(), x.n(), '')), None), (x.v(), 'optional', ('bool',), None)))),), (a,)
        elif f == 2:
            a = x.v()
            m, kw = (('type', x.t(), ('choice', ((a, 'mandatory', ('enum', ((x.v(), None),), None), None),))),), (a,)
        elif f == 3:
            a = x.v()
            m, kw = (('type', x.t(), ('seq', ((a, 'mandatory', ('seq', ((x.v(), 'mandatory', ('bool',), None),)), None),))),), (a,)
        elif f == 4:
            a = x.v()
            m, kw = (('type', x.t(), ('enum', ((a, None), (x.v(), None)), None)),), (a,)
        elif f == 5:
            v, a = x.v(), x.v()
            m = (('type', x.t(), ('seq', ((x.v(), 'mandatory', ('bool',), None), (a, 'default', ('int', None), ('ref', v))))), ('value', v, ('int', None), ('n', x.n())))
            kw = (v, a)
        elif f == 6:
            a = x.v()
            m, kw = (('type', x.t(), ('seq', ((a, 'mandatory', ('seqof', (x.n(), None, 's'), ('int', (x.n(), x.n(), ''))), None),))),), (a,)
        else:
            v, w = x.v(), x.v()
            m = (('value', w, ('int', None), ('ref', v)), ('value', v, ('int', None), ('n', x.n())))
            kw = (v, w)
        out.append((m, tuple(n[2:4] for n in kw)))
    return out


def without(m):
    """m with one definition left out (references to nothing)"""
    return [m[:j] + m[j + 1:] for j in range(len(m))] if len(m) > 1 else []


def c19(thorough):
    ms = [m for m, _ in c17(False)[::2 if thorough else 9] + c16(False)[::3 if thorough else 13] + c18(False)[::5 if thorough else 19]]
    return [(m,) for m in ms]


def c20(thorough):
    from .compiler import shadow, cut_short
    from spec.cases_schema import twins
    k = 1 if thorough else 4
    ms = [m for m, _ in c18(False)[::3 * k] + c17(False)[::2 * k] + c16(False)[::4 * k]]
    hist, pairs = [], []
    for m in ms:
        hist += [(x,) for x in [m] + without(m)[:3]]
    for i, m in enumerate(ms[::2]):
        for j in range(4):
            a = shadow(m, j)
            pairs += [((a,), m), ((cut_short(a),), m)] if i % 2 else [((a, cut_short(m)), m)]
        pairs += [((m,), x) for x in without(m)[:3]]
    for i, m in enumerate(ms):
        tw = list(twins(m))
        pairs += [((x,), m) for x in (tw if thorough else tw[i % 3::3][:6])]
    for m, n in zip(ms, ms[1:]):
        if len(pairs) % 3 == 0:
            pairs.append(((m,), n))
    return hist, pairs
