"""Registry: which obligations and which bounded cross-checks make up each property's check."""
from . import leaf

PYASN1 = ('assumed contracts on pyasn1 objects (construction checks the constraint, value access, length, truth, '
          'iteration), validated on concrete values by the cross-check')
COMMON = ['integers are mathematical (exact for Python); int(x / 8) on lengths is treated as exact division, true below 2**53',
          'logging calls have no effect on the result (they are skipped)',
          'the constraint object carries the bounds it was made with (property C15)',
          PYASN1,
          'the oracle /verif/spec/x691.py states X.691 correctly']


class Prop(object):
    level = 'proof'
    gens = ()
    corpus = ()
    gen_mod = 'spec.cases'
    witness = ('spec.cases', 'from_witness')
    search_s = 20
    deep_s = 60
    deadline = 600
    bounded = []
    rule = ''
    trusted = [PYASN1, '/verif/spec/x691.py (the oracle)']
    assumptions = COMMON

    def __init__(self, **k):
        for n, v in k.items():
            setattr(self, n, v)

    def jobs(self, tier):
        return self.mk(tier)


def leaf_jobs(kinds, budget=300.0):
    def mk(tier):
        out = []
        for r in (3, 0, 1, 2, 4, 5, 6, 7):
            for fn, shapes in kinds:
                for sh in shapes:
                    name = '%s%s at bit 8a+%d' % (fn, sh, r)
                    out.append(('proof', name, 'contracts.leaf', fn, (sh, r), {'budget': budget * (3 if tier == 'thorough' else 1),
                                                                               'timeout': 8000 if tier == 'quick' else 30000}))
        return out
    return mk


PROPS = {
    'C01': Prop(mk=leaf_jobs([('int_encode', leaf.SHAPES), ('int_decode', leaf.SHAPES)]), gens=('gen_int',),
                assumptions=COMMON + ['domain: both-bounded ranges have fewer than 2**(8*65535) values']),
    'C02': Prop(mk=leaf_jobs([('enum_encode', leaf.ENUM_SHAPES), ('enum_decode', leaf.ENUM_SHAPES)]), gens=('gen_enum',),
                assumptions=COMMON + ['domain: at most 65536 root items', 'item numbers of additions ascend, as X.680 requires']),
    'C03': Prop(mk=leaf_jobs([('bits_encode', leaf.SIZE_SHAPES), ('bits_decode', leaf.SIZE_SHAPES)]), gens=('gen_bits',)),
    'C04': Prop(mk=leaf_jobs([('oct_encode', leaf.SIZE_SHAPES), ('oct_decode', leaf.SIZE_SHAPES)]), gens=('gen_oct',)),
}


# ------------------------------------------------------------------ structured types
from itertools import product
from . import composite as K
from . import framing as F
from . import seqof as S
from spec import cases_struct      # registers the case kinds

LEVELS = ['open', 'contract', 'source']


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def comp_jobs(label, fn, many, size=30, budget=150.0):
    """obligations of fn for every schema of the list, several schemas per job"""
    out = []
    for i, ch in enumerate(chunks(many, size)):
        out.append(('proof', '%s %s #%d (%s .. %s)' % (label, fn, i, ch[0], ch[-1]), 'contracts.composite', 'multi', (fn, tuple(ch)),
                    {'budget': budget, 'timeout': 8000, 'contracts': 'contracts', 'levels': LEVELS, 'max_paths': 200000}))
    return out


def simple_jobs(mod, jobs, budget=150.0, levels=None):
    return [('proof', '%s%s' % (fn, a), mod, fn, a, dict({'budget': budget, 'timeout': 8000, 'contracts': 'contracts', 'max_paths': 20000},
                                                       **({'levels': levels} if levels else {}))) for fn, a in jobs]


def cursor_jobs():
    return simple_jobs('contracts.framing', F.CURSOR_JOBS)


def open_jobs():
    return (simple_jobs('contracts.composite', [('open_encode', ())]) +
            simple_jobs('contracts.composite', [('open_decode', ()), ('open_skip', ())], levels=['contract', 'source']))


P_ALL = tuple(K.PROFILES)
P_FEW = ('Ms1', 'Os1', 'Os0', 'Oq1', 'Oqe', 'Ds1', 'Dse')
P_TINY = ('Ms1', 'Os1', 'Os0', 'Ds0')
A_ALL = tuple(p for p in P_ALL)
A_FEW = ('Os1', 'Os0', 'Ms1', 'Oqe', 'Dse', 'Oc1')


def roots(n, ps):
    return [tuple(x) for x in product(ps, repeat=n)]


def c06_jobs(tier):
    th = tier == 'thorough'
    many = roots(0, P_ALL) + roots(1, P_ALL) + roots(2, P_ALL) + roots(3, P_ALL if th else P_FEW)
    many += [('Os1', 'Os0') * 8 + ('Os1',), ('Ms1', 'Os0', 'Dse') * 7, ('Os0',) * 33 + ('Os1',), ('Os0',) * 64 + ('Ds1',), ('Ms1',) * 20]
    sch = [(False, r) for r in many] + [(True, r) for r in roots(0, P_ALL) + roots(1, P_ALL) + roots(2, P_FEW)]
    bad = [(False, r) for r in (('Msr',), ('Osr',), ('Dsr',), ('Os1', 'Msr'), ('Msr', 'Os0'), ('Osr', 'Ds1'))]
    sch2 = [s for s in sch if s[1] or s[0]]
    return comp_jobs('root', 'seq_encode', sch + bad) + comp_jobs('root', 'seq_decode', sch2) + cursor_jobs()


def c07_schemas(tier):
    th = tier == 'thorough'
    out = []
    for r in ((), ('Ms1',), ('Os0', 'Ds1')):
        for n in (0, 1):
            out += [(True, r, a) for a in roots(n, A_ALL)]
    out += [(True, ('Ms1',), a) for a in roots(2, A_ALL if th else A_FEW + ('Oc0', 'Oq1', 'Ds1'))]
    out += [(True, (), a) for a in roots(3, A_FEW if th else P_TINY)]
    out += [(True, ('Os1',), a + ('Ms0',)) for a in roots(1, A_FEW)]                      # a mandatory addition missing at the end
    g1 = [(g,) for g in roots(1, A_ALL)] + [(g,) for g in roots(2, A_FEW)]
    g1 = [g for g in g1 if not any('M' in c[0] for c in g[0]) or any(c[2] == '1' for c in g[0])]
    out += [(True, ('Ms1',), (), g) for g in g1]
    out += [(True, ('Ms1',), ('Os1',), g) for g in g1[:18]]
    out += [(True, ('Ms1',), ('Os0',), ((a,), (b,))) for a in P_TINY for b in P_TINY]
    out += [(True, (), (), ((a, b), (c, d))) for a, b, c, d in product(('Os1', 'Os0'), repeat=4)]
    out += [(True, (), ('Os0',) * k + ('Os1',)) for k in (6, 7, 8, 9, 15, 16, 30, 62, 63)]
    out += [(True, (), ('Os1',) + ('Os0',) * k) for k in (7, 8, 62, 63)]
    out += [(True, (), ('Os0',) * 62, (('Os1',), ('Os0',)))]
    return out


def c07_jobs(tier):
    sch = c07_schemas(tier)
    bad = [(True, ('Ms1',), a, g) for a, g in ((('Osr',), ()), (('Os1', 'Osr'), ()), ((), (('Osr',),)), ((), (('Ms1', 'Osr'),)))]
    return comp_jobs('ext', 'seq_encode', sch + bad) + comp_jobs('ext', 'seq_decode', sch) + open_jobs() + cursor_jobs()


def c08_jobs(tier):
    out = []
    adds = roots(1, A_FEW) + roots(2, A_FEW) + roots(3, P_TINY)
    for a in adds:
        for k in range(len(a)):
            out.append((('Ms1',), a, (), a[:k], ()))
            out.append((('Ms1',), a[:k], (), a, ()))
    for g in (('Os1',), ('Os1', 'Os0'), ('Ms1', 'Os1'), ('Os0',), ('Ds1', 'Dse')):
        for h in (('Os1',), ('Os0',)):
            for a in ((), ('Os1',), ('Os0',)):
                for full, cut in (((g, h), (g,)), ((g, h), ()), ((g,), ())):
                    out.append((('Os1', 'Ms1'), a, full, a, cut))
                    out.append((('Os1', 'Ms1'), a, cut, a, full))
    for a in (('Os1', 'Os0', 'Ms1'),):
        out.append((('Ms1',), a, (('Os1',),), a[:1], ()))
    for k in (7, 8, 9, 62, 63):
        out.append((('Ms1',), ('Os0',) * k + ('Os1',), (), ('Os0',), ()))
        out.append((('Ms1',), ('Os1',), (), ('Os1',) + ('Os0',) * k, ()))
    if tier == 'thorough':
        for a in roots(3, A_FEW):
            for k in range(3):
                out.append((('Os0', 'Ms1'), a, (), a[:k], ()))
                out.append((('Os0', 'Ms1'), a[:k], (), a, ()))
    # a decoded message never has a mandatory addition of the shorter version missing in front of a present one
    return comp_jobs('skew', 'skew_decode', out) + open_jobs() + cursor_jobs()


def c09_jobs(tier):
    j = [('encode_ok', (s,)) for s in S.SHAPES] + [('encode_outside', (s,)) for s in S.SHAPES if not s[0]]
    d = [('decode_ok', (s,)) for s in S.SHAPES] + [('decode_outside', (s,)) for s in S.SHAPES if not s[0]]
    return simple_jobs('contracts.seqof', j) + simple_jobs('contracts.seqof', d, levels=['contract']) + cursor_jobs()


def c10_jobs(tier):
    out = []
    counts = list(range(1, 10)) + [16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257]
    for n in counts:
        ats = range(n) if n <= 9 or tier == 'thorough' and n <= 65 else sorted({0, 1, n // 2, n - 2, n - 1})
        for ext in (False, True):
            for at in ats:
                out.append((ext, n, 0, (), at, 's'))
    for sh in 'qch':
        for n, a, at in ((1, 0, 0), (3, 0, 1), (3, 2, 1), (3, 2, 4), (1, 1, 1)):
            for ext in ((False, True) if a == 0 else (True,)):
                out.append((ext, n, a, (), at, sh))
    for n in (1, 2, 5):
        for a in (1, 2, 3, 5):
            out += [(True, n, a, (), i, 's') for i in range(n + a)]
    for a in (63, 64, 65, 66, 127, 128, 129, 130, 256, 257):
        out += [(True, 2, a, (), 2 + i, 's') for i in sorted({0, 1, 62, 63, 64, 65, a - 1, 127, 128, 255, 256}) if i < a]
    for a in (0, 1, 2):
        for g in ((1,), (2,), (1, 1), (2, 1), (1, 2, 1)):
            out += [(True, 2, a, g, i, 's') for i in range(2 + a + sum(g))]
    out += [(True, 1, 60, (2, 3), 1 + i, 's') for i in (59, 60, 61, 62, 63, 64)]
    return comp_jobs('choice', 'choice_encode', out) + comp_jobs('choice', 'choice_decode', out) + open_jobs() + cursor_jobs()


def c05_jobs(tier):
    out = simple_jobs('contracts.framing', [('layout_any', (n,)) for n in range(4)] +
                      [('layout_few', (a,)) for n in range(0, 4) for a in product((False, True), repeat=n)] + F.CURSOR_JOBS)
    for r in range(8):
        for fn in ('bool_encode', 'bool_decode'):
            out.append(('proof', '%s at bit 8a+%d' % (fn, r), 'contracts.leaf', fn, (('bool',), r), {'budget': 300.0, 'timeout': 8000}))
    return out


COMPOSITE = COMMON + ['a component is known by its contract: encoding appends an arbitrary field list, decoding at the layout of that list gives '
                      'the component back and stands behind it; that every type meets it is C01-C05 and, by induction over the nesting of types, '
                      'these obligations', 'the pyasn1 machinery of structured types (component access, instantiation) runs natively, as installed',
                      'PerBytes is used by its contract, proved from its source for every position by the cursor obligations of this check',
                      'open-type functions are used by their contract, proved from their source by the open_* obligations (included where used)']
BOUND_SEQ = ['number of components: every list up to 2 (root) over all 18 component profiles, up to 3 over a reduced set, selected longer lists '
             '(17, 34, 65 optional components; up to 64 additions); component encodings and bit position are arbitrary']


def struct(mk, gens, **k):
    return Prop(mk=mk, gens=gens, gen_mod='spec.cases_struct', witness=('spec.cases_struct', 'from_witness'),
                assumptions=k.pop('assumptions', COMPOSITE), **k)


PROPS.update({
    'C05': struct(c05_jobs, ('gen_seq_root', 'gen_seqof', 'gen_bool')),
    'C06': struct(c06_jobs, ('gen_seq_root',), bounded=BOUND_SEQ),
    'C07': struct(c07_jobs, ('gen_seq_ext',), bounded=BOUND_SEQ),
    'C08': struct(c08_jobs, ('gen_skew',), bounded=BOUND_SEQ),
    'C09': struct(c09_jobs, ('gen_seqof', 'gen_seqof', 'gen_seqof_bad', 'gen_seqof_bad_decode')),
    'C10': struct(c10_jobs, ('gen_choice',), bounded=['number of alternatives: 1..9 and selected counts up to 257 root, 257 additions, groups; '
                                                      'selected index: all for up to 9 alternatives, else first, middle, last']),
})


# ------------------------------------------------------------------ refusal, malformed octets
def hostile_jobs(label, fn, many, size=40, levels=('open', 'contract')):
    out = []
    for i, ch in enumerate(chunks(many, size)):
        out.append(('proof', '%s %s #%d (%s .. %s)' % (label, fn, i, ch[0], ch[-1]), 'contracts.hostile', 'multi', (fn, tuple(ch)),
                    {'budget': 200.0, 'timeout': 8000, 'contracts': 'contracts', 'levels': list(levels), 'max_paths': 200000}))
    return out


def single_jobs(fn, many, levels=('contract',)):
    return [j for m in many for j in hostile_jobs('one', fn, [m], 1, levels)]


STRINGS = [('bits', s) for s in leaf.SIZE_SHAPES] + [('oct', s) for s in leaf.SIZE_SHAPES]


def c11_jobs(tier):
    th = tier == 'thorough'
    out = []
    for r in (range(8) if th else (0, 3)):
        for fn, shapes in (('int_encode', leaf.SHAPES), ('bits_encode', leaf.SIZE_SHAPES), ('oct_encode', leaf.SIZE_SHAPES)):
            for sh in shapes:
                out.append(('proof', '%s%s at bit 8a+%d' % (fn, sh, r), 'contracts.leaf', fn, (sh, r), {'budget': 300.0, 'timeout': 8000}))
    out += simple_jobs('contracts.seqof', [('encode_ok', (s,)) for s in S.SHAPES])
    out += open_jobs()
    many = []
    for n in (64, 65, 66, 70, 100, 128):
        for at in (0, n // 2, n - 1, None):
            many.append((True, ('Ms1',), tuple('Os1' if i == at else 'Os0' for i in range(n))))
    many += [(True, (), ('Os0',) * k, (('Os1',),) + (('Os0',),) * g) for k, g in ((62, 0), (63, 0), (64, 0), (60, 4), (0, 63), (0, 64), (0, 65))]
    for a, g in ((('Osr',), ()), (('Os1', 'Osr'), ()), ((), (('Osr',),)), ((), (('Ms1', 'Osr'),)), (('Msr', 'Os0'), ())):
        many.append((True, ('Ms1',), a, g))
    many += [(False, r) for r in (('Msr',), ('Osr',), ('Dsr',), ('Os1', 'Msr'), ('Msr', 'Os0'), ('Osr', 'Ds1'))]
    out += comp_jobs('limit', 'seq_encode', many, 10)
    fr = []
    for kind, shapes in (('int', leaf.SHAPES), ('bits', leaf.SIZE_SHAPES), ('oct', leaf.SIZE_SHAPES), ('seqof', S.SHAPES)):
        for sh in shapes:
            for e in ((0, 1) if sh[0] else (0,)):
                if not (kind == 'int' and e == 0 and sh[1] and sh[2]):
                    fr.append((kind, sh, e))
    out += hostile_jobs('coded', 'frag', fr, 12, ('contract',))
    out += hostile_jobs('coded', 'adds_frag', [(n,) for n in (1, 2, 64, 65, 70)], 12, ('contract',))
    out += hostile_jobs('coded', 'open_frag', [(w,) for w in ('choice', 'add', 'group', 'unknown')], 12, ('contract',))
    return out + cursor_jobs()


def c12_jobs(tier):
    th = tier == 'thorough'
    out = []
    leaves = [('int', s) for s in leaf.SHAPES] + STRINGS + [('enum', s) for s in leaf.ENUM_SHAPES] + [('bool', ('bool',))]
    out += single_jobs('truncated', leaves) + single_jobs('arbitrary', leaves)
    out += single_jobs('seqof_truncated', [(s,) for s in S.SHAPES])
    seqs = [(False, r) for r in roots(1, P_ALL) + roots(2, P_ALL if th else P_FEW) + roots(3, P_TINY)]
    seqs += [(True, r) for r in roots(1, P_FEW)]
    seqs += [(True, ('Ms1',), a) for a in roots(1, A_ALL) + roots(2, P_TINY)]
    seqs += [(True, (), a) for a in roots(2, A_FEW)]
    seqs += [(True, (), (), (g,)) for g in roots(1, A_FEW) + roots(2, P_TINY)]
    seqs += [(True, ('Os1',), ('Os1',), (('Ms1', 'Os0'), ('Os1',))), (True, (), ('Os0',) * 8 + ('Os1',)), (True, (), ('Os0',) * 63 + ('Os1',))]
    out += hostile_jobs('cut', 'seq_truncated', seqs, 12)
    ch = [(e, n, 0, (), at, 's') for e in (False, True) for n in (1, 2, 3, 5, 9, 17, 257) for at in sorted({0, n - 1})]
    ch += [(True, 2, a, (), 2 + at, 's') for a in (1, 3, 65, 70, 257) for at in sorted({0, a - 1, 63, 64}) if at < a]
    ch += [(True, 2, 1, (2,), at, 's') for at in (2, 3, 4)]
    out += hostile_jobs('cut', 'choice_truncated', ch, 12)
    arb = [(False, r) for n in (1, 2, 3) for r in roots(n, ('Ms1', 'Os1', 'Ds1'))] + [(True, r) for r in roots(2, ('Ms1', 'Os1'))]
    arb += [(False, (p,)) for p in ('Mc1', 'Mq1', 'Oh1', 'Oc1', 'Oq1', 'Dq1')]
    arb += [(True, (), a, (), k) for a in ((), ('Os1',), ('Os1', 'Ms1'), ('Ds1',)) for k in (1, 2, 3)]
    arb += [(True, (), a, g, k) for a in ((), ('Os1',)) for g in ((('Ms1',),), (('Os1', 'Ms1'),), (('Ms1',), ('Os1',))) for k in (1, 2, 3)]
    out += hostile_jobs('any', 'seq_arbitrary', arb, 6, ('contract',))
    out += hostile_jobs('any', 'choice_arbitrary', [(False, n, 0, ()) for n in (1, 2, 3, 5, 6, 9, 17, 65)] +
                        [(True, n, a, g, b) for n in (1, 3, 5) for a, g in ((0, ()), (1, ()), (3, ()), (0, (2,)), (1, (1, 1))) for b in (0, 1)] +
                        [(True, 2, 66, (), 1), (True, 257, 0, (), 0)], 6, ('contract',))
    out += simple_jobs('contracts.seqof', [('decode_outside', (s,)) for s in S.SHAPES if not s[0]], levels=['contract'])
    return out + open_jobs() + cursor_jobs()


PROPS.update({
    'C11': struct(c11_jobs, ('gen_refuse', 'gen_refuse_decode', 'gen_refuse_decode'), bounded=['additions: 64, 65, 66, 70, 100 and 128 of them, with and without groups']),
    'C12': struct(c12_jobs, ('gen_octets', 'gen_prefix'),
                  bounded=['SEQUENCE and CHOICE: component lists as listed (up to 3 root components, 9 or 64 additions, 257 alternatives); octets arbitrary',
                           'arbitrary octets behind an additions bitmap: bitmaps of 1 to 3 bits']),
})


# ------------------------------------------------------------------ purity, dictionaries
def pure_jobs(label, fn, many, size=40, budget=200.0):
    out = []
    for i, ch in enumerate(chunks(many, size)):
        out.append(('proof', '%s %s #%d (%s .. %s)' % (label, fn, i, ch[0], ch[-1]), 'contracts.pure', 'multi', (fn, tuple(ch)),
                    {'budget': budget, 'timeout': 8000, 'contracts': 'contracts', 'levels': ['open', 'contract'], 'max_paths': 200000}))
    return out


PURE_SEQ = ('encode', 'decode', 'decode-into', 'dict', 'bad', 'bad-into')
BADOPS = ('bad', 'bad-into')
BAD = 'Ms0'


def c13_jobs(tier):
    th = tier == 'thorough'
    sch = [(False, r) for r in roots(1, P_ALL) + roots(2, P_ALL if th else P_FEW + ('Oc0', 'Oc1', 'Oh1', 'Dq0'))]
    sch += [(True, ('Ms1',), a) for a in roots(1, A_ALL) + roots(2, A_FEW)]
    sch += [(True, (), (), (g,)) for g in roots(1, A_FEW) + roots(2, P_TINY)]
    sch += [(True, ('Os0',), ('Os1',), (('Ms1', 'Oc0'), ('Oc1',)))]
    short = [s for s in sch if sum(map(len, s[1:3])) + sum(len(g) for g in (s[3] if len(s) > 3 else ())) <= 2]
    many = [(op,) + s for op in PURE_SEQ[:4] for s in sch] + [(op,) + s for op in BADOPS for s in (sch if th else short[:60])]
    many = [m for m in many if not (m[0].startswith('decode') and not any(m[2:]) and not m[1])]
    ch = [(op, e, n, 0, (), at, sh) for op in PURE_SEQ for e in (False, True) for n in (1, 3) for at in sorted({0, n - 1}) for sh in 'sqch']
    ch += [(op, True, 2, 2, g, at, sh) for op in PURE_SEQ for g in ((), (2,)) for at in (2, 3) for sh in 'sc']
    so = [(op, sh, n) for op in PURE_SEQ[:4] for sh in 'sqch' for n in range(0, 4)]
    out = pure_jobs('frame', 'seq_pure', many, 60) + pure_jobs('frame', 'choice_pure', ch, 24) + pure_jobs('frame', 'seqof_pure', so, 16)
    for fn, shapes in (('int_encode', leaf.SHAPES), ('int_decode', leaf.SHAPES), ('enum_encode', leaf.ENUM_SHAPES), ('enum_decode', leaf.ENUM_SHAPES),
                       ('bits_encode', leaf.SIZE_SHAPES), ('bits_decode', leaf.SIZE_SHAPES), ('oct_encode', leaf.SIZE_SHAPES),
                       ('oct_decode', leaf.SIZE_SHAPES), ('bool_encode', [('bool',)]), ('bool_decode', [('bool',)])):
        for sh in shapes:
            out.append(('proof', '%s%s (persistent state)' % (fn, sh), 'contracts.leaf', fn, (sh, 3), {'budget': 300.0, 'timeout': 8000}))
    return out


def c14_jobs(tier):
    th = tier == 'thorough'
    sch = [(False, r) for r in roots(0, P_ALL) + roots(1, P_ALL) + roots(2, P_ALL) + roots(3, P_ALL if th else P_FEW)]
    sch += [(True, r, a) for r in ((), ('Os1',), ('Dse',)) for a in roots(1, A_ALL)]
    sch += [(True, ('Ms1',), a) for a in roots(2, A_ALL if th else A_FEW)]
    sch += [(True, ('Os0',), a, (g,)) for a in ((), ('Os1',), ('Ds0',)) for g in roots(1, A_ALL) + roots(2, A_FEW)]
    sch += [(True, ('Os1',), ('Oc1',), (('Ms1', 'Os0'), g)) for g in roots(1, A_ALL)]
    out = pure_jobs('dict', 'seq_dict', sch, 60)
    ch = [(e, n, 0, (), at, sh) for e in (False, True) for n in (1, 2, 3, 9) for at in range(n) for sh in 'sqch']
    ch += [(True, 2, a, g, at, sh) for a in (0, 1, 3) for g in ((), (1,), (2, 1)) for at in range(2 + a + sum(g)) for sh in 'sqch']
    out += pure_jobs('dict', 'choice_dict', ch, 60)
    out += pure_jobs('dict', 'seqof_dict', [(sh, n) for sh in 'sqch' for n in range(0, 7)], 14)
    lf = [('int', s) for s in leaf.SHAPES] + STRINGS + [('enum', s) for s in leaf.ENUM_SHAPES] + [('bool', ('bool',))]
    out += pure_jobs('dict', 'leaf_dict', lf, 1)
    return out


PROPS.update({
    'C13': struct(c13_jobs, ('gen_history',), bounded=BOUND_SEQ + ['SEQUENCE OF: lists of 0 to 3 arbitrary elements']),
    'C14': struct(c14_jobs, ('gen_dict',), bounded=BOUND_SEQ + ['SEQUENCE OF: lists of 0 to 6 arbitrary elements']),
})


# ------------------------------------------------------------------ constraints
def cons_jobs(fn, many, size=12):
    return [('proof', '%s #%d (%s .. %s)' % (fn, i, ch[0], ch[-1]), 'contracts.cons', 'multi', (fn, tuple(ch)),
             {'budget': 200.0, 'timeout': 8000, 'max_paths': 200000}) for i, ch in enumerate(chunks(many, size))]


def c15_jobs(tier):
    th = tier == 'thorough'
    ends = [(a, b) for a in (False, True) for b in (False, True)]
    out = []
    for fn in ('range_class', 'size_class', 'seqof_size_class', 'value_int'):
        out += cons_jobs(fn, [(s,) for s in leaf.SHAPES], 8)
    out += cons_jobs('single_class', [(e, k) for e in (False, True) for k in range(1, 9 if th else 6)], 4)
    out += cons_jobs('none_class', [()])
    out += cons_jobs('value_part', [('int',), ('oct',)])
    for n in (1, 2, 3, 4, 5) if th else (1, 2, 3, 4):
        ps = list(product(ends, repeat=n))
        out += cons_jobs('combined', [(w, e, p) for w in ('or', 'and') for e in (False, True) for p in ps], 32)
    return out


PROPS['C15'] = struct(c15_jobs, ('gen_constraint',),
                      bounded=['combined constraints of 1 to 4 parts (thorough: 5), single-value constraints of 1 to 5 values (thorough: 8)',
                               'BIT STRING construction is not under proof (assumed contract of pyasn1, checked on random values)'],
                      trusted=['/verif/contracts/cons.py (what a constraint admits)'],
                      assumptions=['integers are mathematical (exact for Python)',
                                   'a part of a combined constraint is known by its contract (induction over the nesting)',
                                   'pyasn1.type.constraint and the construction of INTEGER and OCTET STRING values are proved from the installed source; '
                                   'BIT STRING construction calls the constraint with the value (assumed)',
                                   'the bounds of an intersection are the greatest lower and the least upper bound of its parts (exact for ranges)'])


# ------------------------------------------------------------------ schema compiler
COMPILER = ['names and numbers are arbitrary (atoms of the text domain, numbers as solver terms): operations whose result could depend on their '
            'spelling are refused or decided; names are distinct, not those of the generated header, and only lower-case names are Python keywords',
            'pyparsing itself, and the grammar built from it, runs natively on the generic spelling (trusted for other spellings of the same shape)',
            'Jinja compiles templates to Python correctly; that Python is interpreted like the rest',
            'the names of the generated header mean what asn1PERser defines (C15 for constraints); the generated code is evaluated with recorders for them',
            'numbers of one ENUMERATED are distinct, explicit ones of additions ascending (X.680 20)',
            '/verif/spec/cases_schema.py states the meaning of the notation correctly']


def shape_jobs(which, size=25):
    def mk(tier):
        from . import shapes
        many = getattr(shapes, which)(tier == 'thorough')
        return [('proof', '%s module shapes #%d' % (which.upper(), i), 'contracts.compiler', 'multi', ('module', tuple(ch)),
                 {'budget': 240.0, 'timeout': 8000, 'max_paths': 200000}) for i, ch in enumerate(chunks(many, size))]
    return mk


def schema(mk, gens, bounded, **k):
    return Prop(mk=mk, gens=gens, gen_mod='spec.cases_schema', witness=('spec.cases_schema', 'from_witness'), bounded=bounded,
                trusted=['/verif/spec/cases_schema.py (meaning of the notation)', 'pyparsing, Jinja2'], assumptions=COMPILER, **k)


from spec import cases_schema      # registers the case kinds

PROPS.update({
    'C16': schema(shape_jobs('c16'), ('gen_constraints',), ['shapes of modules: every combination of endpoints (absent, number, negative, value reference, value '
                  'reference of a named type), open endpoints, extension markers and hosts, in ten contexts; numbers and names arbitrary']),
    'C17': schema(shape_jobs('c17'), ('gen_structure',), corpus=(
                  ('addition_order', (('type', 'T', ('seq', (('a', 'mandatory', ('bool',), None), '...', ('[[', None, (('b', 'mandatory', ('bool',), None),)),
                                                             ('c', 'mandatory', ('int', None), None)))),)),
                  ('addition_order', (('type', 'T', ('seq', (('a', 'mandatory', ('bool',), None), '...', ('c', 'mandatory', ('int', None), None),
                                                             ('[[', None, (('b', 'mandatory', ('bool',), None),))))),))), bounded= ['shapes of modules: 22 component types in every place and kind, layouts of up to 2 (thorough: 3) '
                  'components per part, up to 3 groups, nesting 3 (thorough: 4); numbers and names arbitrary']),
    'C18': schema(shape_jobs('c18'), ('gen_order', 'gen_alias'), ['modules of 2 to 5 definitions, every kind of reference, all or selected orders; '
                  'names and numbers arbitrary']),
})


def multi_jobs(label, mod, fn, many, size):
    return [('proof', '%s #%d' % (label, i), mod, 'multi', (fn, tuple(ch)), {'budget': 240.0, 'timeout': 8000, 'max_paths': 200000})
            for i, ch in enumerate(chunks(many, size))]


def c19_jobs(tier):
    from . import shapes
    return ([('proof', 'removal of comments, any text', 'contracts.comments', 'strip', (), {'budget': 240.0, 'timeout': 8000, 'max_paths': 20000})] +
            multi_jobs('layouts', 'contracts.comments', 'layout', shapes.c19(tier == 'thorough'), 10))


def c20_jobs(tier):
    from . import shapes
    a, b = shapes.c20(tier == 'thorough')
    return multi_jobs('after anything', 'contracts.compiler', 'any_history', a, 25) + multi_jobs('after another schema', 'contracts.compiler', 'history', b, 15)


PROPS.update({
    'C19': schema(c19_jobs, ('gen_layout', 'gen_gap'), ['removal of comments: any text of any length, no bound; that the grammar skips white space alike everywhere: '
                  'about 250 module shapes (thorough: 1200) with arbitrary names and numbers in 9 layouts each']),
    'C20': schema(c20_jobs, ('gen_compile_history',), ['module shapes as listed (names and numbers arbitrary), complete or with a definition missing, after any '
                  'compilations (persistent tables filled with anything), and after given other modules, accepted or not',
                  'persistent state: what compiling changes in module globals, class attributes and function defaults of the repository']),
})
