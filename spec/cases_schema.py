"""Concrete cases for the schema compiler: modules (abstract syntax) -> ASN.1 text -> parse_asn1_schema -> generated
classes, compared with what the module says (spec.model descriptors, X.691 oracle).  Bounded stand-in for the parts no
contract reaches (the pyparsing grammar, the Jinja engine) and replay of counterexamples; never counted as proved.

A module is a tuple of assignments
  ('type', Name, T)   ('value', name, T, V)
T: ('bool',) ('int', C) ('bits', C) ('oct', C) ('enum', items, additions|None) ('ref', Name) ('seqof', C, T)
   ('seq', elements) ('choice', elements)
C: None | (lo, hi, flags)   lo, hi: None (MIN / MAX) | int | 'valueref';  flags: letters
     s single value, < open lower end, > open upper end, e extensible, a with additional values, o marker outside SIZE( )
items: ((name, number|None), ...)
elements: component (name, kind, T, V|None) | '...' | ('[[', version|None, (component, ...))
V: ('n', int) ('b', bool) ('B', '0101') ('H', 'AF') ('item', name) ('ref', name) ('empty',)
"""
import ast
import itertools
import keyword
import re
import os
import random
import signal
import struct

from spec import model, x691           # puts /repo and its dependencies on the path
import pyparsing
pyparsing.ParserElement.enablePackrat(cache_size_limit=None)      # same result, without the exponential re-parsing

from spec.cases import kind
from spec.model import plain, normal, oracle, valid, domain, strip, all_components, short
import asn1PERser
from asn1PERser import encode, decode, parse_asn1_schema


# ------------------------------------------------------------------ meaning of a module
def py(name):
    n = name.replace('-', '_')
    return n + '_' if keyword.iskeyword(n) else n


class Mod:
    def __init__(self, m):
        self.types = {a[1]: a[2] for a in m if a[0] == 'type'}
        self.values = {a[1]: (a[2], a[3]) for a in m if a[0] == 'value'}

    def base(self, T):
        while T[0] == 'ref':
            T = self.types[T[1]]
        return T

    def number(self, x):
        if isinstance(x, str):
            return self.value(*self.values[x])
        return x

    def bounds(self, C):
        """(extensible, lower, upper) of the root"""
        if C is None:
            return (False, None, None)
        lo, hi, fl = C
        lo, hi = self.number(lo), self.number(hi)
        if 's' in fl:
            hi = lo
        if '<' in fl and lo is not None:
            lo += 1
        if '>' in fl and hi is not None:
            hi -= 1
        return ('e' in fl, lo, hi)

    def size(self, C):
        e, lo, hi = self.bounds(C)
        return (e, 0 if C is not None and lo is None else lo, hi)

    def numbers(self, items, adds):
        """X.680 20.3, 20.6"""
        used = {n for _, n in items if n is not None}
        out, k = [], 0
        for _, n in items:
            if n is None:
                while k in used:
                    k += 1
                n = k
                k += 1
            out.append(n)
        root, last = set(out), None
        for _, n in adds:
            if n is None:
                n = 0 if last is None else last + 1
                while n in root:
                    n += 1
            last = n
            out.append(n)
        return tuple(out)

    def desc(self, T):
        """spec.model descriptor of a type"""
        k = T[0]
        if k == 'ref':
            return self.desc(self.types[T[1]])
        if k == 'bool':
            return ('bool',)
        if k == 'int':
            return ('int',) + self.bounds(T[1])
        if k in ('bits', 'oct'):
            return (k,) + self.size(T[1])
        if k == 'enum':
            return ('enum', T[2] is not None, tuple(n for n, _ in T[1]), tuple(n for n, _ in T[2] or ()), self.numbers(T[1], T[2] or ()))
        if k == 'seqof':
            return ('seqof',) + self.size(T[1]) + (self.desc(T[2]),)
        root, adds, groups, marks = [], [], [], 0
        for e in T[1]:
            if e == '...':
                marks += 1
            elif e[0] == '[[':
                groups.append(tuple(self.comp(k, c) for c in e[2]))
            elif marks == 1:
                if k == 'choice' and groups:
                    groups.append((self.comp(k, e),))       # brackets do not matter in a CHOICE, the order does
                else:
                    adds.append(self.comp(k, e))
            else:
                root.append(self.comp(k, e))
        return (k, marks > 0, tuple(root), tuple(adds), tuple(groups))

    def comp(self, k, c):
        name, kind_, T, d = c
        if k == 'choice':
            return (name, self.desc(T))
        return (name, kind_, self.desc(T), self.value(T, d) if kind_ == 'default' else None)

    def value(self, T, V):
        B = self.base(T)
        if V[0] == 'ref':
            return self.value(*self.values[V[1]])
        if V[0] == 'empty':
            return []
        if V[0] in 'BH' and B[0] in ('bits', 'oct'):
            bits = V[1] if V[0] == 'B' else ''.join(format(int(c, 16), '04b') for c in V[1])
            if B[0] == 'bits':
                return bits
            bits += '0' * (-len(bits) % 8)
            return model.to_bytes(bits)
        return V[1]


# ------------------------------------------------------------------ text of a module: lexical items
def lex_C(C, size):
    if C is None:
        return []
    lo, hi, fl = C
    num = lambda x, m: [m] if x is None else ([x] if isinstance(x, str) else (['-', str(-x)] if x < 0 else [str(x)]))
    body = num(lo, 'MIN')
    if 's' not in fl:
        body = body + (['<'] if '<' in fl else []) + ['..'] + (['<'] if '>' in fl else []) + num(hi, 'MAX')
    ext = []
    if 'e' in fl:
        ext = [',', '...']
        if 'a' in fl:
            ext += [',', '90000', '..', '90001']
    if not size:
        return ['('] + body + ext + [')']
    if 'o' in fl:
        if 'a' in fl:
            ext = ext[:2]
        return ['(', 'SIZE', '('] + body + [')'] + ext + [')']
    return ['(', 'SIZE', '('] + body + ext + [')', ')']


def lex_V(V):
    if V[0] == 'n':
        if isinstance(V[1], str):
            return [V[1]]
        return ['-', str(-V[1])] if V[1] < 0 else [str(V[1])]
    if V[0] == 'b':
        return ['TRUE' if V[1] else 'FALSE']
    if V[0] in 'BH':
        return ["'%s'%s" % (V[1], V[0])]
    if V[0] == 'empty':
        return ['{', '}']
    return [V[1]]


def lex_T(T):
    k = T[0]
    if k == 'ref':
        return [T[1]]
    if k == 'bool':
        return ['BOOLEAN']
    if k == 'int':
        return ['INTEGER'] + lex_C(T[1], False)
    if k == 'bits':
        return ['BIT', 'STRING'] + lex_C(T[1], True)
    if k == 'oct':
        return ['OCTET', 'STRING'] + lex_C(T[1], True)
    if k == 'enum':
        item = lambda i: [i[0]] + ([] if i[1] is None else ['('] + lex_V(('n', i[1])) + [')'])
        parts = [item(i) for i in T[1]]
        if T[2] is not None:
            parts += [['...']] + [item(i) for i in T[2]]
        return ['ENUMERATED', '{'] + commas(parts) + ['}']
    if k == 'seqof':
        return ['SEQUENCE'] + lex_C(T[1], True) + ['OF'] + lex_T(T[2])
    parts = []
    for e in T[1]:
        if e == '...':
            parts.append(['...'])
        elif e[0] == '[[':
            parts.append(['[['] + ([] if e[1] is None else [str(e[1]), ':']) + commas([lex_comp(k, c) for c in e[2]]) + [']]'])
        else:
            parts.append(lex_comp(k, e))
    return [{'seq': 'SEQUENCE', 'choice': 'CHOICE'}[k], '{'] + commas(parts) + ['}']


def lex_comp(k, c):
    out = [c[0]] + lex_T(c[2])
    if k == 'seq' and c[1] == 'optional':
        out += ['OPTIONAL']
    if k == 'seq' and c[1] == 'default':
        out += ['DEFAULT'] + lex_V(c[3])
    return out


def commas(parts):
    out = []
    for p in parts:
        out += ([','] if out else []) + p
    return out


def lex(m, name='Test-Module'):
    out = [name, 'DEFINITIONS', 'AUTOMATIC', 'TAGS', '::=', 'BEGIN']
    for a in m:
        if a[0] == 'type':
            out += ['\n', a[1], '::='] + lex_T(a[2])
        else:
            out += ['\n', a[1]] + lex_T(a[2]) + ['::='] + lex_V(a[3])
    return out + ['\n', 'END']


def text(m):
    return ' '.join(lex(m)).replace(' \n ', '\n') + '\n'


WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-\'')


def gap_needed(p, t):
    """do two lexical items need white space between them?"""
    if p == '-' and t.isdigit():
        return False
    need = (p[-1] in WORD and t[0] in WORD) or (p[-1] == '.' and t[0] == '.')
    return need or (p[-1] == '-' and t[0] == '-') or (p, t) in (('[', '['), (']', ']')) or p[-1] in '<' and t[0] in '.'


def layout(m, rng, comments=True):
    """the same lexical items with other white space and comments between them"""
    toks = [t for t in lex(m) if t != '\n']
    out = gap(rng, comments, False)
    for i, t in enumerate(toks):
        if i:
            p = toks[i - 1]
            need = gap_needed(p, t)
            out += gap(rng, comments, need)
        out += t
    return out + gap(rng, comments, False) + rng.choice(['', '\n'])


CHARS = ['a', 'Bar', 'INTEGER', 'END', '::=', ' ', '-', '*', '/', '"', "'", ',', '{', '}', '...', '5', 'BEGIN', '[[', '\t', '(']


def gap(rng, comments, need):
    m = rng.random()
    if m < .35 and not need:
        return ''
    if m < .7 or not comments:
        return rng.choice([' ', ' ', '\n', '  ', '\t', '\r\n', ' \n\n ', '\n    '])
    out = rng.choice(['', ' ', '\n', '  '])
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = ''.join(rng.choice(CHARS) for _ in range(rng.choice([0, 0, 1, 2, 5, 12])))
        if rng.random() < .5:
            # line comment, ended by the line or by another double hyphen
            while '--' in c:
                c = c.replace('--', '-')
            c = c.strip('-')
            end = rng.choice(['\n', '\n', '--', '--', '\r\n'])
            c = '--' + c + end
            if end == '--':
                c += rng.choice([' ', '', '\n']) if not out.endswith('-') else ' '
        else:
            c = block(rng, c, rng.choice([0, 0, 1, 2]))
        if out and out[-1] in '-/*' and c[0] in '-/*':
            out += ' '
        out += c
    if out[-1] in '-/*':
        out += rng.choice([' ', '\n'])
    return ' ' + out if out[0] in '-/*' else out


def without_comments(s):
    """X.680 12.6: (text with a blank for every comment, what is open at the end: '' or '--' or the depth of block comments)"""
    out, i, depth = '', 0, 0
    while i < len(s):
        two = s[i:i + 2]
        if depth:
            if two in ('/*', '*/'):
                depth += 1 if two == '/*' else -1
                i += 2
            else:
                i += 1
        elif two == '/*':
            depth, out, i = 1, out + ' ', i + 2
        elif two == '--':
            i, out = i + 2, out + ' '
            while i < len(s) and s[i] not in '\n\v\f\r' and s[i:i + 2] != '--':
                i += 1
            if i >= len(s):
                return out, '--'
            if s[i:i + 2] == '--':
                i += 2
        else:
            out, i = out + s[i], i + 1
    return out, depth or ''


def gap_case(m, at, g, tight=False):
    """g, which is comments and white space only, between two lexical items of m"""
    w, end = without_comments(g)
    if end or w.strip():
        return None
    toks = [t for t in lex(m) if t != '\n']
    at %= len(toks) + 1
    a, b = ' '.join(toks[:at]), ' '.join(toks[at:])
    if tight and (a[-1:] in ('-', '/', '*') or b[:1] in ('-', '/', '*') or not g or without_comments(a + g + b)[0].split() != (a + ' ' + b).split()):
        return None
    join = lambda x: a + x + b if tight and x == g else a + ' ' + x + ' ' + b
    return ('strip_comments', m, join(' '), join(g))


def gen_gap(rng):
    """comments of tricky text"""
    m = rng.choice(GAP_MODULES)
    for _ in range(200):
        n = rng.choice([2, 3, 4, 5, 6, 8, 10, 14, 20])
        g = ''.join(rng.choice(['-', '-', '--', '/*', '*/', '/', '*', '\n', 'x', ' ', '"', '\r', '\f', 'END']) for _ in range(n))
        w, end = without_comments(g)
        g += '\n' if end == '--' else '*/' * end if end else ''
        c = gap_case(m, rng.randrange(1000), g, rng.random() < .4)
        if c and len(g.strip()) > 1:
            return c


GAP_MODULES = ((('type', 'Ty-a', ('seq', (('co-a', 'optional', ('int', (-5, 7, '')), None), '...'))), ('value', 'va-a', ('int', None), ('n', 3))),
               (('type', 'Ty', ('choice', (('c', 'mandatory', ('bits', (1, 3, 'e')), None), ('d', 'mandatory', ('oct', None), None)))),),
               (('type', 'En', ('enum', (('a', 1), ('b-c', None)), (('d', None),))), ('type', 'So', ('seqof', (0, 4, ''), ('ref', 'En')))))


def comment_gaps(w):
    toks, mode, tok, d = w.get('tokens'), w.get('mode'), w.get('token'), w.get('depth')
    fill = lambda seq: ''.join('x' if t.startswith('\x01') else t for t in seq)
    if toks:
        g = ''
        for t in toks:
            end = without_comments(g)[1]
            g += (' ' if not end else 'x') if t.startswith('\x01') else t
        yield close(g)
        yield close(g, 'x')
        yield g.strip() + ('--' if without_comments(g.strip())[1] == '--' else '')
    for g in ('--x--', '----', '/*x*/', '/**/', '-- x\n'):
        yield g
    if mode:
        t = 'x' if (tok or '').startswith('\x01') else tok or ''
        for k in sorted({min(d, 2000) if isinstance(d, int) else 1, 1, 2, 5}):
            g = {'code': ' ', 'line': '-- x', 'block': '/*x' * k}[mode]
            for u in (t, 'x' + t + 'x'):
                if mode == 'code' and u.strip('-/*\n'):
                    continue
                yield close(g + u)
                if without_comments(g + u)[1] == '--':
                    yield (g + u).strip() + 'x--'
                yield close(g + u, ' x ')


def close(g, fill=''):
    end = without_comments(g)[1]
    return g + ('\n' if end == '--' else (fill + '*/') * end if end else '')


def block(rng, c, depth):
    while '*/' in c or '/*' in c or c.endswith('*') or c.endswith('/'):
        c = c.replace('*/', '* /').replace('/*', '/ *')
        c = c + ' ' if c and c[-1] in '*/' else c
    if c[:1] in ('/', '*'):
        c = ' ' + c
    c = c.replace('\t', rng.choice(['\t', '\n', ' -- ']))
    if depth:
        c = c + block(rng, 'x', depth - 1) + c
    return '/*' + c + '*/'


# ------------------------------------------------------------------ compiling in a process that compiled nothing before
def compile_here(s):
    try:
        return ('code', parse_asn1_schema(s))
    except RecursionError:
        return ('refused', 'RecursionError')
    except Exception as e:
        return ('refused', type(e).__name__)


def fresh(schemas):
    """outcome of the last schema after compiling the others, in a process forked for it"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(15)
            os.close(r)
            out = None
            for s in schemas:
                out = compile_here(s)
            data = repr(out).encode('utf-8', 'surrogatepass')
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    try:
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        try:
            if not chunks:
                os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not chunks:
        return ('refused', 'the compiler did not finish within 15 s')
    return ast.literal_eval(b''.join(chunks).decode('utf-8', 'surrogatepass'))


_forever = {}


def load(code):
    ns = {'__name__': 'generated'}
    exec(compile(code, '<generated>', 'exec'), ns)
    return ns


# ------------------------------------------------------------------ behaviour of a generated class
def make(proto, t, v):
    k = t[0]
    if k in ('bool', 'int', 'enum', 'oct'):
        return proto.clone(v)
    if k == 'bits':
        return type(proto)(binValue=v)
    o = proto.clone()
    if k == 'seqof':
        o.clear()
        o.extend([make(o.componentType, t[4], x) for x in v])
        return o
    ct = o.componentType
    part = lambda n: ct.getTypeByPosition(ct.getPositionByName(n))
    if k == 'choice':
        o[v[0]] = make(part(v[0]), model.choice_type(t, v[0]), v[1])
        return o
    for c in all_components(t):
        if c[0] in v:
            o[c[0]] = make(part(c[0]), c[2], v[c[0]])
    return o


def lens(t):
    _, ext, lb, ub = t[:4]
    c = [0, 1, 2, 3, 16, 17]
    for b in (lb, ub):
        if b is not None:
            c += [b - 1, b, b + 1]
    return [n for n in dict.fromkeys(c) if 0 <= n <= 400]


def probes(t, rng, cap=12):
    """(values of t near every bound, values t does not admit)"""
    k = t[0]
    if k == 'bool':
        return [True, False], []
    if k == 'int':
        c = [0, 1, -1, 127, 128, 255, 256, -129, 65536, 2 ** 31]
        for b in t[2:4]:
            if b is not None:
                c = [b, b - 1, b + 1] + c
        c = list(dict.fromkeys(c))
        return [v for v in c if valid(t, v)][:cap], [v for v in c if not valid(t, v)][:4]
    if k in ('bits', 'oct'):
        mk = (lambda n: ''.join(rng.choice('01') for _ in range(n))) if k == 'bits' else (lambda n: bytes(rng.randrange(256) for _ in range(n)))
        good = [mk(n) for n in lens(t) if t[1] or x691.in_root(n, t[2], t[3])]
        return good[:cap] or [mk(n) for n in [t[2] or 0] if n < 70000], [mk(n) for n in lens(t) if not (t[1] or x691.in_root(n, t[2], t[3]))][:4]
    if k == 'enum':
        names = list(t[2] + t[3])
        return names[:cap] + names[-3:], ['no-such-item']
    if k == 'seqof':
        g, b = probes(t[4], rng, 4)
        ns = [n for n in lens(t) if n < 40]
        lists = [[g[i % len(g)] for i in range(n)] for n in ns]
        good = [x for x in lists if t[1] or x691.in_root(len(x), t[2], t[3])]
        if not good and (t[2] or 0) < 300:
            good = [[g[0]] * (t[2] or 0)]
        bad = [x for x in lists if not (t[1] or x691.in_root(len(x), t[2], t[3]))][:3]
        bad += [x[:-1] + [y] for x in good if x for y in b][:3]
        return good[:cap], bad
    if k == 'choice':
        good, bad = [], []
        for c in all_components(t):
            g, b = probes(c[1], rng, 4)
            good += [(c[0], x) for x in g]
            bad += [(c[0], x) for x in b]
        return cut(rng, good, 3 * cap), cut(rng, bad, 6)
    cs = {c[0]: probes(c[2], rng, 5) for c in all_components(t)}
    if any(not g for g, _ in cs.values()):
        return [], []
    full = {n: g[0] for n, (g, _) in cs.items()}
    good, bad = [full], []
    root = {c[0]: full[c[0]] for c in t[2] if c[1] == 'mandatory'}
    good.append(root)
    live = dict(root)
    for c in t[3]:
        live = dict(live, **{c[0]: full[c[0]]})
        good.append(live)
    for g in t[4]:
        live = dict(live, **{c[0]: full[c[0]] for c in g})
        good.append(live)
        good.append({n: x for n, x in live.items() if not any(c[0] == n and c[1] != 'mandatory' for c in g)})
    for c in all_components(t):
        if c[1] != 'mandatory':
            good.append({n: x for n, x in full.items() if n != c[0]})
        good += [dict(full, **{c[0]: x}) for x in cs[c[0]][0][1:]]
        bad += [dict(full, **{c[0]: x}) for x in cs[c[0]][1]]
        if c[1] == 'default':
            good.append(dict(full, **{c[0]: c[3]}))
    return good[:2] + cut(rng, good[2:], 4 * cap), cut(rng, bad, 8)


def cut(rng, xs, n):
    return xs if len(xs) <= n else [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]


def names_of(t, proto):
    """names and kinds of the components, all levels"""
    k = t[0]
    if k == 'seqof':
        return names_of(t[4], proto.componentType)
    if k in ('seq', 'choice'):
        have = [x.name for x in proto.componentType.namedTypes] if len(proto.componentType) else []
        want = [c[0] for c in all_components(t)]
        if sorted(have) != sorted(want):
            return 'components %s, the schema says %s' % (have, want)
        for c in all_components(t):
            p = proto.componentType.getTypeByPosition(proto.componentType.getPositionByName(c[0]))
            d = names_of(c[2] if k == 'seq' else c[1], p)
            if d:
                return '%s: %s' % (c[0], d)
    if k == 'enum':
        have, want = sorted((str(n), int(i)) for n, i in proto.namedValues.items()), sorted(zip(t[2] + t[3], t[4]))
        if have != want:
            return 'items %s, the schema says %s' % (have, want)
    return None


def attempt(f, *a):
    try:
        return ('ok', f(*a))
    except Exception as e:
        return ('error', '%s: %s' % (type(e).__name__, str(e)[:200]))


def behaves(name, cls, t, rng):
    """the generated class works like the type written in the schema; where it does not, but the same type written by hand with the
    library does not either, the compiler is not at fault (properties of the codec)"""
    proto = cls()
    d = names_of(t, proto)
    if d:
        return '%s: %s' % (name, d)
    hand = lambda: model.build(t)()
    enc = lambda v, p: encode(make(p, t, v))
    good, bad = probes(t, rng)
    for v in good:
        if not (valid(t, v) and domain(t, v)):
            continue
        try:
            want = oracle(t, v)
        except x691.Unsupported:
            continue
        got = attempt(enc, v, proto)
        if got != ('ok', want):
            if attempt(enc, v, hand())[0:2 if got[0] == 'ok' else 1] != got[0:2 if got[0] == 'ok' else 1]:
                return '%s: value %s: %s, for the type written in the schema the encoding is %s' % (
                    name, repr(v)[:200], short(got[1]) if got[0] == 'ok' else 'refused (%s)' % got[1], short(want))
            continue
        p = attempt(lambda: strip(t, plain(t, decode(want, cls()))))
        if p != ('ok', strip(t, normal(t, v))):
            q = attempt(lambda: strip(t, plain(t, decode(want, hand()))))
            if p[0] != q[0] or p[0] == 'ok' and p != q:
                return '%s: encoding %s gives %s, for the type written in the schema it is %s' % (name, short(want), repr(p)[:200], repr(v)[:200])
    for v in bad:
        got = attempt(enc, v, proto)
        if got[0] == 'ok' and attempt(enc, v, hand()) != got:
            return '%s: value %s, which the type written in the schema does not admit, is encoded as %s' % (name, repr(v)[:200], short(got[1]))
    return None


def definitions(code):
    """names bound at module level by the generated code, in order (imports left out), and names used by each"""
    out = []
    for n in ast.parse(code).body:
        if isinstance(n, ast.ClassDef):
            out.append(n.name)
        elif isinstance(n, ast.Assign):
            out += [x.id for x in n.targets if isinstance(x, ast.Name)]
    return out


def judge(m, out, rng):
    """the generated code against the module: None or what is wrong"""
    M = Mod(m)
    if out[0] != 'code':
        return 'the schema is refused (%s)' % out[1]
    code = out[1]
    try:
        names = definitions(code)
    except SyntaxError as e:
        return 'the generated code is not Python: %s' % e
    for a in m:
        n = names.count(py(a[1]))
        if n != 1:
            return '%s is defined %d times in the generated code' % (a[1], n)
    try:
        ns = load(code)
    except Exception as e:
        return 'the generated code does not load: %s: %s' % (type(e).__name__, str(e)[:300])
    for a in m:
        o = ns[py(a[1])]
        if a[0] == 'type':
            if not isinstance(o, type):
                return '%s is no class' % a[1]
            d = behaves(a[1], o, M.desc(a[2]), rng)
            if d:
                return d
        else:
            t, v = M.desc(a[2]), M.value(a[2], a[3])
            try:
                got = plain(t, o)
            except Exception as e:
                return '%s is no value of its type (%s)' % (a[1], str(e)[:200])
            if got != v:
                return '%s is %r, the schema says %r' % (a[1], got, v)
    return None


@kind('schema')
def run_schema(m):
    return judge(m, fresh([text(m)]), random.Random(7))


@kind('layout')
def run_layout(m, seed):
    other = layout(m, random.Random(seed))
    a, b = fresh([text(m)]), fresh([other])
    if a != b:
        return 'layout and comments change the result (%s / %s) for\n%s' % (diff(a), diff(b), other[:1500])
    return None


@kind('addition_order')
def run_addition_order(m):
    """the additions of the first type, in the order they have on the wire, against the schema's"""
    out = fresh([text(m)])
    if out[0] != 'code':
        return None
    cls = load(out[1])[py(m[0][1])]
    got = [n.name for n in (cls.extensionAddition.namedTypes if cls.extensionAddition else ())]
    got += [n.name for g in cls.extensionAdditionGroups for n in g.namedTypes]
    es = m[0][2][1]
    es = es[es.index('...') + 1:]
    es = es[:es.index('...')] if '...' in es else es
    want = [c[0] for e in es for c in (e[2] if e[0] == '[[' else (e,))]
    return None if got == want else 'additions are encoded in the order %s, the schema has %s' % (got, want)


def diff(x):
    return x[1] if x[0] == 'refused' else 'code of %d characters' % len(x[1])


@kind('strip_comments')
def run_strip(m, a, b):
    """two texts with the same lexical items"""
    x, y = fresh([a]), fresh([b])
    return None if x == y else 'results differ (%s / %s)' % (diff(x), diff(y))


@kind('compile_history')
def run_compile_history(history, m):
    """history: modules or texts compiled before"""
    texts = [h if isinstance(h, str) else text(h) for h in history]
    s = m if isinstance(m, str) else text(m)
    a, b = fresh([s]), fresh(texts + [s])
    if a != b:
        return 'after compiling %d other schemas the result differs (%s / %s)' % (len(texts), diff(a), diff(b))
    return None


# ------------------------------------------------------------------ generators
UPPER = ['INTEGER', 'BOOLEAN', 'SEQUENCE', 'BIT', 'OCTET', 'ENUMERATED', 'CHOICE', 'END', 'BEGIN', 'DATE', 'SET', 'OPTIONAL', 'DEFAULT', 'TRUE', 'MIN', 'MAX',
         'SIZE', 'NULL', 'OF', 'IMPORTS', 'UNION', 'Zz-Z', 'IntegerType']
LOWER = ['min', 'max', 'size', 'optional', 'end', 'integer', 'true', 'value', 'self', 'name', 'rootComponent', 'componentType', 'zq', 'b', 'h']


class Gen:
    def __init__(self, rng, focus=''):
        self.r = rng
        self.focus = focus
        self.types, self.values = [], []          # (name, T), (name, T, V)
        self.n = 0
        self.used = set()

    def name(self, p):
        self.n += 1
        if p[0].islower() and self.r.random() < .03:
            ks = [k for k in keyword.kwlist if k[0].islower() and k not in self.used]
            if ks:
                k = self.r.choice(ks)
                self.used.add(k)
                return k
        if self.r.random() < .08:
            p = self.r.choice(UPPER if p[0].isupper() else LOWER)
        return p + self.r.choice(['', '-', 'x-y', 'Long-Name']) + str(self.n)

    def ints(self):
        """value references that are numbers"""
        M = Mod(self.module(False))
        return [(n, M.value(T, V)) for n, T, V in self.values if M.base(T)[0] == 'int']

    def C_int(self):
        r = self.r
        if r.random() < .2:
            return None
        t = model.gen_int_type(r)
        _, ext, lo, hi = t
        if lo is not None and hi is not None and hi < lo:
            lo, hi = hi, lo
        fl = 'e' if ext or r.random() < .15 else ''
        if fl and r.random() < .3 and (hi or 0) < 80000:
            fl += 'a'
        if lo is not None and r.random() < .15:
            hi, fl = lo, fl + 's'
        else:
            if lo is not None and r.random() < .12:
                lo, fl = lo - 1, fl + '<'
            if hi is not None and r.random() < .12:
                hi, fl = hi + 1, fl + '>'
        ints = self.ints()
        if ints and r.random() < .35:
            n, v = r.choice(ints)
            if 's' in fl:
                lo = hi = n
            elif r.random() < .5 and (hi is None or hi - ('>' in fl) >= v + ('<' in fl)):
                lo = n
            elif lo is None or lo + ('<' in fl) <= v - ('>' in fl):
                hi = n
        if lo is None and hi is None:
            return (None, None, fl)
        return (lo, hi, fl)

    def C_size(self):
        r = self.r
        ext, lo, hi = model.gen_size(r)
        if lo is None:
            return None
        fl = 'e' if ext else ''
        if fl and r.random() < .3:
            fl += 'o'
        elif fl and r.random() < .3 and hi is not None and hi < 80000:
            fl += 'a'
        if hi == lo and r.random() < .8:
            fl += 's'
        elif r.random() < .1:
            if r.random() < .5 and lo > 0:
                lo, fl = lo - 1, fl + '<'
            elif hi is not None:
                hi, fl = hi + 1, fl + '>'
        ints = [(n, v) for n, v in self.ints() if v >= 0]
        if ints and r.random() < .3:
            n, v = r.choice(ints)
            if 's' in fl:
                lo = hi = n
            elif hi is None or v <= hi - ('>' in fl) - ('<' in fl):
                lo = n
            elif v >= lo + ('>' in fl) + ('<' in fl):
                hi = n
        return (lo, hi, fl)

    def enum(self):
        r = self.r
        n = r.choice([1, 2, 3, 4, 6, 17])
        a = r.choice([None, None, 0, 1, 2, 5])
        k = itertools.count()
        nm = lambda: r.choice(['it%d', 'an-item%d', 'x%dY']) % next(k)
        items, adds = [[nm(), None] for _ in range(n)], [[nm(), None] for _ in range(a or 0)]
        if r.random() < .35:
            nums = r.sample(range(-3, 3 * n + 4), n)
            for i, x in zip(items, nums):
                if r.random() < .6:
                    i[1] = x
            last = max(Mod(()).numbers([tuple(i) for i in items], ()))
            for i in adds:
                if r.random() < .5:
                    last += r.choice([1, 2, 10])
                    i[1] = last
                else:
                    cur = Mod(()).numbers([tuple(x) for x in items], [tuple(x) for x in adds[:adds.index(i) + 1]])
                    last = max(last, cur[-1])
        return ('enum', tuple(map(tuple, items)), None if a is None else tuple(map(tuple, adds)))

    def simple(self):
        r = self.r
        k = r.choice(['bool', 'int', 'int', 'int', 'bits', 'oct', 'enum'])
        if k == 'bool':
            return ('bool',)
        if k == 'int':
            return ('int', self.C_int())
        if k == 'enum':
            return self.enum()
        return (k, self.C_size())

    def T(self, depth, ref=.35):
        r = self.r
        if self.types and r.random() < ref:
            return ('ref', r.choice(self.types)[0])
        if depth == 0 or r.random() < (.7 if self.focus == 'C16' else .5):
            return self.simple()
        k = r.choice(['seq', 'seq', 'seqof', 'choice'])
        if k == 'seqof':
            return ('seqof', self.C_size(), self.T(depth - 1))
        return self.struct(k, depth)

    def struct(self, k, depth):
        r = self.r
        names = itertools.count()
        fresh_name = lambda: r.choice(['f%d', 'f%d', 'fi-eld%d', 'fF%dz']) % next(names)
        kw = ['from', 'in', 'is', 'class', 'pass', 'import', 'not', 'global', 'lambda', 'def']
        r.shuffle(kw)

        def comp(first=False):
            n = kw.pop() if r.random() < .04 and kw else fresh_name()
            T = self.T(depth - 1)
            if k == 'choice':
                return (n, 'mandatory', T, None)
            kd = 'mandatory' if first else r.choice(['mandatory', 'mandatory', 'optional', 'default'])
            V = None
            if kd == 'default':
                V = self.V(T)
                if V is None:
                    kd = 'optional'
            return (n, kd, T, V)
        n = r.choice([1, 1, 2, 3, 5])
        els = [comp(i == 0) for i in range(n)]
        if r.random() < .5:
            if k == 'seq' and r.random() < .15:
                tail, els = els, []
            else:
                tail = []
                if k == 'seq' and len(els) > 1 and r.random() < .25:
                    i = r.randrange(1, len(els))
                    els, tail = els[:i], els[i:]
            els.append('...')
            adds = [comp() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                adds.append(('[[', r.choice([None, None, None, 2, 13]), tuple(comp() for _ in range(r.choice([1, 1, 2, 3])))))
            if k == 'choice' and r.random() < .5:
                r.shuffle(adds)
            els += adds
            if tail or r.random() < .25:
                els.append('...')
            els += tail
        return (k, tuple(els))

    def V(self, T, refs=True):
        """a value of a simple type"""
        r = self.r
        M = Mod(self.module(False))
        B = M.base(T)
        t = M.desc(T)
        if refs and r.random() < .3:
            c = [(n, X, Y) for n, X, Y in self.values if M.base(X)[0] == B[0] and B[0] != 'seqof' and
                 (B[0] != 'enum' or T == X or (T[0] == 'ref' and X[0] == 'ref' and M.base(X) is B)) and valid(t, M.value(X, Y))]
            c = [x for x in c if B[0] != 'enum' or x[0] not in t[2] + t[3]]
            if c:
                return ('ref', r.choice(c)[0])
        if B[0] in ('seq', 'choice'):
            return None
        if B[0] == 'seqof':
            return ('empty',) if valid(t, []) and r.random() < .7 else None
        if B[0] in ('bits', 'oct') and (t[2] or 0) > 3000:
            return None
        v = model.gen_value(r, t)
        if B[0] == 'bool':
            return ('b', v)
        if B[0] == 'int':
            return ('n', v)
        if B[0] == 'enum':
            return ('item', v)
        if B[0] == 'oct':
            return ('H', v.hex().upper()) if r.random() < .6 else ('B', ''.join(format(b, '08b') for b in v))
        if len(v) % 4 == 0 and r.random() < .5:
            return ('H', ''.join(format(int(v[i:i + 4], 2), 'X') for i in range(0, len(v), 4)))
        return ('B', v)

    def add_value(self):
        r = self.r
        T = r.choice([('int', None), ('int', None), ('int', None), ('bool',), ('oct', None), ('bits', None)])
        c = [n for n, X in self.types if Mod(self.module(False)).base(X)[0] in ('bool', 'int', 'oct', 'bits', 'enum')]
        if c and r.random() < .4:
            T = ('ref', r.choice(c))
        if T == ('int', None) and r.random() < .6:
            V = ('n', r.choice([0, 1, 2, 3, 5, 8, 16, 20, 100, 255, -1, -128]))
        else:
            V = self.V(T)
        if V is None:
            T, V = ('int', None), ('n', r.randrange(20))
        self.values.append((self.name('v'), T, V))

    def add_type(self, depth):
        r = self.r
        if self.types and r.random() < .15:
            T = ('ref', r.choice(self.types)[0])
        else:
            T = self.T(depth, .1)
        self.types.append((self.name('T'), T))

    def module(self, shuffle=True):
        m = [('type', n, T) for n, T in self.types] + [('value',) + v for v in self.values]
        if shuffle:
            self.r.shuffle(m)
        return tuple(m)


def gen_module(rng, n, depth, values=.3, focus=''):
    g = Gen(rng, focus)
    for _ in range(n):
        if rng.random() < values:
            g.add_value()
        else:
            g.add_type(depth)
    return g.module()


def gen_constraints(rng):
    return ('schema', gen_module(rng, rng.choice([1, 2, 3, 5]), rng.choice([0, 1, 1, 2]), .3, 'C16'))


def gen_structure(rng):
    return ('schema', gen_module(rng, rng.choice([1, 2, 3]), rng.choice([1, 1, 2, 3]), .15, 'C17'))


def gen_order(rng):
    return ('schema', gen_module(rng, rng.choice([3, 5, 8, 12]), rng.choice([0, 1, 1]), .3, 'C18'))


def gen_alias(rng):
    """many references, few structures, random order"""
    g = Gen(rng)
    g.add_type(rng.choice([0, 1]))
    for _ in range(rng.choice([3, 6, 10])):
        m = rng.random()
        if m < .45:
            g.types.append((g.name('T'), ('ref', rng.choice(g.types)[0])))
        elif m < .6:
            g.add_value()
        elif m < .8:
            g.types.append((g.name('T'), ('seqof', None, ('ref', rng.choice(g.types)[0]))))
        else:
            g.types.append((g.name('T'), g.struct(rng.choice(['seq', 'choice']), 1)))
    return ('schema', g.module())


def gen_layout(rng):
    return ('layout', gen_module(rng, rng.choice([1, 2, 3]), rng.choice([0, 1, 2]), .3), rng.randrange(10 ** 9))


def broken(rng, m):
    s = text(m)
    how = rng.random()
    if how < .4:
        return s[:rng.randrange(len(s))]
    if how < .7:
        return s.replace('END', 'Bad ::= SEQUENCE { a No-Such-Type, b INTEGER (0..no-such) }\nEND')
    return s.replace('INTEGER', 'INTEGER INTEGER', 1) if 'INTEGER' in s else s[:-5]


def gen_compile_history(rng):
    m = gen_module(rng, rng.choice([1, 2, 4]), rng.choice([0, 1, 2]), .3)
    hist = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        h = gen_module(rng, rng.choice([1, 2, 4]), rng.choice([0, 1, 2]), .4)
        if rng.random() < .6:
            h = rename(h, m, rng)
        if rng.random() < .1:
            h = m
        elif rng.random() < .5:
            h = rng.choice(list(twins(m)) or [m])
        hist.append(broken(rng, h) if rng.random() < .3 else h)
    if rng.random() < .15:
        m = broken(rng, m)
    return ('compile_history', tuple(hist), m)


def twins(m):
    """modules with the names of m that differ from it in one place"""
    for i, a in enumerate(m):
        if a[0] == 'type':
            for T in twin_T(a[2]):
                yield m[:i] + (('type', a[1], T),) + m[i + 1:]
        else:
            for V in twin_V(a[3]):
                yield m[:i] + (a[:3] + (V,),) + m[i + 1:]


def twin_V(V):
    if V[0] == 'b':
        yield ('b', not V[1])
    if V[0] == 'n':
        yield ('n', '77060577' if isinstance(V[1], str) else V[1] + 1)
    if V[0] == 'B' and V[1]:
        yield ('B', V[1][1:])


def twin_comp(c):
    name, kd, T, d = c
    if kd == 'default':
        for V in twin_V(d):
            yield (name, kd, T, V)
    for k in ('mandatory', 'optional'):
        if k != kd:
            yield (name, k, T, None)
    if kd != 'default':
        if T[0] == 'bool':
            yield (name, 'default', T, ('b', True))
        for x in twin_T(T):
            yield (name, kd, x, None)
        yield (name, kd, ('bool',) if T[0] != 'bool' else ('oct', None), None)


def twin_T(T):
    k = T[0]
    if k in ('int', 'bits', 'oct', 'seqof'):
        if T[1] is not None:
            yield (k, None) + T[2:]
            yield (k, (T[1][0], T[1][1], T[1][2].replace('e', '').replace('a', '').replace('o', '') if 'e' in T[1][2] else T[1][2] + 'e')) + T[2:]
        elif k == 'int':
            yield (k, (0, 3, ''))
        else:
            yield (k, (None, None, 'e')) + T[2:]
    if k == 'seqof':
        for x in twin_T(T[2]):
            yield (k, T[1], x)
    if k in ('seq', 'choice'):
        es = T[1]
        if '...' not in es:
            yield (k, es + ('...',))
        elif es[-1] == '...' and es.count('...') == 1 and len(es) > 1:
            yield (k, es[:-1])
        if len(es) > 1 and all(e != '...' and e[0] != '[[' for e in es):
            yield (k, es[::-1])
            yield (k, es[:1] + ('...',) + es[1:])
        if len(es) > 2 and es[-1] != '...':
            yield (k, es[:-1])
        for i, e in enumerate(es):
            if e == '...':
                continue
            if e[0] == '[[':
                yield (k, es[:i] + e[2] + es[i + 1:])
                for j, c in enumerate(e[2]):
                    for x in (twin_comp(c) if k == 'seq' else ()):
                        yield (k, es[:i] + (('[[', e[1], e[2][:j] + (x,) + e[2][j + 1:]),) + es[i + 1:])
            elif k == 'seq':
                for x in twin_comp(e):
                    yield (k, es[:i] + (x,) + es[i + 1:])
            else:
                for x in twin_T(e[2]):
                    yield (k, es[:i] + ((e[0], e[1], x, None),) + es[i + 1:])
    if k == 'enum':
        yield (k, T[1], () if T[2] is None else None)
        if len(T[1]) > 1:
            yield (k, T[1][::-1], T[2])
            yield (k, T[1][:-1], T[2])


def rename(h, m, rng):
    """give definitions of h the names of definitions of m"""
    pool = {k: [a[1] for a in m if a[0] == k] for k in ('type', 'value')}
    sub = {}
    for a in h:
        if pool[a[0]] and rng.random() < .7:
            n = pool[a[0]].pop(rng.randrange(len(pool[a[0]])))
            sub[a[1]] = n
    taken = set(sub.values())
    for a in h:
        if a[1] not in sub and a[1] in taken:
            sub[a[1]] = a[1] + 'z9'

    def walk(x):
        if isinstance(x, tuple):
            return tuple(walk(y) for y in x)
        return sub.get(x, x) if isinstance(x, str) else x
    return walk(h)


def shrinks(m):
    """smaller modules"""
    used = lambda n, rest: any(n in repr(a) for a in rest)
    for i, a in enumerate(m):
        rest = m[:i] + m[i + 1:]
        if not used(repr(a[1]), rest) and rest:
            yield rest
    for i, a in enumerate(m):
        if a[0] == 'type':
            for T in shrink_T(a[2]):
                yield m[:i] + (('type', a[1], T),) + m[i + 1:]


def shrink_T(T):
    k = T[0]
    if k in ('int', 'bits', 'oct') and T[1] is not None:
        yield (k, None)
    if k == 'seqof':
        yield T[2]
        if T[1] is not None:
            yield (k, None, T[2])
        for x in shrink_T(T[2]):
            yield (k, T[1], x)
    if k in ('seq', 'choice'):
        for i, e in enumerate(T[1]):
            rest = T[1][:i] + T[1][i + 1:]
            if e != '...' and rest and any(x != '...' for x in rest) and not (k == 'choice' and rest[0] == '...'):
                yield (k, rest)
            if e == '...' and '...' not in rest and all(x[0] != '[[' for x in rest):
                yield (k, rest)
        for i, e in enumerate(T[1]):
            if e != '...' and e[0] != '[[':
                yield e[2]
                for x in shrink_T(e[2]):
                    if e[1] != 'default':
                        yield (k, T[1][:i] + ((e[0], e[1], x, None),) + T[1][i + 1:])
            elif e != '...':
                for j, c in enumerate(e[2]):
                    if len(e[2]) > 1:
                        yield (k, T[1][:i] + (('[[', e[1], e[2][:j] + e[2][j + 1:]),) + T[1][i + 1:])
    if k == 'enum' and len(T[1]) > 1:
        yield (k, T[1][:-1], T[2])


def shrink_case(case, run, budget=150):
    import time
    t0 = time.time()
    progress = True
    while progress and budget > 0 and time.time() - t0 < 60:
        progress = False
        at = {'schema': 1, 'layout': 1, 'compile_history': 2}.get(case[0])
        if at is None:
            break
        cands = []
        if case[0] == 'compile_history':
            cands += [(case[0], case[1][:i] + case[1][i + 1:], case[2]) for i in range(len(case[1])) if len(case[1]) > 1]
            cands += [(case[0], case[1][:i] + (h,) + case[1][i + 1:], case[2]) for i in range(len(case[1])) if not isinstance(case[1][i], str)
                      for h in shrinks(case[1][i])]
        if not isinstance(case[at], str):
            cands += [case[:at] + (x,) + case[at + 1:] for x in shrinks(case[at])]
        for c in cands:
            budget -= 1
            if budget <= 0 or time.time() - t0 > 60:
                break
            try:
                ok = run(c) is not None
            except Exception:
                ok = False
            if ok:
                case, progress = c, True
                break
    return case


# ------------------------------------------------------------------ counterexamples of the compiler obligations
KEYWORDS = ('from', 'in', 'is', 'class', 'pass', 'import', 'not', 'global', 'lambda', 'def', 'del', 'elif', 'else', 'try', 'with', 'raise')


def sane(m):
    """numbers and values of a module make sense together (X.680): non-empty ranges, values within their types, distinct items"""
    M = Mod(m)

    def T(t):
        k = t[0]
        if k in ('int', 'bits', 'oct', 'seqof'):
            e, lo, hi = M.bounds(t[1])
            if lo is not None and hi is not None and lo > hi:
                return False
            if k != 'int' and any(x is not None and not 0 <= x <= 3000 for x in (lo, hi)):
                return False
            if k == 'seqof':
                return T(t[2])
        if k == 'enum':
            xs = M.numbers(t[1], t[2] or ())
            adds = xs[len(t[1]):]
            return len(set(xs)) == len(xs) and list(adds) == sorted(adds)
        if k in ('seq', 'choice'):
            for e in t[1]:
                for c in () if e == '...' else e[2] if e[0] == '[[' else (e,):
                    if not T(c[2]) or k == 'seq' and c[1] == 'default' and not valid(M.desc(c[2]), M.value(c[2], c[3])):
                        return False
        return True
    for a in m:
        if not T(a[2]) or a[0] == 'value' and not valid(M.desc(a[2]), M.value(a[2], a[3])):
            return False
    return True


def concrete(m, numbers, names, hexes):
    def f(x):
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        if not isinstance(x, str):
            return x
        a = re.fullmatch(r'(-?)(77\d{6}77)', x)
        if a:
            n = numbers(a.group(2))
            return -n if a.group(1) else n
        a = re.fullmatch(r'([zZ])q(\d\d)-xqz', x)
        if a:
            return names(a.group(1), a.group(2))
        if ' ' in x:
            return re.sub(r'77\d{6}77|[zZ]q\d\d-xqz|ABCDEF\d\dFEDCBA', lambda a: str(f(a.group())), x)
        return hexes(x) if re.fullmatch(r'ABCDEF\d\dFEDCBA', x) else x
    return f(m)


def instances(m, w, rng, tries=60, check=True):
    """concrete modules of a generic one: the numbers of the solver first, then numbers that make sense together"""
    style = rng.random() < .5

    def names(c, i):
        if w.get('kw' + i) is True:
            return KEYWORDS[int(i) % len(KEYWORDS)]
        return {'z': 'na%s%s', 'Z': 'Na%s%s'}[c] % ('-me-' if style else 'me', i)
    for k in range(tries):
        memo = {}

        def num(a):
            if a not in memo:
                v = w.get(a) if k == 0 else None
                i = int(a[2:-2])
                memo[a] = v if isinstance(v, int) else 3 * i + rng.choice([0, 0, 1]) if k % 3 == 1 else rng.choice([0, 1, 2, 3, 5, 8, 17, 40, 70, 300])
            return memo[a]
        hx = {}

        def hexes(x):
            if x not in hx:
                hx[x] = ''.join(rng.choice('0123456789ABCDEF') for _ in range(rng.choice([2, 4, 6, 8])))
            return hx[x]
        c = concrete(m, num, names, hexes)
        try:
            ok = not check or sane(c)
        except Exception:
            ok = False
        if ok:
            yield c


def from_witness(w, rng):
    sh = w.get('shape')
    if not sh:
        return
    if sh[0] == 'module':
        for c in instances(sh[1], w, rng):
            yield ('schema', c)
    elif sh[0] == 'layout':
        for c in instances(sh[1], w, rng, 6):
            for k in range(8):
                yield ('layout', c, rng.randrange(10 ** 6))
            toks = [t for t in lex(c) if t != '\n']
            for j in ('\n', '\t', '\r\n', '  \n '):
                yield ('strip_comments', c, text(c), j.join(toks))
            yield ('strip_comments', c, text(c), ''.join(('' if not i else ' ' if gap_needed(toks[i - 1], t) else '') + t for i, t in enumerate(toks)))
    elif sh[0] == 'comments':
        for g in comment_gaps(w):
            for m in GAP_MODULES:
                for at in (3, 8, 11, 12, 13, 20):
                    for tight in (False, True):
                        c = gap_case(m, at, g, tight)
                        if c:
                            yield c
    elif sh[0] == 'history':
        for c in instances(('pair',) + tuple(sh[1:]), w, rng, 6, False):
            yield ('compile_history', c[1], c[2])
            for b in c[1]:
                yield ('compile_history', (b,), c[2])
