"""C16, C17, C18, C20: the schema compiler on generic modules.

Names and numbers of a module are atoms (pyver.text): one run stands for every choice of names and numbers.  The text of the module goes
through the real parse_asn1_schema: pyparsing parses it natively (trusted, on generic spellings), every parse action, sorting step and
template of /repo is interpreted, and the generated code is evaluated with recording stand-ins for the names of its header.  Postcondition:
the recorded types are those written in the schema (Mod.desc), with the numbers compared by the solver.
"""
import ast
import inspect
import keyword
import re
import types

from spec import model
from pyver import text as T
from spec import cases_schema as S
from .base import *
import asn1PERser
from asn1PERser.classes.types import constraint as K
from pyver.frame import Guard

DEBUG = 0
KEYWORDS = ['from', 'in', 'is', 'class', 'pass', 'import', 'not', 'global', 'lambda', 'def', 'del', 'elif', 'else', 'try', 'with', 'raise']


def low(i):
    return 'zq%02d-xqz' % i


def up(i):
    return 'Zq%02d-xqz' % i


class SMod(S.Mod):
    """meaning of a module whose numbers are terms"""
    def __init__(self, m, atoms):
        S.Mod.__init__(self, m)
        self.atoms = atoms

    def number(self, x):
        if isinstance(x, str):
            t = self.atoms.numeral(x.replace(' ', ''))
            if t is not None:
                return t
        return S.Mod.number(self, x)

    def value(self, Ty, V):
        if V[0] == 'n':
            return self.number(V[1])
        B = self.base(Ty)
        if V[0] == 'H' and T.has(V[1]) and B[0] in ('bits', 'oct'):
            return ('hex', V[1])
        return S.Mod.value(self, Ty, V)

    def numbers(self, items, adds):
        eq = lambda a, b: ctx().branch(z(a) == z(b))
        items = [(n, None if x is None else self.number(x)) for n, x in items]
        adds = [(n, None if x is None else self.number(x)) for n, x in adds]
        used = [x for _, x in items if x is not None]
        out, k = [], 0
        for _, n in items:
            if n is None:
                while any(eq(k, u) for u in used):
                    k += 1
                n, k = k, k + 1
            out.append(n)
        root, last = list(out), None
        for _, n in adds:
            if n is None:
                n = 0 if last is None else last + 1
                while any(eq(n, u) for u in root):
                    n = n + 1
            last = n
            out.append(n)
        return tuple(out)


# ------------------------------------------------------------------ the generated code, recorded
class Rec:
    """what a class of the header does with its arguments, as far as the meaning of a module goes"""
    base = None

    def __init__(self, *a, **k):
        self.a, self.k = a, k
        self.cleared = False

    def clear(self):
        self.cleared = True
        return self


def recorded(code, atoms):
    """{name: recorded object} of the generated code"""
    c = ctx()
    spell = {}
    kws = list(KEYWORDS)
    for i in sorted(atoms.may_be_keyword):
        if c.branch(z3.Bool('keyword_%s' % i)):
            for b in 'zZ':
                spell['%sq%s_xqz' % (b, i)] = kws[int(i) % len(kws)]
    for a, b in spell.items():
        code = code.replace(a, b)
    code = T.NUM.sub(lambda m: 'N_("%s")' % m.group(), code)
    ns = header(atoms)
    tree = ast.parse(code)
    order = []
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            names = [x.asname or x.name for x in n.names if x.name != '*']
            if all(x in ns or x == 'NamedTypes' for x in names):
                continue
            raise Unsupported('the generated code imports %s' % [x for x in names if x not in ns])
        if isinstance(n, ast.ClassDef):
            order.append(n.name)
        elif isinstance(n, ast.Assign) and all(isinstance(x, ast.Name) for x in n.targets):
            order += [x.id for x in n.targets]
        else:
            raise Unsupported('statement %s in the generated code' % type(n).__name__)
    tree.body = [n for n in tree.body if not isinstance(n, (ast.Import, ast.ImportFrom))]
    exec(compile(tree, '<generated>', 'exec'), ns)
    return ns, order, spell


def header(atoms):
    class Named(Rec):
        pass

    class Add(Rec):
        def __init__(self, *xs):
            self.xs = list(xs)

        def __add__(self, o):
            if isinstance(o, list):
                return Add(*(self.xs + [y for x in o for y in x.xs]))
            return Add(*(self.xs + o.xs))
    out = {'N_': lambda a: atoms.terms[a], '__name__': 'generated', 'MIN': K.MIN, 'MAX': K.MAX}

    def my_int(x):
        if isinstance(x, Rec) and type(x).base == 'IntegerType':
            v = value_of(x)
            if v is None:
                raise TypeError('no value')
            return v
        return x if z3.is_expr(x) else int(x)
    out['int'] = my_int
    for n in ('IntegerType', 'BooleanType', 'BitStringType', 'OctetStringType', 'EnumeratedType', 'SequenceType', 'ChoiceType', 'SequenceOfType',
              'UTF8String'):
        out[n] = type(n, (Rec,), {'base': n})
    for n in ('NoConstraint', 'ExtensionMarker', 'SequenceOfValueSize', 'ValueRange', 'SingleValue', 'ValueSize', 'ConstraintOr', 'ConstraintAnd'):
        out[n] = type(n, (Rec,), {'con': n})
    for n in ('NamedType', 'OptionalNamedType', 'DefaultedNamedType'):
        out[n] = type(n, (Named,), {'named': n})
    out['AdditiveNamedTypes'] = out['NamedTypes'] = out['NamedValues'] = Add
    return out


def value_of(x):
    """value of a recorded instance (None: no value)"""
    if x.cleared:
        return []
    k, b = x.k, type(x).base
    if b in ('IntegerType', 'BooleanType', 'EnumeratedType'):
        v = x.a[0] if len(x.a) == 1 and not k else k.get('value') if len(k) == 1 and not x.a else None
        if v is None and (x.a or k):
            raise Unsupported('construction of a value')
        return value_of(v) if isinstance(v, Rec) else v
    if b in ('BitStringType', 'OctetStringType'):
        if len(x.a) == 1 and not k and isinstance(x.a[0], Rec):
            return value_of(x.a[0])
        if not x.a and not k:
            return None
        if not x.a and len(k) == 1:
            (n, v), = k.items()
            if n in ('binValue', 'hexValue') and isinstance(v, str):
                if T.has(v):
                    if T.HEX.fullmatch(v) and n == 'hexValue':
                        return ('hex', v)
                    raise Unsupported('string value')
                bits = v if n == 'binValue' else ''.join(format(int(c, 16), '04b') for c in v)
                if b == 'BitStringType':
                    return bits
                return model.to_bytes(bits + '0' * (-len(bits) % 8))
        raise Unsupported('construction of a string value')
    if x.a or x.k:
        raise Unsupported('construction of a structured value')
    return None


def bounds_of(con, size):
    """(extensible, lower, upper)"""
    if con is None or type(con).con == 'NoConstraint':
        return (False, None, None)
    n = type(con).con
    if n == 'ExtensionMarker':
        raise Unsupported('extension marker alone')
    if n == 'SingleValue':
        if len(con.a) != 2 or con.k:
            raise Unsupported('single value')
        return (bool(con.a[0]), con.a[1], con.a[1])
    if n not in ('ValueRange', 'ValueSize', 'SequenceOfValueSize'):
        raise Unsupported('constraint %s' % n)
    real = getattr(K, n)
    b = inspect.signature(real.__init__).bind(None, *con.a, **con.k)
    b.apply_defaults()
    vs = list(b.arguments.values())[1:]
    if len(vs) != 3:
        raise Unsupported('arguments of %s' % n)
    lo, hi, ext = vs
    lo, hi = (value_of(x) if isinstance(x, Rec) else x for x in (lo, hi))
    lo, hi = None if lo is K.MIN else lo, None if hi is K.MAX else hi
    if size and lo is None:
        lo = 0
    return (bool(ext), lo, hi)


def desc_of(cls):
    """spec.model descriptor of a recorded class"""
    b = cls.base
    con = getattr(cls, 'subtypeSpec', None)
    if b == 'BooleanType':
        return ('bool',)
    if b == 'IntegerType':
        return ('int',) + bounds_of(con, False)
    if b in ('BitStringType', 'OctetStringType'):
        if con is not None and type(con).con == 'ValueRange':
            raise Unsupported('range of a string')
        return ({'BitStringType': 'bits', 'OctetStringType': 'oct'}[b],) + bounds_of(con, True)
    if b == 'SequenceOfType':
        return ('seqof',) + bounds_of(con, True) + (desc_of(type(cls.componentType)),)
    ext = con is not None and type(con).con == 'ExtensionMarker' and con.a == (True,)
    if con is not None and not ext:
        raise Unsupported('constraint of a structure')
    if b == 'EnumeratedType':
        root = cls.enumerationRoot.xs
        adds = cls.extensionAddition.xs if hasattr(cls, 'extensionAddition') else []
        if cls.namedValues.xs != root + adds:
            raise Unsupported('named values')
        return ('enum', ext, tuple(n for n, _ in root), tuple(n for n, _ in adds), tuple(x for _, x in root + adds))
    choice = b == 'ChoiceType'
    root = cls.rootComponent.xs
    adds = cls.extensionAddition.xs if hasattr(cls, 'extensionAddition') else []
    groups = [g.xs for g in getattr(cls, 'extensionAdditionGroups', [])]
    if [id(x) for x in cls.componentType.xs] != [id(x) for x in root + adds + [y for g in groups for y in g]]:
        raise Unsupported('componentType is not made of the parts')
    return ('choice' if choice else 'seq', ext, tuple(comp_of(x, choice) for x in root), tuple(comp_of(x, choice) for x in adds),
            tuple(tuple(comp_of(x, choice) for x in g) for g in groups))


def comp_of(x, choice):
    if len(x.a) != 2 or x.k:
        raise Unsupported('named type')
    name, o = x.a
    kind = {'NamedType': 'mandatory', 'OptionalNamedType': 'optional', 'DefaultedNamedType': 'default'}[type(x).named]
    d = desc_of(type(o))
    if choice:
        return (name, d)
    return (name, kind, d, value_of(o) if kind == 'default' else None)


def same(a, b):
    """condition under which two descriptors / values are the same"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            e = same(x, y)
            if e is False:
                return False
            r = e if r is True else r if e is True else z3.And(r, e)
        return r
    if z3.is_expr(a) or z3.is_expr(b):
        if isinstance(a, (int, SInt)) or isinstance(b, (int, SInt)) or z3.is_expr(a) and z3.is_expr(b):
            return z(a) == z(b)
        return False
    return type(a) is type(b) and a == b


def posts(m, code, atoms):
    M = SMod(m, atoms)
    try:
        ns, order, spell = recorded(code, atoms)
    except (SyntaxError, NameError) as e:
        return [('the generated code loads (%s: %s)' % (type(e).__name__, str(e)[:80]), False)]
    except (TypeError, AttributeError, KeyError) as e:
        raise Unsupported('the generated code does more than the recorder knows (%s: %s)' % (type(e).__name__, str(e)[:80]))
    out = []
    for i, a in enumerate(m):
        n = a[1].replace('-', '_')
        n = spell[n] + '_' if n in spell else n
        if order.count(n) != 1:
            out.append(('definition %d is in the generated code once' % i, False))
            continue
        try:
            o = ns[n]
            d = desc_of(o if a[0] == 'type' else type(o)) if isinstance(o, type if a[0] == 'type' else Rec) else None
        except (AttributeError, KeyError, TypeError, ValueError) as e:
            raise Unsupported('the generated class has another form than known (%s: %s)' % (type(e).__name__, str(e)[:80]))
        want = M.desc(a[2])
        if a[0] == 'type':
            out.append(('definition %d is the type of the schema' % i, isinstance(o, type) and same(d, want)))
        else:
            out.append(('definition %d has the type of the schema' % i, isinstance(o, Rec) and same(d, want)))
            out.append(('definition %d has the value of the schema' % i, same(value_of(o), M.value(a[2], a[3]))))
    return out


# ------------------------------------------------------------------ generic modules
def generic(m, keep=()):
    """the shape of a concrete module: every name and every number of it arbitrary (different places, different numbers)"""
    names = {}
    nums = [0]
    refs = {a[1] for a in m if a[0] == 'value'}

    def nm(x, f):
        if x not in names:
            names[x] = f(len(names) + 1)
        return names[x]

    def num(x):
        if isinstance(x, str):
            return nm(x, low)
        if x is None:
            return None
        nums[0] += 1
        return ('-' if x < 0 else '') + '77%06d77' % nums[0]

    def C(c):
        if c is None:
            return None
        return (num(c[0]), None if 's' in c[2] else num(c[1]), c[2])

    def val(v):
        if v is None:
            return None
        if v[0] == 'n':
            return ('n', num(v[1]))
        if v[0] == 'item':
            return ('item', nm('.' + v[1], low))
        if v[0] == 'ref':
            return ('ref', nm(v[1], low))
        if v[0] == 'H' and len(v[1]) > 1:
            nums[0] += 1
            return ('H', 'ABCDEF%02dFEDCBA' % nums[0]) if nums[0] < 100 else v
        return v

    def ty(t):
        k = t[0]
        if k == 'ref':
            return ('ref', nm(t[1], up))
        if k in ('int', 'bits', 'oct'):
            return (k, C(t[1]))
        if k == 'enum':
            it = lambda xs: None if xs is None else tuple((nm('.' + n, low), None if x is None else num(x)) for n, x in xs)
            return (k, it(t[1]), it(t[2]))
        if k == 'seqof':
            return (k, C(t[1]), ty(t[2]))
        if k in ('seq', 'choice'):
            return (k, tuple(e if e == '...' else ('[[', e[1], tuple(comp(c) for c in e[2])) if e[0] == '[[' else comp(e) for e in t[1]))
        return t

    def comp(c):
        return (nm('.' + c[0], low), c[1], ty(c[2]), val(c[3]))
    return tuple(('type', nm(a[1], up), ty(a[2])) if a[0] == 'type' else ('value', nm(a[1], low), ty(a[2]), val(a[3])) for a in m)


# ------------------------------------------------------------------ running the compiler
def numbers_in(m):
    return sorted(set(T.NUM.findall(repr(m))))


def names_in(m):
    return sorted({n[2:4] for n in T.NAME.findall(repr(m))})


def enums_in(x):
    if isinstance(x, tuple):
        if x[:1] == ('enum',) and len(x) == 3:
            yield x[1:]
        else:
            for y in x:
                yield from enums_in(y)


def setup(ip, c, m, keywords=()):
    ip.__class__ = T.TextInterp
    A = T.Atoms()
    ip.atoms = A
    for a in numbers_in(m):
        A.terms[a] = z(c.fresh('n%s' % a[2:-2], True))
        A.n = max(A.n, int(a[2:-2]))
        c.witness[a] = SInt(A.terms[a])
    for items, adds in enums_in(m):
        # X.680 20: distinct numbers, those of additions ascending
        num = lambda xs: [A.numeral(x) if T.has(x) else int(x) for _, x in xs or () if x is not None]
        r, a = num(items), num(adds)
        for i, x in enumerate(r + a):
            for y in (r + a)[:i]:
                c.assume(z(x) != z(y))
        for x, y in zip(a, a[1:]):
            c.assume(z(x) < z(y))
    A.may_be_keyword = set(keywords)
    for k in keywords:
        c.witness['kw' + k] = SBool(z3.Bool('keyword_%s' % k))
    c.witness['shape'] = ('module', m)
    return A


def compile_(ip, s):
    with T.actions(ip):
        return ip.call(asn1PERser.parse_asn1_schema, [s])


def fresh_state():
    """parser caches and tables as after import"""
    import pyparsing
    pyparsing.ParserElement.resetCache()


def module(m, keywords=(), mode=None):
    """a module of the supported notation compiles to code with the types and values of the schema"""
    def f(ip, c):
        A = setup(ip, c, m, keywords)
        fresh_state()
        try:
            code = compile_(ip, S.text(m))
            if not isinstance(code, str):
                return [('the result is the generated code', False)]
            if DEBUG:
                print(code)
            return posts(m, code, A)
        except PyExc as e:
            return [('the schema is accepted (%s: %s)' % (type(e.e).__name__, str(e.e)[:80]), False)]
        finally:
            guard().changed()
    return f


def multi(fn, many, mode=None):
    def f(ip, c):
        i = c.choice(len(many))
        return globals()[fn](*many[i], mode=mode)(ip, c)
    return f


# ------------------------------------------------------------------ earlier compilations (C20)
class Earlier(Stub):
    """something an earlier compilation left behind: nothing is known about it"""
    def __repr__(self):
        return '<left behind by an earlier compilation>'


_state = []
keyed_otherwise = set()        # tables whose keys are not names: nothing general is proved about them


def state_names():
    """persistent objects of the repository a compilation can change, found by compiling (Guard names them)"""
    if not _state:
        from . import shapes
        names = set()
        many = shapes.c18(False)[::97] + shapes.c17(False)[::61] + shapes.c16(False)[::131]
        import random
        rng = random.Random(5)
        for m, _ in many:
            for c in S.instances(m, {}, rng, 3):
                for s in (S.text(c), S.text(c).replace('END', '@')):
                    S.compile_here(s)
                    for n, live, _ in guard().items:
                        if isinstance(live, dict) and any(not isinstance(k, str) for k in live):
                            keyed_otherwise.add(n)
                    names |= set(guard().changed())
                break
        _state.append(names)
    return _state[0]


def leave_behind(m):
    """the persistent objects as any earlier compilations may have left them: entries for the names of m and for others, of any content"""
    names = [n for i in names_in(m) for n in (low(int(i)), up(int(i)))] + ['zq97-xqz', 'Zq97-xqz']
    names += [n.replace('-', '_') for n in names]
    names += [n + '_' for n in names]
    g = guard()
    found = state_names()
    for name, live, _ in g.items:
        if name in found:
            if isinstance(live, dict):
                if name in keyed_otherwise:
                    raise Unsupported('persistent table %s not keyed by names' % name)
                for n in names:
                    live[n] = Earlier()
            elif isinstance(live, set):
                live.update(names)
            elif isinstance(live, list):
                live[:] = [Earlier()] + live + [Earlier()]
    for name, o, old in g.attrs:
        for k, v in old.items():
            if '%s.%s' % (name, k) in found and not isinstance(v, (dict, set, list)):
                if not isinstance(o, (type, types.ModuleType)):
                    vars(o)[k] = Earlier()
                else:
                    setattr(o, k, Earlier())


def outcome(ip, s):
    try:
        return ('code', compile_(ip, s))
    except PyExc as e:
        return ('refused', type(e.e).__name__)


def equal(ip, a, b):
    if a[0] != b[0]:
        return False
    r = ip.truthy_value(ip.eq(a[1], b[1]))
    return r if isinstance(r, bool) else r.t


def history(before, m, mode=None):
    """compiled after others (texts or modules): the same result as alone"""
    def f(ip, c):
        setup(ip, c, (before, m))
        c.witness['shape'] = ('history', before, m)
        text = lambda x: x if isinstance(x, str) else S.text(x)
        fresh_state()
        g = guard()
        try:
            alone = outcome(ip, text(m))
            g.changed()
            for b in before:
                outcome(ip, text(b))
            after = outcome(ip, text(m))
            again = outcome(ip, text(m))
            return [('the same result as alone', equal(ip, alone, after)), ('the same result again', equal(ip, alone, again))]
        finally:
            g.changed()
    return f


def any_history(m, mode=None):
    """compiled after anything: the same result as alone; and nothing but the known persistent state is changed"""
    def f(ip, c):
        setup(ip, c, m)
        before = tuple(shadow(m, k) for k in range(4))
        c.witness['shape'] = ('history', before, m)
        fresh_state()
        known = state_names()
        g = guard()
        try:
            alone = outcome(ip, S.text(m))
            changed = g.changed()
            new = [n for n in changed if n not in known]
            if new:
                raise Unsupported('persistent state %s is changed, which the proof did not consider' % new[:3])
            leave_behind(m)
            after = outcome(ip, S.text(m))
            return [('the same result after any compilations', equal(ip, alone, after))]
        finally:
            g.changed()
    return f


def shadow(m, k):
    """a module that gives the names of m other meanings"""
    idx = [int(i) for i in names_in(m)]
    ups = {int(n[2:4]) for n in T.NAME.findall(repr(m)) if n[0] == 'Z'}
    out, n = [], [500 + 100 * k]

    def num():
        n[0] += 1
        return '77%06d77' % n[0]
    prev = None
    for i in idx:
        if i in ups:
            t = [('int', (num(), num(), '')), ('seq', (('zq96-xqz', 'default', ('int', None), ('n', num())), ('zq95-xqz', 'optional', ('bool',), None))),
                 ('enum', (('zq94-xqz', None), ('zq93-xqz', None)), None), ('int', None) if prev is None else ('ref', prev)][k]
            out.append(('type', up(i), t))
            prev = up(i)
        else:
            t, v = [(('int', None), ('n', num())), (('bits', None), ('H', 'ABCDEF%02dFEDCBA' % (90 + k))), (('bool',), ('b', True)), (('int', None), ('n', num()))][k]
            if k == 3:
                out.append(('type', 'Zq%02d-xqz' % (50 + i), ('int', None)))
                t = ('ref', 'Zq%02d-xqz' % (50 + i))
            out.append(('value', low(i), t, v))
    if k == 3:
        out.append(('type', 'Zq92-xqz', ('seq', tuple((('zq%02d-xqz' % (70 + j), 'default', ('int', None), ('ref', low(i)))) for j, i in enumerate(x for x in idx if x not in ups)) or (('zq91-xqz', 'mandatory', ('bool',), None),))))
    return tuple(out)


def cut_short(m):
    """the text of m, not accepted by the grammar because of its end"""
    s = S.text(m)
    return s[:s.rindex('END')] + 'zq90-xqz ::= ::='
