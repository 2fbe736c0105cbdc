"""Symbolic text for the schema compiler: ordinary Python strings in which *atoms* stand for arbitrary identifiers, numerals and
hexadecimal strings.  An atom has a reserved spelling; the interpreter refuses (Unsupported) every operation whose result could depend
on the spelling, or decides it from what is known of the atom (a name starts with a letter and has no character but letters, digits and
hyphens; a numeral is the decimal form of an arbitrary natural number, kept as a solver term; distinct names are distinct).

  zq07-xqz  Zq07-xqz   an arbitrary identifier / type reference (may or may not contain hyphens, may be a Python keyword)
  zq07_xqz             the same name with '-' replaced by '_'
  7700000177           an arbitrary natural number
  ABCDEF01FEDCBA       an arbitrary sequence of hexadecimal digits

Jinja templates are not assumed: the Python source Jinja compiles them to is interpreted like the rest."""
import ast
import collections
import copy
import keyword
import re
import types

import jinja2
import pyparsing
import z3

from . import engine
from .actions import HOOK
from .dom import Unsupported, PyExc, Infeasible, SInt, SBool, ctx, z, mk_int, mk_bool
from .engine import Interp, Stub, Method, Closure, _MISSING, is_sym, or_, and_, INTRINSICS

NAME = re.compile(r'[zZ]q\d\d[-_]xqz')
NUM = re.compile(r'77\d{6}77')
HEX = re.compile(r'ABCDEF\d\dFEDCBA')
ATOM = re.compile('%s|%s|%s' % (NAME.pattern, NUM.pattern, HEX.pattern))
WORDY = re.compile(r'[\w-]')


def has(s):
    return isinstance(s, str) and ATOM.search(s) is not None


def deep(x, depth=5):
    """does a value contain atoms?"""
    if isinstance(x, str):
        return ATOM.search(x) is not None
    if depth and isinstance(x, (list, tuple, set, frozenset, collections.deque, pyparsing.ParseResults)):
        return any(deep(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(deep(y, depth - 1) for y in x) or any(deep(y, depth - 1) for y in x.values())
    return False


def toks(s):
    """literal and atom parts"""
    out, i = [], 0
    for m in ATOM.finditer(s):
        if m.start() > i:
            out.append((False, s[i:m.start()]))
        out.append((True, m.group()))
        i = m.end()
    if i < len(s):
        out.append((False, s[i:]))
    return out


def kind(a):
    return 'name' if NAME.fullmatch(a) else 'num' if NUM.fullmatch(a) else 'hex'


class At(int):
    """a position in a text with atoms, known to lie between its characters and atoms: its number depends on the spellings, so it only
    slices the text and is ordered against other positions of it"""
    def __new__(cls, i, s):
        o = int.__new__(cls, i)
        o.s = s
        return o

    def refuse(self, *a):
        raise Unsupported('number of a position in text with atoms')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __mod__ = __neg__ = __and__ = __or__ = __str__ = __repr__ = refuse
    __format__ = refuse

    def __deepcopy__(self, memo):
        return self


class Parts(Stub):
    """text.split('-')"""
    def __init__(self, s):
        self.s = s


class Match(Stub):
    """a match of a pattern that matches separators only"""
    def __init__(self, m, s):
        self.m, self.s = m, s

    def py_truth(self, ip):
        return True

    def py_getattr(self, ip, name):
        if name in ('group', 'groups', 'groupdict'):
            return Method(lambda ip, *a: getattr(self.m, name)(*a))
        if name in ('start', 'end'):
            return Method(lambda ip, *a: At(getattr(self.m, name)(*a), self.s))
        if name == 'span':
            return Method(lambda ip, *a: tuple(At(i, self.s) for i in self.m.span(*a)))
        if name == 'string':
            return self.s
        raise Unsupported('Match.%s' % name)

    def py_getitem(self, ip, k):
        return self.m[k]


class Atoms:
    """the atoms of one path"""
    def __init__(self):
        self.terms = {}          # numeral -> z3 term (natural)
        self.kw = {}             # name index -> None | bool once decided
        self.may_be_keyword = set()
        self.n = 0

    def number(self, t):
        if isinstance(t, int):
            return str(t)
        for a, u in self.terms.items():
            if z3.eq(u, t):
                return a
        self.n += 1
        a = '77%06d77' % self.n
        self.terms[a] = t
        return a

    def numeral(self, s):
        """term of a decimal numeral with atoms, or None"""
        m = re.fullmatch(r'\s*([-+]?)(%s)\s*' % NUM.pattern, s)
        if m and m.group(2) in self.terms:
            t = self.terms[m.group(2)]
            return -t if m.group(1) == '-' else t
        return None

    def text_of(self, v):
        """decimal form of a term"""
        if isinstance(v, int):
            return str(v)
        t = z3.simplify(v.t if isinstance(v, SInt) else v)
        if z3.is_int_value(t):
            return str(t.as_long())
        if ctx().branch(t >= 0):
            return self.number(t)
        return '-' + self.number(z3.simplify(-t))

    def is_keyword(self, a):
        i = a[2:4]
        if i not in self.may_be_keyword:
            return False
        return ctx().branch(z3.Bool('keyword_%s' % i))


class TextInterp(Interp):
    atoms = None

    def counting_loop(self, s, fr):
        return False                     # searches among finitely many names or numbers: unrolled, path by path

    def ev_SetComp(self, e, fr):
        out = []
        self.comp(e, fr, lambda f: out.append(self.ev(e.elt, f)))
        return TSet(out)

    def ev_Set(self, e, fr):
        return TSet([self.ev(x, fr) for x in e.elts])

    # -------------------------------------------------------------- equality
    def eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str) and (has(a) or has(b)):
            return self.text_eq(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b) and (deep(a) or deep(b)):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = and_(r, self.truthy_value(self.eq(x, y)))
            return r
        return Interp.eq(self, a, b)

    def text_eq(self, a, b):
        if a == b:
            return True
        A = self.atoms
        x, y = A.numeral(a), A.numeral(b)
        if x is not None or y is not None:
            if x is not None and y is not None:
                return mk_bool(x == y)
            t, s = (x, b) if x is not None else (y, a)
            if re.fullmatch(r'-?\d+', s):
                return mk_bool(t == int(s)) if str(int(s)) == s else False
            if has(s) and any(k and kind(v) == 'hex' for k, v in toks(s)):
                raise Unsupported('comparison of a numeral with digits')
            return False
        p, q = toks(a), toks(b)
        if len(p) == len(q) and all(m == n for (m, _), (n, _) in zip(p, q)):
            r = True
            for (k, u), (_, v) in zip(p, q):
                if u == v:
                    continue
                if not k:
                    return False
                if kind(u) == kind(v) == 'num':
                    r = and_(r, mk_bool(A.terms[u] == A.terms[v]))
                elif kind(u) == kind(v) == 'name':
                    if u[0] == v[0] and u[2:4] == v[2:4]:
                        r = and_(r, mk_bool(z3.Bool('plain_%s%s' % (u[0], u[2:4]))))        # the name has no hyphens
                        continue
                    return False
                elif kind(u) == kind(v) == 'hex':
                    raise Unsupported('comparison of hexadecimal strings')
                else:
                    return False
            return r
        for k, s in p + q:
            if k and kind(s) == 'hex' and len(p) == len(q) == 1:
                other = b if s == a else a
                if re.fullmatch(r'[0-9A-F ]*', other):
                    raise Unsupported('comparison of hexadecimal strings')
        # names are no reserved words; different token sequences are different texts
        return False

    def contains(self, c, x):
        if isinstance(x, str) and not isinstance(c, Stub):
            if isinstance(c, str):
                if has(c) or has(x):
                    return self.substring(c, x)
            elif isinstance(c, (list, tuple, set, frozenset, dict, collections.deque, type({}.keys()), type({}.values()))) and (has(x) or deep(list(c))):
                r = False
                for y in c:
                    r = or_(r, self.truthy_value(self.eq(x, y)))
                    if r is True:
                        return True
                return r
        return Interp.contains(self, c, x)

    def substring(self, s, x):
        if x in s:
            i = s.index(x)
            if x == '' or has(x) or not any(m.start() <= i < m.end() for m in ATOM.finditer(s)):
                return True
            raise Unsupported('search within a name')
        if has(x):
            if all(k for k, _ in toks(x)) and all(kind(v) == 'name' for _, v in toks(x)):
                return False
            raise Unsupported('search for text with atoms')
        if not has(s) or not WORDY.search(x):
            return False
        raise Unsupported('search for %r in text with atoms' % x)

    def compare(self, op, a, b):
        if isinstance(op, ast.NotEq) and (has(a) or has(b) or deep(a) or deep(b)):
            r = self.truthy_value(self.eq(a, b))
            return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, At) and not (isinstance(y, At) and y.s == x.s or isinstance(y, int) and y <= 0 or y is None):
                raise Unsupported('number of a position in text with atoms')
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (deep(a) or deep(b)):
            raise Unsupported('ordering of names')
        return Interp.compare(self, op, a, b)

    # -------------------------------------------------------------- subscripts
    def getitem(self, o, k):
        if has(o):
            if isinstance(k, slice):
                if k.step not in (None, 1) or is_sym(k):
                    raise Unsupported('slice of text')
                spans = [m.span() for m in ATOM.finditer(o)]
                for i in (k.start, k.stop):
                    if i is None or i == 0 or isinstance(i, At) and i.s == o:
                        continue
                    if i > 0 and (i > spans[0][0]) or i < 0 and len(o) + i < spans[-1][1]:
                        raise Unsupported('slice within a name')
                return o[k]
            if isinstance(k, int):
                spans = [m.span() for m in ATOM.finditer(o)]
                if k >= 0 and k < spans[0][0] or k < 0 and len(o) + k >= spans[-1][1]:
                    return o[k]
            raise Unsupported('character of a name')
        return Interp.getitem(self, o, k)

    def iterate(self, v):
        if has(v):
            raise Unsupported('characters of a name')
        return Interp.iterate(self, v)

    # -------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, types.MethodType):
            o, g = f.__self__, f.__func__
            if isinstance(o, jinja2.Template) and f.__name__ == 'render':
                return self.render(o, dict(*args, **kw))
            if isinstance(o, pyparsing.ParserElement):
                return self.grammar(f, args, kw)
            if isinstance(o, tuple) and f.__name__ in ('_replace', '_asdict') and hasattr(type(o), '_fields'):
                return self.native(f, args, kw, True)
        if f is int and args and has(args[0]) and len(args) == 1:
            t = self.atoms.numeral(args[0])
            if t is not None:
                return mk_int(t)
            if all(k and kind(v) == 'name' for k, v in toks(args[0])) or any(k and kind(v) == 'name' for k, v in toks(args[0])):
                self.raise_(ValueError('invalid literal for int()'))
            raise Unsupported('int of text')
        if f is str and args and isinstance(args[0], SInt):
            return self.atoms.text_of(args[0])
        if f is str and args and isinstance(args[0], str):
            return str(args[0])
        if f is len and args and has(args[0]):
            raise Unsupported('length of a name')
        if f is sorted and args:
            items = list(self.iterate(args[0]))
            key = kw.get('key')
            keys = [x if key is None else self.call(key, [x]) for x in items]
            if deep(keys):
                # tuples told apart by concrete first components
                keys = [k[0] if isinstance(k, tuple) and k else k for k in keys]
                if deep(keys) or len(set(map(repr, keys))) != len(keys):
                    raise Unsupported('sorting of names')
            r = [items[i] for i in sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(kw.get('reverse')))]
            return r
        if f is set:
            return TSet(list(self.iterate(args[0])) if args else [])
        if f is copy.deepcopy:
            return self.native(f, args, kw, True)
        if getattr(f, '__module__', None) == 're' and any(has(x) for x in args):
            return self.regex(f, args, kw)
        if isinstance(getattr(f, '__self__', None), re.Pattern) and any(has(x) for x in args) and not f.__self__.flags & ~re.UNICODE:
            return self.regex(getattr(re, f.__name__), [f.__self__.pattern] + args, kw)
        return Interp.call(self, f, args, kw)

    def native(self, f, args, kw, ok=False):
        if not ok and (deep(args) or deep(kw)):
            m = getattr(f, '__module__', None) or ''
            o = getattr(f, '__self__', None)
            t = f if isinstance(f, type) else type(o) if o is not None and not isinstance(o, types.ModuleType) else None
            if not (isinstance(o, (list, dict, set, frozenset, tuple, collections.deque, pyparsing.ParseResults)) or
                    isinstance(f, type) and (issubclass(f, (list, tuple, dict, set, frozenset, BaseException, collections.deque))) or
                    f in (iter, next, list, tuple, dict, isinstance, type, enumerate, zip, reversed, repr) or
                    m.startswith('pyparsing')):
                raise Unsupported('native call of %r on text with atoms' % getattr(f, '__qualname__', f))
        return Interp.native(self, f, args, kw)

    def builtin_method(self, f, args, kw):
        o = getattr(f, '__self__', None)
        n = f.__name__
        if isinstance(o, str):
            if n == 'join' and isinstance(args[0], Parts):
                return self.str_method(args[0].s, 'replace', ['-', o], {})
            if n == 'join':
                xs = [self.call(str, [x]) if isinstance(x, SInt) else x for x in self.iterate(args[0])]
                try:
                    return o.join(xs)
                except TypeError as e:
                    raise PyExc(e)
            if n == 'format':
                return self.fmt(o, args, kw)
            if has(o) or deep(args):
                return self.str_method(o, n, args, kw)
        if isinstance(o, frozenset) and n == '__contains__' and 'lambda' in o and has(args[0]):
            # keyword.iskeyword
            p = toks(args[0])
            return self.atoms.is_keyword(p[0][1]) if len(p) == 1 and kind(p[0][1]) == 'name' else False
        if isinstance(o, list) and n == 'index' and (deep(o) or deep(args)):
            for i, x in enumerate(o):
                if self.truth(self.eq(x, args[0])):
                    return i
            self.raise_(ValueError('not in list'))
        if isinstance(o, list) and n in ('remove', 'count') and (deep(o) or deep(args)):
            if n == 'remove':
                for i, x in enumerate(o):
                    if self.truth(self.eq(x, args[0])):
                        del o[i]
                        return None
                self.raise_(ValueError('not in list'))
            raise Unsupported('list.count')
        if isinstance(o, list) and n == 'sort' and deep(o) and not kw.get('key'):
            raise Unsupported('sorting of names')
        return Interp.builtin_method(self, f, args, kw)

    def fmt(self, s, args, kw):
        args = [self.call(str, [x]) if isinstance(x, SInt) else x for x in args]
        kw = {k: self.call(str, [x]) if isinstance(x, SInt) else x for k, x in kw.items()}
        if is_sym(args) or is_sym(kw):
            raise Unsupported('format')
        if (deep(args) or deep(kw)) and re.search(r'\{[^{}]*[:!]', s):
            raise Unsupported('format with a specification')
        args = [x if isinstance(x, (str, int)) or x is None else self.text(x) for x in args]
        kw = {k: x if isinstance(x, (str, int)) or x is None else self.text(x) for k, x in kw.items()}
        try:
            return s.format(*args, **kw)
        except Exception as e:
            raise PyExc(e)

    def text(self, x):
        m = self.lookup_special(x, '__str__') or self.lookup_special(x, '__repr__')
        if m is not None and (engine.interpretable(m.__func__) or isinstance(m.__func__, Closure)):
            return self.call(m, [])
        return str(x)

    def str_method(self, s, n, args, kw):
        def safe(x):
            return isinstance(x, str) and not WORDY.search(x)
        if n == 'replace' and len(args) == 2 and isinstance(args[0], str) and not has(args[0]):
            a, b = args
            if safe(a):
                return s.replace(a, b)
            if a == '-':
                out = ''
                for k, p in toks(s):
                    if k and kind(p) == 'name' and p[4] == '-':
                        if b != '_':
                            raise Unsupported('hyphens of a name replaced by %r' % b)
                        p = p.replace('-', '_')
                    elif not k:
                        p = p.replace('-', b)
                    out += p
                return out
            raise Unsupported('replace %r' % a)
        if n in ('isdigit', 'isdecimal', 'isnumeric'):
            p = toks(s)
            if any(k and kind(v) == 'name' for k, v in p):
                return False
            if any(not k and not v.isdigit() for k, v in p):
                return False
            if all(not k or kind(v) == 'num' for k, v in p):
                return True
            raise Unsupported(n)
        if n in ('isidentifier', 'isalpha', 'isalnum', 'islower', 'isupper', 'isspace'):
            raise Unsupported(n)
        if n in ('strip', 'lstrip', 'rstrip'):
            if not args or args[0] is None or isinstance(args[0], str) and not re.search(r'\w', args[0]):
                return getattr(s, n)(*args)
            raise Unsupported(n)
        if n in ('startswith', 'endswith'):
            xs = args[0] if isinstance(args[0], tuple) else (args[0],)
            if len(args) > 1:
                raise Unsupported(n)
            return any(self.affix(s, x, n == 'endswith') for x in xs)
        if n in ('split', 'rsplit', 'partition', 'rpartition'):
            if not args or args[0] is None or safe(args[0]):
                return getattr(s, n)(*args, **kw)
            if n == 'split' and len(args) == 1 and args[0] == '-':
                return Parts(s)
            raise Unsupported(n)
        if n == 'splitlines':
            return s.splitlines(*args)
        if n in ('find', 'index', 'rfind', 'rindex', 'count'):
            if n == 'count' and len(args) == 1 and safe(args[0]):
                return s.count(args[0])
            raise Unsupported(n)
        if n in ('__contains__',):
            return self.substring(s, args[0])
        if n in ('__add__',):
            return s + args[0]
        if n in ('__eq__',):
            return self.eq(s, args[0])
        if n == 'encode' or n in ('__str__', '__format__'):
            if n == '__str__':
                return s
        raise Unsupported('str.%s on text with atoms' % n)

    def affix(self, s, x, end):
        if has(x):
            if (s.endswith(x) if end else s.startswith(x)):
                return True
            raise Unsupported('affix with atoms')
        if end:
            s2, x2 = s[::-1], x[::-1]
            spans = sorted((len(s) - m.end(), len(s) - m.start(), m.group()) for m in ATOM.finditer(s))
        else:
            s2, x2, spans = s, x, sorted((m.start(), m.end(), m.group()) for m in ATOM.finditer(s))
        first = spans[0][0] if spans else len(s2)
        for i, ch in enumerate(x2):
            if i >= len(s2):
                return False
            if i >= first:
                k = kind(spans[0][2])
                if any(not WORDY.match(c) for c in x2[i:] if len(spans) == 1 and spans[0][1] == len(s2)):
                    return False             # nothing but the atom is left, and it has no such character
                if not WORDY.match(ch) or (ch == '-' and (not end or k != 'name')) or ch == '-':
                    return False
                if k == 'num' and not ch.isdigit() or k == 'name' and not end and ch.isdigit() or k == 'hex' and ch not in '0123456789ABCDEF':
                    return False
                if ch == '_':
                    return False
                raise Unsupported('affix %r of a name' % x)
            if s2[i] != ch:
                return False
        return True

    def regex(self, f, args, kw):
        p, s = args[0], args[-1]
        if f.__name__ in ('findall', 'split') and len(args) == 2 and p in (r'\w+', r'\W+', r'\s+', r'(\W+)', r'(\s+)'):
            if any(k and kind(v) == 'name' and '-' in v for k, v in toks(s)) and 's' not in p:
                raise Unsupported('words of a name with hyphens')
            return f(p, s)
        if f.__name__ == 'sub' and len(args) == 3 and not has(p) and not re.search(r'[\w.\[-]', p.replace('\\n', '').replace('\\s', '')):
            return f(*args)
        if f.__name__ in ('split', 'sub', 'findall', 'finditer') and not kw and len(args) == (3 if f.__name__ == 'sub' else 2) and isinstance(p, str) and not has(p):
            # separators only: nothing in the pattern can match a letter, a digit or a single hyphen
            q = re.sub(r'\\[nrtvfs*/.()|{}\[\]+?]|--', '', p)
            if not re.search(r'[\w.\\^-]', q) and not any(m.start() < e and b < m.end() for m in re.finditer(p, s) for b, e in
                                                        [x.span() for x in ATOM.finditer(s)]):
                if f.__name__ == 'finditer':
                    return iter([Match(m, s) for m in f(*args)])
                if f.__name__ == 'sub' and not isinstance(args[1], str):
                    raise Unsupported('substitution by a function')
                return f(*args)
        raise Unsupported('regular expression %r on text with atoms' % p)

    # -------------------------------------------------------------- grammar
    def grammar(self, f, args, kw):
        """pyparsing runs as it is (trusted), on generic spellings; parse actions of the repository are interpreted (see hook)"""
        try:
            return f(*args, **kw)
        except (Unsupported, PyExc, Infeasible, engine.LoopFail):
            raise
        except Exception as e:
            raise PyExc(e)

    # -------------------------------------------------------------- templates
    def render(self, t, kwargs):
        node, globs = template_source(t)
        env = Env(t.environment)
        globs = dict(globs, environment=env)
        c = Closure(self, node, None, globs, 'template:%s:root' % t.name, (jinja2.runtime.missing, env))
        self.called.add('asn1PERser.classes.templates.files:%s' % t.name)
        out = list(self.iterate(self.call(c, [Context(t, kwargs)])))
        return ''.join(self.call(str, [x]) if isinstance(x, SInt) else x for x in out)


class TSet(engine.SSet):
    """a set of names and numbers, elements not yet known to be distinct"""
    def distinct(self, ip):
        out = []
        for x in self.xs:
            if not any(ip.truth(ip.eq(x, y)) for y in out):
                out.append(x)
        return out

    def py_len(self, ip):
        return len(self.distinct(ip))

    def py_binop(self, ip, op, o):
        n = {ast.BitOr: 'union', ast.Sub: 'difference', ast.BitAnd: 'intersection'}.get(op)
        if n is None:
            raise Unsupported('set operator')
        return ip.call(self.py_getattr(ip, n), [o])

    def py_iter(self, ip):
        return iter(self.distinct(ip))

    def py_getattr(self, ip, name):
        if name in ('union', 'copy'):
            return Method(lambda ip, *ys: TSet(self.xs + [v for y in ys for v in ip.iterate(y)]))
        if name in ('difference',):
            return Method(lambda ip, *ys: TSet([x for x in self.xs if not any(ip.truth(ip.contains(y, x)) for y in ys)]))
        if name in ('intersection',):
            return Method(lambda ip, y: TSet([x for x in self.xs if ip.truth(ip.contains(y, x))]))
        if name == 'clear':
            return Method(lambda ip: self.xs.clear())
        if name in ('discard', 'remove'):
            def rem(ip, x):
                n = len(self.xs)
                self.xs[:] = [y for y in self.xs if not ip.truth(ip.eq(x, y))]
                if name == 'remove' and len(self.xs) == n:
                    ip.raise_(KeyError(x))
            return Method(rem)
        return engine.SSet.py_getattr(self, ip, name)


class Context(Stub):
    def __init__(self, t, kw):
        self.kw = kw
        self.globals = t.globals

    def py_getattr(self, ip, name):
        if name in ('resolve_or_missing', 'resolve'):
            return Method(lambda ip, k: self.kw[k] if k in self.kw else self.globals[k] if k in self.globals else jinja2.runtime.missing)
        if name == 'eval_ctx':
            raise Unsupported('jinja evaluation context')
        raise Unsupported('jinja context %s' % name)


class Env(Stub):
    def __init__(self, env):
        self.env = env

    def py_getattr(self, ip, name):
        if name in ('getattr', 'getitem'):
            return Method(lambda ip, o, k: self.get(ip, o, k))
        if name == 'concat':
            return Method(lambda ip, xs: ''.join(ip.call(str, [x]) if isinstance(x, SInt) else x for x in xs))
        if name == 'filters':
            return Filters(self.env)
        if name == 'tests':
            return Filters(self.env, True)
        if name == 'undefined':
            return self.env.undefined
        raise Unsupported('jinja environment %s' % name)

    def get(self, ip, o, k):
        if isinstance(o, dict):
            return o[k] if k in o else self.env.undefined(obj=o, name=k)
        if isinstance(o, jinja2.Undefined):
            raise PyExc(jinja2.UndefinedError(str(k)))
        if isinstance(o, (list, tuple, str)) and isinstance(k, int):
            return ip.getitem(o, k)
        if isinstance(o, tuple) and k in getattr(o, '_fields', ()):
            return getattr(o, k)
        try:
            return ip.getattr(o, k)
        except PyExc:
            return self.env.undefined(obj=o, name=k)


class Filters(Stub):
    def __init__(self, env, tests=False):
        self.env, self.tests = env, tests

    def py_getitem(self, ip, k):
        d = self.env.tests if self.tests else self.env.filters
        if k not in d:
            raise PyExc(KeyError(k))
        if self.tests:
            if k in ('defined', 'undefined', 'none', 'string', 'mapping', 'sequence', 'true', 'false'):
                return Method(lambda ip, *a: d[k](*a))
            raise Unsupported('jinja test %s' % k)
        f = d[k]
        if k == 'indent':
            return Method(lambda ip, s, *a, **kw: f(s, *a, **kw))
        if k in ('length', 'count'):
            return Method(lambda ip, s: ip.call(len, [s]))
        if k == 'join':
            return Method(lambda ip, xs, d='': d.join(ip.call(str, [x]) if isinstance(x, SInt) else x for x in ip.iterate(xs)))
        if k == 'replace':
            return Method(lambda ip, s, a, b: ip.str_method(s, 'replace', [a, b], {}) if has(s) else s.replace(a, b))
        if k in ('trim', 'list', 'string', 'd', 'default'):
            if k == 'list':
                return Method(lambda ip, s: list(ip.iterate(s)))
            if k == 'string':
                return Method(lambda ip, s: ip.call(str, [s]))
            if k == 'trim':
                return Method(lambda ip, s: s.strip())
            return Method(lambda ip, s, x='', b=False: x if isinstance(s, jinja2.Undefined) or b and not s else s)
        raise Unsupported('jinja filter %s' % k)


_templates = {}


def template_source(t):
    """(root function, globals) of a template, from the Python source Jinja compiles it to"""
    env = t.environment
    src = env.loader.get_source(env, t.name)[0]
    key = (t.name, src)
    if key not in _templates:
        py = env.compile(src, t.name, t.name, raw=True)
        tree = ast.parse(py)
        roots = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == 'root']
        if len(roots) != 1 or any(isinstance(n, (ast.FunctionDef,)) and n.name != 'root' for n in tree.body):
            raise Unsupported('template with blocks')
        globs = {}
        for n in tree.body:
            if isinstance(n, ast.ImportFrom):
                exec(compile(ast.Module([n], []), '<t>', 'exec'), globs)
        globs['internalcode'] = lambda f: f
        _templates[key] = (roots[0], globs)
    return _templates[key]


# ------------------------------------------------------------------ parse actions
class actions:
    """parse actions of the repository are interpreted while this is in force"""
    def __init__(self, ip):
        self.ip = ip

    def __call__(self, func, args):
        try:
            return self.ip.call(func, list(args))
        except PyExc as e:
            raise e.e

    def __enter__(self):
        self.old = HOOK[0]
        HOOK[0] = self

    def __exit__(self, *a):
        HOOK[0] = self.old
