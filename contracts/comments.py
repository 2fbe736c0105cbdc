"""C19: comments and layout.

strip(): for an arbitrary schema text.  The text is an opaque object; the repository may split it with a regular expression into the
tokens '--', '/*', '*/', line ends and the text between them (contract of re.split, the pattern is read from the source with sre_parse).
The loop over the tokens gets an invariant: for every mode of the X.680 12.6 comment automaton (code, line comment, block comment of any
depth d >= 1) each variable of the loop is a constant or d plus a constant, and the accumulated output is the output of the automaton up to
white space.  The invariant is found by running the loop on short token sequences and then proved: it holds on entry, every pass of the
loop body from every mode with every token preserves it, and after the loop the text handed to the grammar is the automaton's output.

layout(): generic modules (arbitrary names and numbers) in other layouts give the same code.
"""
import ast
import copy
import itertools
import re
import re._parser as sre_parse
import re._constants as sre

import pyparsing
import z3

from pyver import text as T
from pyver.engine import Break, Continue, Stub, Method
from .base import *
from . import compiler as C
from spec import cases_schema as S
import asn1PERser

PRE = '\x01PRE\x01'                       # output so far
TXT = '\x01TXT\x01'                       # text between tokens: not empty, without any token
LINE_ENDS = ('\n', '\v', '\f', '\r')
TOKENS = ('--', '/*', '*/') + LINE_ENDS + (TXT, '')
MARK = re.compile('\x01(?:PRE|TXT)\x01')


def spec(mode, tok):
    """X.680 12.6: (next mode, the token belongs to the text, white space is due here)"""
    m = mode[0]
    if m == 'code':
        if tok == '--':
            return ('line',), False, False
        if tok == '/*':
            return ('block', 1), False, False
        return mode, True, tok in LINE_ENDS
    if m == 'line':
        return (('code',), False, False) if tok == '--' or tok in LINE_ENDS else (mode, False, False)
    if tok == '/*':
        return ('block', mode[1] + 1), False, False
    if tok == '*/':
        return (('code',) if mode[1] == 1 else ('block', mode[1] - 1)), False, False
    return mode, False, False


def separators(pattern):
    """the finite set of strings a pattern of one group of alternatives matches"""
    def one(op, av):
        if op is sre.LITERAL:
            return [chr(av)]
        if op is sre.IN:
            out = []
            for o, a in av:
                if o is sre.LITERAL:
                    out.append(chr(a))
                elif o is sre.RANGE and a[1] - a[0] < 10:
                    out += [chr(i) for i in range(a[0], a[1] + 1)]
                else:
                    raise Unsupported('pattern %r' % pattern)
            return out
        if op is sre.BRANCH:
            return [s for p in av[1] for s in many(p)]
        if op is sre.SUBPATTERN and not av[1] and not av[2]:
            return many(av[3])
        raise Unsupported('pattern %r' % pattern)

    def many(p):
        out = ['']
        for op, av in p:
            out = [a + b for a in out for b in one(op, av)]
        return out
    p = sre_parse.parse(pattern)
    if len(p) != 1 or p[0][0] is not sre.SUBPATTERN or p[0][1][0] != 1 or p.state.groups != 2:
        raise Unsupported('pattern %r' % pattern)
    return set(many(p[0][1][3]))


class Opaque(Stub):
    """an arbitrary schema text"""
    def py_isinstance(self, ip, cls):
        return issubclass(str, cls)

    def py_getattr(self, ip, name):
        raise Unsupported('str.%s of an arbitrary text' % name)


class Tokens(Stub):
    def __init__(self, job):
        self.job = job

    def py_loop(self, ip, s, fr):
        return loop(self.job, ip, s, fr)


class CommentInterp(T.TextInterp):
    job = None

    def call(self, f, args=(), kw=None):
        args = list(args)
        o = getattr(f, '__self__', None)
        if any(isinstance(a, Opaque) for a in args):
            p = None
            if f is re.split and len(args) == 2 and not kw:
                p = args[0] if isinstance(args[0], str) else args[0].pattern if args[0].flags == re.compile('').flags else None
            elif isinstance(o, re.Pattern) and f.__name__ == 'split' and len(args) == 1 and not kw and o.flags == re.compile('').flags:
                p = o.pattern
            elif isinstance(o, pyparsing.ParserElement):
                raise Handed(args[0])
            if p is not None:
                if separators(p) != set(TOKENS[:-2]):
                    raise Unsupported('other tokens: %r' % p)
                return Tokens(self.job)
        if isinstance(o, pyparsing.ParserElement) and args and isinstance(args[0], str) and MARK.search(args[0]):
            raise Handed(args[0])
        return T.TextInterp.call(self, f, args, kw)

    def eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str) and (MARK.search(a) or MARK.search(b)):
            if a == b:
                return True
            x, y = (a, b) if MARK.search(a) else (b, a)
            if x == TXT and (y == '' or any(t in y for t in TOKENS[:-2])):
                return False
            raise Unsupported('comparison of text')
        return T.TextInterp.eq(self, a, b)

    def contains(self, c, x):
        if isinstance(x, str) and MARK.search(x) and isinstance(c, (list, tuple, set, frozenset, dict)):
            return any(self.truth(self.eq(x, y)) for y in c)
        if isinstance(c, str) and MARK.search(c):
            raise Unsupported('search in text')
        if isinstance(c, str) and isinstance(x, str) and x == TXT:
            if all(ch in LINE_ENDS for ch in c):
                return False
            raise Unsupported('search for text')
        return T.TextInterp.contains(self, c, x)

    def truth(self, v):
        if v == PRE if isinstance(v, str) else False:
            raise Unsupported('truth of the output')
        return T.TextInterp.truth(self, v)

    def getitem(self, o, k):
        if isinstance(o, str) and MARK.search(o):
            raise Unsupported('character of text')
        return T.TextInterp.getitem(self, o, k)

    def iterate(self, v):
        if isinstance(v, str) and MARK.search(v):
            raise Unsupported('characters of text')
        return T.TextInterp.iterate(self, v)

    def builtin_method(self, f, args, kw):
        o = getattr(f, '__self__', None)
        if isinstance(o, str) and (MARK.search(o) or any(isinstance(a, str) and MARK.search(a) for a in args)) and f.__name__ not in ('join', 'format'):
            raise Unsupported('str.%s of text' % f.__name__)
        return T.TextInterp.builtin_method(self, f, args, kw)

    def native(self, f, args, kw, ok=False):
        if any(isinstance(a, str) and MARK.search(a) for a in args) and not isinstance(getattr(f, '__self__', None), (list, collections_deque)):
            raise Unsupported('native call of %r on text' % getattr(f, '__qualname__', f))
        return T.TextInterp.native(self, f, args, kw, ok)


from collections import deque as collections_deque


class Handed(Exception):
    """the text handed to the grammar"""
    def __init__(self, text):
        self.text = text


def norm(x):
    """(content, starts with white space, ends with white space, has white space)"""
    body = re.sub(r'[ \t\n\r\v\f]+', ' ', x)
    return body


# ------------------------------------------------------------------ the loop
def carried(s):
    out = set()
    for n in s.body:
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                out.add(m.id)
            elif isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name):
                out.add(m.value.id)
            elif isinstance(m, ast.Subscript) and isinstance(m.ctx, ast.Store) and isinstance(m.value, ast.Name):
                out.add(m.value.id)
            elif isinstance(m, (ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda, ast.Yield, ast.Return, ast.Try, ast.With)):
                raise Unsupported('statement in the loop')
    return out


def body(ip, s, fr, tok):
    ip.assign(s.target, tok, fr)
    try:
        ip.block(s.body, fr)
    except Continue:
        pass
    except Break:
        raise Unsupported('break')


def snap(v):
    return list(v) if isinstance(v, list) else v


def joined(v):
    """accumulated output of a variable, or None"""
    if isinstance(v, str):
        return v
    if isinstance(v, list) and all(isinstance(x, str) for x in v):
        return ''.join(v)
    return None


def due(old, mode, tok, nxt, keep, out, pending):
    """judge the output of one pass: (ok, pending white space afterwards)"""
    want = tok if keep and tok not in LINE_ENDS else ''
    content = re.sub(r'[ \t\n\r\v\f]+', '', out)
    ws = out != content
    if content != want:
        return False, pending
    if mode[0] == 'code':
        if nxt[0] != 'code':
            return True, not ws                       # a comment begins: white space now or at its end
        if keep and tok in LINE_ENDS:
            return ws, False
        return not ws, False
    pending = pending and not ws
    if nxt[0] == 'code' and pending:
        return False, False
    return True, pending


def loop(job, ip, s, fr):
    if s.orelse:
        raise Unsupported('else of the loop')
    c = ctx()
    tn = {m.id for m in ast.walk(s.target) if isinstance(m, ast.Name)}
    names = sorted(n for n in carried(s) - tn if n in fr.vars)
    entry = {n: snap(fr.vars[n]) for n in names}
    undefined = sorted(n for n in carried(s) - tn if n not in fr.vars and n in fr.locals)
    if not isinstance(s.target, ast.Name):
        raise Unsupported('loop target')
    # 1. find the invariant from short sequences
    seen = {}                              # mode -> [(values, pending)]
    todo = collections_deque([(('code',), entry, False, ())])
    accs = None
    while todo:
        mode, vals, pend, seq = todo.popleft()
        key = repr((mode, sorted((n, v) for n, v in vals.items() if joined(v) is None or n not in (accs or ())), pend))
        if key in seen.setdefault(mode, {}):
            continue
        seen[mode][key] = (vals, pend)
        if len(seq) == 16 or mode[0] == 'block' and mode[1] > 6 or len(seen[mode]) > 60:
            continue
        for tok in TOKENS:
            if mode == ('code',) and tok == '*/':
                continue                   # no text of the notation
            for n in names:
                fr.vars[n] = snap(vals[n])
            for n in undefined:
                fr.vars.pop(n, None)
            body(ip, s, fr, tok)
            new = {n: snap(fr.vars[n]) for n in names}
            nxt, keep, _ = spec(mode, tok)
            if accs is None and mode == ('code',) and tok == TXT:
                accs = [n for n in names if joined(new[n]) is not None and joined(entry[n]) is not None and TXT in joined(new[n])]
                if len(accs) != 1:
                    raise Unsupported('accumulators %s' % accs)
            a = (accs or [None])[0]
            p2 = pend
            if a:
                before, after = joined(vals[a]), joined(new[a])
                ok, p2 = due(vals, mode, tok, nxt, keep, after[len(before):] if after.startswith(before) else '\x02', pend)
                new[a] = entry[a]
                if not ok:
                    c.witness['tokens'] = seq + (tok,)
                    job.posts.append(('output after the tokens %s' % (seq + (tok,),), False))
                    raise Stop()
            todo.append((nxt, new, p2, seq + (tok,)))
        if accs is None:
            raise Unsupported('no accumulator')
    acc = accs[0]
    rest = [n for n in names if n != acc]
    tmpl, pending = {}, {}
    for m in ('code', 'line', 'block'):
        pairs = [(mode, v, p) for mode, d in seen.items() if mode[0] == m for v, p in d.values()]
        pending[m] = any(p for _, _, p in pairs)
        for n in rest:
            vs = [(mode, v[n]) for mode, v, _ in pairs]
            if all(type(v) is type(vs[0][1]) and v == vs[0][1] for _, v in vs):
                tmpl[m, n] = ('const', vs[0][1])
            elif m == 'block' and all(isinstance(v, int) and not isinstance(v, bool) and v - mode[1] == vs[0][1] - vs[0][0][1] for mode, v in vs):
                tmpl[m, n] = ('depth', vs[0][1] - vs[0][0][1])
            elif all(isinstance(v, str) or v is None for _, v in vs):
                tmpl[m, n] = ('any', None)          # set anew in every pass; if it is read before, the step fails
            else:
                raise Unsupported('no invariant for %s' % n)
    empty = entry[acc]

    def put(m, d):
        for n in rest:
            k, v = tmpl[m, n]
            if k == 'any':
                fr.vars.pop(n, None)
            else:
                fr.vars[n] = snap(v) if k == 'const' else mk_int(d + v)
        for n in undefined:
            fr.vars.pop(n, None)
        fr.vars[acc] = PRE if isinstance(empty, str) else [PRE]

    def holds(m, d):
        r = []
        for n in rest:
            k, v = tmpl[m, n]
            if k == 'any':
                continue
            got = fr.vars.get(n)
            if k == 'depth':
                r.append(z(got) == d + v if isinstance(got, (int, SInt)) and not isinstance(got, bool) else False)
            else:
                if isinstance(got, SInt):
                    r.append(z(got) == v if isinstance(v, int) and not isinstance(v, bool) else False)
                elif isinstance(got, SBool):
                    r.append(got.t == z3.BoolVal(bool(v)) if isinstance(v, bool) else False)
                else:
                    r.append(type(got) is type(v) and got == v)
        if not all(x is not False for x in r):
            return False
        r = [x for x in r if x is not True]
        return z3.And(*r) if r else True
    # 2. one path per mode and token (inductive step), or the end of the text
    which = c.choice(2 + 3)
    if which == 0:
        for n in names:
            fr.vars[n] = entry[n]
        job.posts.append(('the invariant holds before the first token', holds('code', 0) and norm(joined(entry[acc])).strip() == ''))
        job.done = True
        raise Stop()
    modes = ('code', 'line', 'block')
    if which == 1:
        m = modes[c.choice(3)]
        d = None
        if m == 'block':
            d = z(c.fresh('depth', True))
            c.assume(d >= 1)
            c.witness['mode'], c.witness['token'], c.witness['depth'] = m, '', SInt(d)
        put(m, d)
        job.end = m
        return True
    m = modes[which - 2]
    tok = TOKENS[c.choice(len(TOKENS))]
    d = None
    c.witness['mode'], c.witness['token'] = m, tok
    mode = (m,)
    if m == 'block':
        d = z(c.fresh('depth', True))
        c.assume(d >= 1)
        c.witness['depth'] = SInt(d)
        if tok == '*/':
            nxt = ('code',) if c.branch(d == 1) else ('block', d - 1)
        else:
            nxt = ('block', d + 1) if tok == '/*' else ('block', d)
        keep = False
    else:
        nxt, keep, _ = spec(mode, tok)
    if m == 'code' and tok == '*/':
        raise Stop()                       # no text of the notation
    put(m, d)
    body(ip, s, fr, tok)
    after = joined(fr.vars[acc])
    what = '%r in %s' % (tok.replace('\x01', ''), m)
    if after is None or not after.startswith(PRE):
        ok, p2 = False, False
    else:
        ok, p2 = due(None, mode, tok, nxt, keep, after[len(PRE):], pending[m])
    job.posts.append(('output of %s' % what, bool(ok) and (nxt[0] == 'code' or p2 == pending[nxt[0]] or pending[nxt[0]] and not p2)))
    job.posts.append(('mode after %s' % what, holds(nxt[0], nxt[1] if nxt[0] == 'block' else 0)))
    raise Stop()


class Stop(Exception):
    pass


class Job:
    def __init__(self):
        self.posts, self.done, self.end = [], False, None


def strip(mode=None):
    """the text handed to the grammar is the schema without comments, for every schema text"""
    def f(ip, c):
        ip.__class__ = CommentInterp
        ip.atoms = T.Atoms()
        job = ip.job = Job()
        c.witness['shape'] = ('comments',)
        try:
            ip.call(asn1PERser.parse_asn1_schema, [Opaque()])
            return [('the text is parsed', False)]
        except Stop:
            return job.posts
        except Handed as h:
            if isinstance(h.text, Opaque):
                return [('comments are removed', False)]
            return [('the grammar gets the schema without comments', norm(h.text).strip() == PRE)]
        except PyExc as e:
            return [('no text is refused before it is parsed (%s)' % type(e.e).__name__, False)]
        finally:
            guard().changed()
    return f


# ------------------------------------------------------------------ layouts
def layouts(m):
    """texts of m in other layouts"""
    toks = [t for t in S.lex(m) if t != '\n']
    out = ['\n'.join(toks), '\t'.join(toks), '\r\n'.join(toks), '  \n '.join(toks) + ' ', '/* */'.join([' ' + t + ' ' for t in toks]), ' --x\n'.join(toks),
           ' -- y -- '.join(toks)]
    for style in ('', ' '):
        s = ''
        for i, t in enumerate(toks):
            if i and (style or S.gap_needed(toks[i - 1], t)):
                s += ' '
            s += t
        out.append(s)
    return list(dict.fromkeys(out))


def layout(m, mode=None):
    def f(ip, c):
        C.setup(ip, c, m)
        c.witness['shape'] = ('layout', m)
        C.fresh_state()
        try:
            code = C.compile_(ip, S.text(m))
        except PyExc as e:
            return [('the schema is accepted (%s)' % type(e.e).__name__, False)]
        finally:
            guard().changed()
        out = []
        for i, s in enumerate(layouts(m)):
            try:
                r = C.compile_(ip, s)
                ok = ip.truthy_value(ip.eq(r, code))
                out.append(('layout %d' % i, ok if isinstance(ok, bool) else ok.t))
            except PyExc as e:
                out.append(('layout %d is accepted (%s)' % (i, type(e.e).__name__), False))
            finally:
                guard().changed()
        return out
    return f


def multi(fn, many, mode=None):
    def f(ip, c):
        i = c.choice(len(many))
        return globals()[fn](*many[i], mode=mode)(ip, c)
    return f
