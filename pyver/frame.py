"""Frame condition on the persistent state of the repository: module globals, class attributes, function defaults.

A Guard remembers that state; changed() names what differs and puts it back, so that one path of a proof never sees what another
path left behind."""
import collections
import os
import sys
import types

CONTAINERS = (dict, list, set, collections.deque, bytearray)


def _mods(root):
    out = []
    for n, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if f and os.path.realpath(f).startswith(root + os.sep) and '.test' not in n and not n.startswith('test'):
            out.append((n, m))
    return out


class Guard(object):
    def __init__(self, root):
        self.items = []                     # (name, live container, copy)
        self.attrs = []                     # (name, owner, {attribute: object})
        self.seen = set()
        self.keep = []
        for n, m in _mods(os.path.realpath(root)):
            self.owner(n, m, vars(m))
        self.containers = {id(x[1]) for x in self.items}

    def owner(self, name, o, d):
        if id(o) in self.seen:
            return
        self.seen.add(id(o))
        self.keep.append(o)
        skip = ('__weakref__', '__builtins__', '__dict__', '__doc__', '__cached__', '__annotations__', '__warningregistry__')
        self.attrs.append((name, o, {k: v for k, v in d.items() if k not in skip}))
        for k, v in list(d.items()):
            if k not in skip:
                self.value('%s.%s' % (name, k), v, 4)

    def value(self, name, v, depth):
        if id(v) in self.seen or depth == 0:
            return
        if isinstance(v, CONTAINERS):
            self.seen.add(id(v))
            self.keep.append(v)
            if isinstance(v, dict):
                c = list(v.items())
                for k, x in c:
                    self.value('%s[%r]' % (name, k), x, depth - 1)
            else:
                c = list(v)
                for i, x in enumerate(c):
                    self.value('%s[%d]' % (name, i), x, depth - 1)
            self.items.append((name, v, c))
            return
        if isinstance(v, tuple):
            for i, x in enumerate(v):
                self.value('%s[%d]' % (name, i), x, depth - 1)
            return
        if isinstance(v, types.FunctionType):
            if v.__module__.startswith('asn1PERser'):
                self.seen.add(id(v))
                for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()) + (v.__dict__,):
                    self.value(name + '()', x, 2)
                for cell in v.__closure__ or ():
                    try:
                        self.value(name + '.closure', cell.cell_contents, 2)
                    except ValueError:
                        pass
            return
        if isinstance(v, type):
            if v.__module__.startswith('asn1PERser'):
                self.owner(name, v, vars(v))
            return
        if isinstance(v, (property, staticmethod, classmethod, types.ModuleType)):
            return
        if type(v).__module__.startswith('asn1PERser') and hasattr(v, '__dict__'):
            self.owner(name, v, vars(v))

    def changed(self):
        out = []
        for name, o, old in self.attrs:
            d = vars(o)
            for k, v in old.items():
                if d.get(k, self) is not v:
                    out.append('%s.%s' % (name, k))
                    if isinstance(o, (type, types.ModuleType)):
                        setattr(o, k, v)
                    else:
                        d[k] = v
            if len(d) > len(old):
                for k in list(d):
                    if k not in old and not (k.startswith('__') and k.endswith('__')):
                        out.append('%s.%s' % (name, k))
                        if isinstance(o, (type, types.ModuleType)):
                            delattr(o, k)
                        else:
                            del d[k]
        for name, live, old in self.items:
            if isinstance(live, dict):
                same = len(live) == len(old) and all(a is c and b is d for (a, b), (c, d) in zip(live.items(), old))
                if not same:
                    out.append(name)
                    live.clear()
                    live.update(old)
            elif len(live) != len(old) or isinstance(live, set) and live != set(old) or \
                    not isinstance(live, set) and not all(a is b or isinstance(live, bytearray) and a == b for a, b in zip(live, old)):
                out.append(name)
                live.clear()
                (live.update if isinstance(live, set) else live.extend)(old)
        return out
