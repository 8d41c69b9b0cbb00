"""Whole-program abstract interpreter for the Python subset used by /repo.

Flow-sensitive, inter-procedural dataflow analysis.  A value is a set of
abstract atoms (constants, types, string grammars, heap references, ...);
states are joined at merge points and widened at loops.  The analysed program
is never imported nor run.
"""

import ast
import builtins
import os
import sys

from . import strings as S
from .strings import lit

sys.setrecursionlimit(60000)


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, budget)."""


class Bottom(Exception):
    """The current path cannot continue (an exception was raised)."""


class StubGap(Exception):
    """A stand-in for a library was used in a way it does not support."""


# --------------------------------------------------------------------------
# Values
# --------------------------------------------------------------------------

BOT = frozenset()


def V(*atoms):
    return frozenset(atoms)


def const(v):
    if isinstance(v, str):
        return V(('s', lit(v)))
    return V(('c', type(v).__name__, v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOOL = TRUE | FALSE
UNKNOWN = V(('u', S.NOT))
INT = V(('i', S.NOT))


def string(node):
    return V(('s', node))


def unknown(taints=S.NOT):
    return V(('u', frozenset(taints)))


def const_of(v):
    """(True, value) if v is a single constant, else (False, None)."""
    if len(v) == 1:
        (a,) = v
        if a[0] == 'c':
            return True, a[2]
        if a[0] == 's' and a[1].kind == 'lit':
            return True, a[1].a
        if a[0] == 'tup':
            out = []
            for e in a[1]:
                ok, x = const_of(e)
                if not ok:
                    return False, None
                out.append(x)
            return True, tuple(out)
    return False, None


class FuncVal:
    __slots__ = ('node', 'module', 'closure', 'defaults', 'kwdefaults', 'qualname', 'cls',
                 'kind', 'is_gen', 'captured')

    def __repr__(self):
        return '<fn %s>' % self.qualname


class ClassVal:
    def __init__(self, name, module, bases, qualname):
        self.name, self.module, self.bases, self.qualname = name, module, bases, qualname
        self.attrs = {}
        self.fields = None        # namedtuple
        self.mro = None
        self.node = None

    def __repr__(self):
        return '<class %s>' % self.qualname

    def get_mro(self):
        if self.mro is None:
            out = [self]
            for b in self.bases:
                if isinstance(b, ClassVal):
                    for c in b.get_mro():
                        if c not in out:
                            out.append(c)
                elif b not in out:
                    out.append(b)
            self.mro = out
        return self.mro

    def ext_bases(self):
        return [c for c in self.get_mro() if not isinstance(c, ClassVal)]

    def lookup(self, name):
        for c in self.get_mro():
            if isinstance(c, ClassVal) and name in c.attrs:
                return c.attrs[name], c
        return None, None


# --------------------------------------------------------------------------
# Heap and state
# --------------------------------------------------------------------------

class HObj:
    __slots__ = ('kind', 'cls', 'data', 'extra', 'summary', 'owner', 'flags', 'oid')

    def __init__(self, kind, cls, data, extra=None, summary=False, owner=None, flags=frozenset(), oid=None):
        self.kind, self.cls, self.data, self.extra = kind, cls, data, extra
        self.summary, self.owner, self.flags, self.oid = summary, owner, flags, oid

    def copy(self, owner):
        d = dict(self.data) if isinstance(self.data, dict) else self.data
        return HObj(self.kind, self.cls, d, self.extra, self.summary, owner, self.flags, self.oid)

    def same(self, o):
        return (self.kind == o.kind and self.data == o.data and self.extra == o.extra and
                self.summary == o.summary)


class State:
    __slots__ = ('heap', 'owner', 'flags')

    def __init__(self, heap=None, flags=frozenset()):
        self.heap = heap if heap is not None else {}
        self.owner = object()
        self.flags = flags

    def fork(self):
        n = State(self.heap.copy(), self.flags)
        self.owner = object()
        return n

    def assign(self, other):
        self.heap, self.owner, self.flags = other.heap.copy(), object(), other.flags
        other.owner = object()

    def w(self, oid):
        o = self.heap[oid]
        if o.owner is not self.owner:
            o = o.copy(self.owner)
            self.heap[oid] = o
        return o


def seg_join_all(segs):
    v = BOT
    for e, _ in segs:
        v |= e
    return v


def join_lists(a, b):
    if a == b:
        return a
    if len(a) == len(b):
        return tuple((x[0] | y[0], _jm(x[1], y[1])) for x, y in zip(a, b))
    if len(a) > len(b):
        a, b = b, a
    # a shorter: common prefix?
    n = 0
    while n < len(a) and a[n] == b[n]:
        n += 1
    if n == len(a):
        return a + tuple((v, '?' if m == 1 else m) for v, m in b[n:])
    # otherwise: keep the exact common prefix, collapse the rest
    rest = seg_join_all(a[n:]) | seg_join_all(b[n:])
    return a[:n] + ((rest, '*'),)


def _jm(x, y):
    if x == y:
        return x
    if '*' in (x, y):
        return '*'
    return '?'


def normalize(v, cap=48):
    """Bound the number of atoms."""
    if len(v) <= cap:
        return v
    strs = [a for a in v if a[0] == 's']
    out = set(a for a in v if a[0] != 's')
    if strs:
        out.add(('s', S.alt([a[1] for a in strs])))
    ints = [a for a in out if a[0] == 'c' and a[1] == 'int']
    if len(ints) > 16:
        out -= set(ints)
        out.add(('i', S.NOT))
    tups = [a for a in out if a[0] == 'tup']
    if len(tups) > 24:
        by = {}
        for t in tups:
            by.setdefault(len(t[1]), []).append(t[1])
        out -= set(tups)
        for n, l in by.items():
            out.add(('tup', tuple(normalize(frozenset().union(*[x[i] for x in l])) for i in range(n))))
    return frozenset(out)


def join_obj(x, y, owner):
    if x is y:
        return x
    if x.kind != y.kind:
        # the same allocation site with different kinds cannot happen
        return x
    k = x.kind
    summary = x.summary or y.summary
    flags = x.flags | y.flags
    if k in ('inst', 'frame'):
        d = dict(x.data)
        changed = False
        for n, v in y.data.items():
            if n in d:
                if d[n] != v:
                    d[n] = normalize(d[n] | v)
                    changed = True
            else:
                d[n] = v
                changed = True
        if not changed and summary == x.summary and flags == x.flags:
            return x
        extra = x.extra
        if k == 'inst':
            # fields that are missing on one side
            miss = frozenset(set(x.data) ^ set(y.data))
            extra = (x.extra or frozenset()) | (y.extra or frozenset()) | miss
        return HObj(k, x.cls, d, extra, summary, owner, flags, x.oid)
    if k == 'list':
        return HObj(k, x.cls, join_lists(x.data, y.data), None, summary, owner, flags, x.oid)
    if k == 'dict':
        d = {}
        for n in list(x.data) + [n for n in y.data if n not in x.data]:
            if n in x.data and n in y.data:
                d[n] = (x.data[n][0] | y.data[n][0], x.data[n][1] and y.data[n][1])
            elif n in x.data:
                d[n] = (x.data[n][0], False)
            else:
                d[n] = (y.data[n][0], False)
        extra = x.extra
        if y.extra:
            extra = (extra[0] | y.extra[0], extra[1] | y.extra[1]) if extra else y.extra
        return HObj(k, x.cls, d, extra, summary, owner, flags, x.oid)
    if k == 'set':
        d = {}
        for n in list(x.data) + [n for n in y.data if n not in x.data]:
            d[n] = x.data.get(n, False) and y.data.get(n, False)
        return HObj(k, x.cls, d, x.extra | y.extra, summary, owner, flags, x.oid)
    raise AssertionError(k)


def join_states(a, b):
    if a is None:
        return b
    if b is None:
        return a
    a.owner = object()
    b.owner = object()
    out = State(None, a.flags & b.flags)
    h = a.heap.copy()
    for oid, o in b.heap.items():
        p = h.get(oid)
        if p is None:
            h[oid] = o
        elif p is not o:
            h[oid] = join_obj(p, o, out.owner)
    out.heap = h
    return out


def states_equal(a, b):
    if a.flags != b.flags or len(a.heap) != len(b.heap):
        return False
    for oid, o in b.heap.items():
        p = a.heap.get(oid)
        if p is None or (p is not o and not p.same(o)):
            return False
    return True


def widen_value(old, new):
    if old == new:
        return new
    so = [a[1] for a in old if a[0] == 's']
    sn = [a[1] for a in new if a[0] == 's']
    rest = frozenset(a for a in new if a[0] != 's')
    if sn and set(sn) != set(so):
        base = min(so, key=lambda n: (n.size, n.uid)) if so else None
        rests = []
        ok = base is not None
        if ok:
            bp = S.parts(base) if base is not S.EMPTY else ()
            for n in sn:
                if n is base:
                    continue
                np = S.parts(n)
                if tuple(np[:len(bp)]) == tuple(bp):
                    rests.append(S.cat(list(np[len(bp):])))
                elif bp and len(np) >= len(bp) and tuple(np[:len(bp) - 1]) == tuple(bp[:-1]) and \
                        bp[-1].kind == 'lit' and np[len(bp) - 1].kind == 'lit' and \
                        np[len(bp) - 1].a.startswith(bp[-1].a):
                    first = lit(np[len(bp) - 1].a[len(bp[-1].a):])
                    rests.append(S.cat([first] + list(np[len(bp):])))
                else:
                    ok = False
                    break
        if ok:
            flat = []
            for r in rests:
                flat.append(r.a if r.kind == 'star' else r)
            rest |= string(S.cat([base, S.star(S.alt(flat))])) if flat else string(base)
        elif len(sn) > 6:
            rest |= string(S.any_(frozenset().union(*[n.taints for n in sn])))
        else:
            rest |= frozenset(('s', n) for n in sn)
    else:
        rest |= frozenset(('s', n) for n in sn)
    ints = [a for a in rest if a[0] == 'c' and a[1] == 'int']
    if len(ints) > len([a for a in old if a[0] == 'c' and a[1] == 'int']) and len(ints) > 2:
        rest = (rest - frozenset(ints)) | INT
    return normalize(rest, 24)


def widen_states(old, new):
    """new is already old ⊔ body."""
    out = State(None, new.flags)
    h = new.heap.copy()
    for oid, o in new.heap.items():
        p = old.heap.get(oid)
        if p is None or p is o:
            continue
        if o.kind in ('inst', 'frame'):
            c = o.copy(out.owner)
            for n, v in o.data.items():
                if n in p.data and p.data[n] != v:
                    c.data[n] = widen_value(p.data[n], v)
            h[oid] = c
        elif o.kind == 'list' and o.data != p.data:
            n = 0
            while n < len(o.data) and n < len(p.data) and o.data[n] == p.data[n]:
                n += 1
            c = o.copy(out.owner)
            rest = seg_join_all(o.data[n:])
            prev = seg_join_all(p.data[n:])
            c.data = o.data[:n] + ((widen_value(prev, rest) if prev else rest, '*'),)
            h[oid] = c
        elif o.kind == 'dict' and (o.data != p.data or o.extra != p.extra):
            c = o.copy(out.owner)
            for n, (v, must) in o.data.items():
                if n in p.data and p.data[n][0] != v:
                    c.data[n] = (widen_value(p.data[n][0], v), must)
            if o.extra and p.extra:
                c.extra = (widen_value(p.extra[0], o.extra[0]), widen_value(p.extra[1], o.extra[1]))
            h[oid] = c
    out.heap = h
    return out


BUILTIN_TYPES = {'str', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset',
                 'bytes', 'object', 'type', 'NoneType'}
EXC_BASES = {'json.decoder.JSONDecodeError': 'builtins.ValueError',
             'json.JSONDecodeError': 'builtins.ValueError',
             'subprocess.TimeoutExpired': 'builtins.Exception',
             'argparse.ArgumentError': 'builtins.Exception'}


def exc_is_sub(name, base):
    """Subclass relation between dotted external exception names (None: unknown)."""
    if name == base:
        return True
    if base in ('builtins.BaseException',):
        return True
    n = name
    while n in EXC_BASES:
        n = EXC_BASES[n]
        if n == base:
            return True
    if n.startswith('builtins.') and base.startswith('builtins.'):
        a, b = getattr(builtins, n[9:], None), getattr(builtins, base[9:], None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
    if base == 'builtins.Exception':
        return True
    return False


class Frame:
    __slots__ = ('oid', 'func', 'returns', 'yields', 'module', 'closure', 'loops', 'globals_')

    def __init__(self, oid, func, module, closure):
        self.oid, self.func, self.module, self.closure = oid, func, module, closure
        self.returns = []
        self.yields = None
        self.loops = []
        self.globals_ = set()


class Program:
    """Parsed modules of the repository."""

    def __init__(self, root, package='crazy_complete'):
        self.root = root
        self.package = package
        self.modules = {}
        self.paths = {}
        d = os.path.join(root, package)
        if not os.path.isdir(d):
            raise AnalysisBroken('package directory %s not found' % d)
        for dirpath, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x.isidentifier() and x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py') and f[:-3].isidentifier():
                    path = os.path.join(dirpath, f)
                    rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.add(rel, path)

    def add(self, name, path):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse %s: %s' % (path, e))
        for n in ast.walk(tree):
            n.mod = name
        self.modules[name] = tree
        self.paths[name] = path

    def where(self, node):
        p = self.paths.get(getattr(node, 'mod', ''), '?')
        return '%s:%s' % (os.path.relpath(p, self.root), getattr(node, 'lineno', '?'))
