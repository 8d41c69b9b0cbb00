"""Abstract definitions: nested command lines whose attributes are distinct
symbolic words, and structural comparison of abstract objects."""

import ast

from . import strings as S
from .engine import *

WORD = 'w'

# attribute -> kind.  Attributes found in the program that are missing here are
# reported by the checks that need their kind.
KINDS = {
    'CommandLine': {
        'prog': 'text', 'help': 'text?', 'aliases': 'texts', 'wraps': 'text?',
        'abbreviate_commands': 'xbool', 'abbreviate_options': 'xbool', 'inherit_options': 'xbool',
    },
    'Option': {
        'option_strings': 'optstrings', 'metavar': 'text?', 'help': 'text?', 'complete': 'complete?',
        'nosort': 'bool', 'groups': 'texts?', 'optional_arg': 'bool', 'repeatable': 'xbool',
        'final': 'bool', 'hidden': 'bool', 'when': 'when?', 'capture': 'text?',
        'long_opt_arg_sep': 'sep',
    },
    'Positional': {
        'number': 'int', 'metavar': 'text?', 'help': 'text?', 'complete': 'complete', 'nosort': 'bool',
        'repeatable': 'bool', 'when': 'when?', 'capture': 'text?',
    },
}


def W(label):
    return S.hole(label, WORD)


def W1(label):
    """A single unknown letter."""
    return S.hole(label, WORD, 1, 1)


def cat(*parts):
    return S.cat([lit(p) if isinstance(p, str) else p for p in parts])


class Tree:
    """A definition: dict of attributes plus children."""

    def __init__(self, cls, attrs, options=(), positionals=(), subs=None, path=''):
        self.cls, self.attrs, self.path = cls, attrs, path
        self.options, self.positionals, self.subs = list(options), list(positionals), subs

    def all(self):
        yield self
        yield from self.options
        yield from self.positionals
        for s in self.subs or ():
            yield from s.all()

    def commands(self):
        yield self
        for s in self.subs or ():
            yield from s.commands()


def full_value(kind, label, variant=0):
    """A value of the kind, distinct per label; variant 0 is 'set', 1 another value."""
    l = label + ("'" * variant)
    if kind in ('text', 'text?'):
        return W(l)
    if kind in ('texts', 'texts?'):
        return [W(l + '.0'), W(l + '.1')]
    if kind == 'optstrings':
        return [cat('--', W(l + '.0')), cat('-', W(l + '.1'), 'x')]
    if kind in ('complete', 'complete?'):
        return ['choices', [W(l + '.0'), W(l + '.1')]]
    if kind == 'when?':
        return cat('option_is --x', W1(l), ' -- v', W1(l + '.v'))
    if kind == 'sep':
        return ('space', 'equals')[variant]
    if kind == 'int':
        return 1 + variant
    raise KeyError(kind)


DOMAIN = {'bool': (False, True), 'xbool': (True, False, 'INHERIT'),
          'sep': ('INHERIT', 'space', 'equals', 'both')}


def skeleton(depth=3, bools=False, xbools='INHERIT', sep='INHERIT', rich=True, opts=2, poss=2, width=2,
             kinds=None, prefix='', aliases_root=True):
    """A definition with every text attribute set to its own word."""
    kinds = kinds or KINDS

    def attrs(cls, path):
        r = {}
        for a, k in kinds[cls].items():
            lab = path + '.' + a
            if k == 'bool':
                r[a] = bools
            elif k == 'xbool':
                r[a] = xbools
            elif k == 'sep':
                r[a] = sep
            elif rich:
                r[a] = full_value(k, lab)
            elif k in ('text', 'optstrings', 'int'):
                r[a] = full_value(k, lab)
        return r

    def cmd(path, d, root):
        c = Tree('CommandLine', attrs('CommandLine', path), path=path)
        for i in range(opts):
            p = '%s.o%d' % (path, i)
            c.options.append(Tree('Option', attrs('Option', p), path=p))
        for i in range(poss):
            p = '%s.p%d' % (path, i)
            t = Tree('Positional', attrs('Positional', p), path=p)
            t.attrs['number'] = i + 1
            c.positionals.append(t)
        if d > 1:
            c.subs = [cmd('%s.s%d' % (path, i), d - 1 if i == width - 1 else 1, False)
                      for i in range(width)]
        return c
    return cmd(prefix + 'r', depth, True)


def build(lab, st, t, parent=None):
    """Create the abstract CommandLine objects of a Tree through the public
    interface; returns the value of the root.  t.value is set on every node."""
    a = dict(t.attrs)
    prog = a.pop('prog')
    c = lab.cmdline(st, prog, **a)
    t.value = c
    for o in t.options:
        a = dict(o.attrs)
        o.value = lab.option(st, c, a.pop('option_strings'), **a)
    for p in t.positionals:
        a = dict(p.attrs)
        p.value = lab.positional(st, c, a.pop('number'), **a)
    if t.subs is not None:
        s = lab.subcommands(st, c)
        for x in t.subs:
            lab.meth(st, s, 'add_commandline_object', build(lab, st, x))
    return c


def to_dict(t, cmd=None):
    """The definition dictionaries of a Tree (as the YAML/JSON loaders see them)."""
    out = []

    def conv(v):
        return v

    def walk(c, prefix):
        d = dict(c.attrs)
        prog = d['prog']
        d['prog'] = cat(prefix, prog) if prefix else prog
        if c.options:
            d['options'] = [dict(o.attrs) for o in c.options]
        if c.positionals:
            d['positionals'] = [dict(p.attrs) for p in c.positionals]
        d = {k: v for k, v in d.items() if v is not None}
        out.append(d)
        for s in c.subs or ():
            walk(s, cat(d['prog'], ' '))
    walk(t, None)
    return out


# ------------------------------------------------------------ comparison

SAME, DIFF, MAYBE = 'same', 'diff', 'maybe'


class Differ:
    """Structural comparison of two abstract values.  reports: list of
    (path, 'diff'|'maybe', text)."""

    def __init__(self, st1, st2=None, skip=('parent',)):
        self.s1, self.s2 = st1, st2 or st1
        self.skip = set(skip)
        self.reports = []
        self.seen = set()
        self.leaves = 0

    def rep(self, path, what, text):
        self.reports.append((path, what, text))

    def obj(self, st, a):
        return st.heap[a[1]]

    def value(self, v1, v2, path):
        if len(v1) != 1 or len(v2) != 1:
            if v1 == v2 and v1 and not any(a[0] in ('u', 'i') or (a[0] == 's' and not S.ground(a[1]))
                                           for a in v1):
                # the same finite set on both sides: correlated or not is unknown
                self.rep(path, MAYBE, 'several values: %r' % (show(v1),))
                return
            if not (v1 & v2) and v1 and v2 and all(definite(a) for a in v1 | v2):
                self.rep(path, DIFF, '%s / %s' % (show(v1), show(v2)))
                return
            self.rep(path, MAYBE, '%s / %s' % (show(v1), show(v2)))
            return
        (a,), (b,) = v1, v2
        if a[0] != b[0]:
            if definite(a) and definite(b):
                self.rep(path, DIFF, '%s / %s' % (show(v1), show(v2)))
            else:
                self.rep(path, MAYBE, '%s / %s' % (show(v1), show(v2)))
            return
        self.leaves += 1
        if a[0] == 's':
            if a[1] is b[1] and S.ground(a[1]):
                return
            if S.ground(a[1]) and S.ground(b[1]) and S.encode(a[1]) is not None and S.encode(b[1]) is not None:
                self.rep(path, DIFF, '%s / %s' % (show(v1), show(v2)))
            else:
                self.rep(path, MAYBE, '%s / %s' % (show(v1), show(v2)))
        elif a[0] == 'c':
            if (type(a[2]), a[2]) != (type(b[2]), b[2]):
                self.rep(path, DIFF, '%s / %s' % (show(v1), show(v2)))
        elif a[0] == 'tup':
            if len(a[1]) != len(b[1]):
                self.rep(path, DIFF, 'length %d / %d' % (len(a[1]), len(b[1])))
                return
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                self.value(x, y, '%s[%d]' % (path, i))
        elif a[0] == 'o':
            self.heap(a, b, path)
        elif a != b:
            self.rep(path, MAYBE, '%s / %s' % (show(v1), show(v2)))

    def heap(self, a, b, path):
        if (a[1], b[1]) in self.seen:
            return
        self.seen.add((a[1], b[1]))
        x, y = self.obj(self.s1, a), self.obj(self.s2, b)
        if x.kind != y.kind:
            self.rep(path, DIFF, '%s / %s' % (x.kind, y.kind))
            return
        if x.summary or y.summary:
            self.rep(path, MAYBE, 'summary object')
            return
        if x.kind == 'list':
            if any(m != 1 for _, m in x.data + y.data):
                self.rep(path, MAYBE, 'list of unknown length')
                return
            if len(x.data) != len(y.data):
                self.rep(path, DIFF, 'length %d / %d' % (len(x.data), len(y.data)))
                return
            for i, (p, q) in enumerate(zip(x.data, y.data)):
                self.value(p[0], q[0], '%s[%d]' % (path, i))
        elif x.kind == 'dict':
            if x.extra or y.extra or not all(m for _, m in list(x.data.values()) + list(y.data.values())):
                self.rep(path, MAYBE, 'dictionary with unknown keys')
                return
            if list(x.data) != list(y.data):
                if set(x.data) != set(y.data):
                    self.rep(path, DIFF, 'keys %s / %s' % (sorted(map(repr, x.data)), sorted(map(repr, y.data))))
                    return
            for k in x.data:
                self.value(x.data[k][0], y.data[k][0], '%s[%s]' % (path, show(frozenset([k]) if isinstance(k, tuple) else k)))
        elif x.kind == 'inst':
            if x.cls is not y.cls:
                self.rep(path, DIFF, '%r / %r' % (x.cls, y.cls))
                return
            base = '' if isinstance(x.cls, str) else x.cls.name
            for n, v in x.data.items():
                if n in self.skip or n.startswith('$'):
                    continue
                p = '%s.%s' % (path, n)
                if n not in y.data:
                    self.rep(p, DIFF, 'attribute missing')
                    continue
                if n in (x.extra or ()) or n in (y.extra or ()):
                    self.rep(p, MAYBE, 'attribute may be missing')
                    continue
                self.value(v, y.data[n], p)
        else:
            self.rep(path, MAYBE, 'unsupported ' + x.kind)


def definite(a):
    if a[0] == 'c':
        return True
    if a[0] == 's':
        return S.encode(a[1]) is not None
    if a[0] == 'o':
        return True
    return False


def show(v, n=160):
    if not isinstance(v, frozenset):
        return repr(v)
    out = []
    for a in v:
        out.append(repr(S.show(a[1], n)) if a[0] == 's' else repr(a[2]) if a[0] == 'c' else
                   'object' if a[0] == 'o' else '?' if a[0] in 'ui' else a[0])
    return ' or '.join(sorted(out))


def instance_attrs(st, v):
    """Names of the attributes of an instance."""
    (a,) = v
    o = st.heap[a[1]]
    return [n for n in o.data if not n.startswith('$')]
