"""C03: two definitions compare equal only if no attribute differs.

The equality methods are interpreted abstractly on pairs of separately built
definitions that agree in everything or differ in exactly one attribute."""

import ast
import itertools

from ..check import Check, pmap, ROOT
from ..lab import *
from .. import defs
from ..defs import skeleton, build, DOMAIN, KINDS, W, cat

RULES = {
    'difference-is-seen': 'objects that differ in exactly one attribute compare unequal',
    'equal-is-equal': 'separately built objects with the same attributes compare equal',
    'comparison-total': 'comparing definitions does not raise',
}


def values(cls, attr, kind, label):
    """Pairwise different values of the attribute."""
    if kind in ('bool', 'xbool', 'sep'):
        return list(DOMAIN[kind])
    if kind == 'text':
        return [W(label), W(label + '2'), cat(W(label), 'x'), 'Foo', 'foo']
    if kind == 'text?':
        return [None, W(label), W(label + '2'), cat(W(label), 'x'), 'Foo', 'foo'] + (['', ' ', 'foo '] if attr in ('help', 'metavar') else [])
    if kind in ('texts', 'texts?'):
        r = [[], [W(label)], [W(label), W(label + '2')], [W(label + '2'), W(label)], [W(label + '3'), W(label + '2')]]
        return r + ([None] if kind == 'texts?' else [])
    if kind == 'optstrings':
        a, b = cat('--', W(label)), cat('--', W(label + '2'))
        return [[a], [b], [a, b], [b, a]]
    if kind in ('complete', 'complete?'):
        w = W(label)
        r = [['none'], ['file'], ['choices', [w]], ['choices', [w, W(label + '2')]], ['choices', {w: 'x'}],
             ['choices', {w: W(label + '2')}], ['file', {'directory': w}], ['list', ['choices', [w]]],
             ['list', ['choices', [W(label + '2')]]]]
        return r + ([None] if kind == 'complete?' else [])
    if kind == 'when?':
        return [None, cat('option_is --', W(label)), cat('option_is --', W(label + '2'))]
    if kind == 'int':
        return [3, 4]
    raise KeyError(kind)


def consistent(t):
    for n in t.all():
        if n.cls == 'Option' and n.attrs.get('complete') is None:
            n.attrs['metavar'] = None
            n.attrs['optional_arg'] = False


L = None


def locate(t, cls, depth):
    """The node of the class at the depth whose attribute is varied."""
    c = t
    for _ in range(depth):
        c = c.subs[-1]
    return c if cls == 'CommandLine' else c.options[-1] if cls == 'Option' else c.positionals[-1]


def equal(st, a, b, key, out, expected):
    n = L.node()
    res = {}
    with L.frame() as fr:
        for op, neg in ((ast.Eq(), False), (ast.NotEq(), True)):
            try:
                r = L.I.compare(op, a, b, st.fork(), n)
                r = {(not x) if neg else x for x in r}
            except Bottom:
                out.append(('comparison-total', key, 'violation',
                            'comparing raises: %s' % '; '.join(defs.show(e[0]) for e in fr.excs()), WHERE))
                return
            res[neg] = r
    rule = 'equal-is-equal' if expected else 'difference-is-seen'
    r = res[False] | res[True]
    if r == {expected}:
        out.append((rule, key[0], 'ok', key[1], WHERE))
    elif r == {not expected}:
        out.append((rule, key[0], 'violation', key[1], WHERE))
    else:
        out.append((rule, key[0] if len(r) == 1 else key[0] + ' ' + key[1][:80], 'undecided', str(r), ''))


WHERE = 'crazy_complete/cli.py'


def run(item):
    cls, attr, v1, v2, depth, rich = item
    st = L.state()
    out = []
    roots = []
    with L.frame() as fr:
        for v in (v1, v2):
            t = skeleton(depth=3, rich=rich)
            if attr is not None:
                n = locate(t, cls, depth)
                n.attrs[attr] = v
                # the other attributes stay the same on both sides
                if cls == 'Option' and attr == 'complete' and (v1 is None or v2 is None):
                    n.attrs['metavar'] = None
                if cls == 'Option' and attr == 'metavar' and not rich:
                    n.attrs['complete'] = ['none']
                if cls == 'Option' and attr == 'optional_arg' and not rich:
                    n.attrs['complete'] = ['none']
            try:
                build(L, st, t)
            except Bottom:
                return [('difference-is-seen', '%s.%s' % (cls, attr), 'undecided', 'cannot build', '')]
            roots.append(t)
    a, b = roots
    if attr is None:
        for d in range(3):
            for c in KINDS:
                equal(st, locate(a, c, d).value, locate(b, c, d).value, (c, 'same attributes, depth %d' % d), out, True)
        return out
    text = '%s %s / %s (depth %d)' % (attr, show_py(v1), show_py(v2), depth)
    key = '%s.%s' % (cls, attr)
    equal(st, locate(a, cls, depth).value, locate(b, cls, depth).value, (key, text), out, False)
    equal(st, a.value, b.value, (key, text + ' seen from the root'), out, False)
    return out


def run_structure(item):
    """Definitions that differ in their structure."""
    what, depth = item
    st = L.state()
    trees = []
    with L.frame():
        for i in (0, 1):
            t = skeleton(depth=3)
            c = locate(t, 'CommandLine', depth)
            if what == 'options' and i:
                c.options = c.options[:-1]
            elif what == 'first option' and i:
                c.options = c.options[1:]
            elif what == 'option order' and i:
                c.options = c.options[::-1]
            elif what == 'positionals' and i:
                c.positionals = c.positionals[:-1]
            elif what == 'all options' and i:
                c.options = []
            elif what == 'all positionals' and i:
                c.positionals = []
            elif what == 'subcommands' and i:
                c.subs = None
            elif what == 'one subcommand' and i:
                c.subs = c.subs[:-1]
            elif what == 'subcommand order' and i:
                c.subs = c.subs[::-1]
            try:
                build(L, st, t)
            except Bottom:
                return [('difference-is-seen', 'CommandLine ' + what, 'undecided', 'cannot build', '')]
            trees.append(t)
    out = []
    a, b = trees
    equal(st, a.value, b.value, ('CommandLine ' + what, 'structure at depth %d' % depth), out, False)
    equal(st, b.value, a.value, ('CommandLine ' + what, 'structure at depth %d, swapped' % depth), out, False)
    return out


def show_py(v):
    if isinstance(v, S.S):
        return S.show(v)
    if isinstance(v, list):
        return '[%s]' % ', '.join(show_py(x) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (show_py(k), show_py(x)) for k, x in v.items())
    return repr(v)


def attributes():
    """Attributes the constructors actually store (from the abstract heap)."""
    st = L.state()
    with L.frame():
        t = skeleton(depth=2)
        build(L, st, t)
    r = {}
    for cls, v in (('CommandLine', t.value), ('Option', t.options[0].value), ('Positional', t.positionals[0].value)):
        r[cls] = [n for n in defs.instance_attrs(st, v)
                  if n not in ('parent', 'options', 'positionals', 'subcommands')]
    return r


def main():
    global L, WHERE
    ck = Check('C03', 'Two definitions compare equal only if no attribute differs', RULES, floor=25,
               assumptions=['two different symbolic words are different strings'])
    L = Lab(ROOT)
    stored = attributes()
    items = [(None, None, None, None, 0, True), (None, None, None, None, 0, False)]
    for cls, attrs in KINDS.items():
        for a, k in attrs.items():
            if a not in stored[cls]:
                ck.unknown('difference-is-seen', '%s.%s' % (cls, a), 'the constructor stores no such attribute')
                continue
            vals = values(cls, a, k, 'v')
            for depth in range(3):
                for v1, v2 in itertools.permutations(vals, 2):
                    if depth and ck.tier == 'quick' and (v1, v2) != (vals[0], vals[1]):
                        continue
                    if (a, cls) == ('complete', 'Positional') and v1 is None:
                        continue
                    for rich in (True, False):
                        items.append((cls, a, v1, v2, depth, rich))
    for cls in stored:
        for a in stored[cls]:
            if a not in KINDS[cls]:
                ck.unknown('difference-is-seen', '%s.%s' % (cls, a), 'attribute of unknown kind')
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('difference-is-seen', '%s.%s' % item[:2], err)
        else:
            ck.merge(res)
    sitems = [(w, d) for w in ('options', 'first option', 'option order', 'positionals', 'all options',
                               'all positionals', 'subcommands', 'one subcommand', 'subcommand order')
              for d in range(3) if d < 2 or 'subcommand' not in w]
    for item, res, err in pmap(run_structure, sitems):
        if err:
            ck.unknown('difference-is-seen', 'CommandLine ' + item[0], err)
        else:
            ck.merge(res)
    ck.unit('attributes', ['%s.%s' % (c, a) for c in stored for a in stored[c]])
    ck.unit('pairs of definitions', [str(i) for i in range(len(items) + len(sitems))])
    return ck.finish()
