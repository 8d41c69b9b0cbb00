"""C01: copying a definition loses nothing.

The copy method and the definition enhancement are interpreted abstractly on
nested definitions whose text attributes are distinct symbolic words; the
finite-domain attributes are enumerated.  Every attribute the constructors
store (taken from the abstract heap, not from a list) is compared between
original and copy, at every depth."""

from ..check import Check, pmap, ROOT
from ..lab import *
from .. import defs
from ..defs import skeleton, build, Differ, DOMAIN, KINDS

RULES = {
    'copy-keeps-attribute': 'the value an attribute has in CommandLine.copy() is the value it has in the original',
    'enhance-keeps-attribute': 'an explicitly set attribute has its value in the definition returned by '
                               'generation.enhance_commandline',
    'copy-keeps-structure': 'options, positionals and subcommands keep number and order',
    'copy-parent': 'the parent of every copied object is the copy of the parent',
    'copy-succeeds': 'copying a valid definition does not raise',
}


def variants():
    """(name, kwargs of skeleton, single overrides)."""
    yield 'set', dict(), {}
    yield 'unset', dict(rich=False), {}
    for v in (True, False):
        yield 'xbool=%s' % v, dict(xbools=v), {}
    for cls, attrs in KINDS.items():
        for a, k in attrs.items():
            if k in ('bool', 'xbool', 'sep'):
                for v in DOMAIN[k]:
                    yield '%s.%s=%r' % (cls, a, v), dict(), {(cls, a): v}
            elif k.endswith('?') or k == 'texts':
                yield '%s.%s=empty' % (cls, a), dict(), {(cls, a): [] if 'texts' in k else None}
            if k == 'text?':
                yield '%s.%s=""' % (cls, a), dict(), {(cls, a): ''}
    # everything switched the other way at once
    yield 'inverted', dict(bools=True, xbools=False, sep='equals'), {('Option', 'hidden'): True}
    odd = defs.cat('  ', defs.W('odd1'), '  ', defs.W('odd2'), '\n')
    yield 'spaced', dict(), {('CommandLine', 'help'): odd, ('Option', 'help'): odd, ('Option', 'metavar'): odd,
                             ('Positional', 'help'): odd, ('Positional', 'metavar'): odd}
    yield 'unsorted', dict(), {
        ('CommandLine', 'aliases'): ['z', 'a', 'm'], ('Option', 'groups'): ['z', 'a', 'z'],
        ('Option', 'option_strings'): ['--zz', '-b', '-a', '--long'],
        ('Option', 'complete'): ['choices', ['z', 'a', 'z']],
        ('Positional', 'complete'): ['choices', ['z', 'a', 'z']], ('Positional', 'number'): 2}
    yield 'complete-nested', dict(), {
        ('Option', 'complete'): ['list', ['file', {'directory': defs.W('cd')}], {'separator': defs.W('cs')}],
        ('Positional', 'complete'): ['combine', [['choices', {defs.W('ck'): defs.W('cv')}], ['integer']]]}


def legal(t, a, v):
    """Combinations the constructors reject on purpose are not built."""
    if a == 'capture' and v == '':
        return False
    if a == 'wraps' and v == '':
        return False
    if a == 'complete' and v in (None, []) and t.cls == 'Option':
        t.attrs['metavar'] = None
        t.attrs['optional_arg'] = False
    return True


def tree_of(kw, over, depth, valid=False):
    t = skeleton(depth=depth, **kw)
    if valid:
        for n in t.commands():
            if n is not t:
                n.attrs['wraps'] = None
        for n in t.commands():
            last = max((p.attrs['number'] for p in n.positionals), default=0)
            for p in n.positionals:
                p.may_repeat = n.subs is None and p.attrs['number'] == last
    for n in t.all():
        for (cls, a), v in over.items():
            if n.cls == cls and legal(n, a, v):
                n.attrs[a] = v
        if n.cls == 'Option':
            if n.attrs.get('hidden') is True and n.attrs.get('repeatable') is True:
                n.attrs['repeatable'] = False
            if n.attrs.get('optional_arg') and n.attrs.get('complete') is None:
                n.attrs['complete'] = ['none']
        if valid and n.cls == 'Positional' and not n.may_repeat:
            n.attrs['repeatable'] = False
    return t


L = None
WHERE = {}


def construct(node, attr):
    return '%s.%s' % (node.cls, attr)


def compare(st, t, copied, rule, skip_if=lambda node, attr, v: False, out=None):
    """Compare every node of the Tree with the copied command line."""
    out = out if out is not None else []
    attrs_seen = {}

    def one(node, orig, cp, depthname):
        (a,), (b,) = orig, cp
        x, y = st.heap[a[1]], st.heap[b[1]]
        if a == b:
            out.append(('copy-keeps-structure', node.cls + ' object', 'violation',
                        'the copy contains the original %s itself' % node.cls, 'crazy_complete/cli.py'))
        for n in x.data:
            if n.startswith('$') or n in ('parent', 'options', 'positionals', 'subcommands'):
                continue
            key = construct(node, n)
            attrs_seen.setdefault(key, 0)
            if skip_if(node, n, node.attrs.get(n)):
                continue
            if n not in y.data:
                out.append((rule, key, 'violation', 'attribute is missing in the copy (%s)' % depthname, WHERE[rule]))
                continue
            d = Differ(st)
            d.value(x.data[n], y.data[n], n)
            bad = [r for r in d.reports if r[1] == 'diff']
            if bad:
                out.append((rule, key, 'violation', '%s of %s at %s: original/copy: %s' % (
                    n, node.cls, node.path, bad[0][2]), WHERE[rule]))
            elif d.reports:
                out.append((rule, key, 'undecided', str(d.reports[0]), ''))
            else:
                out.append((rule, key, 'ok', node.path, ''))

    def items(v):
        if len(v) != 1:
            return None
        (a,) = v
        if a[0] != 'o' or st.heap[a[1]].kind != 'list':
            return None
        segs = st.heap[a[1]].data
        return [e for e, m in segs] if all(m == 1 for _, m in segs) else None

    def parent_is(child, parent, what):
        (a,) = child
        p = st.heap[a[1]].data.get('parent', BOT)
        if len(p) == 1 and len(parent) == 1:
            out.append(('copy-parent', what, 'ok' if p == parent else 'violation',
                        'parent of a copied %s' % what, WHERE[rule]))
        else:
            out.append(('copy-parent', what, 'undecided', '', ''))

    def cmd(node, cp):
        if len(cp) != 1 or next(iter(cp))[0] != 'o':
            out.append((rule, 'CommandLine', 'undecided', 'several copies', ''))
            return
        one(node, node.value, cp, node.path)
        (b,) = cp
        y = st.heap[b[1]]
        for field, nodes in (('options', node.options), ('positionals', node.positionals)):
            got = items(y.data.get(field, BOT))
            if got is None:
                out.append(('copy-keeps-structure', field, 'undecided', '', ''))
                continue
            if len(got) != len(nodes):
                out.append(('copy-keeps-structure', field, 'violation', '%d %s instead of %d at %s' % (
                    len(got), field, len(nodes), node.path), WHERE[rule]))
                continue
            out.append(('copy-keeps-structure', field, 'ok', '', ''))
            for n, g in zip(nodes, got):
                if len(g) == 1:
                    one(n, n.value, g, n.path)
                    parent_is(g, cp, n.cls)
                else:
                    out.append((rule, n.cls, 'undecided', '', ''))
        sub = y.data.get('subcommands', BOT)
        if node.subs is None:
            out.append(('copy-keeps-structure', 'subcommands',
                        'ok' if sub == NONE else 'violation' if NONE & sub == BOT else 'undecided',
                        'subcommands of %s' % node.path, WHERE[rule]))
            return
        if len(sub) != 1 or next(iter(sub))[0] != 'o':
            out.append(('copy-keeps-structure', 'subcommands', 'violation' if sub == NONE else 'undecided',
                        'subcommands of %s are dropped' % node.path, WHERE[rule]))
            return
        (s,) = sub
        got = items(st.heap[s[1]].data.get('subcommands', BOT))
        if got is None or len(got) != len(node.subs):
            out.append(('copy-keeps-structure', 'subcommands', 'undecided' if got is None else 'violation',
                        '%s subcommands instead of %d at %s' % (
                            got and len(got), len(node.subs), node.path), WHERE[rule]))
            return
        out.append(('copy-keeps-structure', 'subcommands', 'ok', '', ''))
        for n, g in zip(node.subs, got):
            cmd(n, g)
            parent_is(g, cp, 'CommandLine')
    cmd(t, copied)
    return out


def run(item):
    name, kw, over, mode, depth = item
    t = tree_of(kw, over, depth, mode == 'enhance')
    st = L.state()
    out = []
    rule = 'copy-keeps-attribute' if mode == 'copy' else 'enhance-keeps-attribute'
    with L.frame() as fr:
        try:
            root = build(L, st, t)
        except Bottom:
            return [(rule, 'definition ' + name, 'undecided', 'cannot build: %s' % msgs(fr), '')]
    with L.frame() as fr:
        try:
            if mode == 'copy':
                r = L.meth(st, root, 'copy')
            else:
                cfg = L.config(st)
                r = L.call(st, 'generation.enhance_commandline', root, cfg)
        except Bottom:
            if mode == 'copy':
                return [('copy-succeeds', 'CommandLine.copy', 'violation',
                         'copying raises for %s: %s' % (name, msgs(fr)), msgs(fr))]
            return [(rule, 'definition ' + name, 'undecided', msgs(fr), '')]
        if mode == 'copy':
            out.append(('copy-succeeds', name, 'ok', '', ''))
    skip = (lambda n, a, v: False) if mode == 'copy' else \
        (lambda n, a, v: v == 'INHERIT' or a not in n.attrs and a in KINDS[n.cls] and
         KINDS[n.cls][a] in ('xbool', 'sep'))
    compare(st, t, r, rule, skip, out)
    return out


def msgs(fr):
    return '; '.join('%s at %s' % (defs.show(e[0]), L.p.where(e[2])) for e in fr.excs())[:300]


def main():
    global L
    ck = Check('C01', 'Copying a definition loses nothing', RULES, floor=40, assumptions=[
        'a symbolic word stands for every non-empty string of letters and digits',
        'the default configuration is used for the enhanced copy (C22 covers the others)'])
    L = Lab(ROOT)
    WHERE['copy-keeps-attribute'] = L.where_of('cli.CommandLine', 'copy')
    WHERE['enhance-keeps-attribute'] = L.where_of('generation.enhance_commandline')
    depth = 4 if ck.tier == 'thorough' else 3
    items = [(n, kw, ov, mode, depth) for n, kw, ov in variants() for mode in ('copy', 'enhance')]
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('copy-keeps-attribute', 'run %s/%s' % (item[0], item[3]), err)
        else:
            ck.merge(res)
    ck.unit('definitions', ['%s/%s' % (i[0], i[3]) for i in items])
    ck.unit('modules', L.p.modules)
    return ck.finish()
