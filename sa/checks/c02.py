"""C02: YAML and JSON export can be loaded back without loss.

The exporters are interpreted abstractly on definitions with symbolic texts;
the exact text they produce becomes a virtual file that the loaders are
interpreted on.  Every attribute of the loaded definition is compared with the
original, at every depth."""

from .. import defs
from ..catalog import CATALOG
from ..check import Check, pmap, ROOT
from ..defs import KINDS, Differ, Tree, W, cat
from ..engine import *
from ..gen import rich, with_completer, simple
from ..world import World
from .c01 import variants, tree_of
from .c18 import alternatives

RULES = {
    'attribute-kept': 'the attribute has its value again after exporting and loading',
    'structure-kept': 'number and order of options, positionals and subcommands are kept',
    'export-loads': 'the exported text of a valid definition is accepted by the loader',
    'text-kept': 'a text with a character of the class is the same after exporting and loading',
}
FORMATS = {'yaml': ('yaml_source.commandline_to_yaml', 'yaml_source.load_from_file', 'crazy_complete/yaml_source.py'),
           'json': ('json_source.commandline_to_json', 'json_source.load_from_file', 'crazy_complete/json_source.py')}
L = None

# one representative per class of characters that JSON or YAML treat differently
CHARS = {
    'quotes': 'a"b\'c', 'backslash': 'a\\b\\n\\u0041\\ud83d', 'newline': 'a\nb', 'trailing newline': 'a\n', 'tab': 'a\tb', 'cr': 'a\rb',
    'colon': 'a: b', 'hash': 'a #b', 'dash': '- a', 'marker': '---', 'document end': 'a\n---\nb', 'dots': '...', 'percent': '%a',
    'brace': '{a}', 'bracket': '[a]', 'bang': '!a', 'ampersand': '&a', 'star': '*a', 'bar': '|', 'at': '@a', 'grave': '`a`',
    'question': '? a', 'comma': 'a, b', 'tilde': '~', 'null': 'null', 'true': 'true', 'yes': 'yes', 'number': '12', 'float': '1.5',
    'date': '2020-01-01', 'merge': '<<', 'equals': '=', 'spaces': '  a  b  ', 'latin': 'a\xe9b', 'cjk': '\u65e5\u672c',
    'astral': 'a\U0001f600b', 'several astral': '\U0001f600\U0010ffff', 'del': 'a\x7fb', 'c1': 'a\x80\x9fb', 'nel': 'a\x85b',
    'line separator': 'a\u2028b\u2029c', 'nbsp': 'a\xa0b', 'bom': '\ufeffa', 'control': 'a\x01b', 'escape': 'a\x1bb',
    'noncharacter': 'a\ufffeb', 'empty': '', 'INHERIT': 'INHERIT', 'None': 'None',
}
# '%defines%' as the name of a program is not a definition; INHERIT means inherited where a setting stands


def trees():
    """(key, Tree) of valid definitions."""
    for name, kw, over in variants():
        yield name, tree_of(kw, over, 3, valid=True)
    yield 'rich', rich(3)
    yield 'flat', simple()
    t = simple(prog='p')
    c = t
    for i in range(5):
        n = Tree('CommandLine', dict(prog='s%d' % i, help=W('h%d' % i)), path='s%d' % i)
        c.subs = [n]
        c = n
    yield 'deep', t
    t = simple(prog='p', options=[(['-a'], {})])
    t.subs = [simple(prog='s%d' % i, positionals=[(1, {})] if i % 2 else ()) for i in range(4)]
    yield 'wide', t
    yield 'no completer', simple(options=[(['-a'], dict(complete=None)), (['-b'], dict(complete=['none']))],
                                 positionals=[(1, dict(complete=['none'])), (3, {}), (2, dict(repeatable=False))])
    same = ['choices', [W('c')]]
    yield 'shared', simple(options=[(['-a'], dict(complete=same, groups=['g'])), (['-b'], dict(complete=same, groups=['g']))])
    yield 'separators', simple(options=[(['--o%d' % i], dict(complete=['none'], long_opt_arg_sep=s))
                                        for i, s in enumerate(('space', 'equals', 'both', 'INHERIT'))])
    for n, c in CATALOG.items():
        if n == 'command':
            continue
        seen = []
        for inv in [c.invoke(), c.full()] + alternatives(c):
            if inv not in seen:
                seen.append(inv)
        for i, inv in enumerate(seen):
            yield 'completer %s %d' % (n, i), with_completer(c, inv, 'positional' if c.positional else 'sub')
            if not c.positional and n not in ('list', 'combine', 'prefix', 'none', 'command_arg'):
                yield 'completer %s %d nested' % (n, i), simple(options=[
                    (['--x'], dict(complete=['list', ['combine', [inv, ['choices', {W('k'): W('d')}]]], {'separator': ':'}]))])


# what a text is in the definition: (name, function text -> Tree)
PLACES = {
    'CommandLine.help': lambda s: simple(help=s),
    'Option.help': lambda s: simple(options=[(['-a'], dict(help=s))]),
    'Option.metavar': lambda s: simple(options=[(['-a'], dict(metavar=s, complete=['none']))]),
    'Positional.help': lambda s: simple(positionals=[(1, dict(help=s))]),
    'Positional.metavar': lambda s: simple(positionals=[(1, dict(metavar=s))]),
    'Option.complete': lambda s: simple(options=[(['-a'], dict(complete=['choices', [s, 'x']]))]),
    'Option.complete key': lambda s: simple(options=[(['-a'], dict(complete=['choices', {s: s, 'x': 'y'}]))]),
    'Positional.complete': lambda s: simple(positionals=[(1, dict(complete=['value_list', {'values': [s, 'x']}]))]),
    'CommandLine.help of a subcommand': lambda s: sub(s),
}


# numbers: the form their text has may not be lost
NUMBERS = {'zero': 0, 'negative': -5, 'big': 10 ** 30, 'one': 1.0, 'fraction': 0.25, 'small float': 1e-05, 'large float': 1e+20,
           'tiny': 5e-324, 'infinite': float('inf'), 'minus infinite': float('-inf')}
NUMBER_PLACES = {
    'integer.min': lambda x: simple(options=[(['-a'], dict(complete=['integer', {'min': x}]))]),
    'float.max': lambda x: simple(options=[(['-a'], dict(complete=['float', {'max': x}]))]),
    'range.stop': lambda x: simple(options=[(['-a'], dict(complete=['range', -6, x]))]),
    'choices': lambda x: simple(options=[(['-a'], dict(complete=['choices', [x, 'a']]))]),
    'choices text': lambda x: simple(options=[(['-a'], dict(complete=['choices', [str(x), 'a']]))]),
    'Positional.number': lambda x: simple(positionals=[(x, {})]),
}


def sub(s):
    t = simple()
    t.subs = [simple(prog='s', help=s)]
    return t


def parts(st, v):
    """Attribute values of all objects: {path: value} and the structure."""
    out, shape = {}, []

    def items(v):
        if len(v) != 1:
            return None
        (a,) = v
        if a[0] != 'o' or st.heap[a[1]].kind != 'list':
            return None
        segs = st.heap[a[1]].data
        return [e for e, m in segs] if all(m == 1 for _, m in segs) else None

    def one(v, cls, path):
        (a,) = v
        o = st.heap[a[1]]
        for n, x in o.data.items():
            if n.startswith('$') or n in ('parent', 'options', 'positionals', 'subcommands'):
                continue
            out[path, cls, n] = x
        return o

    def cmd(v, path):
        o = one(v, 'CommandLine', path)
        for kind, cls in (('options', 'Option'), ('positionals', 'Positional')):
            l = items(o.data[kind])
            shape.append((path + '.' + kind, None if l is None else len(l)))
            for i, x in enumerate(l or ()):
                one(x, cls, '%s.%s%d' % (path, kind[0], i))
        s = o.data['subcommands']
        if s == NONE:
            shape.append((path + '.sub', 0))
            return
        if len(s) != 1:
            shape.append((path + '.sub', None))
            return
        (a,) = s
        l = items(st.heap[a[1]].data['subcommands'])
        shape.append((path + '.sub', None if l is None else len(l)))
        for i, x in enumerate(l or ()):
            cmd(x, '%s.s%d' % (path, i))
    cmd(v, 'r')
    return out, shape


def run(item):
    rule, key, fmt, make = item
    exporter, loader, where = FORMATS[fmt]
    t = make() if callable(make) else TREES[make]
    L.reset()
    st = L.state()
    with L.frame() as fr:
        try:
            root = L.build(st, t) if hasattr(L, 'build') else defs.build(L, st, t)
            L.call(st, 'completion_validator.validate_commandlines', root)
        except Bottom:
            return [('skipped', key, 'ok', L.exceptions(fr), '')]
        if fr.excs():
            return [('skipped', key, 'ok', '', '')]
    u0 = L.I.undecided
    with L.frame() as fr:
        try:
            v = L.call(st, exporter, root)
        except Bottom:
            x = L.exceptions(fr)
            sure = L.I.undecided == u0 and x and not any(m for n, m, w in x)
            return [('export-loads', '%s: %s' % (fmt, key), 'violation' if sure else 'undecided',
                     'exporting raises %s' % x, x[0][2] if x else where)]
    ss = [a for a in v]
    text = L.text_of(v)
    if text is None:
        return [(rule, '%s: %s' % (fmt, key), 'undecided', 'the exported text is not determined', '')]
    L.files = {'d.' + fmt: text}
    u0 = L.I.undecided
    with L.frame() as fr:
        try:
            back = L.call(st, loader, const('d.' + fmt))
        except Bottom:
            x = L.exceptions(fr)
            sure = L.I.undecided == u0 and x and not any(m for n, m, w in x)
            return [('export-loads', '%s: %s' % (fmt, key), 'violation' if sure else 'undecided',
                     'the exported text is rejected (%s): %s' % (', '.join(n for n, m, w in x), shown(text)), where)]
    out = [('export-loads', '%s: %s' % (fmt, key), 'ok', '', '')]
    a, sa = parts(st, root)
    b, sb = parts(st, back)
    if sa != sb:
        if any(n is None for _, n in sa + sb):
            out.append(('structure-kept', '%s: %s' % (fmt, key), 'undecided', '', ''))
        else:
            d = [(x, y) for x, y in zip(sa, sb) if x != y]
            out.append(('structure-kept', fmt, 'violation', '%s: exported/loaded: %s' % (key, (d or [(sa, sb)])[0]), where))
        return out
    out.append(('structure-kept', fmt, 'ok', '', ''))
    for (path, cls, n), x in a.items():
        k = '%s: %s.%s' % (fmt, cls, n) if rule == 'attribute-kept' else '%s: %s' % (fmt, key)
        y = b.get((path, cls, n))
        if y is None:
            out.append((rule, k, 'violation', '%s: attribute %s of %s is missing after loading' % (key, n, path), where))
            continue
        d = Differ(st)
        d.value(x, y, n)
        bad = [r for r in d.reports if r[1] == 'diff']
        if bad:
            out.append((rule, k, 'violation', '%s: %s of %s at %s: before/after: %s' % (key, n, cls, path, bad[0][2]), where))
        elif d.reports:
            out.append((rule, k, 'undecided', '%s %s' % (key, d.reports[0]), ''))
        elif rule == 'attribute-kept':
            out.append((rule, k, 'ok', '', ''))
    if rule == 'text-kept' and not any(o[0] == rule for o in out):
        out.append((rule, '%s: %s' % (fmt, key), 'ok', '', ''))
    return out


def shown(t):
    return repr(t[:300])


TREES = {}


def main():
    global L
    ck = Check('C02', 'YAML and JSON export can be loaded back without loss', RULES, floor=500, assumptions=[
        'words stand for arbitrary non-empty strings; characters are treated by class (see text-kept)',
        'PyYAML and json read what their specification says'])
    L = World(ROOT)
    L.I.max_steps = 40_000_000
    items = []
    for k, t in trees():
        TREES[k] = t
        for f in FORMATS:
            items.append(('attribute-kept', k, f, k))
    for c, s in CHARS.items():
        for p, f in PLACES.items():
            if ck.tier != 'thorough' and p not in ('CommandLine.help', 'Option.help', 'Positional.metavar', 'Option.complete key'):
                continue
            k = '%s in %s' % (c, p)
            TREES[k] = f(s)
            for fmt in FORMATS:
                items.append(('text-kept', k, fmt, k))
    for c, s in NUMBERS.items():
        for p, f in NUMBER_PLACES.items():
            k = '%s in %s' % (c, p)
            TREES[k] = f(s)
            for fmt in FORMATS:
                items.append(('text-kept', k, fmt, k))
    skipped = set()
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown(item[0], str(item), err)
        else:
            skipped |= {x[1] for x in res if x[0] == 'skipped'}
            ck.merge([x for x in res if x[0] != 'skipped'])
    ck.unit('definitions', sorted(set(TREES) - skipped))
    ck.unit('not valid, skipped', sorted(skipped))
    return ck.finish()
