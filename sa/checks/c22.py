"""C22: inherited settings are resolved, explicit ones are kept.

enhance_commandline is interpreted abstractly on definitions whose attributes
run through all their values (INHERIT included) at every depth, for every
combination of the settings; each attribute of each command, option and
positional of the result is compared with the documented resolution.  The
generated scripts are compared as well: a setting has to give the script that
the same value written explicitly into the definition gives."""

import itertools

from ..check import Check, pmap, ROOT
from ..gen import *
from .. import defs

RULES = {
    'resolved': 'an attribute left to be inherited has the value of its configuration setting after '
                'enhance_commandline, at every depth',
    'explicit-kept': 'an explicitly given attribute keeps its value whatever the setting is',
    'disabled': 'a disabled feature switches its attribute off everywhere',
    'untouched': 'every other attribute keeps its value',
    'script-inherit': 'the script for inherited attributes under a setting is the script for the explicit value',
    'script-explicit': 'the script for explicit attributes does not depend on the setting',
    'script-disabled': 'the script with a disabled feature is the script of the definition without it',
}

# attribute -> (class, setter, values); from the documentation of the Config class
SETTINGS = {
    'abbreviate_commands': ('CommandLine', 'set_abbreviate_commands', (True, False)),
    'abbreviate_options': ('CommandLine', 'set_abbreviate_options', (True, False)),
    'inherit_options': ('CommandLine', 'set_inherit_options', (True, False)),
    'repeatable': ('Option', 'set_repeatable_options', (True, False)),
    'long_opt_arg_sep': ('Option', 'set_long_option_argument_separator', ('space', 'equals', 'both')),
}
DISABLE = {
    'disable_hidden': ('hidden', (False,)), 'disable_final': ('final', (False,)),
    'disable_groups': ('groups', (None, [])), 'disable_repeatable': ('repeatable', (True,)),
    'disable_when': ('when', (None,)),
}
L = None


def definition(order):
    """Four levels; the attributes run through their values in the given order."""
    n = itertools.count()
    xb = {0: ('INHERIT', True, False), 1: (False, 'INHERIT', True), 2: (True, False, 'INHERIT')}[order]
    sep = {0: ('INHERIT', 'space', 'equals', 'both'), 1: ('equals', 'INHERIT', 'both', 'space'),
           2: ('both', 'space', 'INHERIT', 'equals')}[order]

    def cmd(path, depth, k):
        t = Tree('CommandLine', dict(prog=path[-3:], help=W(path + '.help'), aliases=[W(path + '.alias')],
                                     abbreviate_commands=xb[k % 3], abbreviate_options=xb[(k + 1) % 3],
                                     inherit_options=xb[(k // 3 + k) % 3]), path=path)
        for i in range(4 if depth else 8):
            o = '%s.o%d' % (path, i)
            j = i + k
            a = dict(option_strings=['--%s-%d' % (path.replace('.', ''), i), '-' + 'abcdefgh'[i]], help=W(o + '.help'), metavar=W(o + '.m'),
                     complete=['choices', [W(o + '.c')]], repeatable=xb[j % 3], long_opt_arg_sep=sep[j % 4],
                     hidden=bool(j & 1) and xb[j % 3] is not True, final=bool(j & 2), nosort=bool(j & 4),
                     groups=[[W(o + '.g')], None, [W(o + '.g'), W(o + '.g2')]][j % 3],
                     when=[None, 'has_option --%s-0' % path.replace('.', '')][(j // 2) % 2],
                     capture=[None, W(o + '.cap')][j % 2], optional_arg=bool(i & 1))
            t.options.append(Tree('Option', a, path=o))
        for i in range(2):
            p = '%s.p%d' % (path, i)
            t.positionals.append(Tree('Positional', dict(
                number=i + 1, metavar=W(p + '.m'), help=W(p + '.h'), complete=['choices', [W(p + '.c')]],
                repeatable=bool(i and not depth), nosort=bool((i + k) & 1),
                when=['has_option --%s-1' % path.replace('.', ''), None][(i + k) % 2]), path=p))
        if depth:
            t.subs = [cmd('%s.s%d' % (path, i), depth - 1 if i == 1 else 0, k + 1 + i) for i in range(2)]
        return t
    t = cmd('r', 3, order)
    t.attrs['prog'] = 'prog'
    return t


def structure(item):
    order, config, off, twice = item
    out = []
    L.I.steps = 0
    st = L.state()
    t = definition(order)
    key0 = ', '.join(['%s=%s' % kv for kv in sorted(config.items())] + sorted(off)) or 'defaults'
    with L.frame() as fr:
        try:
            root = build(L, st, t)
            orig = st.fork()
            cfg = L.config(st, **{SETTINGS[a][1]: v for a, v in config.items()}, **{d: True for d in off})
            if twice:
                L.call(st, 'generation.enhance_commandline', root, L.config(st))
            r = L.call(st, 'generation.enhance_commandline', root, cfg)
        except Bottom:
            definite = config or off
            return [('resolved', key0, 'violation' if definite else 'undecided',
                     'a valid definition is rejected under these settings: ' + messages(L, fr),
                     L.where_of('generation.enhance_commandline') if definite else '')]
    if fr.excs():
        return [('resolved', key0, 'undecided', messages(L, fr), '')]
    switched = {DISABLE[d][0]: DISABLE[d][1] for d in off}
    where = L.where_of('generation.enhance_commandline')
    defaults = dict(abbreviate_commands=False, abbreviate_options=False, inherit_options=False, repeatable=False,
                    long_opt_arg_sep='both')
    defaults.update(config)

    def attr(v, name, st):
        try:
            (a,) = v
            return st.heap[a[1]].data.get(name)
        except (ValueError, KeyError):
            return None

    def check(tree, v, cls):
        if v is None or len(v) != 1:
            out.append(('resolved', '%s %s' % (key0, tree.path), 'undecided', 'object not found', ''))
            return
        for name in sorted(instance_attrs(orig, tree.value)):
            if name in ('parent', 'options', 'positionals', 'subcommands', 'when_parsed'):
                continue
            o = attr(tree.value, name, orig)
            n = attr(v, name, st)
            k = '%s.%s' % (cls, name)
            exp = None
            src = tree.attrs.get(name)
            if name in switched and cls in ('Option', 'Positional') and not (cls == 'Positional' and name == 'repeatable'):
                rule, exp = 'disabled', switched[name]
            elif name in SETTINGS and SETTINGS[name][0] == cls:
                if src == 'INHERIT':
                    rule, exp = 'resolved', (defaults[name],)
                else:
                    rule, exp = 'explicit-kept', (src,)
            else:
                rule = 'untouched'
            key = '%s at %s' % (k, tree.path)
            if n is None:
                out.append((rule, key, 'violation', '[%s] the attribute is missing after enhancement' % key0, where))
                continue
            best = None
            for e in exp or ():
                d = Differ(st, st)
                d.value(L.val(st, e), n, k)
                vs = {x[1] for x in d.reports}
                if not vs:
                    best = 'ok'
                elif 'diff' not in vs and best is None:
                    best = 'undecided'
            if exp is None:
                d = Differ(orig, st)
                d.value(o, n, k)
                vs = {x[1] for x in d.reports}
                best = 'ok' if not vs else None if 'diff' in vs else 'undecided'
            if best is None:
                out.append((rule, key, 'violation', '[%s] given %s, is %s after enhancement' % (
                    key0, show(o) if not isinstance(src, (str, bool)) else src, show(n)), where))
            else:
                out.append((rule, key, best, '', ''))

    def items(v, name):
        x = attr(v, name, st)
        if x is None or len(x) != 1:
            return None
        (a,) = x
        ob = st.heap.get(a[1]) if a[0] == 'o' else None
        if ob is None or ob.kind != 'list' or any(m != 1 for _, m in ob.data):
            return None
        return [e for e, _ in ob.data]

    def walk(tree, v):
        check(tree, v, 'CommandLine')
        for kind, cls, kids in (('options', 'Option', tree.options), ('positionals', 'Positional', tree.positionals)):
            xs = items(v, kind)
            if xs is None or len(xs) != len(kids):
                out.append(('resolved', '%s %s' % (tree.path, kind), 'undecided', 'not found', ''))
                continue
            for k, x in zip(kids, xs):
                check(k, x, cls)
        if tree.subs:
            s = attr(v, 'subcommands', st)
            xs = items(s, 'subcommands') if s else None
            if xs is None or len(xs) != len(tree.subs):
                out.append(('resolved', '%s subcommands' % tree.path, 'undecided', 'not found', ''))
                return
            for k, x in zip(tree.subs, xs):
                walk(k, x)
    walk(t, r)
    return out


def every(t, cls, name, value):
    """The tree with the attribute set in all objects of the class."""
    for c in t.commands():
        for x in ([c] if cls == 'CommandLine' else c.options if cls == 'Option' else c.positionals):
            if value is MISSING:
                x.attrs.pop(name, None)
            else:
                x.attrs[name] = value
    return t


MISSING = object()


gen_rich = rich


def script(item):
    what, shell, arg = item
    L.I.steps = 0
    if what in ('script-inherit', 'script-explicit'):
        name, value, other = arg
        cls, setter, _ = SETTINGS[name]
        key = '%s %s=%s' % (shell, name, value) + (' against %s' % other if other is not None else '')
        def rich(n):
            t = gen_rich(n)
            # hidden and repeatable exclude each other in a definition
            return every(t, 'Option', 'hidden', MISSING) if name == 'repeatable' else t
        if what == 'script-inherit':
            a = generate(L, shell, every(rich(2), cls, name, 'INHERIT'), {setter: value})
            L.I.steps = 0
            b = generate(L, shell, every(rich(2), cls, name, value))
            msg = 'set by %s(%r) the script differs from the one for the explicit value' % (setter, value)
        else:
            a = generate(L, shell, every(rich(2), cls, name, value), {setter: other})
            L.I.steps = 0
            b = generate(L, shell, every(rich(2), cls, name, value), {setter: value})
            msg = '%s(%r) overrides the explicit value %r' % (setter, other, value)
    else:
        name = DISABLE[arg][0]
        key = '%s %s' % (shell, arg)
        def rich():
            t = gen_rich(2)
            return every(t, 'Option', 'hidden', MISSING) if name == 'repeatable' else t
        a = generate(L, shell, rich(), {arg: True})
        t = every(rich(), 'Option', name, True if name == 'repeatable' else MISSING)
        if name == 'when':
            every(t, 'Positional', 'when', MISSING)
        L.I.steps = 0
        b = generate(L, shell, t)
        msg = 'the script with %s differs from the one of the definition without the feature' % arg
    if a.text is None or b.text is None or a.may or b.may:
        return [(what, key, 'undecided', a.error or b.error or 'text not exact', '')]
    if a.text == b.text:
        return [(what, key, 'ok', '%d characters' % len(a.text), '')]
    i = next((i for i, (x, y) in enumerate(zip(a.text, b.text)) if x != y), min(len(a.text), len(b.text)))
    return [(what, key, 'violation', '%s: %r / %r' % (msg, a.text[max(0, i - 40):i + 60], b.text[max(0, i - 40):i + 60]),
             L.where_of('generation._apply_config'))]


def work(item):
    return structure(item[1:]) if item[0] == 'structure' else script(item[1:])


def main():
    global L
    L = Lab(ROOT)
    c = Check('C22', 'Inherited settings are resolved, explicit ones are kept', RULES,
              ['the models of Python builtins in sa/ are faithful'], floor=100)
    items = []
    names = list(SETTINGS)
    combos = list(itertools.product(*[SETTINGS[n][2] for n in names]))
    if c.tier == 'quick':
        # every pair of values of two settings, every single disabled feature and all pairs
        combos = [v for i, v in enumerate(combos) if (i // 1) % 3 != 1]
    for i, v in enumerate(combos):
        items.append(('structure', i % 3, dict(zip(names, v)), (), False))
    offs = [o for n in range(1, 6) for o in itertools.combinations(DISABLE, n)]
    for i, o in enumerate(offs):
        items.append(('structure', i % 3, dict(zip(names, combos[(i * 7) % len(combos)])), o, False))
    for i in range(3):
        items.append(('structure', i, {}, (), False))
        items.append(('structure', i, dict(zip(names, (True, True, True, True, 'space'))), (), True))
    for sh in SHELLS:
        for n, (cls, setter, vals) in SETTINGS.items():
            for v in vals:
                items.append(('script', 'script-inherit', sh, (n, v, None)))
                for o in vals:
                    if o != v:
                        items.append(('script', 'script-explicit', sh, (n, v, o)))
        for d in DISABLE:
            items.append(('script', 'script-disabled', sh, d))
    items.sort(key=lambda i: i[0])
    for item, r, err in pmap(work, items):
        if err:
            c.unknown('resolved', repr(item), err)
        else:
            c.merge(r)
    c.unit('settings', [SETTINGS[n][1] for n in SETTINGS])
    c.unit('features', list(DISABLE))
    c.unit('functions', ['generation.enhance_commandline', 'bash/fish/zsh.generate_completion'])
    return c.finish()
