"""C07: no completion script is produced from an unvalidated definition.

generate_completion of every shell is interpreted abstractly on definition
objects that are invalid in one place (an attribute of an object changed after
its construction, a malformed completer, a contradiction between attributes or
commands), under every setting and at every depth.  It has to end with a
definition error on all paths: a path that returns text is a path on which
this part of the definition was not validated."""

import json

from ..check import Check, pmap, ROOT
from ..gen import *
from .. import defs, scen
from ..world import World, Run

RULES = {
    'invalid-rejected': 'generation from a definition that is invalid in one place ends with a definition error',
    'entry-point-validates': 'a run of the program on an invalid definition writes no script, for every shell, input format and setting',
    'validated-again': 'a definition that was changed after a script was generated from it is validated again',
    'same-values': 'the values of a YAML file that are validated are the values the definition is built from',
    'alone-valid': 'the definition without the invalid part is accepted (otherwise the obligation would be void)',
}
L = W = None

# definitions that are wrong in one place, found by validation only
INVALID = {
    'unknown completer': dict(complete=['nosuch']),
    'nested unknown completer': dict(complete=['list', ['combine', [['user'], ['nosuch']]]]),
    'argument missing': dict(complete=['choices']),
    'superfluous argument': dict(complete=['file', {'directory': '/'}, 1]),
    'unknown option of a completer': dict(complete=['file', {'nosuch': 1}]),
    'wrong type in a completer': dict(complete=['range', 1, 'x']),
    'when': dict(when='nosuch -a'),
    'contradiction': dict(hidden=True, repeatable=True),
}
SETTINGS = [[], ['--debug'], ['--disable', 'when'], ['--inherit-options=True'], ['--function-prefix', 'x'], ['--keep-comments'],
            ['--repeatable-options=True'], ['--no-vim-modeline'], ['--abbreviate-options=True', '--abbreviate-commands=True'],
            ['--zsh-compdef=False'], ['--disable', 'hidden'], ['--fish-inline-conditions']]
# YAML scalars whose type is a matter of their form
SCALARS = ['a', '5', '-5', '+5', '0x1F', '0b11', '0o17', '017', '1_000', '12:30', '1.5', '1e5', '1e+5', '1.0e+5', '.5', '.inf', '-.INF', '.nan', 'nan', 'inf',
           'infinity', 'yes', 'Yes', 'yEs', 'no', 'on', 'oN', 'off', 'y', 'n', 'true', 'True', 'tRUE', 'false', 'null', 'Null', 'nULL', '~', '',
           '"5"', "'true'", '"null"', '2020-01-01', '2020-01-01 10:00:00', '!!str 5', '!!int "5"', '!!float 5', '!!bool yes',
           '!!null ""', '!!binary aGFsbG8=', '! 5', '"a\\n"', "'it''s'", '--', '1 2', '5 # comment', '1__0', '_1', '٣']

# places: (name, class, function changing attributes of a Tree node's object or the tree before building)
BAD_ATTR = {
    'CommandLine': {'help': [5, ['x']], 'aliases': ['x', [1]], 'wraps': [3], 'abbreviate_commands': ['yes'],
                    'abbreviate_options': [7], 'inherit_options': [None]},
    'Option': {'option_strings': [[], ['noprefix'], 'x', ['-']], 'metavar': [3], 'help': [4.5], 'complete': [
        ['nosuch'], ['choices'], ['file', {'nosuch': 1}], 'file', ['list', ['nosuch']], ['file', 'x', 'y'],
        ['key_value_list', ',', '=', [['k', 'd', ['nosuch']]]], ['combine', [['user'], ['nosuch']]],
        ['combine', [['user']]], ['range', 'a', 2], []],
        'nosort': ['x'], 'groups': ['g', [1]], 'optional_arg': [1], 'repeatable': ['x'], 'final': [None],
        'hidden': ['True'], 'when': [5, 'nosuch test', 'has_option', 'has_option -a &&'], 'capture': ['1 x', 4],
        'long_opt_arg_sep': ['colon', 1]},
    'Positional': {'number': ['1', 0], 'metavar': [3], 'help': [[]], 'complete': [['nosuch'], ['prefix', 'p'], 'x'],
                   'nosort': [2], 'repeatable': ['x'], 'when': [1, 'option_is -a'], 'capture': ['$x', 2.0]},
}
CONTRA = {
    'hidden and repeatable': ('Option', dict(hidden=True, repeatable=True)),
    'metavar without complete': ('Option', dict(metavar='M', complete=None)),
    'optional_arg without complete': ('Option', dict(optional_arg=True, complete=None)),
}
CONFIGS = [{}, {'disable_when': True}, {'disable_groups': True, 'disable_hidden': True, 'disable_final': True,
           'disable_repeatable': True}, {'set_debug': True, 'set_keep_comments': True},
           {'set_repeatable_options': True, 'set_inherit_options': True, 'set_abbreviate_options': True,
            'set_abbreviate_commands': True},
           {'set_option_stacking': False, 'set_vim_modeline': False, 'set_zsh_compdef': False,
            'set_fish_inline_conditions': True, 'set_line_length': 200, 'set_long_option_argument_separator': 'equals'},
           {'set_bash_completions_version': ((2, 12),), 'set_function_prefix': 'x'}]


def tree(depth):
    """A chain of commands with siblings; minimal so that the analysis is exact."""
    def cmd(name, d):
        t = Tree('CommandLine', dict(prog=name), path=name)
        t.options.append(Tree('Option', dict(option_strings=['-a', '--aa'], complete=['none'], when='has_option -b'), path=name + '.o0'))
        t.options.append(Tree('Option', dict(option_strings=['-b', '--bb'], complete=['choices', ['x']]), path=name + '.o1'))
        t.positionals.append(Tree('Positional', dict(number=1, complete=['none']), path=name + '.p0'))
        if d:
            t.subs = [Tree('CommandLine', dict(prog='leaf' + name), path='leaf' + name), cmd('c%d' % d, d - 1)]
        return t
    return cmd('prog', depth)


def nth(t, level):
    for _ in range(level):
        t = t.subs[1]
    return t


def pick(t, cls, i):
    return t if cls == 'CommandLine' else t.options[i] if cls == 'Option' else t.positionals[0]


def outcome(shell, t, config, change=(), before=None):
    """(text returned possible, [exception class names], message, validator calls)."""
    L.I.steps = 0
    st = L.state()
    with L.frame() as fr:
        try:
            root = build(L, st, t)
            cfg = L.config(st, **config)
        except Bottom:
            return None
        for obj, attrs in change:
            for n, v in attrs.items():
                L.I.write_attr(obj.value, n, L.val(st, v), st, L.node())
        if before:
            before(st, root, cfg)
    with L.frame() as fr:
        try:
            v = L.generate(st, shell, root, cfg)
        except Bottom:
            v = None
    return v, fr


def crazy(fr):
    """Names of the exceptions; True when all of them are definition errors."""
    names, ok = [], True
    for e in fr.excs():
        for a in e[0]:
            o = e[1].heap.get(a[1]) if a[0] == 'o' else None
            n = getattr(getattr(o, 'cls', None), 'name', str(a[1]))
            names.append(n)
            if not n.startswith('Crazy'):
                ok = False
    return names, ok


def work(item):
    kind, shell, cls, name, value, level, depth, ci, second = item
    t = tree(depth)
    node = nth(t, level)
    key = '%s %s.%s=%r level %d of %d, settings %d' % (shell, cls, name, value, level, depth, ci)
    obj = pick(node, cls, 1 if second else 0)
    attrs = {name: value} if kind == 'attr' else CONTRA[name][1]
    r = outcome(shell, t, CONFIGS[ci], [(obj, attrs)])
    if r is None:
        return [('invalid-rejected', key, 'undecided', 'cannot build', '')]
    v, fr = r
    names, ok = crazy(fr)
    if v is None:
        return [('invalid-rejected', key, 'ok', ', '.join(sorted(set(names))), '')]
    if not fr.excs():
        return [('invalid-rejected', key, 'violation', 'the script is generated although %s' % (
            'attribute %s of the %s holds %r' % (name, cls, value) if kind == 'attr' else name),
            L.where_of(shell + '.generate_completion'))]
    return [('invalid-rejected', key, 'undecided', messages(L, fr), '')]


def structural(item):
    """Contradictions between the commands of the definition."""
    kind, what, shell, depth, level, ci = item
    t = tree(depth)
    node = nth(t, level)
    if what == 'duplicate option strings':
        node.options[1].attrs['option_strings'] = ['--bb', '-b', '-b']
    elif what == 'two repeatable positionals':
        node.subs = None
        node.positionals = [Tree('Positional', dict(number=i + 1, complete=['none'], repeatable=True), path='p%d' % i) for i in range(2)]
    elif what == 'positionals with the same number':
        node.positionals.append(Tree('Positional', dict(number=1, complete=['none']), path='p2'))
        node.positionals[0].attrs['repeatable'] = True
        node.positionals[1].attrs['number'] = 2
        node.subs = None
    elif what == 'repeatable positional with subcommands':
        node.positionals[0].attrs['repeatable'] = True
        node.subs = node.subs or [Tree('CommandLine', dict(prog='zz'), path='zz')]
    key = '%s %s level %d of %d, settings %d' % (shell, what, level, depth, ci)
    r = outcome(shell, t, CONFIGS[ci])
    if r is None:
        return [('invalid-rejected', key, 'ok', 'rejected when it is built', '')]
    v, fr = r
    if v is None:
        return [('invalid-rejected', key, 'ok', '', '')]
    if not fr.excs():
        return [('invalid-rejected', key, 'violation', 'the script is generated although the definition has: ' + what,
                 L.where_of(shell + '.generate_completion'))]
    return [('invalid-rejected', key, 'undecided', messages(L, fr), '')]


def valid(item):
    kind, shell, depth, ci = item
    key = '%s depth %d, settings %d' % (shell, depth, ci)
    r = outcome(shell, tree(depth), CONFIGS[ci])
    if r and r[0] is not None and not r[1].excs():
        return [('alone-valid', key, 'ok', '', '')]
    return [('alone-valid', key, 'undecided', messages(L, r[1]) if r else 'cannot build', '')]


def definitions_of(bad, where):
    attrs = dict(bad)
    o = dict(option_strings=['-a'])
    if where == 'option':
        return [{'prog': 'p', 'options': [{**o, **attrs}]}]
    if where == 'positional':
        attrs.pop('hidden', None)
        attrs.pop('repeatable', None)
        return [{'prog': 'p', 'options': [o], 'positionals': [{'number': 1, **attrs}]}]
    return [{'prog': 'p'}, {'prog': 'p s'}, {'prog': 'p s t', 'options': [{**o, **attrs}]}]


def python_of(bad, where):
    """Python source of a parser with the same mistake, or None."""
    if 'hidden' in bad:
        return None
    s = 'import argparse\nparser = argparse.ArgumentParser("p")\n'
    target = 'parser'
    if where == 'sub':
        s += 'subs = parser.add_subparsers()\nsub = subs.add_parser("s").add_subparsers().add_parser("t")\n'
        target = 'sub'
    s += 'x = %s.add_argument(%r)\n' % (target, 'pos' if where == 'positional' else '-a')
    if 'when' in bad:
        return s + 'x.when(%r)\n' % bad['when']
    return s + 'x.complete(%s)\n' % ', '.join(map(repr, bad['complete']))


def entry(item):
    kind, shell, fmt, name, where, settings = item
    bad = INVALID[name]
    if fmt == 'python':
        text, f = python_of(bad, where), ['d.py', '--input-type=python']
        files = {'d.py': text}
    else:
        d = definitions_of(bad, where)
        if '--disable' in settings and (set(bad) & {'when'} and 'when' in settings or 'hidden' in settings and 'hidden' in bad):
            return []
        text = scen.as_yaml(d) if fmt == 'yaml' else json.dumps(d)
        f = ['d.' + fmt]
        files = {f[0]: text}
    if text is None or where == 'positional' and not set(bad) - {'hidden', 'repeatable'}:
        return []
    if fmt == 'python' and 'when' in settings and 'when' in bad:
        return []
    r = Run(W, [shell] + f + ['-o', 'out'] + settings, files)
    key = '%s %s %s: %s in %s' % (shell, fmt, ' '.join(settings), name, where)
    if r.broken:
        return [('entry-point-validates', key, 'undecided', r.broken, '')]
    out = [e for e in r.events if e.kind == 'write' and e.path == 'out']
    if not out:
        return [('entry-point-validates', key, 'ok', '', '')]
    if r.exact and not r.excs:
        return [('entry-point-validates', key, 'violation', '`%s` writes a script although the definition is invalid (%s)' % (
            ' '.join([shell] + f + settings), name), out[0].where)]
    return [('entry-point-validates', key, 'undecided', str(r.excs)[:200], '')]


def again(item):
    kind, first, shell, cls, name, value = item
    key = '%s after %s: %s.%s=%r' % (shell, first, cls, name, value)
    L.I.steps = 0
    st = L.state()
    t = tree(2)
    obj = pick(nth(t, 1), cls, 1)
    with L.frame() as fr:
        try:
            root = build(L, st, t)
            L.generate(st, first, root, L.config(st))
        except Bottom:
            return [('validated-again', key, 'undecided', messages(L, fr), '')]
        if fr.excs():
            return [('validated-again', key, 'undecided', messages(L, fr), '')]
    L.I.write_attr(obj.value, name, L.val(st, value), st, L.node())
    with L.frame() as fr:
        try:
            L.generate(st, shell, root, L.config(st))
        except Bottom:
            return [('validated-again', key, 'ok', '', '')]
    if fr.excs():
        return [('validated-again', key, 'undecided', messages(L, fr), '')]
    return [('validated-again', key, 'violation', 'a second script is generated although %s of the %s was changed to %r' % (name, cls, value),
             L.where_of(shell + '.generate_completion'))]


def scalars(item):
    """The validated tree and the loaded documents of a YAML text."""
    _, scalar = item
    out = []
    for form, text in (('value', 'prog: p\nhelp: %s\n'), ('element', 'prog: p\naliases: [%s]\n'), ('key', '? %s\n: x\n')):
        text %= scalar
        key = '%s as %s' % (scalar, form)
        W.reset({'d.yaml': text})
        st = W.state()
        with W.frame() as fr:
            try:
                parser = W.call(st, 'extended_yaml_parser.ExtendedYAMLParser')
                a = W.meth(st, parser, 'parse', W.val(st, text))
                (m,) = W.I.resolve(W.base, 'yaml.safe_load_all')
                b = W.call(st, V(m), W.val(st, text))
            except Bottom:
                x = W.exceptions(fr)
                out.append(('same-values', key, 'ok' if x else 'undecided', 'not readable %s' % x, ''))
                continue
        x, y = untrace(st, a), untrace(st, b)
        if x is None or y is None:
            out.append(('same-values', key, 'undecided', 'value not determined', ''))
        elif repr(x) != repr(y):
            out.append(('same-values', key, 'violation', 'the YAML scalar `%s` is validated as %r but loaded as %r' % (scalar, x, y),
                        W.where_of('extended_yaml_parser.ExtendedYAMLParser', 'handle_event')))
        else:
            out.append(('same-values', key, 'ok', '', ''))
    return out


def untrace(st, v):
    """Nested Python value of an abstract value, with the tracing objects removed."""
    if len(v) != 1:
        return None
    (a,) = v
    if a[0] == 'c':
        return (type(a[2]).__name__, a[2])
    if a[0] == 's':
        return defs.S.encode(a[1])
    if a[0] == 'u':
        return ('other',)
    if a[0] != 'o':
        return None
    o = st.heap[a[1]]
    if o.kind == 'inst' and 'value' in o.data:
        return untrace(st, o.data['value'])
    if o.kind == 'list' and all(m == 1 for _, m in o.data):
        return [untrace(st, e) for e, _ in o.data]
    if o.kind == 'dict' and not o.extra:
        return [(untrace(st, frozenset([k])), untrace(st, e)) for k, (e, _) in o.data.items()]
    return None


def run(item):
    if item[0] == 'entry':
        return entry(item)
    if item[0] == 'again':
        return again(item)
    if item[0] == 'scalar':
        return scalars(item)
    return {'attr': work, 'contra': work, 'struct': structural, 'valid': valid}[item[0]](item)


def main():
    global L, W
    L = Lab(ROOT)
    W = World(ROOT)
    W.script()
    c = Check('C07', 'No completion script is produced from an unvalidated definition', RULES,
              ['the models of Python builtins in sa/ are faithful',
               'definition objects are changed by assigning attributes, as the public classes allow'], floor=200)
    items = []
    n = 0
    for shell in SHELLS:
        for cls, attrs in BAD_ATTR.items():
            for name, values in attrs.items():
                for v in values:
                    for depth, level in ((0, 0), (1, 1), (3, 3)) if c.tier == 'thorough' else ((0, 0), (2, 1 + n % 2)):
                        n += 1
                        items.append(('attr', shell, cls, name, v, level, depth, n % len(CONFIGS), bool(n & 1)))
        for name, (cls, attrs) in CONTRA.items():
            for depth, level in ((0, 0), (1, 1), (2, 2)):
                n += 1
                items.append(('contra', shell, cls, name, None, level, depth, n % len(CONFIGS), False))
        for what in ('two repeatable positionals', 'positionals with the same number',
                     'repeatable positional with subcommands'):
            for depth, level in ((0, 0), (1, 1), (2, 2)):
                n += 1
                items.append(('struct', what, shell, depth, level, n % len(CONFIGS)))
        # every setting with one invalid attribute
        for ci in range(len(CONFIGS)):
            items.append(('attr', shell, 'Option', 'complete', ['nosuch'], 1, 1, ci, False))
            items.append(('attr', shell, 'Option', 'help', 3, 0, 0, ci, False))
            items.append(('attr', shell, 'CommandLine', 'wraps', 3, 0, 1, ci, False))
            items.append(('valid', shell, 2, ci))
    n = 0
    for shell in SHELLS:
        for fmt in ('yaml', 'json', 'python'):
            for name in INVALID:
                for where in ('option', 'positional', 'sub'):
                    n += 1
                    for settings in SETTINGS if c.tier == 'thorough' else [[], SETTINGS[n % len(SETTINGS)]]:
                        items.append(('entry', shell, fmt, name, where, settings))
        for first in SHELLS + ('yaml_source', ):
            if first == 'yaml_source':
                continue
            for cls, attrs in BAD_ATTR.items():
                for name, values in attrs.items():
                    if first == shell or c.tier == 'thorough':
                        items.append(('again', first, shell, cls, name, values[0]))
            items.append(('again', first, shell, 'Option', 'complete', ['nosuch']))
    items += [('scalar', x) for x in SCALARS]
    for item, r, err in pmap(run, items):
        if err:
            c.unknown('invalid-rejected', repr(item), err)
        else:
            c.merge(r)
    c.unit('functions', ['%s.generate_completion' % s for s in SHELLS])
    return c.finish()
