"""C09: every attribute of a command, option or positional takes effect.

The generators are interpreted abstractly on pairs of definitions that differ
in one attribute of one command, option or positional, at the root and in
subcommands; the generated texts must differ."""

from ..check import Check, pmap, ROOT
from ..gen import *
from .. import defs
from ..defs import KINDS

RULES = {
    'attribute-takes-effect': 'definitions differing in exactly one attribute give different scripts',
    'text-reaches-script': 'a text attribute (name, alias, help, metavar, choice, capture variable) occurs in the script',
}

x, y, z = W1('x'), W1('y'), W1('z')
h1, h2 = cat(x, ' ', z), cat(y, ' ', z)

# shells a documented limitation or the nature of the shell excludes:
# bash shows neither descriptions nor metavars; abbreviated options exist in
# bash only; fish has no control of the argument separator
EXCLUDED = {
    ('CommandLine', 'help'): {'bash'}, ('Option', 'help'): {'bash'}, ('Option', 'metavar'): {'bash', 'fish'},
    ('Positional', 'help'): {'bash'}, ('Positional', 'metavar'): {'bash', 'fish'},
    ('CommandLine', 'abbreviate_options'): {'fish', 'zsh'}, ('Option', 'long_opt_arg_sep'): {'fish'},
}

ARG = dict(complete=['choices', ['v1', 'v2']])
NOARG = {}


def option_cases():
    """(attribute, value 1, value 2, other attributes, name of the case)"""
    out = []

    def add(attr, v1, v2, *others, **kw):
        for o in others or (ARG, NOARG):
            out.append((attr, v1, v2, o))
    add('option_strings', ['--long'], ['--other'])
    add('option_strings', ['-s'], ['-t'])
    add('option_strings', ['--long', '-s'], ['--long'])
    add('option_strings', ['--long', '-s'], ['-s'])
    add('option_strings', ['--long', '--name'], ['--long'])
    add('option_strings', ['--long', '--name'], ['--long', '--nami'])
    add('option_strings', ['-old'], ['-olt'])
    add('option_strings', ['--long', '-s', '-old'], ['--long', '-s'])
    add('option_strings', ['-s', '-t'], ['-s', '-u'])
    for o in (ARG, NOARG, dict(complete=['file']), dict(complete=['none'])):
        add('help', h1, h2, o)
        add('help', h1, None, o)
    for o in (ARG, dict(complete=['file']), dict(complete=['none'])):
        add('metavar', x, y, o)
        add('metavar', x, y, dict(o, help=h1))
    add('complete', ['choices', [x]], ['choices', [y]], NOARG, dict(optional_arg=True), dict(repeatable=True))
    add('complete', ['none'], None, NOARG)
    add('complete', ['file'], ['directory'], NOARG, dict(optional_arg=True))
    add('nosort', True, False, ARG, dict(complete=['exec', 'cmd']), dict(ARG, optional_arg=True))
    add('groups', ['g'], [])
    add('groups', ['g'], None)
    add('groups', ['g', 'h'], ['h'])
    add('groups', ['g', 'h'], ['g'])
    add('optional_arg', True, False, ARG, dict(complete=['none']), dict(complete=['file'], repeatable=True))
    add('repeatable', True, False)
    add('repeatable', True, 'INHERIT')
    add('final', True, False)
    add('hidden', True, False)
    add('when', 'option_is --arg1 -- v', None)
    add('when', 'option_is --arg1 -- v', 'option_is --arg1 -- w')
    add('capture', 'CAPA', None, ARG, dict(complete=['exec', 'cmd'], optional_arg=True))
    add('capture', 'CAPA', 'CAPB', ARG, dict(complete=['none'], repeatable=True))
    for a, b in (('space', 'equals'), ('space', 'both'), ('equals', 'both')):
        add('long_opt_arg_sep', a, b, ARG, dict(complete=['file'], repeatable=True), dict(complete=['none'], help=h1))
    # two attributes together
    add('hidden', True, False, dict(ARG, final=True), dict(groups=['g']))
    add('final', True, False, dict(ARG, hidden=True), dict(groups=['g'], repeatable=True))
    add('groups', ['g'], [], dict(final=True), dict(ARG, hidden=True), dict(repeatable=True))
    add('repeatable', True, False, dict(ARG, groups=['g']), dict(help=h1, when='has_option --flag'))
    add('when', 'has_option --flag', None, dict(ARG, hidden=True, groups=['g']), dict(ARG, optional_arg=True, final=True))
    add('capture', 'CAPA', None, dict(ARG, hidden=True, final=True, groups=['g']))
    return out


def positional_cases():
    out = []

    def add(attr, v1, v2, *others):
        for o in others or (ARG, dict(complete=['file'])):
            out.append((attr, v1, v2, o))
    add('help', h1, h2, ARG, dict(complete=['file']), dict(complete=['exec', 'cmd']))
    add('metavar', x, y, ARG, dict(complete=['file']))
    add('metavar', x, y, dict(ARG, repeatable=True))
    add('complete', ['choices', [x]], ['choices', [y]], NOARG, dict(repeatable=True), dict(when='has_option --flag'))
    add('complete', ['none'], ['file'], NOARG)
    add('nosort', True, False, ARG, dict(complete=['exec', 'cmd']), dict(ARG, repeatable=True))
    add('repeatable', True, False, ARG, dict(complete=['file']), dict(ARG, when='has_option --flag', capture='CAPA'))
    add('when', 'option_is --arg1 -- v', None, ARG, dict(ARG, repeatable=True), dict(complete=['file']))
    add('when', 'option_is --arg1 -- v', 'option_is --arg1 -- w', ARG, dict(ARG, repeatable=True))
    add('capture', 'CAPA', None, ARG, dict(ARG, repeatable=True))
    add('capture', 'CAPA', 'CAPB', ARG, dict(complete=['exec', 'cmd'], repeatable=True))
    add('number', 2, 1, ARG)
    return out


def command_cases():
    out = []
    add = lambda *a: out.append(a)
    add('prog', 'foo', 'bar', {})
    add('help', h1, h2, {})
    add('help', h1, None, {})
    add('aliases', ['ali'], [], {})
    add('aliases', ['ali'], ['alj'], {})
    add('aliases', ['ali', 'alj'], ['ali'], {})
    add('wraps', 'wra', None, {})
    add('wraps', 'wra', 'wrb', {})
    for a in ('abbreviate_commands', 'abbreviate_options', 'inherit_options'):
        add(a, True, False, {})
        add(a, True, 'INHERIT', {})
    return out


def base(prog):
    return simple(options=[(['--arg1', '-a'], dict(complete=['none'])), (['--flag', '-f'], {}),
                           (['--group', '-g'], dict(groups=['g'])), (['--hroup'], dict(groups=['h']))], prog=prog)


def definition(cls, attr, value, others, ctx):
    """ctx: 'root', 'root+sub' (root of a definition with subcommands), 'sub', 'subsub'."""
    levels = {'root': 1, 'root+sub': 2, 'sub': 2, 'subsub': 3, 'all': 3}[ctx]
    progs = ['prog', 'sub', 'subsub']
    cmds = [base(p) for p in progs[:levels]]
    for i, c in enumerate(cmds):
        c.options.append(Tree('Option', dict(option_strings=['--only-%s' % progs[i]])))
    for i, c in enumerate(cmds[:-1]):
        sibling = simple(prog='other%d' % i)
        c.subs = [cmds[i + 1], sibling]
    cmd = cmds[0] if ctx.startswith('root') else cmds[-1]
    if ctx == 'all':
        for c in cmds:
            c.attrs[attr] = value
    elif cls == 'CommandLine':
        cmd.attrs.update(others)
        cmd.attrs[attr] = value
    elif cls == 'Option':
        a = dict(option_strings=['--long', '-s'])
        a.update(others)
        a[attr] = value
        cmd.options.append(Tree('Option', a))
    else:
        a = dict(number=1)
        a.update(others)
        a[attr] = value
        if attr == 'number':
            cmd.positionals.append(Tree('Positional', dict(number=3 - value, complete=['choices', ['first']])))
        cmd.positionals.append(Tree('Positional', a))
        if cmd.subs is not None:
            # a positional in front of the subcommand
            pass
    return cmds[0]


L = None
cache = {}
FILES = {s: 'crazy_complete/%s.py' % s for s in SHELLS}


def gen(shell, cls, attr, value, others, ctx):
    key = (shell, cls, attr, repr_(value), repr_(others), ctx)
    if key not in cache:
        L.I.steps = 0
        try:
            g = generate(L, shell, definition(cls, attr, value, others, ctx))
            cache[key] = (g.text, g.value is None, g.error)
        except (AnalysisBroken, RecursionError) as e:
            cache[key] = (None, False, str(e))
    return cache[key]


def repr_(v):
    if isinstance(v, S.S):
        return S.show(v)
    if isinstance(v, (list, tuple)):
        return '[%s]' % ', '.join(map(repr_, v))
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (repr_(k), repr_(q)) for k, q in v.items())
    return repr(v)


def applicable(cls, attr, ctx, shell):
    if shell in EXCLUDED.get((cls, attr), ()):
        return False
    if ctx == 'all' and attr != 'inherit_options':
        return False
    if cls == 'CommandLine':
        if attr == 'wraps':
            return ctx.startswith('root')
        if attr == 'help':
            # the description of a subcommand; that of the program itself is not part of a completion
            return ctx.startswith('sub')
        if attr == 'abbreviate_commands':
            return ctx.startswith('sub')
        if attr == 'inherit_options':
            # whether the options are visible to subcommands
            return ctx in ('root+sub', 'all')
    if cls == 'Positional' and ctx == 'root+sub' and attr in ('repeatable', 'number'):
        return False
    return True


def run(item):
    cls, case, shell, ctx = item
    attr, v1, v2, others = case
    finite = all(isinstance(v, (bool, str, type(None))) for v in (v1, v2)) and attr not in ('when', 'capture', 'help')
    key = '%s.%s%s in %s' % (cls, attr, (' %s/%s' % (v1, v2) if finite else '') + (
        ' set everywhere' if ctx == 'all' else ''), shell)
    t1, f1, e1 = gen(shell, cls, attr, v1, others, ctx)
    t2, f2, e2 = gen(shell, cls, attr, v2, others, ctx)
    text = '%s, %s = %s / %s with %s' % (ctx, attr, repr_(v1), repr_(v2), repr_(others))
    if f1 or f2:
        # a rejected combination is not an accepted definition
        return [('attribute-takes-effect', key + ' (%s)' % text, 'undecided', e1 or e2, '')]
    if t1 is None or t2 is None:
        return [('attribute-takes-effect', key + ' (%s)' % text, 'undecided', e1 or e2, '')]
    if t1 == t2:
        return [('attribute-takes-effect', key, 'violation', 'same script: ' + text, FILES[shell])]
    out = [('attribute-takes-effect', key, 'ok', '', '')]
    for v, t in ((v1, t1), (v2, t2)):
        for s in strings(cls, attr, v):
            out.append(('text-reaches-script', key, 'ok' if s in t else 'violation',
                        '%r is missing in the script: %s' % (s, text), FILES[shell]))
    return out


def strings(cls, attr, v):
    if attr in ('option_strings', 'aliases'):
        return [s.lstrip('-') for s in v]
    if attr in ('prog', 'wraps', 'capture') and isinstance(v, str):
        return [v]
    if attr in ('help', 'metavar') and isinstance(v, S.S):
        return [S.encode(v)]
    if attr == 'complete' and v and v[0] == 'choices':
        return [S.encode(v[1][0])]
    return []


def main():
    global L
    ck = Check('C09', 'Every definition attribute takes effect in every shell', RULES, floor=80, assumptions=[
        'bash shows no descriptions and no metavars; fish shows no metavars; abbreviated options exist '
        'in bash only; fish has no control of the argument separator; the description of the program itself is not shown',
        'names are literal examples, texts are unknown letters'])
    L = Lab(ROOT)
    L.I.max_steps = 20_000_000
    cases = {'Option': option_cases(), 'Positional': positional_cases(), 'CommandLine': command_cases()}
    for cls, attrs in KINDS.items():
        for a in attrs:
            if not any(c[0] == a for c in cases[cls]):
                ck.unknown('attribute-takes-effect', '%s.%s' % (cls, a), 'no case')
    items = []
    for cls, cs in cases.items():
        for i, case in enumerate(cs):
            first = next(j for j, c in enumerate(cs) if c[0] == case[0])
            for ctx in ('root', 'root+sub', 'sub', 'subsub', 'all'):
                if ck.tier == 'quick' and ctx in ('root+sub', 'subsub') and cls != 'CommandLine' and i != first:
                    continue
                for shell in SHELLS:
                    if applicable(cls, case[0], ctx, shell):
                        items.append((cls, case, shell, ctx))
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('attribute-takes-effect', '%s.%s in %s (%s)' % (item[0], item[1][0], item[2], item[3]), err)
        else:
            ck.merge(res)
    ck.unit('attributes', ['%s.%s' % (c, a) for c in cases for a in {q[0] for q in cases[c]}])
    ck.unit('pairs of definitions', [repr_(i) for i in items])
    return ck.finish()
