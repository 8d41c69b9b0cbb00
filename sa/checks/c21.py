"""C21: every command line setting takes effect.

The whole program is interpreted abstractly from Application.parse_args to the
written text (argparse is an interpreted stand-in, files are virtual).  The
text written for a command line is compared with the text of
generate_completion for the configuration object with the same setting, with
the text without the setting, and with what the documentation of the setting
promises."""

import itertools

from ..check import Check, pmap, ROOT
from ..gen import *
from ..world import World

RULES = {
    'reaches': 'the text written for a command line setting is the text generated with the same setting of the '
               'configuration object',
    'affects': 'the text differs from the one without the setting (in the shells documented to support it)',
    'defaults': 'the text without any setting, and with the documented default of a setting, is the text of a fresh '
                'configuration object',
    'content': 'the text contains what the setting promises',
}
ALL = SHELLS
# (command line words, [(setter, value)], shells whose script changes, None = is the default)
BOOLS = [
    ('--abbreviate-commands', 'set_abbreviate_commands', False, ALL),
    ('--abbreviate-options', 'set_abbreviate_options', False, ('bash',)),
    ('--repeatable-options', 'set_repeatable_options', False, ALL),
    ('--inherit-options', 'set_inherit_options', False, ALL),
    ('--option-stacking', 'set_option_stacking', True, ('fish', 'zsh')),
    ('--vim-modeline', 'set_vim_modeline', True, ALL),
    ('--zsh-compdef', 'set_zsh_compdef', True, ('zsh',)),
    ('--fish-inline-conditions', 'set_fish_inline_conditions', False, ('fish',)),
]
SETTINGS = []
for o, s, d, sh in BOOLS:
    for v in (True, False):
        SETTINGS.append(((o, str(v) if v else 'false'), [(s, v)], None if v is d else sh))
for v in ('space', 'equals', 'both'):
    SETTINGS.append((('--long-option-argument-separator', v), [('set_long_option_argument_separator', v)],
                     None if v == 'both' else ('bash', 'zsh')))
SETTINGS.append((('--abbreviate-commands=tRUE',), [('set_abbreviate_commands', True)], ALL))
for v, t in (('2', (2,)), ('2.11', (2, 11)), ('2.12', (2, 12)), ('3', (3,))):
    SETTINGS.append((('--bash-completions-version', v), [('set_bash_completions_version', (t,))],
                     None if t < (2, 12) else ('bash',)))
SETTINGS += [
    (('--debug',), [('set_debug', True)], ('zsh',)),
    (('--keep-comments',), [('set_keep_comments', True)], ('fish', 'zsh')),
    (('--max-line-length', '200'), [('set_line_length', 200)], ALL),
    (('--max-line-length', '0'), [('set_line_length', 0)], ALL),
    (('--max-line-length', '80'), [('set_line_length', 80)], None),
    (('--max-line-length', '40'), [('set_line_length', 40)], ALL),
    (('--function-prefix', '_$PROG'), [('set_function_prefix', '_$PROG')], None),
    (('--function-prefix', 'zzz'), [('set_function_prefix', 'zzz')], ALL),
    (('--function-prefix', 'a_$PROG'), [('set_function_prefix', 'a_$PROG')], ALL),
    (('--comment', 'first comment'), [('add_comments', (['first comment'],))], ALL),
    (('--comment', 'first comment', '--comment', 'second'), [('add_comments', (['first comment', 'second'],))], ALL),
    (('--include-file', 'inc1'), [('include_many_files', (['inc1'],))], ALL),
    (('--include-file', 'inc1', '--include-file', 'inc2'), [('include_many_files', (['inc1', 'inc2'],))], ALL),
]
FEATURES = ('hidden', 'final', 'groups', 'repeatable', 'when')
DISABLES = [(f,) for f in FEATURES] + [('when', 'hidden'), FEATURES]
for fs in DISABLES:
    SETTINGS.append((('--disable', ','.join(fs)), [('disable_' + f, True) for f in fs], ALL))

FILES = {'inc1': 'INCLUDED_ONE=1\n', 'inc2': '# included two\nINCLUDED_TWO=2'}
L = None


def definition():
    t = rich(1)
    O = lambda t, s, **a: t.options.append(Tree('Option', dict(option_strings=s, **a), path='%s.x%d' % (t.path, len(t.options))))
    # long lists exercise the line length
    O(t, ['--long-list'], complete=['choices', ['choice-number-%d' % i for i in range(20)]])
    O(t, ['--mime'], complete=['mime_file', 'image/+'])
    O(t, ['--hist'], complete=['history', 'x'])
    O(t, ['--required'], complete=['choices', ['a', 'b']])
    t.positionals = [p for p in t.positionals if p.attrs['number'] == 1]
    b = simple(options=[(['--dlist', '-d'], dict(complete=['directory_list'], repeatable=True)),
                        (['--quick'], dict(final=True))], positionals=[(1, dict(complete=['file']))],
               prog='build', aliases=['b2'])
    i = simple(options=[(['--quick', '-q'], dict(when='has_option --quick')), (['--xhidden'], dict(hidden=True)),
                        (['--g1'], dict(groups=['g'])), (['--g2'], dict(groups=['g']))], prog='install')
    for n, sub in enumerate((b, i)):
        for k, o in enumerate(sub.options):
            o.path = 's%d.o%d' % (n, k)
    t.subs = [b, i]
    return t


def files():
    return dict(FILES, **{'d.json': L.json_text(definition())})


def cli_text(shell, argv, src='d.json'):
    L.reset(files())
    st = L.state()
    with L.frame() as fr:
        try:
            L.run_app(st, [shell, src] + list(argv))
        except Bottom:
            return None, messages(L, fr)
    out = L.outputs()
    if len(out) != 1 or out[0][1] is None or fr.excs():
        return None, 'not exact: %r %s' % ([o[0] for o in out], messages(L, fr))
    return out[0][1], ''


_cfg = {}


def cfg_text(shell, setters):
    key = (shell, repr(setters))
    if key in _cfg:
        return _cfg[key]
    L.reset(files())
    st = L.state()
    with L.frame() as fr:
        try:
            root = L.call(st, 'json_source.load_from_file', const('d.json'))
            cfg = L.call(st, 'config.Config')
            for s, v in setters:
                L.meth(st, cfg, s, *[L.val(st, x) for x in (v if isinstance(v, tuple) else (v,))])
            v = L.generate(st, shell, root, cfg)
        except Bottom:
            _cfg[key] = None, messages(L, fr)
            return _cfg[key]
    t = None if fr.excs() else L.text_of(v)
    _cfg[key] = t, '' if t is not None else 'not exact'
    return _cfg[key]


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '%r / %r' % (a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60])


FT = {'bash': 'sh', 'fish': 'fish', 'zsh': 'zsh'}


def content(argv, shell, t, base):
    """(claim, does it hold) for the command line of one setting."""
    o, v = argv[0], argv[-1]
    if o == '--comment':
        cs = argv[1::2]
        yield 'comment lines', all('\n# %s\n' % c in t for c in cs)
    elif o == '--include-file':
        for f in argv[1::2]:
            yield 'content of %s' % f, FILES[f].strip() in t
    elif o == '--vim-modeline':
        yield 'modeline', ('vim: ft=%s' % FT[shell] in t) == (v.lower() == 'true')
    elif o == '--zsh-compdef' and shell == 'zsh':
        yield '#compdef', t.startswith('#compdef prog') == (v.lower() == 'true')
    elif o == '--function-prefix':
        p = v.replace('$PROG', 'prog')
        yield 'functions with the prefix', p + '__' in t and '$PROG' not in t
        if v != '_$PROG':
            yield 'no function with the default prefix', '_prog__' not in t.replace(p + '__', '')
    elif o == '--keep-comments' and shell != 'bash':
        yield 'more comments', t.count('# ') > base.count('# ')
    elif o == '--max-line-length' and v == '0':
        yield 'not more lines', t.count('\n') <= base.count('\n')
    elif o == '--max-line-length' and v == '40':
        yield 'not fewer lines', t.count('\n') >= base.count('\n')


def run(item):
    kind, shell, argv, setters, affects = item
    out = []
    name = ' '.join(argv)
    key = '%s %s' % (shell, name)
    where = L.where_of('application._get_config_from_options')
    t, err = cli_text(shell, argv)
    e, err2 = cfg_text(shell, setters)
    base, err3 = cfg_text(shell, [])
    if t is None or e is None or base is None:
        if t is None and e is not None and not err.startswith('not exact'):
            return [('reaches', key, 'violation', 'the setting of the configuration object is accepted, the command '
                     'line is not: ' + err, where)]
        return [('reaches', key, 'undecided', err or err2 or err3, '')]
    if t == e:
        out.append(('reaches', key, 'ok', '%d characters' % len(t), ''))
    else:
        out.append(('reaches', key, 'violation', 'the script written for `%s` differs from the one for Config.%s: %s' % (
            name, ', '.join('%s(%s)' % (s, v) for s, v in setters), diff(t, e)), where))
    if affects is None:
        if t == base:
            out.append(('defaults', key, 'ok', '', ''))
        else:
            out.append(('defaults', key, 'violation', '`%s` is the documented default, but changes the script: %s' % (
                name or 'no setting', diff(t, base)), where))
    elif shell in affects:
        if t != base:
            out.append(('affects', key, 'ok', '', ''))
        else:
            out.append(('affects', key, 'violation', '`%s` does not change the script' % name, where))
    for claim, ok in content(argv, shell, t, base) if kind == 'one' else ():
        if ok:
            out.append(('content', '%s: %s' % (key, claim), 'ok', '', ''))
        else:
            out.append(('content', '%s: %s' % (key, claim), 'violation', 'with `%s` the script lacks: %s' % (name, claim),
                        where))
    return out


def main():
    global L
    L = World(ROOT)
    c = Check('C21', 'Every command line setting takes effect', RULES,
              ['the models of Python builtins in sa/ are faithful', 'the argparse stand-in in sa/stubs follows argparse'],
              floor=100)
    items = []
    for sh in SHELLS:
        items.append(('none', sh, (), [], None))
        for argv, setters, aff in SETTINGS:
            items.append(('one', sh, argv, setters, aff))
        items.append(('many', sh, ('--comment=first comment',), [('add_comments', (['first comment'],))], ALL))
        # all settings together, in both orders, and neighbours
        pick = {}
        for s in SETTINGS:
            if s[2] is not None and s[0][0].startswith('--') and '=' not in s[0][0]:
                pick[s[0][0]] = s
        allv = list(pick.values())
        for vs in (allv, allv[::-1]):
            items.append(('many', sh, sum((s[0] for s in vs), ()), sum((s[1] for s in vs), []), ALL))
        if c.tier == 'thorough':
            for i in range(len(allv)):
                for k in range(1, len(allv)):
                    a, b = allv[i], allv[(i + k) % len(allv)]
                    if a[0][0] != b[0][0]:
                        items.append(('many', sh, a[0] + b[0], a[1] + b[1], ALL if sh in set(a[2]) | set(b[2]) else ()))
    for item, r, err in pmap(run, items):
        if err:
            c.unknown('reaches', repr(item[1:3]), err)
        else:
            c.merge(r)
    c.unit('command line settings', sorted({' '.join(s[0]) for s in SETTINGS}))
    c.unit('functions', ['application.Application.parse_args', 'application.Application.run'])
    return c.finish()
