"""A corpus of definitions and the scripts the abstract interpreter derives
for them from the source of the generators."""

import copy

from .gen import *
from .catalog import CATALOG
from . import strings as S

PREFIX = 'zqpfx'          # function prefix of the corpus: recognisable in the scripts

WHEN = [
    'has_option --foo', 'has_option --foo --bar', 'option_is --foo -- v', 'option_is nocase --foo -- v w',
    'option_is any --foo -- v', 'option_is nocase any --foo --bar -- v', "option_match --foo -- 'v.*'",
    "option_match nocase --foo -- 'v.*'", "option_match any --foo -- 'v.*'", "option_match any nocase --foo -- 'v.*'",
    'positional_count == 1', "positional_count '>=' 2", "positional_count '!=' 0", 'positional_contains 1 v w',
    'positional_contains -i 1 v', '! has_option --foo && option_is --foo -- x || positional_count == 3',
    "option_match nocase --foo -- x && option_is any --bar -- y",
]

CONFIGS = {
    'debug': dict(set_debug=True), 'comments': dict(set_keep_comments=True), 'bc212': dict(set_bash_completions_version=((2, 12),)),
    'inline': dict(set_fish_inline_conditions=True), 'abbrev': dict(set_abbreviate_commands=True, set_abbreviate_options=True),
    'inherit': dict(set_inherit_options=True), 'nostack': dict(set_option_stacking=False), 'repeatable': dict(set_repeatable_options=True),
    'nocompdef': dict(set_zsh_compdef=False), 'equals': dict(set_long_option_argument_separator='equals'),
    'both': dict(set_long_option_argument_separator='both'), 'nomodeline': dict(set_vim_modeline=False),
    'short lines': dict(set_line_length=40), 'debug+comments': dict(set_debug=True, set_keep_comments=True),
}

O = lambda *s, **a: (list(s), a)
NONE = dict(complete=['none'])


def shapes():
    """Definitions covering option kinds, positionals, subcommands and attributes."""
    out = {}
    opts = {
        'flag long': [O('--flag')], 'flag short': [O('-f')], 'flag old': [O('-flag')], 'flag all': [O('-f', '--flag', '-flag')],
        'arg long': [O('--arg', **NONE)], 'arg short': [O('-v', **NONE)], 'arg old': [O('-arg', **NONE)],
        'opt long': [O('--opt', optional_arg=True, **NONE)], 'opt short': [O('-o', optional_arg=True, **NONE)],
        'opt old': [O('-opt', optional_arg=True, **NONE)],
        'opt+arg': [O('--opt', '-o', optional_arg=True, complete=['user']), O('--arg', '-v', complete=['file'])],
        'opt only': [O('--opt', '-o', optional_arg=True, complete=['user'])],
        'mixed': [O('--flag', '-f'), O('--arg', '-v', '-arg', complete=['user']), O('-old', complete=['pid']),
                  O('--opt', '-o', '-opt', optional_arg=True, complete=['choices', ['x', 'y']])],
        'groups': [O('--one', groups=['g']), O('--two', groups=['g'], repeatable=True), O('--three', groups=['g', 'h'], **NONE)],
        'final': [O('--help', '-h', final=True), O('--arg', **NONE)],
        'hidden': [O('--hid', '-h', hidden=True), O('--hid2', hidden=True, complete=['file'])],
        'nosort': [O('--arg', nosort=True, complete=['choices', ['b', 'c']]), O('-x', nosort=True, complete=['exec', 'cmd'])],
        'capture': [O('--arg', '-v', capture='CAPTURED', complete=['user'])],
        'capture repeat': [O('--arg', capture='CAPTURED', repeatable=True, **NONE), O('--user', complete=['exec', 'echo $CAPTURED'])],
        'help': [O('--arg', '-v', help=cat(W1('hh'), ' ', W1('hi')), metavar=W1('mm'), complete=['file'])],
        'sep': [O('--eq', long_opt_arg_sep='equals', **NONE), O('--bo', long_opt_arg_sep='both', complete=['user']),
                O('--sp', long_opt_arg_sep='space', complete=['user'])],
    }
    pos = {'no positionals': [], 'positionals': [(1, dict(complete=['file'])), (2, dict(complete=['choices', ['p', 'q']], repeatable=True,
                                                                                            help=W1('ph'), metavar=W1('pm'), nosort=True))]}
    for n, o in opts.items():
        for m, p in pos.items():
            out['%s, %s' % (n, m)] = lambda o=o, p=p: simple(options=o, positionals=p)

    def with_sub(o, so, p=(), root=None, sub=None, sp=()):
        t = simple(options=o, positionals=p, **(root or {}))
        t.subs = [simple(options=so, positionals=sp, prog='sub', **(sub or {})), simple(prog='tub')]
        return t
    for n in ('flag all', 'arg long', 'opt only', 'mixed', 'capture', 'final', 'hidden', 'sep', 'nosort'):
        out['sub: ' + n] = lambda o=opts[n]: with_sub([], o)
        out['root of sub: ' + n] = lambda o=opts[n]: with_sub(o, [])
        out['both: ' + n] = lambda o=opts[n]: with_sub(o, [O('--inner', complete=['user']), O('-i')])
        out['both, inherited: ' + n] = lambda o=opts[n]: with_sub(o, [O('--inner', complete=['user']), O('-i')], root=dict(inherit_options=True))
    out['sub with aliases'] = lambda: with_sub([], [], sub=dict(aliases=['sa', 'sb']))
    out['sub with positionals'] = lambda: with_sub([O('--arg', **NONE)], [O('--arg', **NONE)], sp=[(1, dict(complete=['user'])), (2, dict(complete=['file'], repeatable=True))])
    out['sub after positional'] = lambda: with_sub([], [O('--inner')], p=[(1, dict(complete=['user']))])
    out['wraps'] = lambda: simple(options=opts['mixed'], wraps='wrapped')
    out['wraps flag'] = lambda: simple(options=opts['flag all'], wraps='wrapped')
    out['wraps opt'] = lambda: simple(options=opts['opt short'], wraps='wrapped')
    out['wraps nothing'] = lambda: simple(wraps='wrapped')
    out['empty'] = lambda: simple()
    out['aliases'] = lambda: simple(options=opts['mixed'], aliases=['al', 'bl'])
    out['abbrev options'] = lambda: simple(options=opts['mixed'], abbreviate_options=True)
    out['no inherit'] = lambda: with_sub(opts['mixed'], opts['mixed'], root=dict(inherit_options=False, abbreviate_commands=True))
    out['rich'] = lambda: rich()
    out['command_arg'] = lambda: simple(positionals=[(1, dict(complete=['command'])), (2, dict(complete=['command_arg'], repeatable=True))])
    return out


def conditions():
    out = {}

    def d(when, ctx):
        b = lambda prog: simple(options=[O('--foo', '-f', **NONE), O('--bar', '-bar', **NONE)],
                                positionals=[(1, dict(NONE)), (2, dict(NONE))], prog=prog)
        t = cmd = b('prog')
        if ctx == 'sub':
            t.positionals = []
            cmd = b('sub')
            t.subs = [cmd]
        if ctx == 'positional':
            cmd.positionals[-1].attrs.update(complete=['choices', ['z']], when=when)
        else:
            cmd.options.append(Tree('Option', dict(option_strings=['--with-when'], complete=['choices', ['y']], when=when), path='w'))
        return t
    for i, w in enumerate(WHEN):
        for ctx in ('option', 'positional', 'sub'):
            out['when %r on %s' % (w, ctx)] = lambda w=w, ctx=ctx: d(w, ctx)
    return out


def completers(tier):
    from .checks.c08 import place, variants, repr_inv
    out = {}
    for name, c in CATALOG.items():
        ctxs = ['option', 'repeatable'] if c.positional else ['option', 'positional', 'repeatable', 'sub', 'list', 'combine', 'prefix', 'kv']
        for ctx in ctxs:
            out['%s in %s' % (name, ctx)] = lambda c=c, ctx=ctx: place(c.invoke(), ctx, c.positional)
        invs = {repr_inv(c.full()): c.full()}
        for a, b, alts in variants(c, None, short=tier == 'quick'):
            for v in [b] + alts:
                invs.setdefault(repr_inv(v), v)
        for k, v in invs.items():
            out[k] = lambda v=v, c=c: place(v, 'option', c.positional)
        if tier == 'thorough' and not c.positional:
            for ctx in ctxs[1:]:
                for k, v in invs.items():
                    out['%s in %s' % (k, ctx)] = lambda v=v, ctx=ctx: place(v, ctx)
    return out


def corpus(tier='quick', minimal=True):
    """{key: (Tree factory, config)}"""
    out = {}
    s = shapes()
    for part in (s, conditions(), completers(tier) if minimal else {}):
        for k, f in part.items():
            out[k] = (f, {})
    for cn, cfg in CONFIGS.items():
        for k in (s if tier == 'thorough' else ('mixed, positionals', 'both: mixed', 'rich', 'wraps', 'both, inherited: mixed', 'sub: mixed', 'command_arg')):
            out['%s with %s' % (k, cn)] = (s[k], cfg)
    for cn in ('bc212', 'debug', 'debug+comments'):
        for name, c in CATALOG.items():
            out['%s with %s' % (name, cn)] = (lambda c=c: with_completer(c, c.full()), CONFIGS[cn])
        for i, w in enumerate(WHEN):
            out['when %r with %s' % (w, cn)] = (conditions()['when %r on option' % w], CONFIGS[cn])
    return out


class Script:
    def __init__(self, text, error, used=None, failed=False, why=''):
        self.text, self.error, self.used, self.failed, self.why = text, error, used, failed, why


def plain(text):
    """Letters of unknown words as ordinary identifiers."""
    if not S.has_letter(text):
        return text
    return S._letters.sub(lambda m: 'Qw%dQ' % (ord(m.group()) - S._FIRST), text)


def registry_of(L, st):
    """({function: (code, dependencies)}, {used function: set of switches}, global switches)
    of the helper repository in the heap, or None."""
    for o in st.heap.values():
        cls = getattr(o, 'cls', None)
        if cls is not None and getattr(cls, 'name', '').endswith('Helpers') and 'used_functions' in o.data:
            return helper_data(L, st, o)
    return None


def one(v):
    if v is None or len(v) != 1:
        return None
    (a,) = v
    return a


def text(v):
    a = one(v)
    return S.encode(a[1]) if a and a[0] == 's' else None


def items_of(st, v):
    """Keys and values of an abstract dictionary, elements of a list or set."""
    a = one(v)
    if a is None:
        return None
    if a[0] == 'tup':
        return [(None, x) for x in a[1]]
    if a[0] != 'o':
        return None
    return st.heap[a[1]]


def emit(L, shell, tree, config=None, prefix=PREFIX):
    L.I.steps = 0
    cfg = dict(config or {})
    if prefix:
        cfg.setdefault('set_function_prefix', prefix)
    try:
        g = generate(L, shell, tree, cfg)
    except (AnalysisBroken, RecursionError) as e:
        return Script(None, str(e))
    if g.value is None:
        return Script(None, g.error, failed=True)
    t = g.text
    return Script(None if t is None else plain(t), g.error, used=g.st)
