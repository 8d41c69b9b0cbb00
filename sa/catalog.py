"""The completers of the documentation (docs/commands.yaml) with the types of
their arguments and options, symbolic example invocations and alternative
values.  Frozen from the documentation; completers found in the validator that
are missing here are reported as undecided by the checks that need them."""

from .defs import W1, cat

W = W1

STR, INT, FLOAT, BOOL, LIST, DICT, NONE = 'str', 'int', 'float', 'bool', 'list', 'dict', 'none'


class Arg:
    """name; accepted types; base value; alternative values (all pairwise
    distinguishable in the generated script); shells where it has an effect."""

    def __init__(self, name, types, base, alts=(), optional=False, element=None, only=None, excl=(), needs=None):
        self.name, self.types, self.base, self.alts = name, types, base, list(alts)
        self.optional, self.element, self.only, self.excl = optional, element, only, excl
        self.needs = needs or {}

    def alternatives(self, shell=None):
        return [a.value if isinstance(a, OnlyIn) else a for a in self.alts
                if not isinstance(a, OnlyIn) or shell is None or shell in a.shells]

    def first_alt(self):
        return self.alternatives()[0]


class OnlyIn:
    """An alternative value that matters only in some shells (descriptions are
    not shown by bash)."""

    def __init__(self, shells, value):
        self.shells, self.value = shells, value


class Completer:
    def __init__(self, name, args=(), opts=None, only=None, positional=False, opts_name='options',
                 opts_required=False, option_only=False):
        self.name, self.args, self.opts, self.only = name, list(args), opts, only
        self.positional = positional
        self.opts_required = opts_required

    def invoke(self, over=None, opts=None, omit=()):
        """[name, args..., {options}] with some arguments replaced."""
        over = over or {}
        r = [self.name]
        for a in self.args:
            if a.name in over:
                r.append(over[a.name])
            elif a.name in omit or a.optional:
                break
            else:
                r.append(a.base)
        if self.opts is not None:
            d = dict(opts or {})
            for a in self.opts:
                if not a.optional and a.name not in d and a.name not in omit:
                    d[a.name] = a.base
            if d or opts is not None:
                r.append(d)
        return r

    def full(self):
        """Invocation with every compatible option."""
        over = {a.name: (a.first_alt() if a.optional and a.alts else a.base) for a in self.args}
        d = {}
        if self.opts is not None:
            for a in self.opts:
                if not any(x in d for x in a.excl):
                    d[a.name] = a.base
        return self.invoke(over, d if self.opts is not None else None)


w = W('arg')
w2 = W('arg2')
w3 = W('arg3')
INNER = ['choices', [W('inner')]]
INNER2 = ['choices', [W('inner2')]]

FILE_OPTS = lambda: [
    Arg('directory', (STR,), cat('/', w), [cat('/', w2), cat(W('reldir'), '/x')], optional=True),
    Arg('extensions', (LIST,), ['png'], [['jpg'], ['png', 'jpg'], ['c'], ['tar.gz']], optional=True, element=(STR,)),
    Arg('fuzzy', (BOOL,), True, [False], optional=True, needs={'extensions': ['png']}),
    Arg('ignore_globs', (LIST,), ['*.png'], [['*.jpg'], ['*.png', '*.jpg'], ['a?']], optional=True,
        element=(STR,))]
DIR_OPTS = lambda: [Arg('directory', (STR,), cat('/', w), [cat('/', w2), cat(W('reldir'), '/x')], optional=True)]
LIST_OPTS = lambda: [
    Arg('separator', (STR,), W1('sep'), [W1('sep2'), ':', '/'], optional=True),
    Arg('duplicates', (BOOL,), True, [False], optional=True)]
NUM_OPTS = lambda types, shells: [
    Arg('min', types, 1, [2], optional=True, only=shells), Arg('max', types, 90, [91], optional=True, only=shells),
    Arg('suffixes', (DICT,), {w: w2}, [{w3: w2}, {w: w3}], optional=True, element=(STR,)),
    Arg('help', (STR,), w, [w2], optional=True, only=shells)]

_ALL = [
    Completer('choices', [Arg('values', (LIST, DICT), [w, w2],
                              [[w3, w2], [w], {w: w2, w3: W('d')}, OnlyIn(('fish', 'zsh'), {w: W('d'), w3: w2}), [1, 2]])]),
    Completer('combine', [Arg('commands', (LIST,), [INNER, ['user']],
                              [[INNER2, ['user']], [INNER, ['pid']], [INNER, ['user'], ['pid']]])]),
    Completer('list', [Arg('command', (LIST,), INNER, [INNER2, ['user']])], LIST_OPTS()),
    Completer('prefix', [Arg('prefix', (STR,), w, [w2]), Arg('command', (LIST,), INNER, [INNER2, ['user']])]),
    Completer('command', opts=[
        Arg('path', (STR,), w, [w2], optional=True, excl=('path_append', 'path_prepend')),
        Arg('path_append', (STR,), w, [w2], optional=True, excl=('path',)),
        Arg('path_prepend', (STR,), w, [w2], optional=True, excl=('path',))]),
    Completer('command_arg', positional=True),
    Completer('date', [Arg('format', (STR,), w, [w2])], only=('zsh',)),
    Completer('date_format', only=('fish', 'zsh')),
    Completer('directory', opts=DIR_OPTS()),
    Completer('directory_list', opts=DIR_OPTS() + LIST_OPTS()),
    Completer('file', opts=FILE_OPTS()),
    Completer('file_list', opts=FILE_OPTS() + LIST_OPTS()),
    Completer('exec', [Arg('command', (STR,), w, [w2])]),
    Completer('exec_fast', [Arg('command', (STR,), w, [w2])]),
    Completer('exec_internal', [Arg('command', (STR,), w, [w2])]),
    Completer('float', opts=NUM_OPTS((INT, FLOAT), None)),
    Completer('integer', opts=NUM_OPTS((INT,), None)),
    Completer('history', [Arg('pattern', (STR,), w, [w2])]),
    Completer('mime_file', [Arg('pattern', (STR,), w, [w2])]),
    Completer('ip_address', [Arg('type', (STR,), 'all', ['ipv4', 'ipv6', 'ipv4+', 'ipv6+', 'all+'], optional=True)]),
    Completer('range', [Arg('start', (INT,), 1, [2]), Arg('stop', (INT,), 9, [8]),
                        Arg('step', (INT,), 1, [2, 3], optional=True)]),
    Completer('value_list', opts=[
        Arg('values', (LIST, DICT), [w, w2], [[w3, w2], [w], {w: w2, w3: W('d')}, OnlyIn(('fish', 'zsh'), {w: W('d'), w3: w2})]),
        ] + LIST_OPTS(), opts_required=True),
    Completer('key_value_list', [
        Arg('pair_separator', (STR,), ',', [W1('sep'), ';']), Arg('value_separator', (STR,), '=', [W1('sep2'), ':']),
        Arg('values', (LIST,), [[w, w2, INNER], [w3, None, None]],
            [[[W('k2'), w2, INNER], [w3, None, None]], OnlyIn(('fish', 'zsh'), [[w, W('k2'), INNER], [w3, None, None]]),
             [[w, w2, INNER2], [w3, None, None]], [[w, w2, INNER], [w3, None, ['none']]],
             [[w, w2, INNER], [w3, None, None, [w]]], [[w, w2, INNER]]]),
        Arg('condition_func', (STR, NONE), W('cond'), [W('cond2')], optional=True)]),
    Completer('key_value_pair', [
        Arg('value_separator', (STR,), '=', [W1('sep2'), ':']),
        Arg('values', (LIST,), [[w, w2, INNER], [w3, None, None]],
            [[[W('k2'), w2, INNER], [w3, None, None]], OnlyIn(('fish', 'zsh'), [[w, W('k2'), INNER], [w3, None, None]]),
             [[w, w2, INNER2], [w3, None, None]], [[w, w2, INNER], [w3, None, ['none']]], [[w, w2, INNER]]]),
        Arg('condition_func', (STR, NONE), W('cond'), [W('cond2')], optional=True)]),
    Completer('key_value_list_exec', [
        Arg('pair_separator', (STR,), ',', [W1('sep'), ';']), Arg('value_separator', (STR,), '=', [W1('sep2'), ':']),
        Arg('command', (STR,), w, [w2])]),
    Completer('key_value_pair_exec', [
        Arg('value_separator', (STR,), '=', [W1('sep2'), ':']), Arg('command', (STR,), w, [w2])]),
] + [Completer(n) for n in (
    'alsa_card', 'alsa_device', 'charset', 'commandline_string', 'environment', 'filesystem_type', 'gid', 'group',
    'hostname', 'locale', 'login_shell', 'mountpoint', 'net_interface', 'none', 'pid', 'process', 'service',
    'signal', 'timezone', 'uid', 'user', 'variable')]

CATALOG = {c.name: c for c in _ALL}
