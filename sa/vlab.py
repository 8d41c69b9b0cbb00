"""Definitions as plain dictionaries, mutated in one place and run through the
validation of the repository inside the abstract interpreter.

The tables below (attributes, types, required attributes) are frozen from
docs/documentation.md and docs/commands.yaml."""

from . import strings as S
from .engine import *
from .lab import *
from .engine import INT as INT_, BOOL as BOOL_
from .catalog import CATALOG, STR, INT, FLOAT, BOOL, LIST, DICT, NONE
from .defs import W, W1, cat

XBOOL = ('abbreviate_commands', 'abbreviate_options', 'inherit_options')

COMMAND = {
    'prog': (STR,), 'help': (STR, NONE), 'aliases': (LIST, NONE), 'wraps': (STR, NONE),
    'abbreviate_commands': (BOOL, STR, NONE), 'abbreviate_options': (BOOL, STR, NONE),
    'inherit_options': (BOOL, STR, NONE), 'options': (LIST, NONE), 'positionals': (LIST, NONE)}
OPTION = {
    'option_strings': (LIST,), 'metavar': (STR, NONE), 'help': (STR, NONE), 'optional_arg': (BOOL, NONE),
    'groups': (LIST, NONE), 'repeatable': (BOOL, STR, NONE), 'final': (BOOL, NONE),
    'hidden': (BOOL, NONE), 'nosort': (BOOL, NONE), 'complete': (LIST, NONE), 'when': (STR, NONE),
    'capture': (STR, NONE), 'long_opt_arg_sep': (STR,)}
POSITIONAL = {
    'number': (INT,), 'metavar': (STR, NONE), 'help': (STR, NONE), 'repeatable': (BOOL, NONE), 'nosort': (BOOL, NONE),
    'complete': (LIST, NONE), 'when': (STR, NONE), 'capture': (STR, NONE)}
TABLE = {'command': COMMAND, 'option': OPTION, 'positional': POSITIONAL}
ELEMENTS = {('command', 'aliases'): (STR,), ('command', 'options'): (DICT,), ('command', 'positionals'): (DICT,),
            ('option', 'option_strings'): (STR,), ('option', 'groups'): (STR,)}
# (level, attribute) whose string values are one of a list
INHERIT = 'INHERIT'

# literal representatives of every type
REPS = {
    STR: ['x', '', ' ', 'a b', '-', '--x', '[', ',', 'none', INHERIT, 'x.y', '%defines%', 'option_is -x', 'has_option -x'],
    INT: [5, 0, -1], FLOAT: [1.5], BOOL: [True, False],
    LIST: [[], ['x'], [5], [[]], [None], ['none'], ['file', {}], [{}]], DICT: [{}, {'x': 'y'}, {'x': 5}], NONE: [None]}


def type_of(x):
    if isinstance(x, bool):
        return BOOL
    if isinstance(x, (str, S.S)):
        return STR
    return {int: INT, float: FLOAT, list: LIST, dict: DICT, type(None): NONE}[type(x)]


class Any:
    """Every value of a type."""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'any ' + self.t


ANY = {t: Any(t) for t in (STR, INT, BOOL, NONE)}


def wrong(types):
    """Types that are not allowed (a boolean counts as an integer)."""
    r = [t for t in (STR, INT, FLOAT, BOOL, LIST, DICT, NONE) if t not in types]
    if INT in types and BOOL in r:
        r.remove(BOOL)
    return r


def base(complete=None, where='option', extra=()):
    """Definition dictionaries: a command, two subcommands, one sub-subcommand."""
    def opts(p, c=None):
        return [dict(option_strings=['--%sone' % p, '-a'], metavar='M', help='h', optional_arg=False, groups=['g'],
                     repeatable=False, final=False, hidden=False, nosort=False, complete=['file'], when='has_option -b',
                     capture='V', long_opt_arg_sep='space'),
                dict(option_strings=['--%stwo' % p, '-b'])]

    def poss():
        return [dict(number=1, metavar='M', help='h', repeatable=False, nosort=False, complete=['none'],
                     when='has_option -b', capture='W')]
    out = []
    for prog, p in (('prog', ''), ('prog sub', 's'), ('prog sub subsub', 'x'), ('prog other', 'o')):
        d = dict(prog=prog, help='h', aliases=['al' + p], abbreviate_commands=False, abbreviate_options=False,
                 inherit_options=False, options=opts(p), positionals=poss())
        if prog == 'prog':
            d['wraps'] = 'wr'
        out.append(d)
    return out


MISSING = object()


def put(defs, path, value):
    """Set (or delete, with MISSING) the value at the path."""
    o = defs
    for k in path[:-1]:
        o = o[k]
    k = path[-1]
    if isinstance(k, tuple) and k[0] == 'key':
        items = list(o.items())
        o.clear()
        for i, (a, b) in enumerate(items):
            o[value if i == k[1] else a] = b
    elif value is MISSING:
        del o[k]
    else:
        o[k] = value


def get(defs, path):
    o = defs
    for k in path:
        o = o[k]
    return o


def deep(x):
    if isinstance(x, list):
        return [deep(e) for e in x]
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    return x


class Lab2(Lab):
    """Lab with the conversions for definition dictionaries."""

    def plain(self, st, x):
        if isinstance(x, Any):
            return {STR: V(('s', S.any_())), INT: INT_, BOOL: BOOL_, NONE: const(None)}[x.t]
        if isinstance(x, S.S):
            return string(x)
        if isinstance(x, list):
            return self.I.new_list(st, self.node(), [(self.plain(st, e), 1) for e in x])
        if isinstance(x, dict):
            d = {}
            for k, v in x.items():
                (ka,) = self.plain(st, k)
                d[ka] = (self.plain(st, v), True)
            return self.I.new_dict(st, self.node(), d)
        return const(x)

    def traced(self, st, x):
        """The structure ExtendedYAMLParser produces."""
        if isinstance(x, list):
            v = self.I.new_list(st, self.node(), [(self.traced(st, e), 1) for e in x])
        elif isinstance(x, dict):
            d = {}
            for k, e in x.items():
                (ka,) = self.traced(st, k)
                d[ka] = (self.traced(st, e), True)
            v = self.I.new_dict(st, self.node(), d)
        else:
            v = self.plain(st, x)
        return self.call(st, 'value_with_trace.ValueWithTrace', v, const('src'), const(1), const(1))




class Out:
    """Outcome of a validation: may it end normally, which exceptions."""

    def __init__(self, normal, excs, text, st):
        self.normal, self.excs, self.text, self.st = normal, excs, text, st
        # reached for certain: nothing else is possible
        self.definite = normal and not excs

    def names(self):
        return sorted({e[0] for e in self.excs})


def outcome(lab, st, fn):
    with lab.frame() as fr:
        lab.I.steps = 0
        try:
            fn(st)
            normal = True
        except Bottom:
            normal = False
    excs = []
    for e in fr.excs():
        for a in e[0]:
            if a[0] == 'o':
                o = e[1].heap[a[1]]
                cls = o.cls
                name = getattr(cls, 'name', str(cls))
                crazy = isinstance(cls, ClassVal) and any(getattr(c, 'name', '') == 'CrazyError' for c in cls.get_mro())
                excs.append((name, crazy, lab.p.where(e[2]), bool(e[4])))
            else:
                excs.append((str(a[1]), False, lab.p.where(e[2]), bool(e[4])))
    from .gen import messages
    return Out(normal, excs, messages(lab, fr), st)


def via_validator(lab, defs):
    """The YAML route: scheme_validator.validate on traced values."""
    def fn(st):
        v = lab.I.new_list(st, lab.node(), [(lab.traced(st, d), 1) for d in defs])
        lab.call(st, 'scheme_validator.validate', v)
    return outcome(lab, lab.state(), fn)


def via_json(lab, defs):
    """The JSON route: json_source.load_from_file, then the validation done by
    every generator."""
    def fn(st):
        lab.I.ext_models['json.load'] = lambda I, args, kwargs, st, node: lab.plain(st, defs)
        c = lab.call(st, 'json_source.load_from_file', const('file.json'))
        lab.call(st, 'completion_validator.validate_commandlines', c)
    return outcome(lab, lab.state(), fn)


# ------------------------------------------------------ completers

def places(inv, path=()):
    """(path, allowed types, nested invocation?) of every value in a completer
    invocation given as documented."""
    c = CATALOG[inv[0]]
    yield path + (0,), (STR,)
    n = len(c.args)
    for i, a in enumerate(c.args, 1):
        if i >= len(inv):
            break
        yield path + (i,), a.types
        yield from inner(c.name, a.name, inv[i], path + (i,))
    if c.opts is not None and len(inv) > n + 1:
        yield path + (n + 1,), (DICT,)
        for a in c.opts:
            if a.name in inv[n + 1]:
                q = path + (n + 1, a.name)
                yield q, a.types
                yield from inner(c.name, a.name, inv[n + 1][a.name], q)


def inner(name, arg, v, path):
    if isinstance(v, list):
        if (name, arg) in (('list', 'command'), ('prefix', 'command')):
            yield from places(v, path)
        elif (name, arg) == ('combine', 'commands'):
            for i, x in enumerate(v):
                yield path + (i,), (LIST,)
                yield from places(x, path + (i,))
        elif arg == 'values' and name.startswith('key_value'):
            for i, x in enumerate(v):
                yield path + (i,), (LIST,)
                yield path + (i, 0), (STR,)
                yield path + (i, 1), (STR, NONE)
                yield path + (i, 2), (LIST, NONE)
                if x[2] is not None:
                    yield from places(x[2], path + (i, 2))
                if len(x) > 3:
                    yield path + (i, 3), (LIST,)
                    for j in range(len(x[3])):
                        yield path + (i, 3, j), (STR,)
        else:
            t = (STR, INT) if name == 'choices' else (STR,)
            for i in range(len(v)):
                yield path + (i,), t
    elif isinstance(v, dict):
        t = (STR, INT) if name == 'choices' else (STR,)
        for i, k in enumerate(v):
            yield path + (('key', i),), t
            yield path + (k,), t


def lit_inv(x):
    """A completer invocation with the symbolic words replaced by literals."""
    names = {}

    def go(x):
        if isinstance(x, S.S):
            if x.kind == 'lit':
                return x.a
            parts = x.a if x.kind == 'cat' else (x,)
            s = ''
            for p in parts:
                if p.kind == 'lit':
                    s += p.a
                else:
                    one = p.a[3] == 1
                    n = names.setdefault(p, len(names))
                    s += ':;|,/'[n % 5] if one else 'word%d' % n
            return s
        if isinstance(x, list):
            return [go(e) for e in x]
        if isinstance(x, dict):
            return {go(k): go(v) for k, v in x.items()}
        return x
    return go(x)


def invocations(name):
    """Documented invocations of the completer that together show every
    argument and option."""
    c = CATALOG[name]
    out = [c.invoke(), c.full()]
    for a in c.args:
        over = {p.name: p.base for p in c.args}
        for v in a.alternatives():
            out.append(c.invoke({**over, a.name: v}))
    for a in c.opts or ():
        for v in a.alternatives()[:1]:
            o = dict(a.needs)
            for b in c.opts:
                if b is not a and b.name not in a.excl and a.name not in b.excl and b.name not in o:
                    o[b.name] = b.base
            o[a.name] = v
            if name in ('value_list',) or not c.opts_required:
                out.append(c.invoke({p.name: (p.first_alt() if p.optional and p.alts else p.base) for p in c.args}, o))
    r, seen = [], set()
    for i in out:
        i = lit_inv(i)
        if repr(i) not in seen:
            seen.add(repr(i))
            r.append(i)
    return r


# where a completer may stand: (name, path of the completer within the definitions)
def host(inv, ctx, depth=0, second=False):
    """Definitions that use the invocation in a context.  Returns (defs, path)."""
    d = [dict(prog=p) for p in ('prog', 'prog sub', 'prog sub subsub')[:depth + 1]]
    d[depth]['options'] = [dict(option_strings=['--one', '-a']), dict(option_strings=['--two'])][:2 if second else 1]
    d[depth]['positionals'] = [dict(number=1)] if ctx.startswith('positional') else []
    i = 1 if second else 0
    if inv[0] == 'command_arg':
        d[depth]['positionals'] = [dict(number=1, complete=['command']), dict(number=2, complete=inv, repeatable=True)]
        return d, (depth, 'positionals', 1, 'complete')
    kind = 'options' if not ctx.startswith('positional') else 'positionals'
    p = (depth, kind, 0 if kind == 'positionals' else i, 'complete')
    nest = ctx.split('/')[1:]
    x = inv
    tail = ()
    for n in reversed(nest):
        if n == 'list':
            x, tail = ['list', x], (1,) + tail
        elif n == 'combine0':
            x, tail = ['combine', [x, ['user']]], (1, 0) + tail
        elif n == 'combine1':
            x, tail = ['combine', [['user'], x]], (1, 1) + tail
        elif n == 'prefix':
            x, tail = ['prefix', 'p:', x], (2,) + tail
        elif n == 'kvl':
            x, tail = ['key_value_list', ',', '=', [['k', None, None], ['l', 'd', x]]], (3, 1, 2) + tail
        elif n == 'kvp':
            x, tail = ['key_value_pair', '=', [['l', 'd', x], ['k', None, None]]], (2, 0, 2) + tail
    d[p[0]][p[1]][p[2]]['complete'] = x
    return d, p + tail


CONTEXTS = ('option', 'positional', 'option/list', 'option/combine0', 'option/combine1', 'option/prefix', 'option/kvl',
            'option/kvp', 'positional/list/combine1', 'option/kvl/prefix', 'option/combine0/kvp/list')


def show_path(path):
    s = ''
    for k in path:
        if isinstance(k, tuple):
            s += '[key %d]' % k[1]
        elif isinstance(k, int):
            s += '[%d]' % k
        else:
            s += ('.' if s else '') + k
    return s
