"""C06: bad definitions produce an error message, never an internal crash.

Loading and validation are interpreted abstractly with every kind of value at
every place of a definition; the exceptions that escape must be the error type
reported to the user."""

from ..check import Check, pmap, ROOT
from ..vlab import *
from .. import vlab

RULES = {
    'attribute-value': 'with any value at the attribute, loading and validation end normally or with a CrazyError',
    'argument-value': 'with any value at the completer argument, option or element, validation ends normally or with a CrazyError',
    'document': 'with any document structure, loading ends normally or with a CrazyError',
    'object-attribute': 'definition objects built or modified with any value are rejected with a CrazyError or accepted',
    'condition': 'a condition string is parsed or rejected with a CrazyError',
}

L = None
ALL = [v for t in REPS for v in REPS[t]]
SOME = [5, -1, 1.5, True, 'x', '', [], ['x'], [5], [[]], [None], {}, {'x': 'y'}, [{}], None]
ENV = ('FileNotFoundError',)


def judge(rule, key, o, shown):
    bad = [e for e in o.excs if not e[1] and not e[0].endswith(ENV)]
    if not bad:
        return [(rule, key, 'ok', '', '')]
    out = []
    for name, crazy, where, may in bad:
        out.append((rule, '%s: %s at %s' % (key, name.split('.')[-1], where.split(':')[0]),
                    'undecided' if may else 'violation', '%s with %s' % (name, shown), where))
    return out


ROUTES = {'yaml': via_validator, 'json': via_json}


def both(rule, key, defs, shown, routes=('yaml', 'json')):
    out = []
    for r in routes:
        o = ROUTES[r](L, defs)
        out += judge(rule, '%s (%s)' % (key, r), o, shown)
    return out


# definitions whose parts are checked against each other
CROSS = {
    'command_arg': [{'prog': 'prog', 'positionals': [
        {'number': 1, 'help': 'h', 'complete': ['user']}, {'number': 2, 'complete': ['command']}, {'number': 3, 'repeatable': True, 'complete': ['command_arg']}]}],
    'hidden and final options': [{'prog': 'prog', 'options': [
        {'option_strings': ['--a', '-a'], 'complete': ['none'], 'hidden': True, 'repeatable': False, 'capture': 'V1', 'groups': ['g']},
        {'option_strings': ['--b'], 'complete': ['file'], 'optional_arg': True, 'when': 'option_is --a -- x', 'groups': ['g'], 'long_opt_arg_sep': 'both'},
        {'option_strings': ['-c'], 'final': True}]}],
    'subcommands': [
        {'prog': 'prog', 'aliases': [], 'wraps': 'other', 'options': [{'option_strings': ['--a']}], 'positionals': [{'number': 1, 'complete': ['user']}]},
        {'prog': 'prog one', 'aliases': ['two'], 'positionals': [{'number': 1, 'repeatable': True, 'when': 'has_option --a'}]},
        {'prog': 'prog one three', 'options': [{'option_strings': ['-x'], 'complete': ['key_value_list', ',', '=', [['k', 'd', ['list', ['user']], ['l']], ['l', None, None]]]}]}],
}


def all_paths(d, part):
    """The places of the part'th document or object."""
    out = []

    def walk(x, at):
        for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
            out.append(at + (k,))
            if isinstance(v, (dict, list)):
                walk(v, at + (k,))
    walk(d[part], (part,))
    return out


def run(item):
    kind = item[0]
    out = []
    if kind == 'attr':
        _, level, attr, depth, second = item
        path = {'command': (depth, attr), 'option': (depth, 'options', second, attr),
                'positional': (depth, 'positionals', 0, attr)}[level]
        for v in ALL:
            d = base()[:depth + 1]
            put(d, path, deep(v))
            out += both('attribute-value', '%s.%s' % (level, attr), d, repr(v))
        d = base()[:depth + 1]
        if attr in get(d, path[:-1]):
            put(d, path, MISSING)
            out += both('attribute-value', '%s.%s missing' % (level, attr), d, 'no %s' % attr)
        if (level, attr) in ELEMENTS:
            for v in ALL:
                for place in (0, 1):
                    d = base()[:depth + 1]
                    x = list(get(d, path)) if attr in get(d, path[:-1]) else ['g']
                    put(d, path, (x[:1] if place else []) + [deep(v)] + ([] if place else x[:1]))
                    out += both('attribute-value', '%s.%s element' % (level, attr), d, repr(v))
        # together with another broken attribute of the same object
        for other in TABLE[level]:
            if other == attr:
                continue
            for v in ([5], 5, None, {}):
                d = base()[:depth + 1]
                put(d, path, deep(v))
                put(d, path[:-1] + (other,), 5 if other != 'number' else 'x')
                out += both('attribute-value', '%s.%s with %s' % (level, attr, other), d, '%r and 5' % (v,), ('yaml',) if depth else ('yaml', 'json'))
    elif kind == 'comp':
        _, name, ctx, depth = item
        done = set()
        for n, inv in enumerate(invocations(name)):
            if ctx != 'option' and n > 1:
                break
            d0, at = host(inv, ctx, depth)
            for path, types in places(inv):
                pk = show_path(path)
                if pk in done:
                    continue
                done.add(pk)
                for v in SOME if ctx == 'option' else SOME[::2]:
                    if isinstance(path[-1], tuple) and isinstance(v, (list, dict)):
                        continue
                    d = deep(d0)
                    put(d, at + path, deep(v))
                    out += both('argument-value', '%s %s' % (name, pk), d, repr(v), ('yaml', 'json') if ctx == 'option' else ('yaml',))
            # short and long invocations
            for x in [inv[:i] for i in range(len(inv))] + [inv + [5], inv + [None], inv + [[]], inv + ['x']]:
                d = deep(d0)
                put(d, at, deep(x))
                out += both('argument-value', '%s arguments' % name, d, repr(x), ('yaml', 'json') if ctx == 'option' else ('yaml',))
    elif kind == 'cross':
        d0 = CROSS[item[1]]
        for path in all_paths(d0, item[2]):
            where = '.'.join(str(p) for p in path)
            for v in [MISSING] + SOME:
                d = deep(d0)
                put(d, path, v if v is MISSING else deep(v))
                out += both('attribute-value', '%s: %s' % (item[1], where), d, 'nothing' if v is MISSING else repr(v), ('yaml', 'json') if item[3] else ('yaml',))
    elif kind == 'doc':
        for v in ALL:
            for i in range(3):
                d = base()
                d.insert(i, deep(v))
                out += both('document', 'document', d, repr(v))
            out += both('document', 'only document', [deep(v)], repr(v))
            out += judge('document', 'whole file (json)', via_json(L, deep(v)), repr(v))
            for p in ('prog', 'x'):
                d = base()
                d.insert(0, {'prog': '%defines%', p if p != 'prog' else 'y': deep(v)})
                d[1]['options'][0]['complete'] = 'x'
                out += judge('document', 'definition with %defines% (json)', via_json(L, d), repr(v))
        for order in ((1, 0, 2, 3), (2, 1, 0), (3, 2), (1,), ()):
            d = base()
            out += both('document', 'order', [d[i] for i in order], repr(order))
    elif kind == 'object':
        _, level, attr = item
        for v in ALL:
            def fn(st, late=False):
                c = build_objects(st, level, attr, v, late)
                L.call(st, 'completion_validator.validate_commandlines', c)
            out += judge('object-attribute', '%s(%s=)' % (level, attr), outcome(L, L.state(), fn), repr(v))
            out += judge('object-attribute', '%s.%s set later' % (level, attr), outcome(L, L.state(), lambda st: fn(st, True)), repr(v))
        if attr in ('prog', 'option_strings', 'number'):
            cls, kw = {'prog': ('CommandLine', {'prog': 'prog'}), 'option_strings': ('Option', {'option_strings': ['--x']}),
                       'number': ('Positional', {'number': 1})}[attr]
            for v in ALL:
                o = outcome(L, L.state(), lambda st: L.call(st, 'cli.' + cls, **{k: L.plain(st, x) for k, x in {**kw, 'parent': deep(v)}.items()}))
                out += judge('object-attribute', '%s(parent=)' % cls, o, repr(v))
    elif kind == 'when':
        for w in item[1]:
            o = outcome(L, L.state(), lambda st: L.call(st, 'when.parse_when', const(w)))
            out += judge('condition', 'parse_when', o, repr(w))
    return out


def build_objects(st, level, attr, v, late):
    p = lambda x: L.plain(st, x)
    kw = {'command': {'prog': 'prog'}, 'option': {'option_strings': ['--x'], 'complete': ['file']}, 'positional': {'number': 1}}
    a = {k: dict(x) for k, x in kw.items()}
    if not late:
        a[level][attr] = deep(v)
    prog = a['command'].pop('prog')
    c = L.call(st, 'cli.CommandLine', p(prog), **{k: p(x) for k, x in a['command'].items()})
    os_ = a['option'].pop('option_strings')
    o = L.meth(st, c, 'add_option', p(os_), **{k: p(x) for k, x in a['option'].items()})
    n = a['positional'].pop('number')
    q = L.meth(st, c, 'add_positional', p(n), **{k: p(x) for k, x in a['positional'].items()})
    if late:
        L.I.write_attr({'command': c, 'option': o, 'positional': q}[level], attr, p(deep(v)), st, L.node())
    return c


TESTS = ['option_is -x -- a', 'option_match -x -- a', 'has_option -x', 'positional_count == 1', 'positional_contains 1 a']


def conditions():
    """Every prefix of the words of every test, with flags, and operators."""
    out = ['', ' ', '&&', '||', '!', '(', ')', '()', '"', "'", '\\', '&', '|', 'x', '"" ', "''", '!x', '"has_option" -x', 'has_option "-x']
    for t in TESTS:
        w = t.split(' ')
        for i in range(len(w) + 1):
            for f in ([], ['nocase'], ['any'], ['-i'], ['--'], ['-i', '-i'], ['any', 'any']):
                out.append(' '.join(w[:1] + f + w[1:i]))
        for i in range(1, len(w)):
            for r in ('x', '-1', '""', '1.5', '--', '==', '999999999999999999999'):
                out.append(' '.join(w[:i] + [r] + w[i + 1:]))
            out.append(' '.join(w[:i] + w[i + 1:]))
        out += [t + ' ' + s for s in ('&&', '||', '!', '(', ')', '"', "'", '\\', 'x', '--', '-- a b')]
        out += [s + ' ' + t for s in ('&&', '||', '!', '(', ')', '! !', '!(', '((')]
    return sorted(set(out))


def main():
    global L
    ck = Check('C06', 'Bad definitions produce an error message, never an internal crash', RULES, floor=200, assumptions=[
        'the values are the literal representatives of every JSON/YAML type listed in sa/vlab.py',
        'FileNotFoundError of the input file is reported by the program itself (C23)'])
    L = Lab2(ROOT)
    items = [('doc',)]
    for level in TABLE:
        for attr in TABLE[level]:
            for depth in (0, 1) if ck.tier != 'thorough' else (0, 1, 2):
                items.append(('attr', level, attr, depth, int(depth == 1) if level == 'option' else 0))
    for n, d in CROSS.items():
        items += [('cross', n, i, ck.tier == 'thorough') for i in range(len(d))]
    for level, attrs in (('command', [a for a in COMMAND if a not in ('options', 'positionals')]), ('option', OPTION), ('positional', POSITIONAL)):
        items += [('object', level, a) for a in attrs]
    for name in CATALOG:
        for ctx in CONTEXTS if ck.tier == 'thorough' else ('option', 'positional', 'option/list/combine1', 'option/kvl/prefix'):
            if name == 'command_arg' and ctx != 'option':
                continue
            items.append(('comp', name, ctx, 0))
    cs = conditions()
    items += [('when', cs[i::8]) for i in range(8)]
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('document', str(item)[:200], err)
        else:
            ck.merge(res)
    ck.unit('completers', list(CATALOG))
    ck.unit('conditions', cs)
    return ck.finish()
