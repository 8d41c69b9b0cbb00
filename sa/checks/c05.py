"""C05: malformed definitions are rejected at every nesting depth.

Validation is interpreted abstractly on definitions that break exactly one
documented rule, at every command depth and inside every nesting completer; the
end of the validation must be unreachable."""

from ..check import Check, pmap, ROOT
from ..vlab import *

RULES = {
    'unknown-rejected': 'an unknown attribute, completer or completer option is rejected',
    'missing-rejected': 'a missing required attribute or argument is rejected',
    'superfluous-rejected': 'a superfluous completer argument is rejected',
    'contradiction-rejected': 'contradictory attributes or values outside the documented range are rejected',
    'structure-rejected': 'a wrong structure of commands and positionals is rejected',
    'well-formed-accepted': 'the definition without the mistake is accepted',
}

L = None
WHERE = 'crazy_complete/scheme_validator.py'


def judge(rule, key, defs, routes=(via_validator, via_json), where=WHERE):
    out = []
    for r in routes:
        o = r(L, defs)
        name = 'yaml' if r is via_validator else 'json'
        if not o.normal:
            out.append((rule, key, 'ok', '', ''))
        elif all(e[0].endswith('FileNotFoundError') for e in o.excs):
            out.append((rule, key, 'violation', 'accepted by the %s route' % name, where))
        else:
            out.append((rule, '%s (%s)' % (key, name), 'undecided', o.text, ''))
    return out


# ------------------------------------------------- attributes

# (name, level, function changing the dictionary)
def upd(**k):
    return lambda d: d.update(k)


def rem(*names):
    def f(d):
        for n in names:
            d.pop(n, None)
    return f


ATTR = [
    ('unknown-rejected', 'unknown attribute', 'command', upd(foo='x')),
    ('unknown-rejected', 'unknown attribute', 'option', upd(foo='x')),
    ('unknown-rejected', 'unknown attribute', 'positional', upd(foo='x')),
    ('unknown-rejected', 'attribute of an option', 'positional', upd(option_strings=['-x'])),
    ('unknown-rejected', 'attribute of a positional', 'option', upd(number=1)),
    ('unknown-rejected', 'attribute of a command', 'option', upd(prog='x')),
    ('unknown-rejected', 'null-valued unknown attribute', 'option', upd(foo=None)),
    ('missing-rejected', 'option_strings', 'option', rem('option_strings')),
    ('missing-rejected', 'number', 'positional', rem('number')),
    ('missing-rejected', 'prog', 'command', rem('prog')),
    ('contradiction-rejected', 'metavar without complete', 'option', lambda d: (rem('complete', 'optional_arg')(d), d.update(metavar='M'))),
    ('contradiction-rejected', 'optional_arg without complete', 'option', lambda d: (rem('complete', 'metavar')(d), d.update(optional_arg=True))),
    ('contradiction-rejected', 'repeatable and hidden', 'option', upd(repeatable=True, hidden=True)),
    ('contradiction-rejected', 'group and groups', 'option', upd(group='g', groups=['g'])),
    ('contradiction-rejected', 'empty option_strings', 'option', upd(option_strings=[])),
    ('contradiction-rejected', 'option string without dash', 'option', upd(option_strings=['foo'])),
    ('contradiction-rejected', 'second option string without dash', 'option', upd(option_strings=['--one', 'foo'])),
    ('contradiction-rejected', 'empty option string', 'option', upd(option_strings=[''])),
    ('contradiction-rejected', 'option string with space', 'option', upd(option_strings=['--a b'])),
    ('contradiction-rejected', 'option string with comma', 'option', upd(option_strings=['--a,b'])),
    ('contradiction-rejected', 'option string -', 'option', upd(option_strings=['-'])),
    ('contradiction-rejected', 'option string --', 'option', upd(option_strings=['--'])),
    ('contradiction-rejected', 'repeatable value', 'option', upd(repeatable='yes')),
    ('contradiction-rejected', 'capture is no variable', 'option', upd(capture='a b')),
    ('contradiction-rejected', 'capture starts with a digit', 'option', upd(capture='1a')),
    ('contradiction-rejected', 'empty capture', 'option', upd(capture='')),
    ('contradiction-rejected', 'long_opt_arg_sep value', 'option', upd(long_opt_arg_sep='colon')),
    ('contradiction-rejected', 'when with unknown command', 'option', upd(when='foo -x')),
    ('contradiction-rejected', 'when without arguments', 'option', upd(when='option_is')),
    ('contradiction-rejected', 'unterminated quote in when', 'option', upd(when='option_is "-x')),
    ('contradiction-rejected', 'when with bad operator', 'option', upd(when='has_option -x &&')),
    ('contradiction-rejected', 'number is 0', 'positional', upd(number=0)),
    ('contradiction-rejected', 'negative number', 'positional', upd(number=-1)),
    ('contradiction-rejected', 'capture is no variable', 'positional', upd(capture='a-b')),
    ('contradiction-rejected', 'when with unknown command', 'positional', upd(when='foo -x')),
    ('contradiction-rejected', 'empty alias', 'command', upd(aliases=[''])),
    ('contradiction-rejected', 'alias with space', 'command', upd(aliases=['ok', 'a b'])),
    ('contradiction-rejected', 'abbreviate_commands value', 'command', upd(abbreviate_commands='yes')),
    ('contradiction-rejected', 'abbreviate_options value', 'command', upd(abbreviate_options='yes')),
    ('contradiction-rejected', 'inherit_options value', 'command', upd(inherit_options='yes')),
    ('structure-rejected', 'two repeatable positionals', 'command',
     upd(positionals=[dict(number=1, repeatable=True), dict(number=2, repeatable=True)])),
    ('structure-rejected', 'positional after repeatable', 'command',
     upd(positionals=[dict(number=1, repeatable=True), dict(number=2)])),
    ('structure-rejected', 'positional after repeatable, listed first', 'command',
     upd(positionals=[dict(number=2), dict(number=1, repeatable=True)])),
    ('structure-rejected', 'positional long after repeatable', 'command',
     upd(positionals=[dict(number=1), dict(number=3), dict(number=2, repeatable=True)])),
]

for _w in ('', ' ', 'foo', 'foo -x', 'Option_is -x -- a', 'option_is', 'option_is -- a', 'option_is -x', 'option_is -x --', 'option_is x -- a',
           'option_is -x y -- a', 'option_is any nocase', 'option_match', 'option_match -x', 'option_match -x --', 'option_match x -- a',
           'option_match -x -- a b', 'has_option', 'positional_count', 'positional_count 1', 'positional_count ==', 'positional_count = 1',
           'positional_count == x', 'positional_count == 1 2', 'positional_contains', 'positional_contains x', 'positional_contains x a',
           'positional_contains 1', 'positional_contains -i', 'positional_contains -i 1', 'has_option -x &&', 'has_option -x ||', '!',
           'has_option -x !', 'has_option -x ! has_option -y', '&& has_option -x', '|| has_option -x', 'has_option -x && || has_option -y',
           'has_option -x && && has_option -y', '(has_option -x', 'has_option -x)', '()', '(has_option -x) has_option -y',
           '(has_option -x) (has_option -y)', 'has_option -x (has_option -y)', '(has_option -x &&) has_option -y', 'has_option -x & has_option -y',
           'has_option -x | has_option -y', 'has_option "-x', "has_option '-x", '(! has_option -x', 'has_option -x && (has_option -y || foo)',
           'has_option -x && foo', 'foo || has_option -x', '! foo'):
    for _l in ('option', 'positional'):
        ATTR.append(('contradiction-rejected', 'when %r' % _w, _l, upd(when=_w)))

# only below the top command
SUB = [
    ('structure-rejected', 'wraps in a subcommand', 'command', upd(wraps='x')),
    ('structure-rejected', 'prog with two spaces', 'command', lambda d: d.update(prog=d['prog'].replace(' ', '  '))),
    ('structure-rejected', 'prog ends with a space', 'command', lambda d: d.update(prog=d['prog'] + ' ')),
    ('structure-rejected', 'prog begins with a space', 'command', lambda d: d.update(prog=' ' + d['prog'])),
    ('structure-rejected', 'prog contains a tabulator', 'command', lambda d: d.update(prog=d['prog'] + '\tx')),
    ('structure-rejected', 'prog contains a newline', 'command', lambda d: d.update(prog=d['prog'] + '\nx')),
    ('structure-rejected', 'parent command not defined', 'command', lambda d: d.update(prog='prog nope ' + d['prog'].split()[-1])),
    ('structure-rejected', 'another main program', 'command', lambda d: d.update(prog='main2')),
    ('structure-rejected', 'command defined twice', 'command', lambda d: d.update(prog='prog other')),
]

# only above another command
SUPER = [
    ('structure-rejected', 'repeatable positional with subcommands', 'command', upd(positionals=[dict(number=1, repeatable=True)])),
]

# ------------------------------------------------- completers

# completer invocations that break a documented rule
BAD = [
    ('unknown-rejected', 'unknown completer', ['foo']),
    ('unknown-rejected', 'unknown completer', ['']),
    ('unknown-rejected', 'completer in capitals', ['File']),
    ('missing-rejected', 'empty completer', []),
    ('contradiction-rejected', 'command: path and path_append', ['command', {'path': '/a', 'path_append': '/b'}]),
    ('contradiction-rejected', 'command: path and path_prepend', ['command', {'path': '/a', 'path_prepend': '/b'}]),
    ('contradiction-rejected', 'command: empty path', ['command', {'path': ''}]),
    ('contradiction-rejected', 'command: blank path_append', ['command', {'path_append': ' '}]),
    ('contradiction-rejected', 'command: empty path_prepend', ['command', {'path_prepend': ''}]),
    ('contradiction-rejected', 'range: step 0', ['range', 1, 9, 0]),
    ('contradiction-rejected', 'range: start > stop', ['range', 9, 1]),
    ('contradiction-rejected', 'range: start > stop', ['range', 9, 1, 2]),
    ('contradiction-rejected', 'range: stop > start downwards', ['range', 1, 9, -1]),
    ('contradiction-rejected', 'integer: min > max', ['integer', {'min': 5, 'max': 1}]),
    ('contradiction-rejected', 'integer: min > max = 0', ['integer', {'min': 5, 'max': 0}]),
    ('contradiction-rejected', 'float: min > max', ['float', {'min': 0.5, 'max': 0.1}]),
    ('contradiction-rejected', 'float: min 0 > max', ['float', {'min': 0, 'max': -0.5}]),
    ('contradiction-rejected', 'integer: empty help', ['integer', {'help': ''}]),
    ('contradiction-rejected', 'integer: no suffixes', ['integer', {'suffixes': {}}]),
    ('contradiction-rejected', 'float: no suffixes', ['float', {'suffixes': {}}]),
    ('contradiction-rejected', 'integer: empty suffix', ['integer', {'suffixes': {'': 'x'}}]),
    ('contradiction-rejected', 'integer: empty description', ['integer', {'suffixes': {'x': ''}}]),
    ('contradiction-rejected', 'ip_address: type', ['ip_address', 'ipv5']),
    ('contradiction-rejected', 'ip_address: empty type', ['ip_address', '']),
    ('contradiction-rejected', 'date: empty format', ['date', '']),
    ('contradiction-rejected', 'value_list: no values', ['value_list', {'values': []}]),
    ('contradiction-rejected', 'value_list: no values', ['value_list', {'values': {}}]),
    ('missing-rejected', 'value_list: values', ['value_list', {}]),
    ('missing-rejected', 'value_list: values', ['value_list', {'separator': ','}]),
    ('contradiction-rejected', 'combine: empty', ['combine', []]),
    ('contradiction-rejected', 'combine: single', ['combine', [['file']]]),
    ('contradiction-rejected', 'none in combine', ['combine', [['none'], ['file']]]),
    ('contradiction-rejected', 'none in combine', ['combine', [['file'], ['none']]]),
    ('contradiction-rejected', 'none in combine behind key_value_list', ['combine', [['key_value_list', ',', '=', [['a', None, None]]], ['none']]]),
    ('contradiction-rejected', 'none in combine behind key_value_pair', ['combine', [['key_value_pair', '=', [['a', None, None]]], ['none']]]),
    ('contradiction-rejected', 'none in list', ['list', ['none']]),
    ('contradiction-rejected', 'none in prefix', ['prefix', 'x', ['none']]),
    ('contradiction-rejected', 'none in combine in list', ['list', ['combine', [['file'], ['none']]]]),
    ('contradiction-rejected', 'key_value_list: no values', ['key_value_list', ',', '=', []]),
    ('contradiction-rejected', 'key_value_pair: no values', ['key_value_pair', '=', []]),
    ('contradiction-rejected', 'key_value_list: short item', ['key_value_list', ',', '=', [['a', None]]]),
    ('contradiction-rejected', 'key_value_list: short second item', ['key_value_list', ',', '=', [['a', None, None], ['b', None]]]),
    ('contradiction-rejected', 'key_value_list: long item', ['key_value_list', ',', '=', [['a', None, None, [], None]]]),
    ('contradiction-rejected', 'key_value_pair: short item', ['key_value_pair', '=', [['a', None]]]),
    ('contradiction-rejected', 'key_value_pair: long item', ['key_value_pair', '=', [['a', None, None, []]]]),
    ('contradiction-rejected', 'key_value_list: empty key', ['key_value_list', ',', '=', [['', None, None]]]),
    ('contradiction-rejected', 'key_value_list: key with space', ['key_value_list', ',', '=', [['a b', None, None]]]),
    ('contradiction-rejected', 'key_value_pair: empty key', ['key_value_pair', '=', [['', None, None]]]),
    ('contradiction-rejected', 'key_value_pair: key with space', ['key_value_pair', '=', [['a b', None, None]]]),
    ('contradiction-rejected', 'key_value_list: duplicate key', ['key_value_list', ',', '=', [['a', None, None], ['a', None, None]]]),
    ('contradiction-rejected', 'key_value_list: unknown key excluded', ['key_value_list', ',', '=', [['a', None, None, ['b']]]]),
    ('contradiction-rejected', 'key_value_list: unknown second key excluded', ['key_value_list', ',', '=', [['a', None, None, ['c', 'b']], ['c', None, None]]]),
    ('contradiction-rejected', 'key_value_list: empty condition_func', ['key_value_list', ',', '=', [['a', None, None]], '']),
    ('contradiction-rejected', 'key_value_pair: empty condition_func', ['key_value_pair', '=', [['a', None, None]], '']),
    ('contradiction-rejected', 'key_value_list_exec: empty command', ['key_value_list_exec', ',', '=', '']),
    ('contradiction-rejected', 'key_value_pair_exec: empty command', ['key_value_pair_exec', '=', '']),
    ('contradiction-rejected', 'command_arg in an option', ['command_arg']),
] + [('contradiction-rejected', '%s: %s' % (c, n), [c, o]) for c in ('file', 'file_list', 'directory', 'directory_list')
     for n, o in [('empty directory', {'directory': ''})] + ([] if c.startswith('dir') else [
         ('no extensions', {'extensions': []}), ('empty extension', {'extensions': ['']}),
         ('empty second extension', {'extensions': ['png', '']}),
         ('extension with space', {'extensions': ['a b']}), ('no globs', {'ignore_globs': []}),
         ('empty glob', {'ignore_globs': ['']}), ('unterminated class', {'ignore_globs': ['*.png', '[a']})])] \
  + [('contradiction-rejected', '%s: %s' % (c[0], n), [x if x != 'SEP' else s for x in c] if 'SEP' in c else
      [c[0]] + c[1:-1] + [dict(c[-1], separator=s)])
     for c in (['file_list', {}], ['directory_list', {}], ['value_list', {'values': ['a']}], ['list', ['file'], {}],
               ['key_value_list', 'SEP', '=', [['a', None, None]]], ['key_value_list', ',', 'SEP', [['a', None, None]]],
               ['key_value_pair', 'SEP', [['a', None, None]]], ['key_value_list_exec', 'SEP', '=', 'x'],
               ['key_value_list_exec', ',', 'SEP', 'x'], ['key_value_pair_exec', 'SEP', 'x'])
     for n, s in (('empty separator', ''), ('separator of two characters', '::'))]

NOT_FOR_OPTIONS = ('directory', 'directory_list')


def derived(name):
    """Mistakes that follow from the argument table of the completer."""
    c = CATALOG[name]
    base = lit_inv(c.invoke())
    full = lit_inv(c.full())
    req = [a for a in c.args if not a.optional]
    for i in range(len(req)):
        yield 'missing-rejected', '%s: %s' % (name, req[i].name), base[:1 + i]
    allargs = lit_inv(c.invoke({a.name: (a.first_alt() if a.optional and a.alts else a.base) for a in c.args}))
    if c.opts is None:
        yield 'superfluous-rejected', name, allargs + ['x']
        yield 'superfluous-rejected', name, allargs + [{}]
        yield 'superfluous-rejected', name, allargs + [None]
        yield 'superfluous-rejected', name, full + [['file'], 5]
    else:
        yield 'superfluous-rejected', name, full + ['x']
        yield 'superfluous-rejected', name, full + [{}]
        yield 'unknown-rejected', '%s: option' % name, full[:-1] + [dict(full[-1], foo='x')]
        o = {'foo': 1}
        if c.opts_required:
            o.update({a.name: lit_inv(a.base) for a in c.opts if not a.optional})
        yield 'unknown-rejected', '%s: option' % name, lit_inv(c.invoke())[:1 + len(req)] + [o]
        known = {a.name for a in c.opts}
        for other in ('extensions', 'separator', 'min', 'path', 'values'):
            if other not in known:
                v = {'extensions': ['png'], 'separator': ',', 'min': 1, 'path': '/x', 'values': ['a']}[other]
                yield 'unknown-rejected', '%s: option %s' % (name, other), full[:-1] + [dict(full[-1], **{other: v})]


def run(item):
    kind = item[0]
    out = []
    if kind == 'attr':
        _, n, depth, second, table = item
        rule, text, level, f = {'A': ATTR, 'B': SUB, 'C': SUPER}[table][n]
        d = base()
        if table == 'A' and level == 'command' and 'positional' in text or table == 'B':
            d = [x for i, x in enumerate(d) if i != 2] if depth == 1 and table == 'A' else d
            if table == 'A' and depth == 0:
                d = d[:1]
        ok = deep(d)
        t = {'command': d[depth], 'option': d[depth]['options'][second], 'positional': d[depth]['positionals'][0]}[level]
        if level == 'option' and second and 'complete' not in t and 'metavar' not in text and 'optional' not in text:
            t['complete'] = ['file']
        if level == 'option':
            t['hidden'] = False
        f(t)
        if table == 'B' and depth == 1 and text in ('another main program', 'command defined twice', 'parent command not defined'):
            d = [x for i, x in enumerate(d) if i != 2]
        if text == 'command defined twice':
            d[depth], d[-1] = d[-1], d[depth]
            if depth == 2:
                d[2]['prog'] = 'prog sub'
        routes = (via_validator,) if text == 'group and groups' else (via_validator, via_json)
        out += judge(rule, '%s: %s' % (level, text), d, routes)
        if table == 'A' and n == 0:
            o = via_validator(L, ok)
            out.append(('well-formed-accepted', 'definition', 'ok' if o.normal and not o.excs else 'undecided', o.text, ''))
    elif kind == 'order':
        for order in ((1, 0, 2, 3), (0, 2, 1, 3), (2, 1, 0, 3)):
            d = base()
            d = [d[i] for i in order]
            out += judge('structure-rejected', 'subcommand before its parent', d)
        out += judge('structure-rejected', 'no commands', [])
        d = base()
        d.append(dict(prog='prog2'))
        out += judge('structure-rejected', 'two main programs', d)
        for p in ('prog', 'prog sub', 'prog sub subsub'):
            d = base()
            d.append(dict(prog=p))
            out += judge('structure-rejected', 'command defined twice', d)
        for p in ('', ' ', ' prog', 'prog ', 'prog\tx', 'prog\n'):
            out += judge('structure-rejected', 'prog %r' % p, [dict(prog=p)])
        for w in ('', ' ', 'a b'):
            out += judge('structure-rejected', 'wraps %r' % w, [dict(prog='prog', wraps=w)])
        # command_arg
        for text, poss in (
                ('command_arg without command', [dict(number=1, complete=['command_arg'], repeatable=True)]),
                ('command_arg not repeatable', [dict(number=1, complete=['command']), dict(number=2, complete=['command_arg'])]),
                ('command_arg repeatable: false', [dict(number=1, complete=['command']), dict(number=2, complete=['command_arg'], repeatable=False)]),
                ('command not directly before command_arg', [dict(number=1, complete=['command']), dict(number=2, complete=['file']),
                                                             dict(number=3, complete=['command_arg'], repeatable=True)]),
                ('command_arg after file', [dict(number=1, complete=['file']), dict(number=2, complete=['command_arg'], repeatable=True)]),
                ('command after command_arg', [dict(number=2, complete=['command']), dict(number=1, complete=['command_arg'], repeatable=True)])):
            for depth in (0, 1, 2):
                d = [dict(prog=p) for p in ('prog', 'prog sub', 'prog sub subsub')[:depth + 1]]
                d[-1]['positionals'] = poss
                out += judge('contradiction-rejected', text, d)
        for n in ('combine0', 'combine1', 'list', 'kvl', 'kvp'):
            d, at = host(['none'], 'option/' + n)
            x = d[0]['options'][0]['complete']
            o = x
            for k in at[4:-1]:
                o = o[k]
            o[at[-1]] = ['command_arg']
            d = [dict(prog='prog', positionals=[dict(number=1, complete=['command']), dict(number=2, complete=x, repeatable=True)])]
            out += judge('contradiction-rejected', 'command_arg in ' + n.rstrip('01'), d)
    elif kind == 'comp':
        _, rule, text, inv, ctx, depth = item
        good = ['none'] if ctx in ('option', 'positional') else ['file']
        d, at = host(good, ctx, depth, second=depth == 1)
        o = via_validator(L, d)
        out.append(('well-formed-accepted', 'completer as %s' % ctx, 'ok' if o.normal and not o.excs else 'undecided', o.text, ''))
        put(d, at, inv)
        out += judge(rule, text, d, (via_validator, via_json) if ctx == 'option' and depth != 1 else (via_validator,))
    elif kind == 'derived':
        _, name, ctx, depth = item
        if ctx != 'option' or depth or name == 'command_arg':
            if ctx == 'option' and name == 'command_arg':
                ctx = 'positional'
        for rule, text, inv in derived(name):
            if name == 'command_arg':
                d = [dict(prog='prog', positionals=[dict(number=1, complete=['command']), dict(number=2, complete=inv, repeatable=True)])]
            else:
                d, at = host(['file'], ctx, depth, second=depth == 1)
                put(d, at, inv)
            out += judge(rule, text, d, (via_validator, via_json) if ctx == 'option' else (via_validator,))
    return out


def all_items(tier):
    items = [('order',)]
    for n, (rule, text, level, f) in enumerate(ATTR):
        for depth in (0, 1, 2):
            items.append(('attr', n, depth, int(depth == 1), 'A'))
        if level == 'option' and tier == 'thorough':
            items.append(('attr', n, 0, 1, 'A'))
    for n in range(len(SUB)):
        for depth in (1, 2):
            items.append(('attr', n, depth, 0, 'B'))
    for n in range(len(SUPER)):
        for depth in (0, 1):
            items.append(('attr', n, depth, 0, 'C'))
    ctxs = CONTEXTS
    for n, (rule, text, inv) in enumerate(BAD):
        for i, ctx in enumerate(ctxs):
            # a context of its own for each mistake, all contexts together in the thorough tier
            if tier == 'thorough' or ctx in ('option', 'positional') or i in (2 + n % 9, 2 + (n * 5 + 4) % 9) or n < 4:
                if text == 'command_arg in an option' and ctx.startswith('positional'):
                    continue
                items.append(('comp', rule, text, inv, ctx, 0))
        items.append(('comp', rule, text, inv, 'option', 1))
        items.append(('comp', rule, text, inv, 'positional' if text != 'command_arg in an option' else 'option', 2))
    for i, name in enumerate(CATALOG):
        items.append(('derived', name, 'option', 0))
        if name != 'command_arg':
            items.append(('derived', name, 'positional', 2))
            items.append(('derived', name, CONTEXTS[2 + i % 9], 1))
    return items


def main():
    global L
    ck = Check('C05', 'Malformed definitions are rejected at every nesting depth', RULES, floor=200, assumptions=[
        'the mistakes listed in sa/checks/c05.py and those derived from the argument tables of sa/catalog.py'])
    L = Lab2(ROOT)
    items = all_items(ck.tier)
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('well-formed-accepted', str(item), err)
        else:
            ck.merge(res)
    ck.unit('completers', list(CATALOG))
    ck.unit('mistakes', [t for _, t, _, _ in ATTR + SUB + SUPER] + [t for _, t, _ in BAD])
    return ck.finish()
