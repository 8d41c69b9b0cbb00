"""C11: definition text never becomes shell code unless it is meant to be.

For every place of a definition that takes plain text, the scripts are derived once
with a harmless text and once with texts of special characters, and compared word by
word (sa/skeleton.py)."""

import ast

from ..check import Check, pmap, ROOT
from ..gen import *
from ..scripts import emit, completers, PREFIX
from ..shellcode import Unparsed
from ..skeleton import Compare, Differ

RULES = {
    'text': 'a plain text of the definition stands in the script as quoted text: it starts no expansion, command, pattern or operator, and '
            'ends no quoted string, at any level at which the script is read',
    'generated': 'texts of special characters do not stop the generation',
}
L = None
# the letters of all texts are the same, so that identifiers made of them are
BENIGN = 'z\u00e9\u00e9q\u00e9r'
TEXTS = {
    'single quote': "z$q'r", 'double quote': 'z"$q;r', 'backtick': 'z`q`r', 'both quotes': 'z\'"$qr', 'backslash and quotes': "z\\'q\"r",
    'substitution': 'z$(q)r', 'operators': 'z;q&r|', 'parentheses': 'z(q)<r>', 'brackets': 'z[q]r', 'braces': 'z{q,r}', 'glob': 'z*q?r!^',
    'tilde': '~zqr', 'equals': '=zqr', 'hash': '#zq r', 'newline': 'z\nq#r', 'colon': 'z:q:r', 'backslash': 'z\\qr', 'percent': 'z%sq%r', 'spaces': 'z q r',
    'directive': '%zqr%'}
QUICK = {
    'single quote': "z$q'r;|&", 'double quote': 'z"`q`$(r)<>', 'all quotes': 'z\\\'q"$r', 'glob': '?z[q]{r,}*', 'equals': '=zq(r)', 'tilde': '~zq#r',
    'newline': 'z\nq#r', 'colon': 'z:q:r', 'backslash': 'z\\q%sr'}
THOROUGH = False

AFTER = ['choices', ['x', 'y']]


def opt(inv, strings=('--opt',), **kw):
    return (list(strings), dict(complete=inv, **kw))


def sites():
    """{name: (completer or attribute, hole -> Tree)}"""
    out = {}

    def add(name, kind, f):
        out[name] = (kind, f)

    def comp(name, inv, kind=None):
        """A completer in the places where completers can be."""
        kind = kind or inv('x')[0]

        def add(name, kind, f):
            if THOROUGH or name.rsplit(': ', 1)[1] in ('option', 'positional', 'key_value_list'):
                out[name] = (kind, f)
        add('%s: option' % name, kind, lambda t: simple(options=[opt(inv(t))]))
        add('%s: optional argument' % name, kind, lambda t: simple(options=[opt(inv(t), optional_arg=True)]))
        add('%s: positional' % name, kind, lambda t: simple(positionals=[(1, dict(complete=inv(t)))]))

        def sub(t):
            r = simple()
            r.subs = [simple(options=[opt(inv(t), ('-o',))], prog='sub')]
            return r
        add('%s: subcommand' % name, kind, sub)
        if kind in ('list', 'file_list', 'directory_list', 'value_list', 'key_value_list', 'key_value_pair', 'prefix', 'combine'):
            pass
        else:
            add('%s: list' % name, kind, lambda t: simple(options=[opt(['list', inv(t)])]))
        add('%s: prefix' % name, kind, lambda t: simple(options=[opt(['prefix', 'pp', inv(t)])]))
        if kind not in ('combine',):
            add('%s: combine' % name, kind, lambda t: simple(options=[opt(['combine', [inv(t), ['user']]])]))
        if kind not in ('key_value_list', 'key_value_pair'):
            add('%s: key_value_list' % name, kind, lambda t: simple(options=[opt(['key_value_list', ',', '=', [['kk', 'dd', inv(t)]]])]))
            add('%s: key_value_pair' % name, kind, lambda t: simple(options=[opt(['key_value_pair', '=', [['kk', 'dd', inv(t)]]])]))
    comp('choice', lambda t: ['choices', [t, 'x']])
    comp('described choice', lambda t: ['choices', {t: 'dd', 'x': 'ee'}])
    comp('description of a choice', lambda t: ['choices', {'x': t, 'y': 'ee'}])
    comp('choice of many', lambda t: ['choices', [t] + ['choice%d' % i for i in range(12)]])
    comp('described choice of many', lambda t: ['choices', dict([(t, 'dd')] + [('choice%d' % i, 'description') for i in range(8)])])
    comp('description of many', lambda t: ['choices', dict([('x', t)] + [('choice%d' % i, 'description') for i in range(8)])])
    comp('prefix', lambda t: ['prefix', t, AFTER])
    comp('path', lambda t: ['command', {'path': t}])
    comp('appended path', lambda t: ['command', {'path_append': t}])
    comp('prepended path', lambda t: ['command', {'path_prepend': t}])
    comp('date format', lambda t: ['date', t])
    comp('directory of directories', lambda t: ['directory', {'directory': '/' + t}])
    comp('directory of files', lambda t: ['file', {'directory': '/' + t}])
    comp('directory of files with extensions', lambda t: ['file', {'directory': '/' + t, 'extensions': ['png']}])
    comp('directory of a list', lambda t: ['directory_list', {'directory': '/' + t}])
    comp('history pattern', lambda t: ['history', t])
    comp('mime pattern', lambda t: ['mime_file', t])
    comp('suffix', lambda t: ['integer', {'suffixes': {t: 'dd'}}])
    comp('description of a suffix', lambda t: ['integer', {'suffixes': {'x': t}}])
    comp('help of a number', lambda t: ['integer', {'help': t}])
    comp('float suffix', lambda t: ['float', {'suffixes': {t: 'dd'}, 'min': 1, 'help': 'hh'}])
    comp('value', lambda t: ['value_list', {'values': [t, 'x']}])
    comp('described value', lambda t: ['value_list', {'values': {t: 'dd', 'x': 'ee'}}])
    comp('description of a value', lambda t: ['value_list', {'values': {'x': t, 'y': 'ee'}}])
    comp('value with duplicates', lambda t: ['value_list', {'values': {t: 'dd', 'x': 'ee'}, 'duplicates': True}])
    comp('key', lambda t: ['key_value_list', '@', '+', [[t, 'dd', AFTER], ['x', 'ee', ['none']], ['y', None, None]]])
    comp('key without value', lambda t: ['key_value_list', '@', '+', [[t, 'dd', None], ['x', 'ee', AFTER]]])
    comp('key with empty value', lambda t: ['key_value_list', '@', '+', [[t, 'dd', ['none']], ['x', 'ee', AFTER]]])
    comp('description of a key', lambda t: ['key_value_list', '@', '+', [['x', t, AFTER], ['y', None, None]]])
    comp('excluded key', lambda t: ['key_value_list', '@', '+', [['x', 'dd', AFTER, [t]], [t, None, None]]])
    comp('key with condition', lambda t: ['key_value_list', '@', '+', [[t, 'dd', AFTER], ['x', None, None]], 'condfunc'])
    comp('key of a pair', lambda t: ['key_value_pair', '+', [[t, 'dd', AFTER], ['x', None, None]]])
    comp('key of a pair with condition', lambda t: ['key_value_pair', '+', [[t, 'dd', AFTER], ['x', None, None]], 'condfunc'])
    comp('description of a key of a pair', lambda t: ['key_value_pair', '+', [['x', t, AFTER], ['y', None, None]]])
    comp('extension', lambda t: ['file', {'extensions': [t, 'png']}])

    def attr(name, kind, **kw):
        add(name, kind, lambda t: simple(options=[opt(['choices', ['x', 'y']], ('--opt', '-o'), **{k: t for k in kw}), (['--flag'], {})]))
    for a in ('help', 'metavar'):
        attr('option ' + a, a, **{a: 1})
        add('flag ' + a, a, lambda t, a=a: simple(options=[(['-f', '--flag'], {a: t})]))
        add('%s of an option with a function' % a, a, lambda t, a=a: simple(options=[opt(['choices', ['choice number %d' % i for i in range(12)]], **{a: t})]))
        add('%s of an option with described choices' % a, a, lambda t, a=a: simple(options=[opt(['choices', {'x:y': 'dd', 'z': 'ee'}], **{a: t})]))
        add('%s of an option with keys' % a, a, lambda t, a=a: simple(options=[opt(['key_value_list', ',', '=', [['k', 'd', AFTER]]], **{a: t})]))
        add('%s of an option with a pair' % a, a, lambda t, a=a: simple(options=[opt(['key_value_pair', '=', [['k', 'd', AFTER]]], **{a: t})]))
        add('%s of an option with values' % a, a, lambda t, a=a: simple(options=[opt(['value_list', {'values': ['k', 'd']}], **{a: t})]))
        add('%s of an option with a list' % a, a, lambda t, a=a: simple(options=[opt(['list', AFTER], **{a: t})]))
        add('%s of an option with a number' % a, a, lambda t, a=a: simple(options=[opt(['integer', {'min': 1}], **{a: t})]))
        add('%s of a hidden option' % a, a, lambda t, a=a: simple(options=[opt(AFTER, hidden=True, **{a: t})]))
        add('%s of a conditional option' % a, a, lambda t, a=a: simple(options=[opt(AFTER, when='has_option --foo', **{a: t}), (['--foo'], {})]))
        add('positional ' + a, a, lambda t, a=a: simple(positionals=[(1, {a: t, 'complete': AFTER})]))
        add('%s of a repeatable positional' % a, a, lambda t, a=a: simple(positionals=[(1, {a: t, 'complete': AFTER, 'repeatable': True})]))
        add('%s of a conditional positional' % a, a, lambda t, a=a: simple(options=[(['--foo'], {})], positionals=[(1, {a: t, 'complete': AFTER, 'when': 'has_option --foo'})]))

    def subhelp(t, **kw):
        r = simple()
        r.subs = [simple(prog='sub', **kw), simple(prog='tub')]
        return r
    add('help of a subcommand', 'help', lambda t: subhelp(t, help=t))
    add('help of a subcommand with aliases', 'help', lambda t: subhelp(t, help=t, aliases=['sa']))
    add('help of the program', 'help', lambda t: simple(help=t, options=[(['-f'], {})]))
    add('group', 'groups', lambda t: simple(options=[(['--one'], dict(groups=[t])), (['--two'], dict(groups=[t]))]))
    for s in ('list', 'file_list', 'directory_list', 'value_list'):
        args = dict(list=[AFTER], value_list=[]).get(s, [])
        extra = dict(value_list={'values': ['x', 'y']}).get(s, {})
        for d in (False, True):
            add('separator of %s%s' % (s, ' with duplicates' if d else ''), s,
                lambda t, s=s, a=args, e=extra, d=d: simple(options=[opt([s] + a + [dict(e, separator=t, duplicates=d)])]))
    for where in (False, True):
        def host(inv, where=where):
            return simple(positionals=[(1, dict(complete=inv))]) if where else simple(options=[opt(inv)])
        n = ': positional' if where else ': option'
        kv = [['k', 'd', AFTER], ['x', None, None]]
        add('pair separator' + n, 'key_value_list', lambda t, h=host: h(['key_value_list', t, '=', kv]))
        add('value separator' + n, 'key_value_list', lambda t, h=host: h(['key_value_list', ',', t, kv]))
        add('value separator of a pair' + n, 'key_value_pair', lambda t, h=host: h(['key_value_pair', t, kv]))
        add('pair separator of a command' + n, 'key_value_list_exec', lambda t, h=host: h(['key_value_list_exec', t, '=', 'cmd']))
        add('value separator of a command' + n, 'key_value_list_exec', lambda t, h=host: h(['key_value_list_exec', ',', t, 'cmd']))
        add('value separator of a command for a pair' + n, 'key_value_pair_exec', lambda t, h=host: h(['key_value_pair_exec', t, 'cmd']))

    def when(w, **kw):
        return lambda t: simple(options=[opt(AFTER, ('--foo', '-f')), opt(AFTER, when=w(t))], **kw)
    q = lambda t: "'%s'" % t.replace("'", "'\"'\"'")
    for n, w in {'value of option_is': lambda t: 'option_is --foo -- %s' % q(t), 'values of option_is': lambda t: 'option_is nocase any --foo -- %s x' % q(t),
                 'value of positional_contains': lambda t: 'positional_contains 1 %s' % q(t),
                 'value of positional_contains -i': lambda t: 'positional_contains -i 1 %s x' % q(t),
                 'regex of option_match': lambda t: 'option_match --foo -- %s' % q(t),
                 'regex of option_match nocase': lambda t: 'option_match nocase any --foo -- %s' % q(t)}.items():
        add(n, 'when', when(w))
        add(n + ' of a positional', 'when', lambda t, w=w: simple(options=[opt(AFTER, ('--foo', '-f'))], positionals=[(1, dict(complete=AFTER, when=w(t)))]))
    add('wrapped command', 'wraps', lambda t: simple(options=[opt(AFTER)], wraps=t))
    return out


def where(kind, shell):
    """Source location of the code that is responsible for the completer or attribute."""
    for mod in ('crazy_complete.%s_complete' % shell, 'crazy_complete.%s' % shell):
        for n in ast.walk(L.p.modules.get(mod) or ast.Module([], [])):
            if isinstance(n, ast.FunctionDef) and n.name == kind:
                return L.p.where(n)
    return L.where_of({'bash': 'bash.generate_completion', 'fish': 'fish.generate_completion', 'zsh': 'zsh.generate_completion'}[shell])


SITES = None


def forms(text):
    """How a text may stand in a word that is not read any further."""
    import re
    c = lambda s: s.replace(':', '\\:')
    b = lambda s: re.sub(r'([\[\]])', r'\\\1', s)
    return [text, c(text), b(text), c(b(text)), re.escape(text)]


def run(item):
    name, shell = item
    kind, f = SITES[name]
    out = []
    base = emit(L, shell, f(BENIGN))
    if base.text is None:
        return [('text', '%s in %s' % (name, shell), 'undecided', base.error, '')]
    alts = {}
    for tn, t in (TEXTS if THOROUGH else QUICK).items():
        key = '%s of %s in %s' % (tn, name, shell)
        if kind == 'wraps' and any(c in t for c in ' \n\t') or (kind, shell) == ('command', 'fish') and ':' in t:
            continue            # not allowed; separates directories
        g = emit(L, shell, f(t))
        if g.text is None:
            if g.failed and 'Crazy' in g.error:
                out.append(('generated', key, 'ok', '', ''))      # rejected
            elif g.failed:
                out.append(('generated', key, 'violation', 'the text %r stops the generation: %s' % (t, g.error), where(kind, shell)))
            else:
                out.append(('text', key, 'undecided', g.error, ''))
            continue
        out.append(judge(key, kind, shell, base.text, g.text, t, lambda b: alt(alts, shell, f, b)))
    return out


def alt(alts, shell, f, b):
    if b not in alts:
        alts[b] = emit(L, shell, f(b)).text
    return alts[b]


def judge(key, kind, shell, base, text, t, other, rule='text'):
    why = None
    # some generators choose another form for texts with colons or spaces
    for keep in ('', ':', ' ', ': '):
        if keep and not any(c in t for c in keep):
            continue
        if not keep:
            b, script = BENIGN, base
        else:
            b = ''.join(c if c in keep or c.isalnum() else '\u00e9' for c in t)
            if b == t:
                b = t.replace('q', 'w')
            script = other(b)
            if script is None:
                continue
        try:
            cmp = Compare(shell, b, t, forms(t))
            cmp.code(script, text)
            return (rule, key, 'ok', '', '')
        except Differ as e:
            why = why or ('violation', str(e))
        except Unparsed as e:
            why = why or ('undecided', str(e))
    if why[0] == 'undecided':
        return (rule, key, 'undecided', why[1], '')
    return (rule, key, 'violation', 'the text %r of the definition is not (only) text in the script: %s' % (t, why[1]), where(kind, shell))


def main():
    global L, SITES, THOROUGH
    ck = Check('C11', 'Definition text never becomes shell code', RULES, floor=500, assumptions=[
        'a text is harmless if its special characters are literal at every level at which the script is read; that the quoting functions are right for '
        'all texts is C12',
        'texts that end in a backslash are not used: the spec formats of zsh cannot express them'])
    L = Lab(ROOT)
    THOROUGH = ck.tier == 'thorough'
    SITES = sites()
    items = [(n, s) for n in SITES for s in SHELLS]
    for it, res, err in pmap(run, items):
        if err:
            ck.unknown('text', '%s in %s' % it, err)
        else:
            ck.merge(res)
    ck.unit('places of a definition', SITES)
    ck.unit('texts', TEXTS if THOROUGH else QUICK)
    return ck.finish()
