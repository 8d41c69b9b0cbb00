"""C25: importing an argparse parser keeps what argparse declares.

Parsers are declared in virtual Python files (with symbolic texts); loading such
a file and the conversion are interpreted abstractly and every attribute of the
resulting definition is compared with the declaration."""

import itertools

from ..check import Check, pmap, ROOT
from ..engine import *
from ..defs import W1
from .. import strings as S
from ..world import World
from .c02 import parts

RULES = {
    'option-strings': 'an option has the option strings of its action, in order, and the actions keep their order',
    'help': 'the help text of the action or parser, none for SUPPRESS',
    'metavar': 'the metavar of an action that takes arguments, or else its destination',
    'arity': 'an option takes an optional argument exactly if nargs is `?`, none if the action takes none; a positional is repeatable '
             'exactly if it takes several arguments',
    'choices': 'choices and ranges become the completer with exactly these values',
    'group': 'two options are in a common group exactly if argparse declares them mutually exclusive',
    'subparser': 'every subparser becomes a command with its name, help and aliases, in order',
    'extension': 'complete(), when(), set_repeatable(), set_final(), alias(), aliases() and remove_help() take effect',
    'final-hidden': 'help and version are final, other actions only if declared; an option is hidden exactly if its help is SUPPRESS',
    'position': 'positionals are numbered in the order of their declaration',
    'loads': 'the parser is converted without an error',
}
L = None
FILE = 'crazy_complete/argparse_source.py'
SUP = 'argparse.SUPPRESS'


def sym(label):
    return S.encode(W1(label))


class Raw(str):
    """An expression of the source."""


def src(x):
    if isinstance(x, Raw):
        return str(x)
    if isinstance(x, (list, tuple)):
        a, b = ('[', ']') if isinstance(x, list) else ('(', ',)' if len(x) == 1 else ')')
        return a + ', '.join(src(e) for e in x) + b
    if isinstance(x, dict):
        return '{' + ', '.join('%s: %s' % (src(k), src(v)) for k, v in x.items()) + '}'
    return repr(x)


NO_ARG = {'store_true', 'store_false', 'store_const', 'append_const', 'count', 'help', 'version'}
DEFAULT = object()


class Decl:
    """One add_argument call."""

    def __init__(self, *strings, ext=(), group=None, arggroup=False, **kw):
        self.strings, self.kw, self.ext, self.group, self.arggroup = list(strings), kw, list(ext), group, arggroup

    @property
    def positional(self):
        return not self.strings or not self.strings[0].startswith('-')

    def source(self, parser, n):
        on = parser if self.group is None else '%s_g%s' % (parser, self.group)
        args = [src(s) for s in self.strings] + ['%s=%s' % (k, src(v)) for k, v in self.kw.items()]
        out = ['%s_a%d = %s.add_argument(%s)' % (parser, n, on, ', '.join(args))]
        for m, a in self.ext:
            out.append('%s_a%d.%s(%s)' % (parser, n, m, ', '.join(src(x) for x in a)))
        return out

    # ---- what the definition has to be

    def dest(self):
        if 'dest' in self.kw:
            return self.kw['dest']
        if self.positional:
            return self.strings[0]
        s = next((s for s in self.strings if s.startswith('--')), self.strings[0])
        return s.lstrip('-').replace('-', '_')

    def takes_arg(self):
        return self.kw.get('action') not in NO_ARG

    def extension(self, name):
        for m, a in self.ext:
            if m == name:
                return a
        return None


class Parser:
    def __init__(self, decls=(), subs=(), ext=(), prog='prog', nogroup=(), **kw):
        self.decls, self.subs, self.ext, self.prog, self.kw = list(decls), list(subs), list(ext), prog, kw

    def groups(self):
        return sorted({d.group for d in self.decls if d.group is not None})

    def body(self, name):
        out = []
        for m, a in self.ext:
            if m == 'remove_help':
                out.append('%s.remove_help()' % name)
        for g in self.groups():
            out.append('%s_g%s = %s.add_mutually_exclusive_group()' % (name, g, name))
        done = False
        for i, d in enumerate(self.decls):
            out += d.source(name, i)
        if self.subs:
            out.append('%s_s = %s.add_subparsers()' % (name, name))
            for i, s in enumerate(self.subs):
                args = [src(s.prog)] + ['%s=%s' % (k, src(v)) for k, v in s.kw.items()]
                out.append('%s_s%d = %s_s.add_parser(%s)' % (name, i, name, ', '.join(args)))
                out += s.body('%s_s%d' % (name, i))
        for m, a in self.ext:
            if m != 'remove_help':
                out.append('%s.%s(%s)' % (name, m, ', '.join(src(x) for x in a)))
        return out

    def source(self):
        kw = ['%s=%s' % (k, src(v)) for k, v in self.kw.items()]
        return '\n'.join(['import argparse', 'import crazy_complete.argparse_mod',
                          'parser = argparse.ArgumentParser(%s)' % ', '.join(['prog=' + src(self.prog)] + kw)] + self.body('parser')) + '\n'


# ------------------------------------------------------------------ comparing

class Reader:
    def __init__(self, st):
        self.st = st

    def py(self, v):
        """Python value of an abstract value, or Unknown."""
        if v is None or len(v) != 1:
            return Unknown
        (a,) = v
        ok, c = const_of(v)
        if a[0] == 's':
            t = S.encode(a[1])
            return Unknown if t is None else t
        if ok:
            return c
        if a[0] == 'tup':
            return [self.py(x) for x in a[1]]
        if a[0] == 'o':
            o = self.st.heap[a[1]]
            if o.kind == 'list':
                if any(m != 1 for e, m in o.data):
                    return Unknown
                return [self.py(e) for e, m in o.data]
            if o.kind == 'dict':
                if not all(p for x, p in o.data.values()):
                    return Unknown
                return {self.py(V(k)): self.py(x) for k, (x, p) in o.data.items()}
        if v == NONE:
            return None
        if v == INHERIT_V:
            return 'INHERIT'
        return Unknown

    def known(self, x):
        if x is Unknown:
            return False
        if isinstance(x, list):
            return all(self.known(e) for e in x)
        if isinstance(x, dict):
            return all(self.known(k) and self.known(e) for k, e in x.items())
        return True


class _U:
    def __repr__(self):
        return 'unknown'


Unknown = _U()
INHERIT_V = None


def compare(p, path, got, out, key, name, root=True):
    """got: command as a dictionary of python values; p: declaration."""
    def is_(rule, what, have, want, where=FILE):
        k = '%s: %s' % (key, what)
        if not R.known(have):
            out.append((rule, k, 'undecided', '%s of %s is not derived' % (what, name), ''))
        elif want(have) if callable(want) else have == want:
            out.append((rule, k, 'ok', '', ''))
        else:
            out.append((rule, k, 'violation', '%s of %s is %r%s' % (what, name, have, '' if callable(want) else ', declared was %r' % (want,)), where))

    R = got['$reader']
    # the command itself
    is_('subparser', 'name', got['prog'], p.prog)
    h = p.kw.get('description') if root else None
    if not root:
        h = p.kw.get('help')
        if h in (None, '') or h == SUP and isinstance(h, Raw):
            h = None
        h = h or p.kw.get('description')
    if not root and isinstance(p.kw.get('help'), Raw):
        is_('help', 'help of command', got['help'], lambda x: x is None or x == p.kw.get('description'))
    else:
        is_('help', 'help of command', got['help'], h)
    aliases = list(p.kw.get('aliases', ()))
    for m, a in p.ext:
        if m == 'alias':
            aliases.append(a[0])
        elif m == 'aliases':
            aliases += list(a[0])
    is_('extension' if p.ext else 'subparser', 'aliases', got['aliases'], lambda x: sorted(x) == sorted(aliases) if isinstance(x, list) else False)
    # options
    want = [d for d in p.decls if not d.positional]
    helpd = Decl('-h', '--help', action='help', help='show this help message and exit')
    if p.kw.get('add_help', True) and not any(m == 'remove_help' for m, a in p.ext):
        want = [helpd] + want
    have = got['options']
    if have is Unknown:
        out.append(('option-strings', key, 'undecided', 'options not derived', ''))
        return
    is_('option-strings', 'option strings', [o['option_strings'] for o in have], [d.strings for d in want])
    byname = {tuple(o['option_strings']) if isinstance(o['option_strings'], list) else None: o for o in have}
    for d in want:
        o = byname.get(tuple(d.strings))
        if o is None:
            continue
        n = '/'.join(d.strings)
        w = lambda what: '%s (%s)' % (what, d.kw.get('action', 'store'))
        sup = isinstance(d.kw.get('help'), Raw)
        is_('help', w('help of option'), o['help'], None if sup else d.kw.get('help'))
        is_('final-hidden', w('hidden'), o['hidden'], lambda x: bool(x) is sup if isinstance(x, bool) else False)
        fin = d.kw.get('action') in ('help', 'version')
        e = d.extension('set_final')
        if e is not None:
            fin = fin or (e[0] if e else True)
        is_('extension' if e is not None else 'final-hidden', w('final'), o['final'], fin)
        rep = d.extension('set_repeatable')
        is_('extension', w('repeatable'), o['repeatable'], 'INHERIT' if rep is None else (rep[0] if rep else True))
        when = d.extension('when')
        is_('extension', w('when'), o['when'], None if when is None else when[0])
        takes = d.takes_arg()
        is_('arity', w('completer of an action without arguments') if not takes else w('completer'), o['complete'],
            (lambda x: x is not None) if takes else None)
        nargs = d.kw.get('nargs')
        if nargs != '*':
            is_('arity', w('optional_arg with nargs=%r' % (nargs,)), o['optional_arg'], nargs == '?')
        mv = d.kw.get('metavar')
        if isinstance(mv, tuple):
            mv = ' '.join(mv)
        is_('metavar', w('metavar'), o['metavar'], (mv or d.dest()) if takes else (lambda x: True))
        if takes:
            completer(d, o['complete'], is_, w)
    # groups
    gs = {}
    for d in want:
        o = byname.get(tuple(d.strings))
        if o is not None:
            gs[tuple(d.strings)] = (d.group, o['groups'])
    for (a, (ga, ha)), (b, (gb, hb)) in itertools.combinations(gs.items(), 2):
        if not (R.known(ha) and R.known(hb)):
            out.append(('group', key, 'undecided', 'groups not derived', ''))
            continue
        common = bool(set(ha or ()) & set(hb or ()))
        declared = ga is not None and ga == gb
        is_('group', 'exclusion', common, declared)
    # positionals
    want = [d for d in p.decls if d.positional]
    have = got['positionals']
    if have is Unknown:
        out.append(('position', key, 'undecided', 'positionals not derived', ''))
        return
    is_('position', 'numbers', [o['number'] for o in have], list(range(1, len(want) + 1)))
    for d, o in zip(want, have):
        sup = isinstance(d.kw.get('help'), Raw)
        is_('help', 'help of positional', o['help'], None if sup else d.kw.get('help'))
        mv = d.kw.get('metavar')
        if isinstance(mv, tuple):
            mv = ' '.join(mv)
        is_('metavar', 'metavar of positional', o['metavar'], mv or d.dest())
        nargs = d.kw.get('nargs')
        rep = d.extension('set_repeatable')
        if rep is not None:
            is_('extension', 'repeatable of positional', o['repeatable'], rep[0] if rep else True)
        else:
            is_('arity', 'repeatable of positional with nargs=%r' % (nargs,), o['repeatable'], nargs not in (None, 1, '?'))
        when = d.extension('when')
        is_('extension', 'when of positional', o['when'], None if when is None else when[0])
        completer(d, o['complete'], is_, lambda s: s + ' of positional')
    # subcommands
    have = got['subs']
    if have is Unknown:
        out.append(('subparser', key, 'undecided', 'subcommands not derived', ''))
        return
    is_('subparser', 'names of commands', [c['prog'] for c in have], [s.prog for s in p.subs])
    for s, c in zip(p.subs, have):
        compare(s, path + (s.prog,), c, out, key, '%s %s' % (name, s.prog), False)


def completer(d, have, is_, w):
    c = d.extension('complete')
    if c is not None:
        is_('extension', w('complete()'), have, [list(x) if isinstance(x, (list, tuple)) else x for x in c])
        return
    ch = d.kw.get('choices')
    if ch is None:
        is_('choices', w('completer without choices'), have, ['none'])
        return
    kind, values = d.choice

    def same(x):
        if not isinstance(x, list) or not x:
            return False
        if x[0] == 'range':
            try:
                a, b = int(x[1]), int(x[2])
                step = int(x[3]) if len(x) > 3 else 1
                return [str(i) for i in range(a, b + (1 if step > 0 else -1), step)] == [str(v) for v in values]
            except (ValueError, TypeError, IndexError):
                return False
        if x[0] != 'choices' or len(x) != 2:
            return False
        items = list(x[1])
        if kind == 'set':
            return sorted(map(str, items)) == sorted(map(str, values))
        return list(map(str, items)) == list(map(str, values))
    is_('choices', w('choices (%s)' % kind), have, same)


def with_choice(d, kind, values):
    d.choice = (kind, values)
    return d


# ------------------------------------------------------------------ scenarios

def choices():
    a, b, c = sym('ca'), sym('cb'), sym('cc')
    yield 'list', [a, b, c], [a, b, c]
    yield 'tuple', (a, b, c), [a, b, c]
    yield 'one', [a], [a]
    yield 'set', Raw('{%r, %r}' % (a, b)), [a, b]
    yield 'frozenset', Raw('frozenset([%r, %r])' % (a, b)), [a, b]
    yield 'dict', {a: b, b: c}, [a, b]
    yield 'dict of objects', Raw('{%r: [1], %r: None}' % (a, b)), [a, b]
    yield 'string', 'xyz', ['x', 'y', 'z']
    yield 'keys', Raw('{%r: 1, %r: 2}.keys()' % (a, b)), [a, b]
    yield 'numbers', [1, 2, 30], [1, 2, 30]
    yield 'floats', [1.5, 2.5], ['1.5', '2.5']
    yield 'range', Raw('range(5)'), list(range(5))
    yield 'range from', Raw('range(3, 9)'), list(range(3, 9))
    yield 'range step', Raw('range(0, 10, 2)'), list(range(0, 10, 2))
    yield 'range uneven', Raw('range(1, 10, 4)'), list(range(1, 10, 4))
    yield 'range down', Raw('range(5, 0, -1)'), list(range(5, 0, -1))
    yield 'range one', Raw('range(7, 8)'), [7]
    yield 'list with spaces', ['a b', "c'd", 'e:f', ''], ['a b', "c'd", 'e:f', '']


ACTIONS = {None: {}, 'store': {}, 'append': {}, 'extend': {}, 'store_true': {}, 'store_false': {}, 'store_const': dict(const=1),
           'append_const': dict(const=1, dest='dd'), 'count': {}, 'help': {}, 'version': dict(version='1')}


def act(a):
    k = dict(ACTIONS[a])
    if a is not None:
        k['action'] = a
    return k


def scenarios(tier):
    """(key, Parser)"""
    H = lambda n: sym('h' + n)
    for a in ACTIONS:
        takes = a not in NO_ARG
        n = a or 'default'
        for hn, h in (('help', {'help': H('o')}), ('no help', {}), ('suppressed', {'help': Raw(SUP)}), ('empty help', {'help': ''})):
            for sn, strings in (('long', ['--opt']), ('short', ['-o']), ('old', ['-opt']), ('several', ['-o', '--opt-name', '-old', '--other'])):
                if sn != 'several' and hn not in ('help', 'suppressed'):
                    continue
                yield 'action %s, %s, %s' % (n, sn, hn), Parser([Decl(*strings, **act(a), **h)])
        for en, e in (('set_final', [('set_final', ())]), ('set_final off', [('set_final', (False,))]), ('set_repeatable', [('set_repeatable', ())]),
                      ('set_repeatable off', [('set_repeatable', (False,))]), ('when', [('when', ('has_option --x',))]),
                      ('all', [('set_final', ()), ('set_repeatable', ()), ('when', ('has_option --x',))])):
            yield 'action %s, %s' % (n, en), Parser([Decl('--opt', ext=e, **act(a)), Decl('--x', action='store_true')])
        if takes:
            yield 'action %s, metavar' % n, Parser([Decl('-o', '--opt', metavar=sym('mv'), **act(a))])
            yield 'action %s, dest' % n, Parser([Decl('-o', '--opt', dest='other', **act(a))])
            yield 'action %s, dest and metavar' % n, Parser([Decl('-o', dest='other', metavar=sym('mv'), **act(a))])
            yield 'action %s, required, default, type' % n, Parser([Decl('--opt', required=True, default=3, type=Raw('int'), **act(a))])
            for nargs in ('?', '*', '+', 1, 2, 3, Raw('argparse.REMAINDER')):
                yield 'action %s, nargs %s' % (n, nargs), Parser([Decl('--opt', nargs=nargs, metavar=sym('mv'), **act(a))])
            yield 'action %s, tuple metavar' % n, Parser([Decl('--opt', nargs=2, metavar=('A', 'B'), **act(a))])
            yield 'action %s, complete()' % n, Parser([Decl('--opt', ext=[('complete', ('file',))], **act(a))])
            yield 'action %s, complete() with arguments' % n, Parser([Decl('--opt', ext=[('complete', ('choices', [sym('x'), sym('y')]))], **act(a))])
            yield 'action %s, complete() over choices' % n, Parser([Decl('--opt', choices=['z'], ext=[('complete', ('directory', {'directory': '/tmp'}))], **act(a))])
            for nargs in ('?', '*', '+', 1, 2):
                # every other keyword of the same declaration: none of them changes what nargs says
                for kn, kw in (('choices', {'choices': ['x', 'y']}), ('default', {'default': sym('df')}), ('const', {'const': sym('ct')} if nargs == '?' else {}),
                               ('type', {'type': Raw('int')}), ('dest', {'dest': 'other'}), ('help', {'help': H('n')}), ('suppressed', {'help': Raw(SUP)}),
                               ('required', {'required': True}), ('several', {'choices': ['x', 'y'], 'default': 'x', 'required': True, 'help': H('n')})):
                    if kw and n == 'default':
                        yield 'action %s, nargs %s, %s' % (n, nargs, kn), Parser([Decl('--opt', nargs=nargs, **act(a), **kw)])
                if n == 'default':
                    for en, e in (('complete', ('complete', ('user',))), ('set_final', ('set_final', ())), ('set_repeatable', ('set_repeatable', ())), ('when', ('when', ('has_option --x',)))):
                        yield 'action %s, nargs %s, %s()' % (n, nargs, en), Parser([Decl('--opt', nargs=nargs, ext=[e]), Decl('--x', action='store_true')])
            for cn, c, vals in choices():
                yield 'action %s, choices %s' % (n, cn), Parser([with_choice(Decl('--opt', choices=c, **act(a)), 'set' if 'set' in cn else cn, vals)])
    for nargs in (None, '?', '*', '+', 1, 2, 5, Raw('argparse.REMAINDER')):
        kw = {} if nargs is None else dict(nargs=nargs)
        for hn, h in (('help', {'help': H('p')}), ('no help', {}), ('suppressed', {'help': Raw(SUP)})):
            yield 'positional nargs %s, %s' % (nargs, hn), Parser([Decl('pos', **kw, **h)])
        yield 'positional nargs %s, metavar' % nargs, Parser([Decl('pos', metavar=sym('mv'), **kw)])
        for kn, kw2 in (('choices', {'choices': ['x', 'y']}), ('default', {'default': sym('df')}), ('type', {'type': Raw('int')}),
                        ('several', {'choices': ['x', 'y'], 'default': 'x', 'help': H('n')})):
            if kn in ('choices', 'type') or nargs in ('?', '*'):
                yield 'positional nargs %s, %s' % (nargs, kn), Parser([Decl('pos', **kw, **kw2)])
        for r in (True, False):
            yield 'positional nargs %s, set_repeatable(%s)' % (nargs, r), Parser([Decl('pos', ext=[('set_repeatable', (r,))], **kw)])
        yield 'positional nargs %s, complete and when' % nargs, Parser([Decl('pos', ext=[('complete', ('user',)), ('when', ('has_option --x',))], **kw),
                                                                        Decl('--x', action='store_true')])
    yield 'positional set_repeatable', Parser([Decl('pos', ext=[('set_repeatable', ())])])
    yield 'positional tuple metavar', Parser([Decl('pos', nargs=2, metavar=('A', 'B'))])
    for cn, c, vals in choices():
        yield 'positional choices %s' % cn, Parser([with_choice(Decl('pos', choices=c), 'set' if 'set' in cn else cn, vals)])
    yield 'several positionals', Parser([Decl('a', help=H('1')), Decl('--x'), Decl('b', nargs='?', help=H('2')), Decl('c', nargs='*', metavar=sym('m3'))])
    # parsers
    yield 'description', Parser(description=H('d'))
    yield 'no description', Parser([Decl('--x')])
    yield 'no help option', Parser([Decl('--x')], add_help=False)
    yield 'remove_help', Parser([Decl('--x'), Decl('y')], ext=[('remove_help', ())])
    yield 'alias', Parser([Decl('--x')], ext=[('alias', (sym('al'),))])
    yield 'aliases', Parser([Decl('--x')], ext=[('aliases', ([sym('al'), sym('am')],))])
    yield 'program name', Parser(prog=sym('pn'))
    # groups
    f = lambda s, g=None: Decl(s, action='store_true', group=g)
    yield 'group', Parser([f('--a', 1), f('--b', 1), f('--c')])
    yield 'two groups', Parser([f('--a', 1), f('--c', 2), f('--b', 1), f('--d', 2), f('--e')])
    yield 'three groups', Parser([f('--a', 1), f('--b', 1), f('--c', 2), f('--d', 2), f('--e', 3), f('--f', 3), f('--g')])
    yield 'group of options with arguments', Parser([Decl('-a', '--aa', group=1), Decl('--b', '-b', group=1, choices=['x'])])
    yield 'group with positional', Parser([f('--a', 1), f('--b', 1), Decl('pos', nargs='?', group=1)])
    yield 'group of three', Parser([Decl('-a', '-A', action='store_true', group=1), f('-b', 1), f('-c', 1), f('-d')])
    # subparsers
    sub = lambda p, d=(), s=(), **kw: Parser(d, s, prog=p, **kw)
    yield 'subparsers', Parser([f('--g')], [sub('one', [f('--x')], help=H('1')), sub('two', [Decl('pos')], help=H('2')), sub('three')])
    yield 'subparser without help', Parser([], [sub('one'), sub('two', help=H('2'))])
    yield 'subparser with description', Parser([], [sub('one', description=H('d')), sub('two', help=H('2'), description=H('e'))])
    yield 'subparser suppressed', Parser([], [sub('one', help=Raw(SUP)), sub('two', help=H('2'))])
    yield 'subparser aliases', Parser([], [sub('one', help=H('1'), aliases=['o1', 'o2']), sub('two', help=H('2')), sub('three', aliases=('t3',))])
    yield 'subparser aliases and alias()', Parser([], [sub('one', help=H('1'), aliases=['o1'], ext=[('aliases', (['o2', 'o3'],))]),
                                                       sub('two', help=H('2'), ext=[('alias', ('t2',))])])
    yield 'nested subparsers', Parser([f('--g')], [sub('one', [f('--x')], [sub('deep', [f('--y'), Decl('pos', nargs='+')], help=H('d'), aliases=['dp'])], help=H('1')),
                                                  sub('two', [], [sub('deep', [f('--z')], help=H('e')), sub('other', help=H('f'))])])
    yield 'groups in subparsers', Parser([f('--a', 1), f('--b', 1)], [sub('one', [f('--c', 1), f('--d', 1), f('--e')])])
    yield 'positional in front of subparsers', Parser([Decl('pos')], [sub('one', [Decl('p2'), Decl('p3')])])
    yield 'everything', Parser([Decl('-o', '--opt', help=H('1'), metavar=sym('m'), choices=['a'], group=1, ext=[('set_repeatable', ())]),
                                Decl('-v', '--verbose', action='count', help=Raw(SUP), group=1), Decl('--version', action='version', version='1', help=H('2')),
                                Decl('-f', nargs='?', help=H('3'), ext=[('complete', ('file',)), ('when', ('has_option --opt',)), ('set_final', ())]),
                                Decl('pos', help=H('4'), nargs='?', ext=[('complete', ('user',))])],
                               [sub('one', [Decl('--x', help=H('5'))], help=H('6'), aliases=['uno'])], description=H('7'))


def fix_choices(p):
    """Literal lists of choices describe themselves."""
    for d in p.decls:
        if isinstance(d.kw.get('choices'), list) and not hasattr(d, 'choice'):
            d.choice = ('list', d.kw['choices'])
    for s in p.subs:
        fix_choices(s)


def read(st, v, R):
    """A command as python values."""
    (a,) = v
    o = st.heap[a[1]]

    def attrs(x):
        return {n: R.py(y) for n, y in x.data.items() if not n.startswith('$') and n not in ('parent', 'options', 'positionals', 'subcommands')}
    out = attrs(o)
    out['$reader'] = R

    def items(v):
        if len(v) != 1:
            return Unknown
        (a,) = v
        h = st.heap.get(a[1]) if a[0] == 'o' else None
        if h is None or h.kind != 'list' or any(m != 1 for e, m in h.data):
            return Unknown
        return [e for e, m in h.data]
    for n in ('options', 'positionals'):
        l = items(o.data[n])
        out[n] = l if l is Unknown else [attrs(st.heap[next(iter(x))[1]]) for x in l]
    s = o.data['subcommands']
    if s == NONE:
        out['subs'] = []
    elif len(s) != 1:
        out['subs'] = Unknown
    else:
        (a,) = s
        l = items(st.heap[a[1]].data['subcommands'])
        out['subs'] = l if l is Unknown else [read(st, x, R) for x in l]
    return out


def run(item):
    key, = item
    p = SCEN[key]
    fix_choices(p)
    text = p.source()
    L.reset({'parser.py': text})
    st = L.state()
    L.I.ext_values['sys.path'] = L.val(st, ['/usr/lib/python'])
    with L.frame() as fr:
        try:
            v = L.call(st, 'argparse_source.load_from_file', L.val(st, 'parser.py'))
        except Bottom:
            v = None
    ex = L.exceptions(fr)
    must = v is None or not v
    if must:
        return [('loads', key, 'violation', '%s: %s' % (key, ex or 'no result'), FILE)]
    if ex:
        return [('loads', key, 'undecided', str(ex), '')]
    if len(v) != 1:
        return [('loads', key, 'undecided', 'the result is not derived', '')]
    out = [('loads', key, 'ok', '', '')]
    try:
        got = read(st, v, Reader(st))
    except (KeyError, ValueError, TypeError) as e:
        return [('loads', key, 'undecided', 'the result is not understood: %r' % e, '')]
    compare(p, (), got, out, key, 'prog')
    # merge keys so that the construct named is the rule broken, not the scenario
    return out


SCEN = {}


def main():
    global L, INHERIT_V
    ck = Check('C25', 'Importing an argparse parser keeps what argparse declares', RULES, floor=300, assumptions=[
        'argparse itself is represented by a stand-in with its data model (sa/stubs/argparse.py), interpreted like the program',
        'an option that takes any number of arguments (nargs="*") may or may not count as one with an optional argument'])
    L = World(ROOT)
    L.I.max_steps = 3_000_000
    INHERIT_V = L.sym('cli.INHERIT') if False else None
    try:
        INHERIT_V = L.sym('cli.INHERIT')
    except Exception:
        pass
    SCEN.update(scenarios(ck.tier))
    for it, res, err in pmap(run, [(k,) for k in SCEN]):
        if err:
            ck.unknown('loads', it[0], err)
        else:
            ck.merge(res)
    ck.unit('parsers', SCEN)
    return ck.finish()
