"""Generation of scripts by the abstract interpreter."""

from . import strings as S
from .defs import *
from .lab import *

SHELLS = ('bash', 'fish', 'zsh')


class Gen:
    """Outcome of an abstract generation."""

    def __init__(self, value, excs, may, st, error=''):
        self.value, self.excs, self.may, self.st, self.error = value, excs, may, st, error

    @property
    def node(self):
        """The string grammar, if there is one."""
        ss = [a[1] for a in self.value or () if a[0] == 's']
        if not ss or len(ss) != len(self.value):
            return None
        return S.alt(ss)

    @property
    def text(self):
        """Encoded text when the output is one string made of literals and words."""
        n = self.node
        return None if n is None else S.encode(n)


def messages(L, fr, n=300):
    out = []
    for e in fr.excs():
        s = []
        for a in e[0]:
            if a[0] == 'o':
                o = e[1].heap[a[1]]
                s.append('%s(%s)' % (getattr(o.cls, 'name', '?'),
                                     show(o.data.get('message', o.data.get('args', BOT)), 120)))
            else:
                s.append(str(a[1]))
        out.append('%s at %s' % ('|'.join(s), L.p.where(e[2])))
    return '; '.join(out)[:n]


def generate(L, shell, tree, config=None, st=None, mutate=None):
    """Abstract generate_completion of the definition Tree."""
    st = st or L.state()
    with L.frame() as fr:
        try:
            root = build(L, st, tree)
            cfg = L.config(st, **(config or {}))
            if mutate:
                mutate(st, root, cfg)
            v = L.generate(st, shell, root, cfg)
        except Bottom:
            return Gen(None, fr.excs(), False, st, messages(L, fr))
    return Gen(v, fr.excs(), bool(fr.excs()), st, messages(L, fr))


def simple(options=(), positionals=(), prog='prog', **kw):
    """A command with options [(strings, attrs)] and positionals [(number, attrs)]."""
    t = Tree('CommandLine', dict(prog=prog, **kw), path='r')
    for i, (s, a) in enumerate(options):
        t.options.append(Tree('Option', dict(option_strings=list(s), **a), path='o%d' % i))
    for i, (n, a) in enumerate(positionals):
        t.positionals.append(Tree('Positional', dict(number=n, **a), path='p%d' % i))
    return t


def with_completer(c, inv, where='option', attrs=None):
    """A definition that uses the completer invocation."""
    attrs = attrs or {}
    if c.name == 'command_arg':
        return simple(positionals=[(1, dict(complete=['command'])), (2, dict(complete=inv, repeatable=True, **attrs))])
    if where == 'option':
        return simple(options=[(['--opt'], dict(complete=inv, **attrs))])
    if where == 'positional':
        return simple(positionals=[(1, dict(complete=inv, **attrs))])
    t = simple()
    t.subs = [simple(options=[(['--opt'], dict(complete=inv, **attrs))], prog='sub')]
    return t


def rich(depth=2, path='r', name='prog', **cmdattrs):
    """A valid definition that uses every attribute.  Names are literal, the
    other texts are unknown letters."""
    w = lambda l: W1(path + '.' + l)
    h = lambda l: cat(w(l), ' ', w(l + "'"))
    t = Tree('CommandLine', dict(prog=name, help=h('help'), **cmdattrs), path=path)
    if path != 'r':
        t.attrs['aliases'] = [name + 'al', name + 'bl']
    else:
        t.attrs['wraps'] = 'wrapped'
    O = lambda s, **a: t.options.append(Tree('Option', dict(option_strings=s, **a), path='%s.o%d' % (path, len(t.options))))
    P = lambda n, **a: t.positionals.append(Tree('Positional', dict(number=n, **a), path='%s.p%d' % (path, n)))
    n = name
    O(['--%s-plain' % n, '-a'], help=h('ahelp'))
    O(['--%s-choice' % n, '-b'], help=h('bhelp'), metavar=w('bm'), complete=['choices', [w('b1'), w('b2')]],
      when='option_is --%s-capt -- x' % n)
    O(['--%s-capt' % n], metavar='F', complete=['none'], optional_arg=True, capture='CAP_' + n)
    O(['--%s-final' % n, '-F'], final=True, help=h('fhelp'))
    O(['--%s-hidden' % n, '-H'], hidden=True, complete=['directory'])
    O(['--%s-group1' % n, '-1'], groups=['g'])
    O(['--%s-group2' % n, '-2'], groups=['g'], repeatable=True, nosort=True, help=h('ghelp'),
      complete=['file', {'directory': cat('/', w('dir')), 'extensions': ['png', 'jpg']}])
    O(['--%s-list' % n], complete=['list', ['choices', {w('k1'): w('d1'), w('k2'): w('d2')}], {'separator': ':'}],
      long_opt_arg_sep='equals')
    O(['-old-%s' % n, '--%s-kv' % n], repeatable=False, complete=[
        'key_value_list', ',', '=', [[w('kv1'), h('kvd'), ['choices', [w('kvv')]]], [w('kv2'), None, None]]])
    P(1, metavar=w('p1'), help=h('p1h'), complete=['choices', [w('c1'), w('c2')]],
      when='has_option --%s-capt' % n, nosort=True)
    if depth > 1:
        t.subs = [rich(1, path + 'x', name + 'x'), rich(depth - 1, path + 'y', name + 'y')]
    else:
        P(2, repeatable=True, metavar=w('p2'), help=h('p2h'), complete=['file_list', {'duplicates': True}],
          capture='PP_' + n)
    return t
