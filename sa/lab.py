"""Building abstract definitions and driving the repository's entry points
inside the abstract interpreter."""

import ast

from . import strings as S
from .strings import lit
from .engine import *
from .interp import Interp


class Lab:
    def __init__(self, root='/repo', **kw):
        self.p = Program(root)
        self.extend_program()
        self.I = Interp(self.p, **kw)
        self.prepare()
        self.base = self.I.load_all()
        self.I.escaped.clear()
        self.n = 0

    def extend_program(self):
        pass

    def prepare(self):
        pass

    def state(self):
        return self.base.fork()

    def node(self, tag='driver'):
        """A fresh pseudo call site."""
        n = ast.Call(func=ast.Name(id='driver'), args=[], keywords=[])
        n.mod = '<driver>'
        n.lineno = 0
        self._keep = getattr(self, '_keep', [])
        self._keep.append(n)
        return n

    def sym(self, dotted):
        v = self.I.resolve(self.base, 'crazy_complete.' + dotted)
        if not v:
            raise AnalysisBroken('anchor not found: ' + dotted)
        return v

    def where_of(self, dotted, meth=None):
        """file:line of a function or method (for reports)."""
        try:
            v = self.sym(dotted)
            (a,) = v
            f = a[1]
            if meth is not None:
                m, _ = f.lookup(meth)
                (b,) = m
                f = b[1]
            return self.p.where(f.node)
        except (AnalysisBroken, ValueError, AttributeError, TypeError):
            return 'crazy_complete/%s.py' % dotted.split('.')[0]

    def call(self, st, fv, *args, **kw):
        if isinstance(fv, str):
            fv = self.sym(fv)
        return self.I.call(fv, list(args), dict(kw), st, self.node())

    def meth(self, st, obj, name, *args, **kw):
        return self.I.call_method(obj, name, list(args), dict(kw), st, self.node())

    def attr(self, st, obj, name):
        return self.I.get_attr(obj, name, st, self.node())

    def val(self, st, x):
        """Concrete python value -> abstract value (frozenset passes through)."""
        if isinstance(x, frozenset):
            return x
        if isinstance(x, S.S):
            return string(x)
        if isinstance(x, list):
            return self.I.new_list(st, self.node(), [(self.val(st, e), 1) for e in x])
        if isinstance(x, tuple):
            return V(('tup', tuple(self.val(st, e) for e in x)))
        if isinstance(x, dict):
            d = {}
            for k, v in x.items():
                (ka,) = self.val(st, k)
                d[ka] = (self.val(st, v), True)
            return self.I.new_dict(st, self.node(), d)
        if isinstance(x, set):
            return self.I.new_set(st, self.node(), [(next(iter(self.val(st, e))), True) for e in sorted(x)])
        return const(x)

    # ---------------------------------------------------------- definitions

    def frame(self):
        """Context with a collector so that exceptions are visible."""
        return Collect(self.I)

    def cmdline(self, st, prog='prog', parent=None, **kw):
        kw = {k: self.val(st, v) for k, v in kw.items()}
        if parent is not None:
            kw['parent'] = parent
        return self.call(st, 'cli.CommandLine', self.val(st, prog), **kw)

    def option(self, st, c, option_strings, **kw):
        return self.meth(st, c, 'add_option', self.val(st, option_strings),
                         **{k: self.val(st, v) for k, v in kw.items()})

    def positional(self, st, c, number, **kw):
        return self.meth(st, c, 'add_positional', const(number),
                         **{k: self.val(st, v) for k, v in kw.items()})

    def subcommands(self, st, c):
        return self.meth(st, c, 'add_subcommands')

    def subcommand(self, st, subs, name, help='', **kw):
        """add_commandline and set the remaining attributes."""
        c = self.meth(st, subs, 'add_commandline', self.val(st, name), help=self.val(st, help))
        for k, v in kw.items():
            self.I.write_attr(c, k, self.val(st, v), st, self.node())
        return c

    def config(self, st, **kw):
        c = self.call(st, 'config.Config')
        for k, v in kw.items():
            self.meth(st, c, k, *[self.val(st, x) for x in (v if isinstance(v, tuple) else (v,))])
        return c

    def generate(self, st, shell, c, config=None):
        if config is None:
            config = self.config(st)
        return self.call(st, shell + '.generate_completion', c, config)


class Collect:
    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.col = {}
        self.saved = self.I.collectors
        self.I.collectors = [self.col]
        return self

    def __exit__(self, *a):
        self.I.collectors = self.saved

    def excs(self):
        return list(self.col.values())


def show_v(v, n=400):
    out = []
    for a in v:
        out.append(S.show(a[1], n) if a[0] == 's' else repr(a))
    return ' || '.join(out)
